"""C08: every way of describing a program denotes the same program."""
from vlib import explore, family_cases
import fam, forms

RULE = ("every program of the families x every re-writing of its text in forms.py (row order, scaling, sign of equalities, equalities as pairs of inequalities, repeated, redundant and "
        "trivial rows, extended notation, explicit, reordered and repeated unions, comments, blank lines, white space, given or default names) and x every construction route of the "
        "library (matrices, set-library objects, union map, single domain list, dump and re-read, with both generation entry points): the code generated from each is executed for every parameter vector "
        "and compared with the meaning of the original text; non-trivial: distinct execution-trace hashes")
ROUTES = {0: "plain", 1: "matrices", 2: "sets and maps", 3: "union map", 4: "dump and read back", 6: "set"}


def run(rep, thorough):
    F = [f for f in fam.FAMILIES if f not in (() if thorough else ("line",))]
    for nm in forms.FORMS:
        named = nm not in ("same", "rotated rows", "explicit unions")
        # (with default names only as far as the alphabet goes: the rest is C11's)
        cs = family_cases([f for f in F if named or f != "bigdim"], 0, [""], 1, order=1)
        for c in cs:
            c.text = forms.variant(c.text, nm, names=named)
        explore(rep, nm, cs)
    G = [f for f in fam.FAMILIES if not f.startswith("big")]
    for r, nm in ROUTES.items():
        explore(rep, "route: " + nm, family_cases(G, 0, [""], 1, order=1, extra=dict(kind="api", a1=r)))
        explore(rep, "route: " + nm + " (from input)", family_cases(["pairs", "2dp1", "union", "strided", "mod"], 0, [""], 1, order=1, extra=dict(kind="api", a1=r, a2=1)))
    for r in (0, 4):
        cs = family_cases(["wide", "bigdim"] + ([f for f in G if f != "wide"] if thorough else ["pairs", "2dp1", "depths"]), 0, [""], 1, order=1, extra=dict(kind="api", a1=r))
        for c in cs:
            c.text = forms.long_names(c.text)
        explore(rep, "long names: " + ROUTES[r], cs)
    if thorough:
        for nm in forms.FORMS:
            cs = family_cases([f for f in F if f not in ("line",)], 1, [""], 1, order=1)
            for c in cs:
                c.text = forms.variant(c.text, nm)
            explore(rep, nm + ", deeper", cs)
    return rep.finish("model_checking", RULE)
