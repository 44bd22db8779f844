"""C11: statements, iterators and parameters keep their identity."""
from vlib import explore, family_cases
import engine as E
import fam, forms

RULE = ("every program of the families with every mixture of named and unnamed statements (bit mask), every choice of given or default names "
        "for parameters, iterators and scattering dimensions, and distinct user pointers per statement; every call of the AST is compared with "
        "the statement it executes an instance of, every name with the given or default one, AST and printed text (C and Fortran) are executed under those "
        "names; non-trivial: distinct execution-trace hashes")


def run(rep, thorough):
    F = [f for f in fam.FAMILIES if not f.startswith("big") and f not in ("line", "poly3")]
    for a2 in range(8):
        f = F if (thorough or a2 in (0, 7)) else ["pairs", "2dp1", "depths"]
        explore(rep, "given names mask %d" % a2, family_cases(f, 0, [""], 1, order=1, extra=dict(kind="ident", a1=5, a2=a2)))
    for a1 in (0, 1, 2, 3, 6, 7):
        explore(rep, "named statements mask %d" % a1, family_cases(F if thorough else ["pairs", "triples", "2dp1", "depths", "many"], 0, ["", "-noblocks"] if thorough else [""], 1,
                                                                 order=1, extra=dict(kind="ident", a1=a1, a2=a1 % 4)))
    explore(rep, "one name for all", family_cases(F, 0, [""], 1, order=1, extra=dict(kind="ident", a1=15, a2=7, a3=1)))
    explore(rep, "Fortran", family_cases(F, 0, [""], 1, order=1, extra=dict(kind="ident", a1=10, a2=5, lang=1)))
    for a2 in (0, 7, 15):
        explore(rep, "many dimensions, names %d" % a2, family_cases(["wide", "bigdim"], 1 if thorough else 0, [""], 1, order=1, extra=dict(kind="ident", a1=5, a2=a2)))
    explore(rep, "long names", family_cases(F, 0, [""], 1, order=1, extra=dict(kind="ident", a1=13, a2=15)))
    cs = family_cases(["pairs", "2dp1", "depths", "wide", "strided"], 0, [""], 3, order=1)
    for c in cs:
        c.text = forms.long_names(c.text)
    explore(rep, "long names in the text", cs)
    explore(rep, "default names", [E.Case(0, fam.prog([(0, [])]), dict(kind="names"), [""], "names")])
    explore(rep, "default names, memory", [E.Case(0, fam.prog([(0, [])]), dict(kind="names", tmo=200), [""], "names")], variant="asan")
    explore(rep, "options", family_cases(["pairs", "2dp1", "union", "many"], 0, ["-f -1", "-l 2 -strides 1", "-otl 0 -block 1", "-esp 0", "-noscalars"], 1,
                                         order=0, extra=dict(kind="ident", a1=6, a2=7)))
    return rep.finish("model_checking", RULE)
