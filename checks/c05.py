"""C05: the printed C text means what the AST means."""
from vlib import explore, family_cases
import fam

RULE = ("every program of the families, printed as C, parsed by an independent C-subset interpreter with C's truncating division and "
        "remainder, executed for every parameter vector, compared with the declared instances and their order; a part of the same texts also compiled by gcc and executed; non-trivial: distinct "
        "execution-trace hashes")
V = ["", "-strides 1", "-esp 0", "-otl 0 -block 1", "-otl 0 -strides 1", "-esp 0 -strides 1 -block 1"]


def run(rep, thorough):
    F = list(fam.FAMILIES)
    explore(rep, "C text", family_cases(F, 0, V, 2, order=1))
    explore(rep, "C text, deeper", family_cases(F, 1, [""] if not thorough else V, 2, order=2 if not thorough else 1))
    explore(rep, "C text, larger families", family_cases(list(fam.EXTRA), 0, V if thorough else ["-strides 1 -otl 0"], 2, order=1))
    # the same texts under a real compiler
    G = [f for f in F if not f.startswith("big")] if thorough else ["mod", "tile", "context", "depths"]
    explore(rep, "compiled by gcc", family_cases(G, 0, V if thorough else ["", "-strides 1 -esp 0"], 2, order=1, extra=dict(kind="cc", a1=3)))
    if not thorough:
        explore(rep, "compiled by gcc (others)", family_cases(["strided", "union", "many", "poly3", "2dp1"], 0, ["-strides 1"], 2, order=1, extra=dict(kind="cc", a1=3)))
    return rep.finish("model_checking", RULE)
