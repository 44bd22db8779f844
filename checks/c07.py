"""C07: the printed Fortran text means what was asked for."""
from vlib import explore, family_cases
import fam

RULE = ("every program of the families, printed as Fortran, parsed by an independent Fortran-subset interpreter (line continuation, "
        "DO/IF/CALL, MOD, MODULO, FLOOR, CEILING), executed for every parameter vector, compared with the declared instances and their "
        "order; a part of the same texts also compiled by gfortran and executed; non-trivial: distinct execution-trace hashes")
V = ["", "-strides 1", "-esp 0", "-otl 0 -block 1", "-otl 0 -strides 1", "-esp 0 -strides 1 -block 1"]


def run(rep, thorough):
    F = list(fam.FAMILIES)
    explore(rep, "Fortran text", family_cases(F, 0, V, 4, order=1))
    explore(rep, "Fortran text, deeper", family_cases(F, 1, [""] if not thorough else V, 4, order=2 if not thorough else 1))
    # the same texts under a real compiler
    G = [f for f in F if not f.startswith("big")] if thorough else ["tile", "context", "depths"]
    explore(rep, "compiled by gfortran", family_cases(G, 0, V if thorough else ["", "-strides 1 -esp 0"], 4, order=1, extra=dict(kind="cc", a1=4)))
    if not thorough:
        explore(rep, "compiled by gfortran (others)", family_cases(["mod", "strided", "many"], 0, ["-strides 1"], 4, order=1, extra=dict(kind="cc", a1=4)))
    return rep.finish("model_checking", RULE)
