"""C01: the generated loops execute exactly the declared instances (default options)."""
from vlib import explore, family_cases
import fam

RULE = ("every program of the finite families in fam.py is generated with the default options; the AST and the printed C are "
        "executed for every parameter vector of the box inside the context and compared, instance by instance, with the explicit "
        "enumeration of the declared domains; non-trivial: distinct execution-trace hashes")


def run(rep, thorough):
    d = 1 if thorough else 0
    F = list(fam.FAMILIES)
    explore(rep, "all families, ast+C", family_cases(F, d, [""], 3, order=0))
    explore(rep, "larger families, ast+C", family_cases(list(fam.EXTRA), 0, [""], 3, order=0))
    explore(rep, "all families, deeper", family_cases(F + list(fam.EXTRA), 1, [""], 1, order=0))
    if thorough:
        explore(rep, "wider parameter box", family_cases([f for f in F if not f.startswith("big")], 0, [""], 1, order=0, extra=dict(plo=-6, phi=9)))
    return rep.finish("model_checking", RULE)
