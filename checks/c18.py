"""C18: marking loops parallel or vector keeps the iterations."""
from vlib import explore, family_cases
import fam

RULE = ("every result of the families x every loop and each combination of annotation (parallel, vector, timed, user directive) x with and without private and reduction variables: "
        "the printed text, without its directives, is executed for every parameter vector and compared with the declared instances; directives are "
        "matched with the loops they must precede; non-trivial: distinct execution-trace hashes")


def run(rep, thorough):
    F = [f for f in fam.FAMILIES if not f.startswith("big") and (thorough or f not in ("line",))]
    explore(rep, "C", family_cases(F, 0, ["", "-strides 1"], 1, order=1, extra=dict(kind="par")))
    explore(rep, "Fortran", family_cases(F, 0, ["", "-strides 1"], 1, order=1, extra=dict(kind="par", lang=1)))
    if thorough:
        explore(rep, "C, options", family_cases(F, 0, ["-otl 0 -block 1", "-esp 0", "-f -1", "-sh 1"], 1, order=0, extra=dict(kind="par")))
        explore(rep, "C, deeper", family_cases(F, 1, [""], 1, order=1, extra=dict(kind="par")))
    return rep.finish("model_checking", RULE)
