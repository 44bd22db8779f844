"""C17: loop queries on the result are complete and exact."""
from vlib import explore, family_cases
import fam

RULE = ("every result of the families x option vectors that put guards, blocks, assignments and loops everywhere x every node as starting point x every iterator name or none x "
        "every subset of the statements or none x both filter types: the lists returned by clast_filter are compared with an independent traversal; non-trivial: distinct "
        "programs")
V = ["", "-block 1 -otl 0", "-esp 0 -block 1", "-strides 1", "-f -1", "-otl 0 -esp 0 -block 1"]


def run(rep, thorough):
    F = [f for f in fam.FAMILIES if not f.startswith("big") and (thorough or f not in ("line",))]
    explore(rep, "filters", family_cases(F, 0, V, 1, order=0, extra=dict(kind="filter")))
    if thorough:
        explore(rep, "filters, deeper", family_cases(F, 1, V[:3], 1, order=0, extra=dict(kind="filter")))
    return rep.finish("model_checking", RULE)
