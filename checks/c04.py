"""C04: options that only change the presentation never change what is executed."""
import itertools
from vlib import explore, family_cases
import fam

RULE = ("every program of the families under the whole product otl x esp x fsp x block (x strides); AST and printed C executed for every "
        "parameter vector and compared with the declared instances and their order; non-trivial: distinct execution-trace hashes")


def run(rep, thorough):
    F = list(fam.FAMILIES)
    v = ["-otl %d -esp %d -fsp %d -block %d" % x for x in itertools.product((0, 1), (0, 1), (1, 2), (0, 1))]
    explore(rep, "otl x esp x fsp x block, ast", family_cases(F, 1 if thorough else 0, v, 1, order=1), chunk=12)
    w = ["-otl %d -esp %d -block %d" % x for x in itertools.product((0, 1), (0, 1), (0, 1))]
    explore(rep, "C text", family_cases(F, 1 if thorough else 0, w, 2, order=1), chunk=12)
    explore(rep, "with strides", family_cases(F, 0, [x + " -strides 1" for x in w] + (["-fsp 3", "-fsp 3 -esp 0 -strides 1", "-fsp 4 -esp 1"]), 3 if thorough else 1, order=1), chunk=12)
    H = list(fam.EXTRA) if thorough else ["lattice", "eqs", "guards"]
    explore(rep, "larger families", family_cases(H, 0, ["-otl 0 -esp 0", "-otl 0 -esp 1 -block 1", "-esp 0 -fsp 2", "-otl 0 -strides 1"], 3, order=1), chunk=12)
    return rep.finish("model_checking", RULE)
