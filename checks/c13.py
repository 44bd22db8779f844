"""C13: stopping at a level yields exactly the outer loops."""
from vlib import explore, family_cases
import fam

RULE = ("every program of the families x every stop level 0..6: the AST is executed for every parameter vector; each statement must be called for every prefix of its "
        "instances cut at the level (unscattered: exactly once and in order; statements not cut: exactly at their instances), and no loop nest may be deeper than "
        "the level; non-trivial: distinct execution-trace hashes")


def run(rep, thorough):
    F = [f for f in fam.FAMILIES if not f.startswith("big")]
    K = dict(kind="stop", a1=1)
    explore(rep, "unscattered", family_cases(F, 0, ["-stop %d" % s for s in range(5)], 1, order=1, extra=K, only_scat=False))
    explore(rep, "unscattered, options", family_cases(F, 0, ["-stop 1 -strides 1", "-stop 1 -otl 0", "-stop 2 -esp 0 -block 1", "-stop 2 -strides 1"], 1, order=1, extra=K, only_scat=False))
    explore(rep, "scattered", family_cases(F, 0, ["-noscalars -stop %d" % s for s in range(7)], 1, order=1, extra=K, only_scat=True))
    explore(rep, "scattered, scalars kept apart", family_cases(F, 0, ["-stop %d" % s for s in range(7)], 1, order=1, extra=K, only_scat=True))
    explore(rep, "exact", family_cases(["many", "tile"], 0, ["-noscalars -noblocks -stop %d" % s for s in range(1, 7)], 1, order=1, extra=dict(kind="stop", a1=0), only_scat=True))
    if thorough:
        explore(rep, "deeper, unscattered", family_cases(F, 1, ["-stop %d" % s for s in range(5)], 1, order=1, extra=K, only_scat=False))
        explore(rep, "deeper, scattered", family_cases(F, 1, ["-noscalars -stop %d" % s for s in range(7)], 1, order=1, extra=K, only_scat=True))
    return rep.finish("model_checking", RULE)
