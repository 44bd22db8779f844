"""C02: execution order follows the scattering (or the lexicographic order of the domains)."""
from vlib import explore, family_cases
import fam

RULE = ("every program of the families, AST and printed C executed for every parameter vector: dates given by the scattering must "
        "never decrease along the trace; without scattering the instances of a statement run in lexicographic order and statements "
        "are interleaved in lexicographic order of the iterators they share; non-trivial: distinct execution-trace hashes")


def run(rep, thorough):
    d = 1 if thorough else 0
    F = list(fam.FAMILIES)
    explore(rep, "scattered programs", family_cases(F, d, ["", "-strides 1", "-noscalars", "-noblocks", "-noblocks -noscalars", "-l 4", "-f 2", "-f -1"], 1, order=2, only_scat=True))
    explore(rep, "scattered programs, C text", family_cases(F, d, ["", "-strides 1"], 2, order=2, only_scat=True))
    explore(rep, "unscattered programs", family_cases(F, d, [""], 3, order=2, only_scat=False))
    explore(rep, "larger families", family_cases(list(fam.EXTRA), d, ["", "-strides 1", "-noscalars -noblocks"], 1, order=2))
    explore(rep, "larger families, C text", family_cases(list(fam.EXTRA), d, [""], 2, order=2))
    return rep.finish("model_checking", RULE)
