"""C09: no memory error, no undefined operation, no leak, in any generation."""
from vlib import explore, family_cases
import engine as E
import fam
from checks import c16

RULE = ("every program of the families x option vectors, read, generated, turned into an AST, printed as C and as Fortran, and freed, with the library compiled with AddressSanitizer, LeakSanitizer and "
        "UndefinedBehaviorSanitizer; every generation also checks that the allocation counters of the state balance; likewise for saved domains, stop levels, names and user pointers, filters, annotations and "
        "each construction route; states count generations, transitions the library calls; non-trivial: distinct texts")


def other(c, t):
    """not a matter of memory: another property's concern"""
    return not ("COUNTERS" in t[:20] or "ERROR:" in t or "runtime error" in t or "signal" in t and "HANG" not in t[:12])


def run(rep, thorough):
    F = list(fam.FAMILIES)
    P = dict(plo=1, phi=1)
    M = dict(P, mem=1)
    A = dict(variant="asan", chunk=48, classify=other)
    T = thorough
    explore(rep, "default, C", family_cases(F, 0, [""], 3, extra=M), **A)
    explore(rep, "default, Fortran", family_cases(F, 0, [""] if not T else ["", "-strides 1", "-block 1", "-otl 0 -strides 1", "-esp 0 -block 1"], 5, extra=M), **A)
    V = ["-strides 1 -f -1", "-l 2 -f 2 -sh 1", "-otl 0 -block 1 -esp 0 -noscalars -noblocks", "-first-unroll 1"]
    W = V + ["-strides 1", "-f -1", "-otl 0 -block 1", "-noscalars", "-noblocks -esp 0", "-f 2 -l 3 -strides 1", "-stop 1", "-sh 1 -strides 1 -f -1", "-l 2", "-first-unroll 2 -strides 1", "-esp 0 -block 1", "-compilable 1", "-callable 1"]
    S = F if T else [f for f in F if f not in ("line", "poly3")]
    explore(rep, "options", family_cases(S, 0, W if T else V, 3, extra=M), **A)
    G = ["2dp1", "union", "mod", "depths"] if not T else [f for f in F if not f.startswith("big")]
    for k, o, at in (("dom", ["", "-f -1"], {}), ("stop", ["-noscalars -stop 1", "-noscalars -stop 2"], dict(a1=1)), ("ident", [""], dict(a1=5, a2=7)), ("ident", [""], dict(a1=2, a2=0, lang=1)),
                     ("filter", ["-block 1 -otl 0"], {}), ("api", [""], dict(a1=1)), ("api", [""], dict(a1=2)), ("api", [""], dict(a1=3, a2=1)),
                     ("api", [""], dict(a1=4)), ("api", [""], dict(a1=6, a2=1))):
        explore(rep, "%s %s" % (k, " ".join("%s=%d" % x for x in at.items())), family_cases(G, 0, o, 1, order=0, extra=dict(P, kind=k, **at)), **A)
    explore(rep, "annotations", family_cases(["2dp1"] if not T else ["2dp1", "pairs", "tile"], 0, [""], 1, order=0, extra=dict(P, kind="par")), **A)
    # the domain operations
    explore(rep, "matrices and cubes", [E.Case(0, "0 0 0\n", dict(kind="set", tmo=60), [""], "misc")], **dict(A, chunk=2))
    for nm, nd, np_, sets, at in (("1-D sets", 1, 0, c16.sets_1d(T), dict(R=8)), ("1-D sets, a parameter", 1, 1, c16.par_1d(T)[::1 if T else 2], dict(bnd=0, R=8)),
                                  ("2-D sets with divisions", 2, 0, c16.div_2d(T)[::1 if T else 3], dict(R=3))):
        explore(rep, nm, c16.cases(nd, np_, sets, deep=31, **at), **dict(A, chunk=2))
    x = c16.scats(1, 1, 1, T)
    explore(rep, "scatterings", c16.cases(2, 1, x[::1 if T else 2], ns=1, bnd=0, R=2, plo=-1, phi=1), **dict(A, chunk=2))
    if T:
        explore(rep, "deeper", family_cases(F, 1, ["", "-strides 1", "-f -1 -sh 1 -strides 1"], 7, extra=M), **A)
    return rep.finish("model_checking", RULE)
