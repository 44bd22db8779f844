"""C03: options steering the generation never change what is executed, nor the dates' order."""
import itertools
from vlib import explore, family_cases
import fam, forms

RULE = ("every program of the families under every listed vector of generation options; AST (and printed C for a part) executed for "
        "every parameter vector and compared with the enumeration of the declared instances and with the dates; non-trivial: distinct "
        "execution-trace hashes")

# options that keep the order of the instances of a statement even without scattering
KEEP = ["-strides 1", "-noscalars", "-noblocks", "-sh 1", "-first-unroll 1", "-first-unroll 2", "-first-unroll 1 -strides 1",
        "-strides 1 -noscalars -noblocks"]


def lf_vectors(thorough):
    L = (-1, 0, 1, 2, 3) if thorough else (-1, 1, 2)
    F = (-1, 0, 1, 2, 3) if thorough else (-1, 1, 2)
    out = []
    for l, f in itertools.product(L, F):
        out.append("-l %d -f %d" % (l, f))
    ex = ["-strides 1", "-sh 1", "-strides 1 -sh 1", "-noblocks", "-noscalars", "-first-unroll 1"] if thorough else ["-strides 1", "-sh 1"]
    for l, f in itertools.product((-1, 2) if not thorough else (-1, 1, 2, 3), (-1, 2) if not thorough else (-1, 1, 2, 3)):
        for e in ex:
            out.append("-l %d -f %d %s" % (l, f, e))
    return out


def nstmt(text):
    return len(forms.parse(text).stmts)


def fs_vectors(n, thorough):
    """first and last depths per statement: every vector over the values for up to two statements, rotations of a pattern beyond"""
    V = (1, 2, 3) if thorough else (1, 2)
    W = (-1, 1, 2, 3) if thorough else (-1, 1, 3)
    if n == 0:
        return []
    if n <= 2:
        fs, ls = list(itertools.product(V, repeat=n)), list(itertools.product(W, repeat=n))
    else:
        fs = [tuple(V[(k * a + r) % len(V)] for k in range(n)) for r in range(len(V)) for a in (0, 1)]
        ls = [tuple(W[(k * a + r) % len(W)] for k in range(n)) for r in range(len(W)) for a in (0, 1)]
    j = lambda v: ",".join(map(str, v))
    out = ["-fs %s -ls %s" % (j(f), j(l)) for f in fs for l in ls]
    # one of the two alone does not count; -f and -l are overridden
    out += ["-fs " + j(fs[-1]), "-ls " + j(ls[-1]), "-f 2 -l 2 -fs %s -ls %s" % (j(fs[0]), j(ls[-1])), "-f -1 -fs %s -ls %s" % (j(fs[-1]), j(ls[-1])), "-strides 1 -sh 1 -fs %s -ls %s" % (j(fs[-1]), j(ls[-1]))]
    return out


def run(rep, thorough):
    F = list(fam.FAMILIES)
    explore(rep, "order-preserving options", family_cases(F, 0, KEEP, 1, order=1))
    # scattered programs keep their dates in order; without scattering nothing is said about the order
    for nm, sc in (("scattered", True), ("unscattered", False)):
        explore(rep, "-l/-f and combinations, " + nm, family_cases(F, 0, lf_vectors(thorough), 1, order=1 if sc else 0, only_scat=sc), chunk=12)
        G = [f for f in F if not f.startswith("big")] if thorough else ["pairs", "triples", "depths", "many", "wide", "2dp1", "scat2"]
        cs = family_cases([f for f in G if f in F], 0, [""], 1, order=1 if sc else 0, only_scat=sc)
        for c in cs:
            c.opts = fs_vectors(nstmt(c.text), thorough)
        explore(rep, "-fs/-ls, " + nm, [c for c in cs if c.opts], chunk=12)
    explore(rep, "C text", family_cases(F, 0, ["-strides 1", "-l 2", "-f -1", "-f -1 -strides 1 -sh 1"], 2, order=0))
    E = ["-strides 1 -sh 1", "-first-unroll 1", "-noscalars -noblocks", "-l 2", "-f -1", "-f 2 -l 2 -strides 1", "-f -1 -sh 1 -strides 1"]
    H = list(fam.EXTRA) if thorough else ["lattice", "eqs", "guards", "unions"]
    explore(rep, "larger families", family_cases(H, 0, E, 1, order=0), chunk=12)
    explore(rep, "larger families, dates", family_cases(H, 0, E, 1, order=1, only_scat=True), chunk=12)
    if thorough:
        explore(rep, "deeper families", family_cases(F, 1, KEEP, 1, order=1))
        explore(rep, "deeper families, merge", family_cases(F, 1, ["-l 2", "-f -1", "-f 2 -l 3 -strides 1", "-f -1 -sh 1 -strides 1"], 1, order=0))
    return rep.finish("model_checking", RULE)
