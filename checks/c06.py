"""C06: stand-alone programs execute the declared instances."""
from vlib import explore, family_cases
import fam, forms

RULE = ("every program of the families printed as a complete C text with -callable 1 (run for every parameter vector) and with -compilable V (V = 3 and -1 where the context allows), "
        "compiled by gcc, loaded, executed through its own entry point; what it reports (hash() calls, printed lines, the count) is compared with the declared instances and their order; "
        "non-trivial: distinct execution-trace hashes")


def shared(text, k):
    """the same program with scattering names some of which are names of iterators too (declared only once)"""
    p = forms.parse(text)
    n = forms.dims(p, "scat", 0, p.scat[0][0])[0]
    it = p.iters
    if not it or n < 2:
        return None
    if k == 0:
        p.scatnames = [it[0]] + ["c%d" % q for q in range(1, n)]
    elif k == 1:
        p.scatnames = ["c%d" % q for q in range(1, n)] + [it[-1]]
    else:
        p.scatnames = [it[q // 2] if q % 2 and q // 2 < len(it) else "c%d" % q for q in range(n)]
    return forms.emit(p)


def shared_cases(fams, k, **extra):
    cs = []
    for c in family_cases(fams, 0, [""], 1, order=1, only_scat=True, extra=extra):
        t = shared(c.text, k)
        if t:
            c.text = t
            cs.append(c)
    return cs


def run(rep, thorough):
    F = [f for f in fam.FAMILIES if not f.startswith("big")]
    Q = F if thorough else [f for f in F if f not in ("line", "poly2", "poly3", "intervals", "scat1")]
    V = ["", "-strides 1", "-otl 0 -block 1", "-esp 0 -strides 1"] if thorough else [""]
    explore(rep, "callable", family_cases(Q, 0, V, 1, order=1, extra=dict(kind="cc", a1=1)))
    explore(rep, "callable, options", family_cases(["depths", "context", "tile", "many"], 0, ["-strides 1", "-otl 0 -block 1", "-esp 0"], 1, order=1, extra=dict(kind="cc", a1=1)))
    R = Q if thorough else ["depths", "context", "tile", "union", "many"]
    explore(rep, "compilable", family_cases(R, 0, V, 1, order=1, extra=dict(kind="cc", a1=2, a2=3, a3=-1)))
    N = ["depths", "tile"] if not thorough else ["depths", "tile", "pairs", "2dp1"]
    for m in (1, 2, 3):
        explore(rep, "callable, named statements %d" % m, family_cases(N, 0, [""], 1, order=1, extra=dict(kind="cc", a1=1, named=m)))
        explore(rep, "compilable, named statements %d" % m, family_cases(N, 0, [""], 1, order=1, extra=dict(kind="cc", a1=2, a2=2, a3=-1, named=m)))
    explore(rep, "both", family_cases(["depths", "empty"] if thorough else ["depths"], 0, [""], 1, order=1, extra=dict(kind="cc", a1=5, a2=2)))
    explore(rep, "compilable, edited PARVALs", family_cases(["context", "wide", "tile"] if not thorough else Q, 0, [""], 1, order=1, extra=dict(kind="cc", a1=2, a2=3, pv=1)))
    for k in (0, 1, 2):
        explore(rep, "callable, shared names %d" % k, shared_cases(["2dp1", "wide"] if not thorough else ["2dp1", "wide", "depths"], k, kind="cc", a1=1))
        explore(rep, "compilable, shared names %d" % k, shared_cases(["depths"] if not thorough else ["2dp1", "wide"], k, kind="cc", a1=2, a2=3))
    return rep.finish("model_checking", RULE)
