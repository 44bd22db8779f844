"""C12: domains saved in the result are true of the execution."""
from vlib import explore, family_cases
import fam

RULE = ("every program of the families with saved domains; the AST is executed for every parameter vector, and the scattering and iteration vector of each executed "
        "instance must lie in the domain attached to each enclosing loop and to the call (all integer points of each domain are enumerated); for the families without "
        "divisions the attached domain must contain nothing else; non-trivial: distinct execution-trace hashes")
V = ["", "-noblocks", "-noscalars -noblocks", "-f -1", "-l 2 -strides 1", "-sh 1 -f 2", "-strides 1"]
X = dict(kind="dom", a1=1, a2=1)


def unit(text):
    """no coefficient but -1, 0, 1"""
    for l in text.split("\n"):
        w = l.split()
        if len(w) >= 4 and all(x.lstrip("-").isdigit() for x in w) and any(abs(int(x)) > 1 for x in w[1:-1]):
            return False
    return True


def unit_cases(fams, d, opts):
    cs = [c for c in family_cases(fams, d, opts, 1, order=0, extra=X, only_scat=True) if unit(c.text)]
    for i, c in enumerate(cs):
        c.id = i
    return cs


def run(rep, thorough):
    F = [f for f in fam.FAMILIES if not f.startswith("big")]
    explore(rep, "containment", family_cases(F, 0, V, 1, order=0, extra=dict(kind="dom")))
    explore(rep, "equality", family_cases(["depths", "many", "tile"], 0, ["", "-noblocks", "-strides 1"], 1, order=0, extra=dict(kind="dom", a1=1, a2=1), only_scat=True))
    explore(rep, "equality, unit coefficients", unit_cases(["2dp1", "scat2", "wide"], 0, ["", "-noblocks", "-noscalars -noblocks"]))
    explore(rep, "equality, strided loops", family_cases(["2dp1", "empty"], 0, ["-strides 1", "-strides 1 -noblocks"], 1, order=0, extra=X, only_scat=True))
    explore(rep, "loop equality, inner strides", family_cases(["inner1"], 0, ["-strides 1", "-strides 1 -noblocks"], 1, order=0, extra=dict(X, a1=0), only_scat=True))
    if thorough:
        explore(rep, "containment, deeper", family_cases(F, 1, V, 1, order=0, extra=dict(kind="dom")))
    return rep.finish("model_checking", RULE)
