"""C19: integers of any size are exact."""
from vlib import explore, family_cases
import engine as E
import fam, forms

RULE = ("every program of the families with constants, coefficients, strides, distances and dates around 2^31, 2^32, 2^63, 2^64 and beyond, plus the ordinary families with every constraint scaled by 10^20 and "
        "2^64: AST, C and Fortran text executed in 128-bit arithmetic for every parameter vector and compared with the declared instances; also through the matrix, set and dump "
        "routes; non-trivial: distinct execution-trace hashes")


def run(rep, thorough):
    B = ["big", "bigc"]
    d = 1
    explore(rep, "AST, C and Fortran: C", family_cases(B, d, ["", "-strides 1", "-sh 1", "-noblocks", "-noscalars", "-esp 0", "-esp 0 -block 1", "-l 2"], 3, order=1))
    explore(rep, "Fortran", family_cases(B, d, ["", "-strides 1", "-esp 0"], 4, order=1))
    for r in (1, 2, 3, 4, 6):
        explore(rep, "construction route %d" % r, family_cases(B, d, [""], 1, order=1, extra=dict(kind="api", a1=r)))
    explore(rep, "matrices", [E.Case(0, "0 0 0\n", dict(kind="set", tmo=60), [""], "misc")])
    for k in (10 ** 20, 2 ** 64, 2 ** 32 + 1, 10 ** 150 + 7):
        F = ["pairs", "2dp1", "strided", "union", "context"] if not thorough else [f for f in fam.FAMILIES if f not in B]
        cs = family_cases(F, 0, ["", "-strides 1"], 1 if thorough else 3, order=1)
        for c in cs:
            p = forms.parse(c.text)
            c.text = forms.emit(p) + "\x01" + forms.emit(p, rows=forms.scale(k))
        explore(rep, "scaled by %d" % k, cs)
    return rep.finish("model_checking", RULE)
