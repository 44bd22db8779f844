"""C16: the set operations agree with explicit sets of integer points."""
import itertools
from vlib import explore
import engine as E

RULE = ("every set of the enumerated shapes: all unary operations on it; every ordered pair: all binary operations, comparisons and the unary operations on the results; triples: sorting; "
        "each result and, afterwards, each operand compared with explicit integer points in a box; states count point memberships decided, transitions library calls; non-trivial: distinct result sets")


def row(eq, it, dv, par, c):
    return [eq] + list(it) + list(dv) + list(par) + [c]


def bset(rows, ndiv=0):
    return (ndiv, rows)


def fmt(nd, np_, sets):
    o = ["%d %d %d" % (nd, np_, len(sets))]
    for s in sets:
        o.append(str(len(s)))
        for ndiv, rows in s:
            o.append("%d %d" % (len(rows), ndiv))
            for r in rows:
                assert len(r) == 2 + nd + ndiv + np_, (nd, np_, ndiv, r)
                o.append(" ".join(map(str, r)))
    return "\n".join(o) + "\n"


# -- shapes ------------------------------------------------------------------
def iv(a, b, c=1, d=1):
    """c i >= a, d i <= b"""
    return bset([row(1, [c], [], [], -a), row(1, [-d], [], [], b)])


def stride1(a, b, m, o):
    return bset([row(1, [1], [0], [], -a), row(1, [-1], [0], [], b), row(0, [1], [-m], [], -o)], 1)


def sets_1d(T):
    s = [[iv(a, b)] for a in (-2, -1, 0, 1) for b in (-2, -1, 0, 2, 3)]
    s += [[iv(a, b, c, d)] for a, b, c, d in ((1, 5, 2, 2), (-3, 4, 2, 3), (1, 1, 2, 1), (-4, -1, 3, 2))]
    s += [[stride1(a, b, m, o)] for a, b in ((-4, 4), (0, 5), (1, 4)) for m, o in ((2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 3))]
    s += [[iv(a, b), iv(c, d)] for a, b, c, d in ((-3, -2, 0, 2), (-1, 2, 2, 3), (0, 0, 2, 2), (-2, 1, 0, 1), (1, 0, 2, 3))]
    s += [[stride1(-4, 4, 2, 0), iv(1, 1)], [stride1(-4, 4, 3, 0), stride1(-4, 4, 3, 1)], [iv(3, 2)], [bset([row(0, [2], [], [], -3)])]]
    s += [[stride1(1, 2, 3, 0)], [iv(2, 4, 3, 3)], [stride1(1, 2, 3, 0), stride1(-1, 0, 4, 1)]]     # no integer point
    if T:
        s += [[iv(a, b), stride1(-4, 4, m, o)] for a in (-2, 0, 1) for b in (0, 2) for m in (2, 3, 4) for o in range(m)]
    return s


def ubounded_1d(T):
    h = [[bset([row(1, [1], [], [], c)])] for c in (-2, 0, 1)] + [[bset([row(1, [-1], [], [], c)])] for c in (-2, 0, 1)]
    h += [[bset([row(0, [1], [-m], [], -o)], 1)] for m, o in ((2, 0), (2, 1), (3, 1))] + [[bset([])]]
    h += [[h[0][0], h[3][0]], [h[1][0], h[6][0]]]
    return h + [[iv(-1, 2)], [iv(0, 0)]]


def par_1d(T):
    """one parameter"""
    r = lambda *x: [list(v) for v in x]
    B = [bset(r((1, 1, 0, 0), (1, -1, 1, 0))), bset(r((1, 1, -1, 0), (1, -1, 0, 3))), bset(r((1, 1, -1, -1), (1, -1, 1, 3))), bset(r((1, 1, 0, 2), (1, -1, 0, 2))),
         bset(r((0, 2, -1, 0))), bset(r((0, 1, -1, 1))), bset(r((1, 2, -1, 0), (1, -1, 0, 3))), bset(r((1, 1, 0, 3), (1, -3, 1, 4))),
         bset(r((0, 1, -2, -1, 0), (1, 1, 0, 0, 3), (1, -1, 0, 0, 3)), 1), bset(r((0, 1, -3, 1, 0), (1, 1, 0, -1, 0), (1, -1, 0, 0, 4)), 1),
         bset(r((1, 1, 0, 1), (1, -1, 0, 1), (1, 0, 1, -1))), bset(r((1, 1, 0, 1), (1, -1, 0, 1), (1, 0, -1, 1))),
         bset(r((1, 1, 1, 0), (1, -1, -1, 2))), bset(r((0, 1, 0, -1), (0, 0, 2, -1)))]
    s = [[b] for b in B]
    P = [(0, 1), (1, 3), (3, 4), (4, 8), (8, 9), (2, 5), (10, 11)] if not T else list(itertools.combinations(range(len(B)), 2))
    return s + [[B[a], B[b]] for a, b in P]


BOX2 = lambda n: [[1, 1, 0, n], [1, -1, 0, n], [1, 0, 1, n], [1, 0, -1, n]]


def sets_2d(T, coefs, tu=False):
    s, seen = [], set()
    for a, b in itertools.product(coefs, coefs):
        if tu and a and b and a * b > 0:
            continue
        for c in ((-1, 0, 1) if not T else (-2, -1, 0, 1, 2)):
            for eq in (1, 0):
                s.append([bset([[eq, a, b, c]] + BOX2(2))])
    return s


def div_2d(T):
    B = lambda n: [[1, 1, 0, 0, n], [1, -1, 0, 0, n], [1, 0, 1, 0, n], [1, 0, -1, 0, n]]
    s = []
    for a, b in itertools.product((0, 1, 2, -1), (1, 2, -1)):
        for m in (2, 3):
            for c in (0, 1):
                s.append([bset([[0, a, b, -m, c]] + B(2), 1)])
                if T:
                    s.append([bset([[1, a, b, -m, c], [1, -a, -b, m, 1 - c]] + B(2), 1)])
    s += [[s[0][0], s[5][0]], [s[3][0], bset(BOX2(1))], [s[7][0], s[8][0]]]
    s.append([bset([[1, -2, 5, -1], [1, 2, -5, 2], [1, 1, 0, 0], [1, -1, 0, 1]])])      # no integer point
    s.append([bset([[0, 1, 1, -3, 0], [1, 1, 1, 0, -1], [1, -1, -1, 0, 2]] + B(2), 1)])
    return s


def par_2d(T):
    s = []
    for a, b in itertools.product((-1, 0, 1, 2), (-1, 0, 1)):
        for p, c in ((1, 0), (-1, 1), (2, 0)):
            for eq in (1, 0):
                s.append([bset([[eq, a, b, p, c]] + [r[:3] + [0] + r[3:] for r in BOX2(2)])])
    return s if T else s[::2]


def unions_2d(T):
    q = sets_2d(False, (-1, 0, 1, 2))
    n = len(q)
    st = 1 if T else 5
    return [[q[i][0], q[(i * 7 + 3) % n][0]] for i in range(0, n, st)] + [[q[i][0], q[(i * 5 + 1) % n][0], q[(i * 11 + 2) % n][0]] for i in range(0, n, 4 * st)]


def scats(ns, ni, npar, T):
    """ns dates of ni iterators: one row per date: d_k = affine, or a bound"""
    W = ns + ni + npar
    cf = [c for c in itertools.product((-1, 0, 1, 2) if T else (0, 1, 2), repeat=ni)]
    out = []
    opts = [(c, k) for c in cf for k in (0, 1, -1)]
    if ns == 1:
        for c, k in opts:
            for pp in ([(0,), (1,)] if npar else [()]):
                out.append([bset([[0, -1] + list(c) + list(pp) + [k]])])
        out.append([bset([[1, 1] + [-x for x in cf[1]] + [0] * npar + [0], [1, -1] + list(cf[1]) + [0] * npar + [1]])])
        out.append([bset([[0, -2] + list(cf[1]) + [0] * npar + [0]])])
    else:
        sel = opts[:: 1 if T else 2]
        for (c, k), (d, m) in itertools.product(sel, sel):
            out.append([bset([[0, -1, 0] + list(c) + [0] * npar + [k], [0, 0, -1] + list(d) + [0] * npar + [m]])])
    return out


def cases(nd, np_, sets, n0=0, step=1, partners=None, **at):
    cs = []
    for i in range(0, len(sets), step):
        P = partners if partners is not None else sets
        cs.append(E.Case(n0 + i, fmt(nd, np_, [sets[i]] + P), dict(kind="set", tmo=60, **at), [""], "sets%dd%dp/%d" % (nd, np_, i)))
    return cs


def run(rep, thorough):
    T = thorough
    A = dict(chunk=2)
    explore(rep, "numbers", [E.Case(0, "0 0 0\n", dict(kind="set", tmo=60), [""], "misc")], **A)
    s = sets_1d(T)
    explore(rep, "1-D, pairs", cases(1, 0, s, deep=31, R=8), **A)
    ints = [x for x in s if len(x) == 1 and x[0][0] == 0 and all(abs(v) <= 1 for r in x[0][1] for v in r[1:2])]
    explore(rep, "1-D intervals, triples", cases(1, 0, ints, deep=31, tu=1, unit=1, tri=2, R=8), **A)
    explore(rep, "1-D unbounded", cases(1, 0, ubounded_1d(T), deep=31, bnd=0, R=8), **A)
    explore(rep, "1-D half-lines", cases(1, 0, [x for x in ubounded_1d(T) if all(not b[0] for b in x)], deep=31, bnd=0, R=8), **A)
    p = par_1d(T)
    explore(rep, "1-D, a parameter", cases(1, 1, p, deep=31, bnd=0, R=8), **A)
    u = sets_2d(T, (-1, 0, 1))
    explore(rep, "2-D unit, pairs and triples", cases(2, 0, u, step=1 if T else 2, deep=31 if T else 18, unit=1, tri=2 if T else 11, R=4), **A)
    t = sets_2d(T, (-1, 0, 1), True)
    explore(rep, "2-D difference constraints", cases(2, 0, t, deep=4, tu=1, unit=1, R=4), **A)
    w = sets_2d(T, (-2, -1, 0, 1, 2)) if not T else sets_2d(T, (-3, -2, -1, 0, 1, 2, 3))
    explore(rep, "2-D, pairs", cases(2, 0, w, step=3 if T else 7, deep=31 if T else 10, R=4), **A)
    d = div_2d(T)
    explore(rep, "2-D divisions, pairs", cases(2, 0, d, deep=31, R=3), **A)
    q = par_2d(T)
    explore(rep, "2-D, a parameter", cases(2, 1, q, deep=31 if T else 2, R=3, plo=-1, phi=2, bnd=0), **A)
    un = unions_2d(T)
    explore(rep, "2-D unions", cases(2, 0, un, deep=10, R=3), **A)
    for ns, ni, npar in ((1, 1, 0), (1, 1, 1), (1, 2, 0), (2, 1, 0)) + (((2, 2, 0), (2, 1, 1)) if T else ()):
        x = scats(ns, ni, npar, T)
        k = max(1, len(x) // (40 if not T else 300))
        explore(rep, "scatterings %d of %d, %d parameters" % (ns, ni, npar),
                cases(ns + ni, npar, x, step=k, partners=x[::max(1, len(x) // 60)], ns=ns, bnd=0, R=4 if ns + ni < 4 else 3, plo=-1, phi=1), **A)
    return rep.finish("model_checking", RULE)
