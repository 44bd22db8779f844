"""Finite families of CLooG programs, enumerated exhaustively.

A program is built from affine rows written as text ("2*i <= N-1"); `prog`
turns it into CLooG input text.  Every family below is a deterministic
generator over the complete product of its axes."""
import itertools, re
from functools import lru_cache

TOK = re.compile(r"\s*(?:(\d+)|([A-Za-z_]\w*)|(<=|>=|=|[-+*]))")


@lru_cache(maxsize=None)
def lin(expr):
    """affine expression -> (dict name->coef, const)"""
    co, cst, pos, sign = {}, 0, 0, 1
    expr = expr.strip()
    while pos < len(expr):
        m = TOK.match(expr, pos)
        if not m:
            raise ValueError(expr)
        pos = m.end()
        if m.group(3) in ("+", "-"):
            if m.group(3) == "-":
                sign = -sign
            continue
        if m.group(1):
            k = int(m.group(1))
            m2 = re.compile(r"\s*\*\s*([A-Za-z_]\w*)").match(expr, pos)
            if m2:
                co[m2.group(1)] = co.get(m2.group(1), 0) + sign * k
                pos = m2.end()
            else:
                cst += sign * k
        elif m.group(2):
            co[m.group(2)] = co.get(m.group(2), 0) + sign
        sign = 1
    return co, cst


@lru_cache(maxsize=None)
def row(c, vars_):
    """one constraint -> list of ints [type, coefs..., const]"""
    m = re.match(r"(.*?)(<=|>=|=)(.*)$", c)
    (a, ca), (b, cb) = lin(m.group(1)), lin(m.group(3))
    op = m.group(2)
    if op == "<=":
        (a, ca), (b, cb) = (b, cb), (a, ca)
    out = [0 if op == "=" else 1]
    for v in vars_:
        out.append(a.get(v, 0) - b.get(v, 0))
    for v in list(a) + list(b):
        if v not in vars_:
            raise ValueError("unknown %s in %s" % (v, c))
    out.append(ca - cb)
    return " ".join(map(str, out))


def vars_of(cons):
    s = set()
    for c in cons:
        s |= set(re.findall(r"[A-Za-z_]\w*", c))
    return s


def bset(cons, out, inn, par, ext=False):
    cons = [c for c in cons if c]
    divs = tuple(sorted(v for v in vars_of(cons) if v not in out and v not in inn and v not in par))
    allv = tuple(out) + tuple(inn) + divs + tuple(par)
    rows = [row(c, allv) for c in cons]
    if divs or ext:
        h = "%d %d %d %d %d %d" % (len(rows), len(allv) + 2, len(out), len(inn), len(divs), len(par))
    else:
        h = "%d %d" % (len(rows), len(allv) + 2)
    return h + "\n" + "".join(r + "\n" for r in rows)


def uset(u, out, inn, par):
    if len(u) == 1:
        return bset(u[0], out, inn, par)
    # all members of a union use the same notation
    ext = any(vars_of(b) - set(out) - set(inn) - set(par) for b in u)
    return "%d\n" % len(u) + "".join(bset(b, out, inn, par, ext) for b in u)


ITERS = ("i", "j", "k", "l", "m", "n", "o", "p")


def prog(stmts, scat=None, par=(), ctx=(), names=True, lang="c", iters=ITERS, ctxu=None):
    """stmts: list of (dim, union) where union = [[constraint,...],...] or [constraint,...]
    scat: list (per statement) of list of scattering rows over s1..sn, or list of
    affine expressions (c_k = expr)"""
    par = tuple(par)
    t = [lang + "\n"]
    if ctxu is None:
        cv = tuple(sorted(v for v in vars_of(ctx) if v not in par))
        if cv:
            allv = cv + par
            rows = [row(c, allv) for c in ctx]
            t.append("%d %d 0 0 %d %d\n" % (len(rows), len(allv) + 2, len(cv), len(par)) + "".join(r + "\n" for r in rows))
        else:
            t.append(bset(ctx, (), (), par) if not ctx else
                     "%d %d\n" % (len(ctx), len(par) + 2) + "".join(row(c, par) + "\n" for c in ctx))
            if not ctx:
                t[-1] = "0 %d\n" % (len(par) + 2)
    else:
        t.append("%d\n" % len(ctxu) + "".join(
            "%d %d\n" % (len(b), len(par) + 2) + "".join(row(c, par) + "\n" for c in b) for b in ctxu))
    t.append("1\n%s\n" % " ".join(par) if (names and par) else "0\n")
    t.append("%d\n" % len(stmts))
    md = 0
    for dim, u in stmts:
        if u and isinstance(u[0], str) or not u:
            u = [u]
        t.append(uset(u, iters[:dim], (), par))
        t.append("0 0 0\n")
        md = max(md, dim)
    t.append("1\n%s\n" % " ".join(iters[:md]) if (names and md) else "0\n")
    if not scat:
        t.append("0\n")
    else:
        t.append("%d\n" % len(scat))
        for (dim, _), s in zip(stmts, scat):
            if isinstance(s, tuple):            # relation: (n, [rows])
                n, rows = s
            else:
                n, rows = len(s), ["s%d = %s" % (k + 1, e) for k, e in enumerate(s)]
            out = tuple("s%d" % (k + 1) for k in range(n))
            t.append(bset(rows, out, iters[:dim], par))
        t.append("0\n")
    return "".join(t)


# ---------------------------------------------------------------------------
# building blocks
def aff(*terms):
    """[(coef, name)...] -> text"""
    s = ""
    for c, n in terms:
        if c == 0:
            continue
        a = abs(c)
        s += ("-" if c < 0 else "+") + (str(a) if n == "" else (n if a == 1 else "%d*%s" % (a, n)))
    return s or "0"


def P(text, **kw):
    d = dict(plo=-2, phi=4)
    d.update(kw)
    return (text, d)


# ---------------------------------------------------------------------------
# Families.  Each yields (text, attributes).  `d` is the depth: 0 quick, 1 thorough.

def f_line(d=0):
    """1-D, one statement: every lower bound x every upper bound (x modulo)."""
    los = ["%s >= %s" % (aff((a, "i")), aff((n, "N"), (c, ""))) for a in (1, 2, 3, 5)
           for n in (0, 1, -1, 2) for c in ((-3, 0, 1, 2) if d == 0 else (-4, -3, -2, -1, 0, 1, 2, 3))]
    his = ["%s <= %s" % (aff((a, "i")), aff((n, "N"), (c, ""))) for a in (1, 2, 3, 4)
           for n in (0, 1, 2) for c in ((7, 10) if d == 0 else (5, 6, 7, 8, 9, 10))]
    for lo in los:
        for hi in his:
            yield P(prog([(1, [lo, hi])], par=("N",)), plo=-4, phi=5)
    # two lower and two upper bounds
    l2 = ["i >= 0", "i >= N", "2*i >= N+1", "3*i >= M", "i >= -M", "i >= N-M", "2*i >= -N-3", "5*i >= N+M+1"]
    h2 = ["i <= 6", "i <= N+3", "2*i <= M+9", "3*i <= N+M+11", "i <= 8-N", "4*i <= 17-M"]
    for a, b in itertools.combinations(l2, 2):
        for c, e in itertools.combinations(h2, 2):
            yield P(prog([(1, [a, b, c, e])], par=("M", "N")), plo=-2, phi=3)


def f_mod(d=0):
    """1-D and 2-D lattices: i = r (mod m), inequalities on a remainder, parametric residues."""
    for m in range(2, 8):
        for r in range(-1, m):
            for extra in ([], ["i >= N"], ["2*i <= N+9"]):
                yield P(prog([(1, ["i >= -5", "i <= 15", "i = %d*e+%d" % (m, r) if r >= 0 else "i = %d*e-1" % m] + extra)],
                             par=("N",)), plo=-2, phi=3)
        for k in range(0, m):
            for off in (-2, 0, 1):
                # i mod m <= k
                yield P(prog([(1, ["i >= -7", "i <= 9+N", aff((1, "i"), (off, "")) + " >= %d*e" % m,
                                   aff((1, "i"), (off, "")) + " <= %d*e+%d" % (m, k)])], par=("N",)), plo=-1, phi=2)
    for m in (2, 3, 4, 5, 6):
        for a in (-2, -1, 1, 2, 3):
            for n in (0, 1, -1):
                c = "%s = %d*e" % (aff((1, "j"), (a, "i"), (n, "N"), (1, "")), m)
                yield P(prog([(2, ["i >= 0", "i <= 4", "j >= -3", "j <= 6", c])], par=("N",)), plo=-2, phi=3)
                c2 = "%s = %d*e" % (aff((a, "j"), (1, "i"), (n, "N")), m)
                yield P(prog([(2, ["i >= N", "i <= 4", "j >= i", "j <= 6", c2])], par=("N",)), plo=-2, phi=3)
    for m, q in itertools.product((2, 3, 4), (2, 3, 5)):
        for r, s in itertools.product(range(0, 2), range(0, 3)):
            yield P(prog([(2, ["i >= 0", "i <= 7", "j >= 0", "j <= 7", "i = %d*e1+%d" % (m, r), "i+j = %d*e2+%d" % (q, s)])]))
            yield P(prog([(1, ["i >= -6", "i <= 14", "i = %d*e1+%d" % (m, r), "i+N = %d*e2+%d" % (q, s)])], par=("N",)), plo=-2, phi=3)
    # a division inside a bound: e = floor((a*i+b*N)/m) used elsewhere
    for a, b, m in itertools.product((1, 2, 3), (0, 1, 3), (2, 3, 6)):
        for c in (-1, 1, 2):
            lhs = aff((a, "i"), (b, "N"), (1, ""))
            yield P(prog([(2, ["i >= -3", "i <= 5", "%s >= %d*e" % (lhs, m), "%s <= %d*e+%d" % (lhs, m, m - 1),
                               "j >= %s" % aff((c, "e")), "j <= %s" % aff((c, "e"), (3, ""))])], par=("N",)), plo=-2, phi=3)


def f_poly2(d=0):
    """2-D: a box cut by every small half-plane / line, and pairs of them."""
    R = (-3, -2, -1, 0, 1, 2, 3)
    for a in R:
        for b in R:
            if b == 0 and a == 0:
                continue
            for n in ((0, 1) if d == 0 else (-1, 0, 1)):
                for c in ((-1, 2) if d == 0 else (-2, -1, 0, 1, 2, 3)):
                    e = aff((a, "i"), (b, "j"), (n, "N"), (c, ""))
                    yield P(prog([(2, ["i >= 0", "i <= 4", "j >= 0", "j <= 4", e + " >= 0"])], par=("N",)), plo=-2, phi=4)
                    yield P(prog([(2, ["i >= -2", "i <= 3", "j >= -2", "j <= 3", e + " = 0"])], par=("N",)), plo=-2, phi=4)
    cuts = ["i >= N", "j <= i", "j >= i", "2*j <= i+3", "2*i >= j", "3*j >= i-2", "i+j <= N+2", "i+j >= 2",
            "2*i+3*j <= 11", "j >= N-i", "i-j <= 1", "3*i-2*j >= -1", "i <= 2*j+N", "2*j >= i+N", "5*j <= 3*i+N"]
    for x, y in itertools.combinations(cuts, 2):
        yield P(prog([(2, ["i >= 0", "i <= 5", "j >= 0", "j <= 5", x, y])], par=("N",)), plo=-1, phi=4)
    if d:
        for t in itertools.combinations(cuts, 3):
            yield P(prog([(2, ["i >= 0", "i <= 5", "j >= 0", "j <= 5"] + list(t))], par=("N",)), plo=-1, phi=4)


def f_poly3(d=0):
    """3-D and 4-D polyhedra."""
    cuts = ["k >= i", "k <= j", "j >= i", "i+j+k <= N+3", "k >= N-i", "2*k <= i+j", "3*k >= j", "j <= 2*i", "i+k = j", "2*k = i+j",
            "j = N", "k = i", "i = 2", "3*k = i+2*j"]
    box = ["i >= 0", "i <= 3", "j >= 0", "j <= 3", "k >= 0", "k <= 3"]
    for x, y in itertools.combinations(cuts, 2):
        yield P(prog([(3, box + [x, y])], par=("N",)), plo=-1, phi=3)
    for t in itertools.combinations(cuts, 3):
        if d or hash_small(t) == 0:
            yield P(prog([(3, box + list(t))], par=("N",)), plo=0, phi=3)
    box4 = ["i >= 0", "i <= N", "j >= 0", "j <= 2", "k >= 0", "k <= 2", "l >= 0", "l <= 2"]
    cuts4 = ["l >= i", "l <= j+k", "2*l = i+k", "k = j", "i+j+k+l <= 4", "j >= i", "l = N-i", "3*l >= k+N"]
    for x, y in itertools.combinations(cuts4, 2):
        yield P(prog([(4, box4 + [x, y])], par=("N",)), plo=-1, phi=2)
    box5 = box4 + ["m >= j", "m <= l+1"]
    for x in cuts4:
        yield P(prog([(5, box5 + [x])], par=("N",)), plo=0, phi=2)


def hash_small(t):
    return sum(ord(c) for c in "".join(t)) % 3


SH1 = [["i >= 0", "i <= N"], ["i >= 1", "i <= 4"], ["i >= N", "i <= 5"], ["i = 2"], ["i = N"], ["i >= -1", "i <= N-1"],
       ["2*i >= N", "i <= 5"], ["i >= 0", "i <= 6", "i = 2*e"], ["i >= 0", "i <= 6", "i = 2*e+1"], ["i >= 0", "i <= 7", "i = 3*e+N"],
       ["i >= 3", "2*i <= N+9"]]
SH2 = [["i >= 0", "i <= 3", "j >= 0", "j <= N"], ["i >= 0", "i <= N", "j >= 0", "j <= i"], ["i >= 0", "i <= 3", "j >= i", "j <= 3"],
       ["i >= 1", "i <= 4", "j = i"], ["i >= 0", "i <= 3", "j = N-i"], ["i = 1", "j >= 0", "j <= N"], ["i = N", "j >= -1", "j <= 2"],
       ["i >= 0", "i <= 4", "j >= 0", "j <= 4", "i+j = 2*e"], ["i >= 0", "i <= 3", "2*j >= i", "2*j <= N+5"],
       ["i >= 2", "i <= 5", "j >= 1", "j <= 2"], ["i >= 0", "i <= N", "j >= N", "j <= 4"]]


def shapes(n1=len(SH1), n2=len(SH2), zero=True):
    s = [(1, x) for x in SH1[:n1]] + [(2, x) for x in SH2[:n2]]
    if zero:
        s += [(0, []), (0, ["N >= 1"])]
    return s


def f_pairs(d=0):
    """two statements, every ordered pair of shapes, no scattering"""
    S = shapes()
    for a in S:
        for b in S:
            yield P(prog([a, b], par=("N",)), plo=-2, phi=4)


def f_triples(d=0):
    S = [shapes()[k] for k in ((0, 2, 4, 7, 11, 12, 16, 18, 22) if d == 0 else (0, 2, 3, 4, 7, 9, 11, 12, 14, 16, 18, 19, 22, 23))]
    for t in itertools.product(S, repeat=3):
        yield P(prog(list(t), par=("N",)), plo=-1, phi=4)


def f_intervals(d=0):
    """separation: every placement of 2..3 constant intervals, and parametric ones"""
    iv = [(a, b) for a in range(0, 5) for b in range(a, 5)]
    for x in iv:
        for y in iv:
            yield P(prog([(1, ["i >= %d" % x[0], "i <= %d" % x[1]]), (1, ["i >= %d" % y[0], "i <= %d" % y[1]])]))
    iv3 = [(a, b) for a in (0, 1, 2, 3) for b in (1, 3) if a <= b]
    for x, y, z in itertools.product(iv3, repeat=3):
        yield P(prog([(1, ["i >= %d" % t[0], "i <= %d" % t[1]]) for t in (x, y, z)]))
    los = ["i >= 0", "i >= 1", "i >= N", "i >= M", "i >= N+1"]
    his = ["i <= 3", "i <= N", "i <= M", "i <= M-1", "i <= N+M"]
    for a, b, c, e in itertools.product(los, his, los, his):
        yield P(prog([(1, [a, b]), (1, [c, e])], par=("M", "N")), plo=-1, phi=3)


def f_union(d=0):
    """statements whose domain is a union (overlapping or not)"""
    iv = [["i >= 0", "i <= 2"], ["i >= 2", "i <= 4"], ["i >= 4", "i <= 6"], ["i >= N", "i <= N+2"], ["i = 3"], ["i >= 1", "i <= 5", "i = 2*e"],
          ["i >= N", "i <= 4"]]
    for a, b in itertools.product(iv, repeat=2):
        yield P(prog([(1, [a, b])], par=("N",)))
        for c in iv[::2]:
            yield P(prog([(1, [a, b]), (1, [c])], par=("N",)))
            yield P(prog([(1, [a, b, c])], par=("N",)))
    b2 = [["i >= 0", "i <= 2", "j >= 0", "j <= 2"], ["i >= 1", "i <= 3", "j >= 1", "j <= 3"], ["i >= 0", "i <= 3", "j = i"],
          ["i >= 0", "i <= N", "j >= N", "j <= 3"], ["i = N", "j >= 0", "j <= 3"], ["i >= 0", "i <= 4", "j >= 0", "j <= 1", "i = 2*e"]]
    for a, b in itertools.product(b2, repeat=2):
        yield P(prog([(2, [a, b])], par=("N",)))
        for c in b2[::2]:
            yield P(prog([(2, [a, b]), (2, [c])], par=("N",)))
            yield P(prog([(2, [c]), (2, [a, b])], par=("N",)))


def f_scat1(d=0):
    """one statement, every small affine schedule of 1 and 2 dimensions"""
    C = (-2, -1, 0, 1, 2) if d else (-1, 0, 1, 2)
    dom = (2, ["i >= 0", "i <= 3", "j >= 0", "j <= N"])
    for a, b in itertools.product((-3, -2, -1, 0, 1, 2, 3), repeat=2):
        for c in (0, 1):
            yield P(prog([dom], [[aff((a, "i"), (b, "j"), (c, "N"))]], par=("N",)), plo=0, phi=3)
    for a, b, c, e in itertools.product(C, repeat=4):
        yield P(prog([dom], [[aff((a, "i"), (b, "j"), (1, "")), aff((c, "i"), (e, "j"))]], par=("N",)), plo=0, phi=3)
    tri = (2, ["i >= 0", "i <= N", "j >= i", "j <= N"])
    for a, b, c, e in itertools.product((-1, 0, 1), repeat=4):
        yield P(prog([tri], [[aff((a, "i"), (b, "j")), aff((c, "i"), (e, "j"), (1, "N"))]], par=("N",)), plo=0, phi=4)
    # non unit: q*c1 = a i + b j  (only some points may have a date)
    for q in (2, 3):
        for a, b in itertools.product((-1, 1, 2, 3), (0, 1, -2)):
            for exact in (0, 1):
                rows = ["%d*s1 = %s" % (q, aff((a, "i"), (b, "j")))] if exact else \
                       ["%d*s1 <= %s" % (q, aff((a, "i"), (b, "j"))), "%d*s1 >= %s" % (q, aff((a, "i"), (b, "j"), (1 - q, "")))]
                yield P(prog([dom], [(1, rows)], par=("N",)), plo=0, phi=3)
                yield P(prog([dom], [(2, rows + ["s2 = j"])], par=("N",)), plo=0, phi=3)


def f_scat2(d=0):
    """two statements under every pair of schedules of a list"""
    dom = [(1, ["i >= 0", "i <= N"]), (2, ["i >= 0", "i <= 3", "j >= 0", "j <= N"]), (2, ["i >= 0", "i <= N", "j >= i", "j <= N"])]
    s1 = ["i", "-i", "i+1", "2*i", "2*i+1", "N-i", "0", "3", "N"]
    for a in s1:
        for b in s1:
            for x, y in ((0, 0),) if d == 0 else ((0, 0), (0, 1), (1, 1)):
                yield P(prog([dom[x], dom[y]], [[a], [b]], par=("N",)), plo=0, phi=3)
    s2 = [["i", "j"], ["j", "i"], ["i+j", "j"], ["i+j", "0"], ["0", "i"], ["1", "i"], ["i", "0"], ["i", "1"], ["j", "N"], ["2*i+j", "i"], ["i-j", "i"],
          ["N-i", "j"]]
    for a in s2:
        for b in s2:
            yield P(prog([dom[1], dom[2]], [a, b], par=("N",)), plo=0, phi=3)
            if d:
                yield P(prog([dom[1], dom[1]], [a, b], par=("N",)), plo=0, phi=3)
    for a in s2:
        for b in [["i", "0"], ["0", "i"], ["i", "1"], ["1", "i"], ["2*i", "i"], ["i", "N"], ["N-i", "0"]]:
            yield P(prog([dom[0], dom[1]], [b, a], par=("N",)), plo=0, phi=3)


def f_2dp1(d=0):
    """2d+1 schedules (k0,i,k1,j,k2): fusion / distribution / interchange of 2-3 statements"""
    D2 = (2, ["i >= 0", "i <= N", "j >= 0", "j <= 2"])
    D1 = (1, ["i >= 0", "i <= N"])
    K = (0, 1)
    for k in itertools.product(K, repeat=6):
        yield P(prog([D2, D2], [[str(k[0]), "i", str(k[1]), "j", str(k[2])], [str(k[3]), "i", str(k[4]), "j", str(k[5])]], par=("N",)), plo=-1, phi=2)
        yield P(prog([D1, D2], [[str(k[0]), "i", str(k[1]), "0", str(k[2])], [str(k[3]), "i", str(k[4]), "j", str(k[5])]], par=("N",)), plo=-1, phi=2)
        yield P(prog([D2, D2], [[str(k[0]), "j", str(k[1]), "i", str(k[2])], [str(k[3]), "i", str(k[4]), "j", str(k[5])]], par=("N",)), plo=-1, phi=2)
    for k in itertools.product((0, 1, 2), repeat=4):
        yield P(prog([D1, D1, D1, D1], [[str(k[q]), "i", str(q)] for q in range(4)], par=("N",)), plo=-1, phi=2)
        yield P(prog([D1, D1, D1, D1], [["i", str(k[q])] for q in range(4)], par=("N",)), plo=-1, phi=2)
        yield P(prog([D1, D1, (0, []), D1], [[str(k[0]), "i"], [str(k[1]), "i+1"], [str(k[2]), "1"], [str(k[3]), "2*i"]], par=("N",)), plo=-1, phi=2)
    for k in itertools.product(K, repeat=3):
        for m in itertools.product(K, repeat=3):
            yield P(prog([D1, D1, D1], [[str(k[q]), "i", str(m[q])] for q in range(3)], par=("N",)), plo=0, phi=2)


def f_strided(d=0):
    """several strided statements sharing loops"""
    S = []
    for m in (2, 3, 4, 6):
        for r in (0, 1, m - 1):
            S.append((1, ["i >= 0", "i <= 9", "i = %d*e+%d" % (m, r)]))
    S += [(1, ["i >= N", "i <= 11", "i = 2*e+N"]), (1, ["i >= N", "i <= 11", "i = 3*e+1"]), (1, ["2*i >= N", "i <= 11", "i = 4*e+2"]),
          (1, ["i >= 0", "i <= 9"]), (1, ["i >= 0", "3*i <= N+20", "2*i = 5*e+N"])]
    for a in S:
        yield P(prog([a], par=("N",)), plo=-3, phi=4)
        for b in S:
            yield P(prog([a, b], par=("N",)), plo=-1, phi=3)
    # strides from schedules
    dom = (1, ["i >= 0", "i <= N+3"])
    for a, b in itertools.product((1, 2, 3, 4, 6, -2, -3), repeat=2):
        for c, e in itertools.product((0, 1, 2), repeat=2):
            yield P(prog([dom, dom], [[aff((a, "i"), (c, ""))], [aff((b, "i"), (e, ""))]], par=("N",)), plo=0, phi=2)
    dom2 = (2, ["i >= 0", "i <= 3", "j >= 0", "j <= 3"])
    for a, b, c in itertools.product((1, 2, 3, 4), (0, 1, 2, 3), (1, 2, 3)):
        yield P(prog([dom2], [[aff((a, "i"), (b, "j")), aff((c, "j"))]]))
        yield P(prog([(2, ["i >= 0", "i <= 3", "j >= i", "j <= N", aff((a, "i"), (c, "j")) + " = %d*e+1" % (b + 2)])], par=("N",)), plo=0, phi=5)
    # lower bound with division, stride on parameters
    for m in (2, 3, 5):
        for a in (1, 2, 3):
            for b in (1, 2, 3):
                yield P(prog([(2, ["i >= 0", "i <= 3", "%d*j >= %s" % (a, aff((b, "i"), (1, "N"))), "j <= 9", "j = %d*e+i" % m])], par=("N",)), plo=-2, phi=3)
                yield P(prog([(2, ["i >= 0", "i <= 3", "%d*j >= %s" % (a, aff((b, "i"), (1, "N"))), "j <= 9", "%d*j = %d*e+i+N" % (b, m)])], par=("N",)), plo=-2, phi=3)


def f_tile(d=0):
    """tiled and skewed schedules given as relations"""
    dom = (2, ["i >= 0", "i <= N", "j >= 0", "j <= 4"])
    for t1, t2 in itertools.product((2, 3, 4), repeat=2):
        for sk in (0, 1):
            e = "j+i" if sk else "j"
            rows = ["%d*s1 <= i" % t1, "%d*s1 >= i-%d" % (t1, t1 - 1), "%d*s2 <= %s" % (t2, e), "%d*s2 >= %s-%d" % (t2, e, t2 - 1), "s3 = i", "s4 = %s" % e]
            yield P(prog([dom], [(4, rows)], par=("N",)), plo=0, phi=4)
            yield P(prog([dom, (1, ["i >= 0", "i <= N"])],
                         [(4, rows), (4, ["%d*s1 <= i" % t1, "%d*s1 >= i-%d" % (t1, t1 - 1), "s2 = 0", "s3 = i", "s4 = 1"])], par=("N",)), plo=0, phi=4)
    for t1 in (2, 3, 4, 5, 7):
        rows = ["%d*s1 <= i" % t1, "%d*s1 >= i-%d" % (t1, t1 - 1), "s2 = i"]
        yield P(prog([(1, ["i >= N", "i <= 12"])], [(2, rows)], par=("N",)), plo=-3, phi=5)
        yield P(prog([(1, ["i >= 0", "i <= N"]), (1, ["i >= 2", "i <= N+3"])], [(2, rows), (2, rows)], par=("N",)), plo=0, phi=6)


def f_context(d=0):
    """contexts: what is promised about the parameters changes the code, never its meaning"""
    ctxs = [[], ["N >= 1"], ["N >= 3"], ["N = 2"], ["M >= N"], ["M = N+1"], ["M >= 0", "N >= M"], ["N = 2*e"], ["N = 3*e+1"], ["M+N = 2*e"],
            ["M >= 1", "N >= 1", "M+N <= 4"], ["N >= 5", "N <= 3"], ["2*N >= M", "2*N <= M+1"]]
    bodies = [[(1, ["i >= M", "i <= N"])], [(1, ["i >= 0", "i <= N"]), (1, ["i >= M", "i <= 4"])], [(2, ["i >= 1", "i <= N", "j >= i", "j <= M"])],
              [(1, ["i >= 0", "i <= 5", "i = 2*e+N"])], [(1, ["2*i >= N", "2*i <= M+4"])], [(0, ["N >= M"]), (1, ["i = N"])],
              [(1, ["i = M"]), (1, ["i = N"])], [(2, ["i >= 0", "i <= M", "j = N-i"]), (1, ["i >= 0", "i <= N"])],
              [(1, ["2*i = N"])], [(1, ["3*i = N+M", "i >= 0"]), (0, [])]]
    for c in ctxs:
        for b in bodies:
            yield P(prog(b, par=("M", "N"), ctx=c), plo=-2, phi=5)
    for u in ([["N >= 3"], ["N <= 0"]], [["N = 1"], ["N = 3"]], [["M >= N"], ["M <= N-2"]]):
        for b in bodies:
            yield P(prog(b, par=("M", "N"), ctxu=u), plo=-2, phi=5)


def f_many(d=0):
    """more statements, more dimensions, more parameters"""
    D1 = (1, ["i >= 0", "i <= N"])
    for n in (4, 5, 6, 8):
        for step in (0, 1, 2):
            st = [(1, ["i >= %d" % (step * q), "i <= %d" % (step * q + 3)]) for q in range(n)]
            yield P(prog(st))
            yield P(prog(st[::-1]))
            yield P(prog(st, [[str(q % 2), "i", str(q)] for q in range(n)]))
            yield P(prog([D1] * n, [["i", str((q * 3) % n)] for q in range(n)], par=("N",)), plo=0, phi=2)
            yield P(prog([D1] * n, [[str((q * (step + 1)) % n), "i"] for q in range(n)], par=("N",)), plo=0, phi=2)
            yield P(prog([D1] * n, [["i", aff((1, "N"), (q * (step + 1) % n, ""))] for q in range(n)], par=("N",)), plo=0, phi=2)
    for n in (3, 4):
        for perm in itertools.permutations(range(n)):
            yield P(prog([(1, ["i >= 0", "i <= 2"])] * n, [["i", str(perm[q])] for q in range(n)]))
            yield P(prog([(1, ["i >= 0", "i <= 2"])] * n, [[str(perm[q]), "i"] for q in range(n)]))
            yield P(prog([(1, ["i >= %d" % perm[q], "i <= %d" % (perm[q] + 1)]) for q in range(n)]))
            yield P(prog([(1, ["i = %d" % perm[q]]) for q in range(n)]))
            yield P(prog([(1, ["i = N+%d" % perm[q]]) for q in range(n)], par=("N",)))
    for perm in itertools.permutations("ijk"):
        yield P(prog([(3, ["i >= 0", "i <= 2", "j >= i", "j <= 2", "k >= 0", "k <= j"])], [list(perm)]))
        yield P(prog([(3, ["i >= 0", "i <= N", "j >= i", "j <= 2", "k >= 0", "k <= j"]), (2, ["i >= 0", "i <= 2", "j >= 0", "j <= i"])],
                     [list(perm), ["i", "j", "0"]], par=("N",)))
    for npar in (3, 4):
        ps = ("N", "M", "P", "Q")[:npar]
        for lo, hi in itertools.product(ps, repeat=2):
            yield P(prog([(1, ["i >= %s" % lo, "i <= %s" % hi]), (1, ["i >= 0", "i <= %s" % ps[-1]])], par=ps), plo=0, phi=2)
            yield P(prog([(2, ["i >= %s" % lo, "i <= %s+1" % hi, "j >= i", "j <= %s" % ps[1]])], par=ps), plo=0, phi=2)


def f_depths(d=0):
    """statements of different depths around the same loops"""
    A = [(0, []), (0, ["N >= 2"]), (1, ["i >= 0", "i <= N"]), (1, ["i = 1"]), (2, ["i >= 0", "i <= N", "j >= 0", "j <= 1"]),
         (2, ["i = 1", "j = N"]), (3, ["i >= 0", "i <= N", "j = 0", "k >= 0", "k <= 1"])]
    for a, b in itertools.product(A, repeat=2):
        yield P(prog([a, b], par=("N",)))
        na, nb = max(a[0], 1), max(b[0], 1)
        for k in range(3):
            def sc(dim, z):
                e = list(ITERS[:dim]) + ["0"] * (3 - dim)
                return ([z] + e)[:4] if k == 0 else (e + [z]) if k == 1 else (e[:1] + [z] + e[1:])
            yield P(prog([a, b], [sc(a[0], "0"), sc(b[0], "1")], par=("N",)))
            yield P(prog([a, b], [sc(a[0], "1"), sc(b[0], "0")], par=("N",)))
            yield P(prog([a, b], [sc(a[0], "0"), sc(b[0], "0")], par=("N",)))


def f_empty(d=0):
    """statements without instances (contradictory rows, no integer point, outside the context) among others"""
    E1 = [["0 >= 1"], ["i >= 1", "i <= 0"], ["2*i = 1"], ["i >= 0", "i <= N", "i >= N+1"], ["i >= 0", "i <= 3", "i = 2*e", "i = 4*f+1"], ["i >= 0", "i <= 2", "N <= -7"], ["i >= 0", "3*i <= 2", "3*i >= 1"]]
    G1 = [["i >= 0", "i <= N"], ["i = 2"], ["i >= 1", "i <= 3"]]
    SC = [None, [["i"], ["i"]], [["i", "0"], ["i", "1"]], [["0", "i"], ["1", "i"]], [["1", "i"], ["0", "i"]], [["i", "0"], ["2*i+1", "1"]], [["2*i", "1"], ["i", "0"]], [["i", "1", "0"], ["0", "0", "i"]]]
    for e in E1:
        yield P(prog([(1, e)], par=("N",)))
        yield P(prog([(1, e)], [["i", "0"]], par=("N",)))
        for g in G1:
            for sc in SC:
                yield P(prog([(1, e), (1, g)], sc, par=("N",)), plo=0, phi=3)
                yield P(prog([(1, g), (1, e)], sc, par=("N",)), plo=0, phi=3)
            yield P(prog([(1, [e, g])], par=("N",)))
            yield P(prog([(1, [g, e])], par=("N",)))
            yield P(prog([(1, g), (1, e), (1, g)], [["i", "0"], ["i", "1"], ["i", "2"]], par=("N",)), plo=0, phi=3)
            yield P(prog([(1, g), (1, e), (1, g)], [["0", "i"], ["1", "i"], ["2", "i"]], par=("N",)), plo=0, phi=3)
        for f in E1[:4]:
            for sc in SC:
                yield P(prog([(1, e), (1, f)], sc, par=("N",)), plo=0, phi=2)
    E2 = [["i >= 0", "i <= N", "0 >= 1"], ["i >= 0", "i <= 2", "j >= 1", "j <= 0"], ["i >= 0", "i <= 3", "j = i", "j = i+1"], ["i >= 0", "i <= 2", "2*j = 2*i+1"]]
    G2 = [["i >= 0", "i <= N", "j >= 0", "j <= 2"], ["i >= 0", "i <= 2", "j = i"]]
    S2 = [None, [["i", "j"], ["i", "j"]], [["i", "0", "j"], ["i", "1", "j"]], [["0", "i", "0", "j"], ["0", "i", "1", "j"]], [["i", "0"], ["2*i+1", "1"]], [["i+j", "0"], ["i", "1"]], [["j", "1", "i"], ["i", "0", "j"]], [["0", "i"], ["1", "j"]]]
    for e, g, sc in itertools.product(E2, G2, S2):
        yield P(prog([(2, e), (2, g)], sc, par=("N",)), plo=0, phi=3)
        yield P(prog([(2, g), (2, e)], sc, par=("N",)), plo=0, phi=3)
        yield P(prog([(2, g), (2, e), (2, g)], None if sc is None else [sc[0], sc[1], sc[1]], par=("N",)), plo=0, phi=2)


def f_wide(d=0):
    """many scattering dimensions, many iterators, several parameters"""
    def box(n, hi=1, tri=True):
        it = ITERS[:n]
        return [c for k in range(n) for c in ("%s >= %s" % (it[k], it[k - 1] if tri and k and k % 2 else "0"), "%s <= %d" % (it[k], hi))]
    # 2d+1 schedules of deep nests: 2n+1 scattering dimensions
    for n in ((4, 5) if not d else (4, 5, 6)):
        it = ITERS[:n]
        def sch(cs, perm=None):
            p = perm or range(n)
            o = [str(cs[0])]
            for q, k in enumerate(p):
                o += [it[k], str(cs[q + 1])]
            return o
        z = [0] * (n + 1)
        yield P(prog([(n, box(n))], [sch(z)]))
        yield P(prog([(n, box(n))], [sch(z, range(n - 1, -1, -1))]))
        for lev in range(n + 1):
            o = list(z); o[lev] = 1
            yield P(prog([(n, box(n)), (n, box(n, tri=False))], [sch(o), sch(z)]))
            yield P(prog([(n, box(n)), (n, box(n))], [sch(z), sch(o, list(range(1, n)) + [0])]))
    # every scattering dimension a real loop
    D = ["i", "2*i", "j", "i+j", "j-i", "3*j", "i+1", "2*j-1", "-i", "-j", "i+2*j", "0-i-j"]
    B2 = ["i >= 0", "i <= 2", "j >= i", "j <= 2"]
    for n in range(9, 13):
        for r in range(0, 12, 1 if d else 3):
            e = [D[(k + r) % 12] for k in range(n)]
            yield P(prog([(2, B2)], [e]))
            yield P(prog([(2, B2), (2, ["i >= 1", "i <= 3", "j >= 0", "j <= 1"])], [e, e[::-1]]))
            yield P(prog([(2, B2), (2, B2)], [e[:-1] + ["0"], e[:-1] + ["1"]]))
            yield P(prog([(2, B2), (2, B2)], [[str(k % 2) if k % 3 == 0 else x for k, x in enumerate(e)], [str(1 - k % 2) if k % 3 == 0 else x for k, x in enumerate(e)]]))
    # deep nests without scattering
    for n in (6, 7, 8):
        yield P(prog([(n, box(n))]))
        yield P(prog([(n, box(n, tri=False)), (n - 2, box(n - 2))]))
        yield P(prog([(n - 3, box(n - 3)), (n, box(n)), (1, ["i >= 1", "i <= 2"])]))
    # several parameters, each bounding something of its own
    Q = ("P1", "P2", "P3", "P4", "P5")
    for n in (3, 4, 5):
        par = Q[:n]
        kw = dict(plo=0, phi=1 if n == 5 else 2)
        yield P(prog([(2, ["i >= P1", "i <= %s+2" % par[-1], "j >= P2", "j <= 3"] + ["j <= %s+1" % q for q in par[2:]])], par=par), **kw)
        yield P(prog([(1, ["i >= %s" % q, "i <= 3"]) for q in par], par=par), **kw)
        yield P(prog([(1, ["i = %s" % q]) for q in par], [[str(k % 2), "i"] for k in range(n)], par=par), **kw)
        yield P(prog([(n, [c for k in range(n) for c in ("%s >= 0" % ITERS[k], "%s <= %s" % (ITERS[k], par[n - 1 - k]))])], par=par), **kw)
        yield P(prog([(1, ["i >= 0", "i <= 3"] + ["%d*i >= %s" % (k + 1, q) for k, q in enumerate(par)])], par=par, ctx=["%s >= %s" % (par[k + 1], par[k]) for k in range(n - 1)]), **kw)


def f_bigdim(d=0):
    """more dimensions and parameters than the alphabet has letters left for default names"""
    for np_ in (13, 14, 15, 20):
        par = tuple("Q%d" % k for k in range(np_))
        yield P(prog([(1, ["i >= %s" % par[0], "i <= %s" % par[-1]]), (1, ["i = %s" % par[np_ // 2]])], par=par), plo=-1, phi=2, pseq=1)
        yield P(prog([(1, ["i = %s" % q]) for q in par[::3]], [[str(k % 2), "i"] for k in range(len(par[::3]))], par=par), plo=0, phi=1, pseq=1)
        yield P(prog([(2, ["i >= 0", "i <= 3", "j = i+%s-%s" % (par[-1], par[-2])])], [["j+%s" % par[-1], "i"]], par=par), plo=0, phi=1, pseq=1)
    for n in (17, 18, 19, 22):
        it = tuple("v%d" % k for k in range(n))
        fix = ["%s = %d" % (it[k], k) for k in range(1, n - 2)]
        yield P(prog([(n, ["%s >= 0" % it[0], "%s <= 2" % it[0], "%s >= %s" % (it[-2], it[0]), "%s <= 2" % it[-2], "%s >= 0" % it[-1], "%s <= %s" % (it[-1], it[-2])] + fix)], iters=it))
        yield P(prog([(n, ["%s >= 0" % it[0], "%s <= 2" % it[0], "%s = %s" % (it[-2], it[0]), "%s >= 0" % it[-1], "%s <= %s" % (it[-1], it[-2])] + fix),
                      (2, ["%s >= 1" % it[0], "%s <= 2" % it[0], "%s >= 0" % it[1], "%s <= 2" % it[1]])], iters=it))


def f_big(d=0):
    """constants far beyond 64 bits, and around the machine-word borders"""
    for B in (2 ** 31 - 2, 2 ** 31, 2 ** 32 - 1, 2 ** 63 - 2, 2 ** 63, 2 ** 64, 10 ** 20, 10 ** 24):
        for s in (1, -1):
            b = s * B
            c = aff((b, ""))
            yield P(prog([(1, ["i >= %s" % c, "i <= %s" % aff((b + 3, ""))])]), big=1)
            yield P(prog([(1, ["i = %s" % c]), (1, ["i = %s" % aff((b + 1, ""))])]), big=1)
            yield P(prog([(1, ["i >= %s" % aff((b, ""), (1, "N")), "i <= %s" % aff((b + 3, ""))])], par=("N",)), big=1)
            yield P(prog([(1, ["3*i >= %s" % c, "3*i <= %s" % aff((b + 10, ""))])]), big=1)
            yield P(prog([(1, ["i >= 0", "i <= 3"])], [[aff((b, "i"))]]), big=1, opts="-strides 1")
            yield P(prog([(1, ["i >= 0", "i <= 2"]), (1, ["i >= 0", "i <= 2"])], [["i", c], ["i", aff((b - 1, ""))]]), big=1)
            yield P(prog([(2, ["i >= %s" % c, "i <= %s" % aff((b + 2, "")), "j >= i", "j <= %s" % aff((b + 2, ""))])]), big=1)


def f_bigc(d=0):
    """huge coefficients, strides, distances and dates"""
    Bs = [2 ** 31, 2 ** 32 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 + 1, 10 ** 21]
    if d:
        Bs += [2 ** 15, 2 ** 16 + 1, 2 ** 30, 2 ** 31 - 1, 2 ** 33, 2 ** 62, 2 ** 65, 3 ** 40, 10 ** 25]
    for B in Bs:
        for r in (0, 1, B - 1):
            for lo in (0, -B, 5):
                u = ["i = %d*e+%d" % (B, r), "i >= %d" % lo, "i <= %d" % (lo + 3 * B)]
                yield P(prog([(1, u)]), big=1, opts="-strides 1")
                yield P(prog([(1, ["%d*i >= %d" % (B, r), "%d*i <= %d" % (B, 3 * B + r)]), (1, ["i >= 0", "i <= 2"])]), big=1)
                yield P(prog([(2, ["%d*i+%d = j" % (B, r), "i >= 0", "i <= 2"])]), big=1)
                yield P(prog([(2, ["%d*j+%d = i" % (B, r), "j >= 0", "j <= 2"])]), big=1, opts="-strides 1")
            yield P(prog([(1, ["i >= %d*N+%d" % (B, r), "i <= %d*N+%d" % (B, r + 2)])], par=("N",)), big=1)
            yield P(prog([(1, ["%d*i >= N" % B, "%d*i <= N+%d" % (B, 2 * B + r)])], par=("N",)), big=1)
            yield P(prog([(1, ["i >= 0", "i <= 3", "%d*i >= %d*N+%d" % (B + 2, B, r)])], par=("N",)), big=1)
            yield P(prog([(1, ["i >= 0", "i <= 1"]), (1, ["i >= %d" % (B + r), "i <= %d" % (B + r + 1)]), (1, ["i >= %d" % (2 * B), "i <= %d" % (2 * B + 2)])]), big=1)
            yield P(prog([(1, [["i >= %d" % -B, "i <= %d" % (1 - B)], ["i >= %d" % r, "i <= %d" % (r + 1)]])]), big=1)
            yield P(prog([(2, ["i >= 0", "i <= 1", "j >= 0", "j <= 1"])], [["%d*i+%d" % (B, r), "j-%d*i" % B]]), big=1, opts="-strides 1")
            yield P(prog([(1, ["i >= 0", "i <= 2"]), (1, ["i >= 0", "i <= 2"])], [["i+%d" % B], ["i+%d" % (B + 1)]]), big=1)
            yield P(prog([(1, ["i >= 0", "i <= 2"]), (1, ["i >= 0", "i <= 2"])], [["%d" % (B + r), "i"], ["%d" % (B + r + 1), "i"]]), big=1)


# ---------------------------------------------------------------------------
# Larger products for the checks that can afford them (EXTRA)

def g_nest3(d=0):
    """3-D nests: two statements, every pair of shapes, with and without schedules"""
    S3 = [["i >= 0", "i <= N", "j >= 0", "j <= i", "k >= 0", "k <= 2"], ["i >= 0", "i <= 2", "j >= i", "j <= N", "k >= j", "k <= N"],
          ["i >= 1", "i <= 3", "j = i", "k >= 0", "k <= N"], ["i >= 0", "i <= 2", "j >= 0", "j <= 2", "k = i+j"], ["i >= 0", "i <= 2", "j >= 0", "j <= 2", "k >= 0", "k <= 3", "k = 2*e+i"],
          ["i = N", "j >= 0", "j <= 2", "k >= j", "k <= 2"], ["i >= 0", "i <= N", "j = 1", "2*k >= i", "2*k <= N+2"], ["i >= 0", "i <= 3", "j >= N", "j <= 2", "i+j+k = 3"],
          ["i >= 0", "i <= 4", "i = 2*e", "j >= 0", "j <= i", "k = j"]]
    SC = [None, (["i", "j", "k"], ["i", "j", "k"]), (["k", "i", "j"], ["j", "k", "i"]), (["i", "0", "j"], ["i", "1", "j"]), (["0", "i", "0", "j", "0", "k", "0"], ["0", "i", "0", "j", "1", "k", "0"]),
          (["0", "i", "1", "j", "0", "k", "0"], ["0", "i", "0", "j", "0", "k", "0"]), (["i+j+k", "j"], ["i+j", "k"]), (["2*i", "j-k"], ["2*i+1", "k"]), (["i", "j+k", "0"], ["j", "i-k", "1"]),
          (["N-i", "j", "k"], ["i", "N-j", "k"]), (["i+k", "0", "j"], ["i+k", "1", "j"]), (["3*i+j", "k"], ["2*j", "i"])]
    for a, b in itertools.product(S3, repeat=2):
        for sc in SC:
            yield P(prog([(3, a), (3, b)], sc, par=("N",)), plo=0, phi=3)
    S2 = SH2[:9] if d else SH2[::2]
    for a, b in itertools.product(S3, S2):
        for sc in (None, (["i", "j", "k"], ["i", "j", "0"]), (["i", "0", "j", "k"], ["i", "1", "j", "0"]), (["j", "i", "k"], ["i", "j", "1"]), (["0", "i", "j"], ["1", "j", "i"]), (["i", "k"], ["j", "N"])):
            yield P(prog([(3, a), (2, b)], sc, par=("N",)), plo=0, phi=3)
            yield P(prog([(2, b), (3, a)], sc and (sc[1], sc[0]), par=("N",)), plo=0, phi=3)


def g_lattice(d=0):
    """strides and remainders on several levels at once"""
    B = ["i >= 0", "i <= 7", "j >= 0", "j <= 7"]
    for m, q in itertools.product((2, 3, 4), (2, 3, 4, 6)):
        for r, a, b in itertools.product((0, 1), (0, 1, 2, -1), (0, 1, N1)):
            u = B + ["i = %d*e1+%d" % (m, r), "j = %s" % aff((q, "e2"), (a, "i"), (1 if b == N1 else 0, "N"), (0 if b == N1 else b, ""))]
            yield P(prog([(2, u)], par=("N",)), plo=-1, phi=2)
            if r == 0:
                yield P(prog([(2, u), (2, ["i >= N", "i <= 5", "j >= 0", "j <= i"])], par=("N",)), plo=0, phi=2)
                yield P(prog([(2, u), (2, B + ["i = %d*e1+1" % m, "j = %d*e2+1" % q])], [["i", "j", "0"], ["i", "j", "1"]], par=("N",)), plo=0, phi=2)
                yield P(prog([(2, u), (1, ["i >= 0", "i <= 9", "i = %d*e1+%d" % (q, r)])], [["i", "0", "j"], ["i", "1", "0"]], par=("N",)), plo=0, phi=2)
                yield P(prog([(2, u)], [["j", "i"]], par=("N",)), plo=0, phi=2)
                yield P(prog([(2, u)], [["i+j", "j"]], par=("N",)), plo=0, phi=2)
    # windows of remainders
    for m in (2, 3, 4, 5):
        for lo, hi in itertools.combinations_with_replacement(range(m), 2):
            u = ["i >= 0", "i <= 6", "j >= i", "j <= 9", "j >= %d*e+%d" % (m, lo), "j <= %d*e+%d" % (m, hi)]
            yield P(prog([(2, u)]))
            yield P(prog([(2, u), (2, ["i >= 0", "i <= 6", "j >= N", "j <= 9", "j = %d*e+%d" % (m, lo)])], par=("N",)), plo=0, phi=2)
            yield P(prog([(2, u), (2, ["i >= 0", "i <= 6", "j >= N", "j <= 9", "j = %d*e+%d" % (m, hi)])], [["j", "i"], ["j", "i"]], par=("N",)), plo=0, phi=2)
            yield P(prog([(1, ["i >= 0", "i <= 12", "i+N >= %d*e+%d" % (m, lo), "i+N <= %d*e+%d" % (m, hi)]), (1, ["i >= 2", "i <= 9"])], par=("N",)), plo=-2, phi=3)
    # three levels
    for a, b, c in itertools.product((2, 3), (2, 3), (2, 4)):
        for f in ("", "+i", "+j", "+i+j", "+N"):
            u = ["i >= 0", "i <= 4", "j >= 0", "j <= 4", "k >= 0", "k <= 4", "i = %d*e1" % a, "j = %d*e2%s" % (b, f.replace("+j", "").replace("+i+i", "+i")), "k = %d*e3%s" % (c, f)]
            yield P(prog([(3, u)], par=("N",)), plo=0, phi=2)
            yield P(prog([(3, u), (3, ["i >= 1", "i <= 3", "j = i", "k >= 0", "k <= j"])], par=("N",)), plo=0, phi=2)


N1 = object()


def g_eqs(d=0):
    """equalities: chains, fractions, with parameters, shared or not by the statements"""
    E2 = ["2*j = i", "2*j = i+N", "3*j = 2*i+1", "i+j = N", "2*i+3*j = N+6", "j = 2*i-N", "3*i = 2*j", "j = 4", "j = N", "2*j = 7", "2*i = N", "i = 3", "2*i = 5", "i = 2*j-1"]
    B = ["i >= -1", "i <= 6", "j >= -2", "j <= 7"]
    for a, b in itertools.product(E2, repeat=2):
        if a == b:
            continue
        yield P(prog([(2, B + [a]), (2, B + [b])], par=("N",)), plo=-1, phi=4)
        yield P(prog([(2, [B + [a], B + [b]])], par=("N",)), plo=-1, phi=4)
        yield P(prog([(2, B + [a]), (2, B + [b])], [["i", "0", "j"], ["i", "1", "j"]], par=("N",)), plo=-1, phi=4)
        yield P(prog([(2, B + [a]), (2, B + [b])], [["j", "i"], ["i", "j"]], par=("N",)), plo=-1, phi=4)
        yield P(prog([(2, B + [a, b])], par=("N",)), plo=-2, phi=6)
    E3 = ["k = i+j", "2*k = i+j", "k = N", "j = i", "3*j = i+k", "i+j+k = N+2", "2*i = k+1", "j = 2*k"]
    B3 = ["i >= 0", "i <= 4", "j >= -1", "j <= 4", "k >= -1", "k <= 5"]
    for a, b in itertools.product(E3, repeat=2):
        if a < b:
            yield P(prog([(3, B3 + [a, b])], par=("N",)), plo=-1, phi=4)
            yield P(prog([(3, B3 + [a]), (3, B3 + [b])], par=("N",)), plo=0, phi=3)
            yield P(prog([(3, B3 + [a, b])], [["k", "j", "i"]], par=("N",)), plo=0, phi=4)
            yield P(prog([(3, B3 + [a]), (3, B3 + [b])], [["i", "j", "0", "k"], ["i", "k", "1", "j"]], par=("N",)), plo=0, phi=2)


def g_guards(d=0):
    """conditions on the parameters and on outer iterators, shared and not"""
    C = [[], ["N >= 2"], ["N <= 1"], ["N = 3"], ["M >= N"], ["M+N = 2*e"], ["N = 2*e+1"], ["2*M >= N", "N >= 0"], ["M = N"], ["N >= 1", "M <= 2"]]
    D = [(1, ["i >= 0", "i <= 3"]), (1, ["i >= M", "i <= N"]), (2, ["i >= 0", "i <= 2", "j >= i", "j <= M"]), (0, [])]
    for a, b in itertools.product(C, repeat=2):
        for x, y in ((0, 0), (0, 1), (1, 1), (2, 0), (2, 2), (3, 1), (3, 3)):
            st = [(D[x][0], D[x][1] + a), (D[y][0], D[y][1] + b)]
            yield P(prog(st, par=("M", "N")), plo=-1, phi=3)
            if D[x][0] and D[y][0]:
                yield P(prog(st, [["i", "0"], ["i", "1"]], par=("M", "N")), plo=-1, phi=3)
        yield P(prog([(0, a), (1, ["i >= 0", "i <= 2"] + b), (0, b)], [["0", "0"], ["1", "i"], ["2", "0"]], par=("M", "N")), plo=-1, phi=3)
    I = ["j >= 2", "i+j <= 4", "2*i >= j", "i = j", "i+j = 2*e", "j = 3*e+i", "i >= N", "j <= N", "i <= 1", "3*j >= i+N"]
    B = ["i >= 0", "i <= 4", "j >= 0", "j <= 4"]
    for a, b, c in itertools.product(I, repeat=3):
        if a <= b:
            yield P(prog([(2, B + [a, c]), (2, B + [b, c])], par=("N",)), plo=0, phi=3)


def g_tiles(d=0):
    """tiled, strip-mined and shifted schedules of two statements"""
    D = [(1, ["i >= 0", "i <= N"]), (1, ["i >= 2", "i <= N+3"]), (1, ["i >= N", "i <= 7"])]
    def strip(t, e):
        return ["%d*s1 <= %s" % (t, e), "%d*s1 >= %s-%d" % (t, e, t - 1)]
    for t, u in itertools.product((2, 3, 4, 5), repeat=2):
        for e1, e2 in itertools.product(("i", "i+1", "i+N", "2*i"), ("i", "i-1")):
            for x, y in ((0, 1), (1, 2)):
                yield P(prog([D[x], D[y]], [(3, strip(t, e1) + ["s2 = i", "s3 = 0"]), (3, strip(u, e2) + ["s2 = i", "s3 = 1"])], par=("N",)), plo=0, phi=5)
                yield P(prog([D[x], D[y]], [(3, strip(t, e1) + ["s2 = 0", "s3 = i"]), (3, strip(u, e2) + ["s2 = 1", "s3 = i"])], par=("N",)), plo=0, phi=5)
    D2 = [(2, ["i >= 0", "i <= N", "j >= 0", "j <= i"]), (2, ["i >= 1", "i <= 4", "j >= i", "j <= 5"])]
    for t, u in itertools.product((2, 3), (2, 3, 4)):
        for f, g in itertools.product(("i", "i+j"), ("j", "j-i", "2*i+j")):
            r = ["%d*s1 <= %s" % (t, f), "%d*s1 >= %s-%d" % (t, f, t - 1), "%d*s2 <= %s" % (u, g), "%d*s2 >= %s-%d" % (u, g, u - 1)]
            yield P(prog([D2[0]], [(4, r + ["s3 = i", "s4 = j"])], par=("N",)), plo=0, phi=5)
            yield P(prog([D2[0], D2[1]], [(5, r + ["s3 = i", "s4 = j", "s5 = 0"]), (5, r + ["s3 = i", "s4 = j", "s5 = 1"])], par=("N",)), plo=0, phi=5)


def g_unions(d=0):
    """three statements, one or two of them unions, overlapping in all ways"""
    b2 = [["i >= 0", "i <= 2", "j >= 0", "j <= 2"], ["i >= 1", "i <= 3", "j >= 1", "j <= 3"], ["i >= 0", "i <= 3", "j = i"], ["i >= 2", "i <= N", "j >= 0", "j <= 1"],
          ["i = N", "j >= 0", "j <= 3"], ["i >= 0", "i <= 4", "j >= 0", "j <= 2", "i+j = 2*e"]]
    for a, b, c, e in itertools.product(b2, repeat=4):
        if a is b or c is e:
            continue
        yield P(prog([(2, [a, b]), (2, [c, e])], par=("N",)), plo=0, phi=4)
    for a, b, c in itertools.product(b2, repeat=3):
        yield P(prog([(2, a), (2, [b, c]), (2, b)], [["i", "j", "0"], ["i", "j", "1"], ["i", "j", "2"]], par=("N",)), plo=0, phi=4)
        yield P(prog([(2, a), (2, [b, c]), (1, ["i >= 1", "i <= N"])], [["i", "0", "j"], ["i", "1", "j"], ["i", "0", "2"]], par=("N",)), plo=0, phi=4)
        yield P(prog([(2, [a, b]), (2, [b, c])], [["i+j", "i"], ["j", "i"]], par=("N",)), plo=0, phi=4)
        yield P(prog([(2, [a, b, c])], [["j", "i"]], par=("N",)), plo=0, phi=4)


def g_many3(d=0):
    """3 to 5 statements: all arrangements of shapes under several schedules"""
    D = [["i >= 0", "i <= N"], ["i >= 2", "i <= 5"], ["i = N"], ["i >= N", "i <= 4"], ["i >= 0", "i <= 6", "i = 2*e"], ["2*i >= N", "3*i <= N+9"]]
    SC = [None, ["i"], ["0", "i"], ["i", "0"]]
    for t in itertools.product(D, repeat=4):
        yield P(prog([(1, x) for x in t], par=("N",)), plo=0, phi=3)
    for t in itertools.product(D, repeat=3):
        for k in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (2, 1, 0), (0, 0, 1)):
            yield P(prog([(1, x) for x in t], [["i", str(k[q])] for q in range(3)], par=("N",)), plo=0, phi=3)
            yield P(prog([(1, x) for x in t], [[str(k[q]), "i"] for q in range(3)], par=("N",)), plo=0, phi=3)
        yield P(prog([(1, x) for x in t], [["2*i"], ["2*i+1"], ["3*i"]], par=("N",)), plo=0, phi=3)
        yield P(prog([(1, x) for x in t], [["i", "0"], ["i+1", "1"], ["N-i", "2"]], par=("N",)), plo=0, phi=3)


def g_inner(d=0, A=(1, 2, 3)):
    """strides at any of two or three levels, alone or side by side"""
    for dom in ((2, ["i >= 0", "i <= N", "j >= 0", "j <= 2"]), (2, ["i >= 0", "i <= N", "j >= i", "j <= N"])):
        for a, b in itertools.product(A, (1, 2, 3)):
            for c, e in ((0, 0), (1, 0), (0, 1), (1, 1)):
                D1, D2 = aff((a, "i"), (c, "")), aff((b, "j"), (e, ""))
                yield P(prog([dom], [[D1, D2]], par=("N",)), plo=-1, phi=3)
                yield P(prog([dom], [[D1, aff((b, "j"), (c, "i"), (e, ""))]], par=("N",)), plo=-1, phi=3)
                yield P(prog([dom, dom], [["0", D1, D2], ["1", D1, D2]], par=("N",)), plo=-1, phi=2)
                yield P(prog([dom, dom], [[D1, "0", D2], [D1, "1", D2]], par=("N",)), plo=-1, phi=2)
    dom = (3, ["i >= 0", "i <= 2", "j >= 0", "j <= i", "k >= j", "k <= 2"])
    for a, b, c in itertools.product(A[:2], A[::2], (1, 2, 3)):
        yield P(prog([dom], [[aff((a, "i")), aff((b, "j")), aff((c, "k"))]]))
        yield P(prog([dom], [[aff((a, "i")), "0", aff((b, "j")), "1", aff((c, "k"))]]))


def g_inner1(d=0):
    """strides at the innermost level only"""
    return g_inner(d, (1,))


FAMILIES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("f_")}
EXTRA = {k[2:]: v for k, v in list(globals().items()) if k.startswith("g_")}

if __name__ == "__main__":
    import sys
    tot = 0
    for k, f in list(FAMILIES.items()) + list(EXTRA.items()):
        a = sum(1 for _ in f(0)); b = sum(1 for _ in f(1))
        print(k, a, b); tot += a
    print(tot)
