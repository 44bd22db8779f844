"""Other ways of writing the same program: a parser of the input format (independent of CLooG's) and equivalent re-writings."""


class Prog:
    pass


def parse(text):
    """text as written by fam.prog -> Prog (no comments expected)"""
    ls = [l for l in text.split("\n") if l.strip()]
    k = [0]

    def nxt():
        k[0] += 1
        return ls[k[0] - 1]

    def bset(h):
        n = list(map(int, h.split()))
        return dict(head=n, rows=[list(map(int, nxt().split())) for _ in range(n[0])])

    def uset():
        h = nxt()
        n = h.split()
        if len(n) == 1:
            return [bset(nxt()) for _ in range(int(n[0]))]
        return [bset(h)]

    def names():
        f = nxt().strip()
        return nxt().split() if f == "1" else None
    p = Prog()
    p.lang = nxt().strip()
    p.ctx = uset()
    h = p.ctx[0]["head"]
    p.npar = h[5] if len(h) == 6 else h[1] - 2
    p.par = names()
    p.stmts, p.opt = [], []
    for _ in range(int(nxt())):
        p.stmts.append(uset())
        p.opt.append(nxt())
    p.iters = names()
    p.scat, p.scatnames = [], None
    n = int(nxt())
    for _ in range(n):
        p.scat.append(uset())
    if n:
        p.scatnames = names()
    return p


def dims(p, kind, i, b):
    """(out, in, div, par) of a basic set"""
    h = b["head"]
    if len(h) == 6:
        return h[2:6]
    if kind == "ctx":
        return [0, 0, 0, p.npar]
    if kind == "dom":
        return [h[1] - 2 - p.npar, 0, 0, p.npar]
    d = dims(p, "dom", i, p.stmts[i][0])[0]
    return [h[1] - 2 - p.npar - d, d, 0, p.npar]


def emit(p, rows=None, ext=False, one=False, rev=False, twice=False, comment=None, blank="", sep=" ", lead="", trail=""):
    """rows(list of rows) -> list of rows.  comment(n) -> text appended to line n"""
    out, cnt = [], [0]

    def w(s):
        cnt[0] += 1
        out.append(lead + s + trail + (comment(cnt[0]) if comment else "") + "\n" + blank)

    def set_(u, kind, i):
        u = list(u)
        if rev:
            u.reverse()
        if twice and kind == "dom":
            u = u + [u[0]]
        e = ext or any(len(b["head"]) == 6 for b in u)
        if len(u) > 1 or one:
            w("%d" % len(u))
        for b in u:
            r = rows(b["rows"]) if rows else b["rows"]
            n = b["head"][1]
            if e:
                w(sep.join(map(str, [len(r), n] + list(dims(p, kind, i, b)))))
            else:
                w(sep.join(map(str, [len(r), n])))
            for x in r:
                w(sep.join(map(str, x)))

    def names(v):
        w("1" if v else "0")
        if v:
            w(sep.join(v))
    w(p.lang)
    set_(p.ctx, "ctx", 0)
    names(p.par)
    w("%d" % len(p.stmts))
    for i, u in enumerate(p.stmts):
        set_(u, "dom", i)
        w(p.opt[i])
    names(p.iters)
    w("%d" % len(p.scat))
    for i, u in enumerate(p.scat):
        set_(u, "scat", i)
    if p.scat:
        names(p.scatnames)
    return "".join(out)


def scale(k):
    return lambda rows: [[r[0]] + [k * x for x in r[1:]] for r in rows]


def neg_eq(rows):
    return [[0] + [-x for x in r[1:]] if r[0] == 0 else r for r in rows]


def split_eq(rows):
    out = []
    for r in rows:
        if r[0] == 0:
            out += [[1] + r[1:], [1] + [-x for x in r[1:]]]
        else:
            out.append(r)
    return out


def weaker(rows):
    return rows + [r[:-1] + [r[-1] + 1 + i] for i, r in enumerate(rows) if r[0] == 1]


def trivial(rows):
    if not rows:
        return rows
    n = len(rows[0])
    return [[1] + [0] * (n - 2) + [7]] + rows + [[0] + [0] * (n - 1)]


FORMS = {
    "same": {},
    "reversed rows": dict(rows=lambda r: r[::-1]),
    "rotated rows": dict(rows=lambda r: r[1:] + r[:1]),
    "scaled by 3": dict(rows=scale(3)),
    "negated equalities": dict(rows=neg_eq),
    "equalities split": dict(rows=split_eq),
    "rows twice": dict(rows=lambda r: r + r),
    "redundant rows": dict(rows=weaker),
    "trivial rows": dict(rows=trivial),
    "extended": dict(ext=True),
    "extended, reversed": dict(ext=True, rows=lambda r: r[::-1]),
    "explicit unions": dict(one=True),
    "explicit extended unions": dict(one=True, ext=True, rows=neg_eq),
    "reversed unions": dict(rev=True),
    "repeated member": dict(twice=True),
    "comments": dict(comment=lambda n: " # line %d" % n, blank="# a comment of 1 2 3 numbers\n"),
    "blank lines": dict(blank="\n"),
    "spaces": dict(sep="   ", lead="  ", trail="   "),
    "tabs": dict(sep="\t", trail="\t"),
    "all together": dict(rows=lambda r: neg_eq(scale(2)(weaker(r)))[::-1], ext=True, one=True, rev=True, comment=lambda n: "   # x", blank="\n# 0 0\n"),
}


def variant(text, name, names=True):
    p = parse(text)
    if not names:
        p.par = p.iters = p.scatnames = None
    base = emit(p)
    return base + "\x01" + emit(p, **FORMS[name])


if __name__ == "__main__":
    import fam
    n = 0
    for f in fam.FAMILIES:
        for t, a in fam.FAMILIES[f](0):
            p = parse(t)
            if emit(p).split() != t.split():
                print(f, t, emit(p)); raise SystemExit
            n += 1
    print(n)


def long_names(text):
    """names that differ in their last character only, as long as the line allows"""
    p = parse(text)
    n = [p.npar, max([dims(p, "dom", i, u[0])[0] for i, u in enumerate(p.stmts)] or [0]), max([dims(p, "scat", i, u[0])[0] for i, u in enumerate(p.scat)] or [0])]
    w = "".join("_with_a_name_that_goes_on_and_on" for _ in range(4))
    p.par, p.iters, p.scatnames = [[t + w[:max(0, min(100, 900 // max(1, k) - 15))] + "_%d" % j for j in range(k)] for t, k in zip(("par", "it", "scattering"), n)]
    return emit(p)
