"""C10: a result depends only on its own input, never on the history of the process."""
from vlib import explore
import engine as E
import fam

RULE = ("all sequences, up to the depth of each part, of operations (program x options x language x {state and options shared, state shared, nothing shared} x {freed at once, kept to the end} x "
        "{printed program, AST, input written back}), each sequence in its own process, and long histories going through all operations several times; every result compared byte for byte with the one of a fresh process whose memory is filled with another pattern; "
        "states count nodes of the tree of histories, traces complete histories; non-trivial: results after a non-empty history")


def programs():
    p = fam.prog
    T1, T2 = (2, ["i >= 0", "i <= N", "j >= 0", "j <= N"]), (2, ["i >= 2", "i <= N+2", "j >= i", "j <= N+3"])
    return [
        p([(1, ["i >= 0", "i <= N"]), (1, ["i >= 2", "i <= N+3"])], [["i", "0"], ["i", "1"]], par=("N",)),
        p([T1, T2], par=("N",)),
        p([(2, ["i >= 0", "i <= M", "j >= 0", "j <= 9", "j = 2*e+i"]), (1, ["i >= 1", "i <= M", "i = 3*e"])], par=("M",), names=False),
        p([T1, T2, (0, ["N >= 3"])], [["0", "i+j", "i", "0"], ["0", "j", "i", "1"], ["1", "0", "0", "0"]], par=("N",), names=False),
        p([(3, ["i >= 0", "i <= N", "j >= i", "j <= N", "k >= 0", "k <= j"]), (3, ["i >= 1", "i <= N+1", "j >= 0", "j <= N", "k >= i", "k <= N"])], par=("N",)),
        p([(1, [["i >= 0", "i <= N"], ["i >= N+3", "i <= N+6"]]), (1, ["2*i >= N", "3*i <= 20"])], par=("N",)),
        p([(1, ["i >= N", "i <= 12"])], [(2, ["3*s1 <= i", "3*s1 >= i-2", "s2 = i"])], par=("N",)),
        p([(0, []), (1, ["i = 7"]), (2, ["i >= 0", "i <= 3", "j = i"])]),
        p([T1, T1, T2], [["i", "j", "0"], ["i", "j", "1"], ["i", "j", "2"]], par=("N",), ctx=["N >= 4"]),
        p([(1, ["i >= 0", "i <= 5", "i = 2*e+N"]), (1, ["i >= 0", "i <= M"])], par=("M", "N"), ctx=["M >= N"], names=False),
    ]


def cases(progs, opts, n, step=1, **at):
    text = "\1".join(progs)
    return [E.Case(k, text, dict(kind="hist", first=k * step, count=step, tmo=600, **at), opts, "history/%d" % k) for k in range((n + step - 1) // step)]


def run(rep, thorough):
    A = dict(chunk=1)
    P = programs()
    O = ["-f 2", "-strides 1", "-l 1 -otl 0", "-first-unroll 1", "", "-l 2 -f 2 -esp 0", "-f -1 -sh 1 -noscalars"]
    p, o = (P[:6], O[:3]) if not thorough else (P, O)
    n = len(p) * len(o) * 2 * 3 * 2
    explore(rep, "pairs of generations", cases(p, o, n, step=4, depth=2), **A)
    p, o = (P[2:6], O[2:4]) if not thorough else (P[1:8], O)
    n = len(p) * len(o) * 3 * 2 * 3
    explore(rep, "pairs with ASTs and dumps", cases(p, o, n, step=4, depth=2, langs=1, hows=3), **A)
    p, o = (P[1:4], O[1:3]) if not thorough else (P[:4], O[:3])
    n = len(p) * len(o) * 2 * 2
    explore(rep, "triples", cases(p, o, n, depth=3, langs=1, modes=2), **A)
    p, o = P[:2], O[:1]
    explore(rep, "triples, language letters", cases(p, o, len(p) * len(o) * 3 * 2 * 2, step=2, depth=3, langs=3, modes=2), **A)
    ch = 12 if thorough else 2
    cs = cases(P, O, 1, depth=1, chain=ch, langs=3, hows=2, keeps=1) + cases(P[::-1], O[::-1], 1, depth=1, chain=ch, langs=2, modes=2, hows=2) + cases(P[:5], O, 1, depth=1, chain=ch, langs=2, hows=3)
    for k, c in enumerate(cs):
        c.id = k
    explore(rep, "long histories", cs, **A)
    if thorough:
        p, o = P[2:4], O[1:3]
        n = len(p) * len(o) * 2 * 2
        explore(rep, "depth 4", cases(p, o, n, depth=4, langs=1, modes=2), **A)
        n = len(P) * len(O)
        explore(rep, "many programs, depth 3", cases(P, O[:2], len(P) * 2, depth=3, langs=1, modes=1, keeps=1), **A)
    return rep.finish("model_checking", RULE)
