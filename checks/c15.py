"""C15: malformed input is refused cleanly."""
import os, re, resource, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
import build as B
import vlib

RULE = ("for every seed input: every truncation (at every byte), every single-token corruption (each token replaced by each of the listed values, deleted, duplicated, swapped with its neighbour), "
        "every single-line deletion, duplication and swap, a comment or an over-long line or a zero byte before every line (thorough: all pairs of corruptions of count tokens too), "
        "given to the tool compiled with address and undefined-behaviour sanitizers under a CPU limit; it must either accept (status 0) or stop with status 1 and a message; truncations that "
        "lose a whole token of the announced statements or scatterings, and matrix entries that are no numbers, must be refused; states: distinct inputs, transitions: bytes given, non-trivial: distinct outcomes (status and text)")
CPU = 30
MAXBAD = int(os.environ.get("MAXBAD", "6"))


class S:
    """a seed: pieces of text with their roles"""
    def __init__(self):
        self.p = []

    def add(self, text, role):
        self.p.append((text, role))
        return self

    def text(self):
        return "".join(t for t, _ in self.p)

    def spans(self):
        """[(start, end, token, role)]"""
        out, o = [], 0
        for t, r in self.p:
            for m in re.finditer(r"\S+", t):
                out.append((o + m.start(), o + m.end(), m.group(), r))
            o += len(t)
        return out


def mat(rows, cols):
    return "%d %d\n" % (len(rows), cols) + "".join(" ".join(map(str, r)) + "\n" for r in rows)


def seed(lang, ctx, npar, pn, doms, itn, scats=None, sn=None):
    """roles: L language, C context, P parameter names, N number of statements, D domain count, M matrix, Z zeros,
    I iterator names, K scattering count, S scattering matrix, T scattering names"""
    s = S().add(lang + "\n", "L").add(mat(ctx, npar + 2), "C")
    s.add("1\n" + pn + "\n" if pn else "0\n", "P").add("%d\n" % len(doms), "N")
    for d in doms:
        if isinstance(d, str):
            s.add(d + "\n", "X")
        else:
            if len(d) != 1 or d[0][2]:
                s.add("%d\n" % len(d), "D")
            for rows, cols, _ in d:
                s.add(mat(rows, cols), "M")
        s.add("0 0 0\n", "Z")
    s.add("1\n" + itn + "\n" if itn else "0\n", "I")
    if scats is None:
        return s.add("0\n", "E")
    s.add("%d\n" % len(scats), "K")
    for rows, cols in scats:
        s.add(mat(rows, cols), "S")
    return s.add("1\n" + sn + "\n" if sn else "0\n", "T")


def seeds():
    L = {}
    d1 = [([[1, 1, 0, 0], [1, -1, 1, 0]], 4, 1)]
    d2 = [([[1, 1, 0, 0, -1], [1, -1, 0, 1, 0], [1, 0, 1, 0, 0], [1, 1, -1, 0, 2]], 5, 1)]
    d2b = [([[0, 1, -1, 0, 0], [1, 1, 0, 0, -2], [1, -1, 0, 1, 3]], 5, 0)]
    u = [([[1, 1, 0, 0], [1, -1, 0, 2]], 4, 1), ([[1, 1, 0, -5], [1, -1, 0, 9], [0, 1, 0, -7]], 4, 1)]
    L["one"] = seed("c", [[1, 1, -4]], 1, "N", [d1], "i")
    L["plain"] = seed("c", [], 1, None, [d1, d1], None)
    L["two"] = seed("f", [[1, 1, -4]], 1, "M", [d2, d2b], "i j")
    L["union"] = seed("c", [[1, 1, 0]], 1, "N", [u, d1], "i")
    L["scat"] = seed("c", [[1, 1, -4]], 1, "M", [d2, d2b], "i j", [([[0, 1, 0, -1, 0, 0, 0], [0, 0, 1, 0, 0, 0, 0]], 7), ([[0, 1, 0, -2, 0, 0, -1], [0, 0, 1, 0, 0, 0, -1]], 7)], "c1 c2")
    L["scatnoname"] = seed("f", [[1, 1, -4]], 1, None, [d2], None, [([[0, 1, 0, -1]], 5)] and [([[0, 1, -1, -1, 0, 0]], 6)])
    L["nopar"] = seed("c", [], 0, None, [[([[1, 1, 0], [1, -1, 3]], 3, 1)], [([[1, 1, 0], [1, -1, 3]], 3, 0)]], "i")
    L["depth0"] = seed("c", [[1, 1, 0]], 1, None, [[([[1, 1, -3]], 3, 1)], d1], None)
    L["two params"] = seed("c", [[1, 1, 0, -2], [1, -1, 1, 0]], 2, "M N", [[([[1, 1, 0, 0, 0], [1, -1, 1, 0, 0], [1, -2, 0, 1, -1]], 5, 1)]], "i")
    L["isl"] = seed("c", [[1, 1, 0]], 1, "N", ["[N] -> { [i] : 0 <= i <= N and exists (e : i = 2e) }", d1], "i")
    L["many"] = seed("c", [[1, 1, -1]], 1, "N", [d1, d1, d1, d1], "i", [([[0, 1, 0, -1, 0, 0], [0, 0, 1, 0, 0, -k]], 6) for k in range(4)], "t u")
    # the same with comments and blank lines everywhere
    c = S()
    for t, r in L["scat"].p:
        c.add("# comment 1 2 3\n\n   # indented comment\n" if r != "S" and r != "M" else "", "#").add(t, r)
    L["comments"] = c
    return L


REPL = ["", "-1", "0", "1", "2", "3", "7", "99999", "2147483647", "-2147483648", "4294967296", "999999999999999999999999", "x", "#", "1x", "-", "1.5", "{", "}", "[", "]", "\0", "\xff", "a" * 5000, "1 " * 400]


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


ENV = dict(PATH="/usr/bin:/bin", LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:exitcode=23:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=3500",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=23")


def run_one(cli, data, opts):
    try:
        r = subprocess.run([cli] + opts + ["stdin"], input=data, capture_output=True, env=ENV, preexec_fn=limits, timeout=240)
    except subprocess.TimeoutExpired:
        return None, b"", b""
    return r.returncode, r.stdout, r.stderr


def cases(s, thorough):
    """(name, data, must be refused)"""
    t, sp = s.text(), s.spans()
    order = [x[3] for x in sp]
    lastz = max(i for i, x in enumerate(sp) if x[3] == "Z")
    firsti = next(i for i, x in enumerate(sp) if x[3] == "I")
    ks = [i for i, x in enumerate(sp) if x[3] == "K"]
    lasts = max([i for i, x in enumerate(sp) if x[3] == "S"], default=-1)
    for p in range(len(t)):
        # first token that is lost altogether
        lost = next((i for i, x in enumerate(sp) if x[0] >= p and x[3] != "#"), len(sp))
        must = lost <= lastz or (ks and ks[0] < lost <= lasts)
        yield "truncated at byte %d" % p, t[:p], must
    for i, (a, b, tok, r) in enumerate(sp):
        if r == "#":
            continue
        for v in REPL:
            must = v == "x" and r in "MSD" or (v == "x" and r in "NC")
            yield "token %d '%s' (%s) replaced by '%s'" % (i, tok, r, v[:12]), t[:a] + v + t[b:], must
        yield "token %d '%s' (%s) duplicated" % (i, tok, r), t[:b] + " " + tok + t[b:], False
        if i + 1 < len(sp):
            a2, b2, tok2 = sp[i + 1][:3]
            yield "tokens %d and %d swapped" % (i, i + 1), t[:a] + tok2 + t[b:a2] + tok + t[b2:], False
    lines = t.splitlines(True)
    for i in range(len(lines)):
        J = "".join
        yield "line %d deleted" % i, J(lines[:i] + lines[i + 1:]), False
        yield "line %d duplicated" % i, J(lines[:i + 1] + lines[i:]), False
        if i + 1 < len(lines):
            yield "lines %d and %d swapped" % (i, i + 1), J(lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2:]), False
        for nm, x in (("comment", "# x y z\n"), ("over-long comment", "#" + "y" * 6000 + "\n"), ("over-long blanks", " " * 6000 + "\n"), ("word", "word\n"), ("zero byte", "\0\n"), ("carriage return", "\r\n")):
            yield "%s before line %d" % (nm, i), J(lines[:i] + [x] + lines[i:]), False
    if thorough:
        cnt = [i for i, x in enumerate(sp) if x[3] in "NDKPITEZ" or re.fullmatch(r"\d+", x[2]) and x[3] in "CMS" and t[:x[0]].rstrip(" ").endswith("\n")]
        for i in cnt:
            for j in cnt:
                if i < j:
                    for v in ("", "-1", "0", "1", "2", "5", "x"):
                        for w in ("", "-1", "0", "1", "2", "5", "x"):
                            yield "tokens %d, %d replaced by '%s', '%s'" % (i, j, v, w), t[:sp[i][0]] + v + t[sp[i][1]:sp[j][0]] + w + t[sp[j][1]:], False


def judge(rc, out, err, must):
    if rc is None:
        return "no answer within the time limit"
    if rc < 0:
        return "killed by signal %d" % -rc + (" (CPU limit)" if -rc in (24, 9) else "")
    if rc == 23 or b"ERROR: AddressSanitizer" in err or b"runtime error" in err:
        m = re.search(rb"(ERROR: \w+Sanitizer[^\n]*|[^\n]*runtime error[^\n]*)", err)
        return "memory or undefined-behaviour error: " + (m.group(1).decode(errors="replace")[:200] if m else "")
    if rc not in (0, 1):
        return "exit status %d" % rc
    if rc == 1 and not err.strip():
        return "refused without a message"
    if rc == 0 and must:
        return "accepted although it cannot be read"
    return None


def run(rep, thorough):
    cli = B.build("asan", B.PROGS)["cloog"]
    outcomes = set()
    for nm, s in seeds().items():
        rc, out, err = run_one(cli, s.text().encode("latin1"), [])
        if rc != 0:
            rep.violate("valid input '%s' not accepted: %s" % (nm, err[:200].decode(errors="replace")), s.text())
            continue
        L, seen = [], set()
        for c in cases(s, thorough):
            if c[1] in seen and not c[2]:
                continue
            seen.add(c[1])
            L.append(c)
        bad = acc = 0
        size = 0
        with ThreadPoolExecutor(8) as ex:
            for (what, data, must), (rc, out, err) in zip(L, ex.map(lambda c: run_one(cli, c[1].encode("latin1"), []), L)):
                size += len(data)
                acc += rc == 0
                outcomes.add("%s %s" % (rc, hashlib.sha256(re.sub(rb"in \d+\.\d+s", b"", out)).hexdigest()[:16]))
                e = judge(rc, out, err, must)
                if e:
                    bad += 1
                    if bad <= MAXBAD:
                        rep.violate("%s, %s: %s" % (nm, what, e), b"# C15 %s, %s: %s\n# run: cloog stdin < (the lines below)\n# stderr: %s\n" % (
                            nm.encode(), what.encode("latin1"), e.encode("latin1", "replace"), err[:1500].replace(b"\n", b"\n# ")) + data.encode("latin1"))
        rep.add(states=len(seen), transitions=size, traces=len(L), evals=len(L))
        rep.part(nm, inputs=len(L), accepted=acc, refused=len(L) - acc - bad, must_refuse=sum(1 for c in L if c[2]), bad=bad)
        if len(rep.samples) < 4:
            rep.sample(dict(seed=nm, program=s.text()[:500], cases=[c[0] for c in L[:: max(1, len(L) // 8)]][:10]))
    rep.hashes |= outcomes
    return rep.finish("model_checking", RULE)
