"""C14: the command line does what it says."""
import itertools, os, re, shutil, subprocess, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
import build as B

RULE = ("every sequence of up to 2 option units (up to 3 on a subset; thorough: 3 on all) x every position of the input word x input programs in C and Fortran, input from file or stdin, output to stdout, "
        "'-o stdout' or a file; the independent model of the option language below maps the sequence to one setting of the library, whose own output is what the tool must print there and nowhere else. "
        "every option with every invalid value, every option as last word, unreadable inputs, uncreatable or unwritable outputs and several inputs must be refused; "
        "states: distinct settings x inputs, transitions: option words consumed, traces: command lines run; non-trivial: distinct output texts")

# ---- the model of the option language (from the manual, not from the parser) -------------
FIELDS = ["l", "f", "stop", "strides", "sh", "first_unroll", "otl", "esp", "fsp", "block", "compilable", "callable",
          "exact_clast_filtering", "backtrack", "override", "noblocks", "noscalars", "nosimplify", "structure"]
DEFAULT = dict(l=-1, f=1, stop=-1, strides=0, sh=0, first_unroll=-1, otl=1, esp=1, fsp=1, block=0, compilable=0, callable=0,
               exact_clast_filtering=0, backtrack=0, override=0, noblocks=0, noscalars=0, nosimplify=0, structure=0)
VALUED = {"-l": "l", "-f": "f", "-stop": "stop", "-strides": "strides", "-sh": "sh", "-first-unroll": "first_unroll",
          "-otl": "otl", "-esp": "esp", "-fsp": "fsp", "-block": "block", "-compilable": "compilable", "-callable": "callable",
          "-exact-clast-filtering": "exact_clast_filtering"}
FLAGS = {"-loopo": dict(esp=0, block=1), "-nobacktrack": dict(backtrack=0), "-bipbip": dict(backtrack=0), "-backtrack": dict(backtrack=1),
         "-override": dict(override=1), "-noblocks": dict(noblocks=1), "-noscalars": dict(noscalars=1), "-nosimplify": dict(nosimplify=1),
         "-struct": dict(structure=1), "-structure": dict(structure=1), "-q": {}, "--quiet": {}}
UNITS = [("-l", "1"), ("-l", "-1"), ("-l", "2"), ("-f", "-1"), ("-f", "2"), ("-f", "1"), ("-stop", "1"), ("-stop", "-1"), ("-strides", "1"), ("-strides", "0"),
         ("-sh", "1"), ("-sh", "0"), ("-first-unroll", "1"), ("-first-unroll", "-1"), ("-otl", "0"), ("-otl", "1"), ("-esp", "0"), ("-esp", "1"),
         ("-fsp", "2"), ("-fsp", "1"), ("-block", "1"), ("-block", "0"), ("-compilable", "3"), ("-compilable", "0"), ("-compilable", "-2"), ("-callable", "1"), ("-callable", "0"),
         ("-exact-clast-filtering", "1"), ("-exact-clast-filtering", "0"), ("-l", "+2"), ("-compilable", "010"), ("-f", " 2"), ("-stop", "007")] + [(f,) for f in FLAGS]
SUB = [("-l", "1"), ("-f", "-1"), ("-f", "1"), ("-strides", "1"), ("-strides", "0"), ("-otl", "0"), ("-esp", "0"), ("-esp", "1"), ("-block", "0"), ("-callable", "1"), ("-compilable", "3"), ("-loopo",),
       ("-noblocks",), ("-q",)]


def model(units):
    s = dict(DEFAULT)
    for u in units:
        if u[0] in VALUED:
            s[VALUED[u[0]]] = int(u[1])
        else:
            s.update(FLAGS[u[0]])
    return tuple(s[f] for f in FIELDS)


# ---- inputs: chosen so that every option changes the text of at least one of them ----------
DOM = "1\n4 5\n1 1 0 0 -1\n1 -1 0 1 0\n1 0 1 0 0\n1 1 -1 0 2\n0 0 0\n"
A = ("%s\n\n1 3\n1 1 -4\n1\nM\n\n3\n" % "c" + DOM + "1\n3 5\n0 1 -1 0 0\n1 1 0 0 -2\n1 -1 0 1 3\n0 0 0\n" + DOM + "1\ni j\n\n3\n"
     "2 7\n0 1 0 -1 0 0 0\n0 0 1 0 0 0 0\n" "2 7\n0 1 0 -2 0 0 -1\n0 0 1 0 0 0 -1\n" "2 7\n0 1 0 -1 0 0 0\n0 0 1 0 0 0 0\n" "1\nc1 c2\n")
BF = ("f\n\n1 3\n1 1 -2\n0\n\n2\n1\n3 4\n1 1 0 0\n1 -2 1 0\n1 1 0 -1\n0 0 0\n1\n4 6\n0 1 0 -3 0 0\n1 1 0 0 0 0\n1 -1 0 0 1 0\n0 0 1 0 -1 0\n0 0 0\n0\n\n0\n").replace("4 6\n0 1 0 -3 0 0\n1 1 0 0 0 0\n1 -1 0 0 1 0\n0 0 1 0 -1 0\n", "4 5\n1 1 0 0 0\n1 -1 0 1 0\n1 0 1 -1 0\n1 -2 -1 3 4\n")
C3 = ("c\n\n1 2\n1 5\n0\n\n3\n1\n2 3\n1 1 0\n1 -1 2\n0 0 0\n2\n2 3\n1 1 1\n1 -1 1\n3 3\n1 1 -3\n1 -1 9\n0 1 -5\n0 0 0\n1\n2 3\n1 1 0\n1 -1 2\n0 0 0\n0\n\n0\n")
D4 = 'c\n2\n1 4\n0 0 1 -1\n1 4\n0 0 1 -3\n1\nM N\n1\n2 5\n1 1 -1 0 0\n1 -1 0 1 0\n0 0 0\n1\ni\n0\n'
E5 = 'c\n0 3\n1\nN\n2\n4 5\n1 1 0 0 0\n1 -1 0 0 3\n1 0 1 0 0\n1 0 -1 1 0\n0 0 0\n3 5\n1 1 0 0 0\n1 -1 0 0 3\n0 1 1 -1 0\n0 0 0\n1\ni j\n0\n'
INPUTS = {"a.cloog": A, "b.cloog": BF, "c.cloog": C3, "d.cloog": D4, "e.cloog": E5}
# names that look like the special ones
ALIAS = {"stdin2": A, "stdin.cloog": C3, "xstdin": A, "stdou": A, "a": A, "1": A}
# values no option may take: not an integer, or not one that an int can hold
BADVAL = ["x", "1x", "", "-", "--1", "0x1", "1.5", "1 2", "99999999999999999999", "4294967297", "-o"]


class Tool:
    def __init__(self, rep):
        p = B.build("fast", B.PROGS)
        self.cli, self.ref, self.rep = p["cloog"], p["optref"], rep
        self.dir = tempfile.mkdtemp(prefix="c14.")
        for k, v in list(INPUTS.items()) + list(ALIAS.items()):
            open(os.path.join(self.dir, k), "w").write(v)
        self.cache, self.n = {}, 0

    def env(self):
        return dict(PATH="/usr/bin:/bin", LC_ALL="C")

    def sub(self, argv, stdin=None, out=None, cwd=None):
        try:
            return subprocess.run(argv, cwd=cwd or self.dir, input=stdin, stdout=out or subprocess.PIPE, stderr=subprocess.PIPE, env=self.env(), timeout=60)
        except subprocess.TimeoutExpired:
            return subprocess.CompletedProcess(argv, 124, b"", b"timeout")

    def expect(self, inp, name, setting):
        k = (inp, name, setting)
        if k not in self.cache:
            r = self.sub([self.ref, inp, name] + [str(x) for x in setting])
            self.cache[k] = norm(r.stdout) if r.returncode == 0 else None
        return self.cache[k]


def norm(t):
    return re.sub(rb"in \d+\.\d+s\.", b"in Xs.", t)


def show(argv, extra=""):
    return "command line (in a directory holding the inputs below): cloog " + " ".join("'%s'" % a for a in argv) + "\n" + extra


def dump():
    return "".join("--- %s\n%s" % kv for kv in INPUTS.items())


def run(rep, thorough):
    T = Tool(rep)
    try:
        return check(rep, T, thorough)
    finally:
        shutil.rmtree(T.dir, ignore_errors=True)


def check(rep, T, thorough):
    texts, settings = set(), set()

    def good(args):
        i, units, inp, pos, src, dst = args
        w = [list(u) for u in units]
        name = "stdin" if src == "stdin" else inp
        argv = sum(w[:pos], []) + [name] + sum(w[pos:], [])
        out = None
        if dst == "stdout":
            argv = ["-o", "stdout"] + argv
        elif dst:
            out = ("stdout%d" if dst == 3 else "out.%d") % i
            # an earlier -o loses
            if dst == 3:
                open(os.path.join(T.dir, out), "w").write("earlier content\n" * 20000)
            argv = (["-o", out + ".lost"] if dst == 2 else []) + argv + ["-o", out]
        r = T.sub([T.cli] + argv, stdin=INPUTS[inp].encode() if src == "stdin" else b"")
        s = model(units)
        e = T.expect(inp, name, s)
        if e is None:
            return argv, "the library itself fails with this setting", None, s
        got = norm(r.stdout)
        if dst and dst != "stdout":
            p = os.path.join(T.dir, out)
            if not os.path.exists(p):
                return argv, "the output file was not created", None, s
            f = norm(open(p, "rb").read())
            os.remove(p)
            if dst == 2:
                lost = os.path.join(T.dir, out + ".lost")
                if os.path.exists(lost):
                    if os.path.getsize(lost):
                        return argv, "an output file replaced by a later one was written", None, s
                    os.remove(lost)
            if s[FIELDS.index("structure")]:
                # the internal structure goes to the standard output, the code to the file
                got = got + f
            elif got:
                return argv, "text on standard output although an output file was given", None, s
            else:
                got = f
        if r.returncode != 0:
            return argv, "exit status %d: %s" % (r.returncode, r.stderr[:200].decode(errors="replace")), None, s
        if got != e:
            return argv, "the text differs from the library's with the same settings:\n--- got\n%s\n--- expected\n%s" % (
                got[:3000].decode(errors="replace"), e[:3000].decode(errors="replace")), None, s
        if any(u[0] in ("-q", "--quiet") for u in units) and (b"INFO" in r.stderr or b"WARNING" in r.stderr):
            return argv, "informational messages although quiet: %s" % r.stderr[:200].decode(errors="replace"), None, s
        return argv, None, hashlib.sha256(e).hexdigest()[:16], s

    def sweep(name, cmds):
        bad = n = words = 0
        with ThreadPoolExecutor(8) as ex:
            for argv, err, h, s in ex.map(good, cmds):
                n += 1
                words += len(argv)
                settings.add((argv and s))
                if h:
                    texts.add(h)
                if err:
                    bad += 1
                    if bad <= 8:
                        rep.violate("%s: cloog %s: %s" % (name, " ".join(argv), err.split("\n")[0]), show(argv, err + "\n" + dump()))
        rep.add(transitions=words, traces=n, evals=n)
        rep.part(name, command_lines=n, bad=bad)

    ins = sorted(INPUTS)
    cnt = itertools.count()

    def seqs(units, k, inputs, positions, src=("file",), dst=(0,)):
        for us in itertools.product(units, repeat=k):
            for inp in inputs:
                for pos in positions:
                    for sr in src:
                        for ds in dst:
                            yield (next(cnt), us, inp, pos, sr, ds)

    sweep("no option", seqs(UNITS, 0, ins, [0], ("file", "stdin"), (0, "stdout", 1, 2, 3)))
    sweep("odd names", ((next(cnt), us, inp, 0, "file", ds) for us in [()] + [(u,) for u in SUB] for inp in sorted(ALIAS) for ds in (0, 1)))
    sweep("one option", seqs(UNITS, 1, ins, [0, 1], ("file", "stdin"), (0, "stdout", 1, 2)))
    sweep("two options", seqs(UNITS, 2, ins if thorough else ["a.cloog"], [0, 2]))
    if not thorough:
        sweep("two options (others)", seqs(UNITS, 2, ins[1:], [1]))
        sweep("two options to a file", seqs(SUB, 2, ["a.cloog"], [1], ("file",), (1, 3)))
    sweep("three options", seqs(UNITS if thorough else SUB, 3, ["a.cloog"], [1]))
    if thorough:
        sweep("four options", seqs(SUB, 4, ["a.cloog"], [2]))
    rep.sample(dict(argv=["-otl", "0", "a.cloog", "-strides", "1"], setting=dict(zip(FIELDS, model([("-otl", "0"), ("-strides", "1")])))))

    # ---- what has to be refused ------------------------------------------------------------
    def refused(argv, why, stdin=b""):
        r = T.sub([T.cli] + argv, stdin=stdin)
        msg = r.stderr
        if r.returncode in (0, 124) or r.returncode < 0:
            return "%s accepted (status %d)" % (why, r.returncode)
        if not msg.strip():
            return "%s refused without a message" % why
        if b"Sanitizer" in msg or b"for (" in r.stdout:
            return "%s: code printed although refused" % why
        return None

    neg = []
    for o in VALUED:
        for v in BADVAL:
            for pre, post in (([], ["a.cloog"]), (["a.cloog"], [])):
                neg.append((pre + [o, v] + post, "value '%s' for %s" % (v, o)))
            neg.append((["-otl", "0", o, v, "a.cloog", "-q"], "value '%s' for %s" % (v, o)))
            neg.append(([o, "1", o, v, "a.cloog"], "second value '%s' for %s" % (v, o)))
        neg.append((["a.cloog", o], "missing argument of %s" % o))
        neg.append((["a.cloog", "-q", o], "missing argument of %s" % o))
        neg.append((["a.cloog", o, "1", o], "missing argument of the second %s" % o))
        neg.append(([o, "a.cloog"], "file name as value of %s" % o))
        for u in UNITS:
            neg.append((["a.cloog"] + list(u) + [o], "missing argument of %s" % o))
            neg.append((list(u) + [o, "1x", "a.cloog"], "value '1x' for %s" % o))
    neg += [(["a.cloog", "-o"], "missing argument of -o"), (["-o"], "missing argument of -o"), ([], "no input"), (["-o", "stdout"], "no input"),
            (["nosuch.cloog"], "missing input file"), (["nosuch.cloog", "-otl", "0"], "missing input file"), (["-q", "nosuch.cloog"], "missing input file"),
            (["a.cloog", "-o", "nodir/x"], "uncreatable output"), (["-o", "nodir/x", "a.cloog"], "uncreatable output"),
            (["a.cloog", "-o", "."], "directory as output"), (["."], "directory as input"),
            (["a.cloog", "b.cloog"], "two inputs"), (["a.cloog", "a.cloog"], "two inputs"), (["a.cloog", "-otl", "0", "stdin"], "two inputs"), (["stdin", "stdin"], "two inputs"),
            (["a.cloog", "-o", "/dev/full"], "unwritable output"), (["-o", "/dev/full", "-otl", "0", "b.cloog"], "unwritable output")]
    for u in UNITS:
        neg.append((list(u), "no input"))
        neg.append((list(u) + ["nosuch.cloog"], "missing input file"))
        neg.append((["a.cloog"] + list(u) + ["b.cloog"], "two inputs"))
        neg.append((["a.cloog"] + list(u) + ["-o"], "missing argument of -o"))
        neg.append((["a.cloog", "-o", "nodir/x"] + list(u), "uncreatable output"))
        neg.append((["a.cloog", "-o", "/dev/full"] + list(u), "unwritable output"))
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for (argv, why), err in zip(neg, ex.map(lambda a: refused(*a), neg)):
            if err:
                bad += 1
                if bad <= 8:
                    rep.violate("cloog %s: %s" % (" ".join("'%s'" % a for a in argv), err), show(argv, err + "\n" + dump()))
    # standard output closed on a full device
    with open("/dev/full", "wb") as full:
        r = T.sub([T.cli, "a.cloog"], stdin=b"", out=full)
    if r.returncode == 0:
        bad += 1
        rep.violate("cloog a.cloog > /dev/full: lost output reported as success", show(["a.cloog"], "> /dev/full\n" + dump()))
    rep.add(transitions=sum(len(a) for a, _ in neg), traces=len(neg) + 1, evals=len(neg) + 1)
    rep.part("refusals", command_lines=len(neg) + 1, bad=bad)
    # ---- words that are no options: said so and left out of account --------------------------
    words = {w for o in list(VALUED) + list(FLAGS) + ["-o"] for w in (o + "x", o + "1", "-" + o, o[:-1], o.upper())}
    words = sorted(w for w in words if w not in VALUED and w not in FLAGS and w.lstrip("-") and w not in ("-o", "-h", "-v", "--help", "--version", "-openscop"))
    cmds = [(pre, w, post) for w in words for pre, post in (([], ["1"]), (["1"], []), (["-otl", "0"], ["1"]), (["1", "-esp", "0"], []))]
    bad = 0

    def unknown(c):
        pre, w, post = c
        r = T.sub([T.cli] + pre + [w] + post, stdin=b"")
        e = T.expect("1", "1", model([u for u in (("-otl", "0"), ("-esp", "0")) if u[0] in pre]))
        if r.returncode or norm(r.stdout) != e:
            return "a word that is no option takes effect: %s %s" % (r.stderr[:100].decode(errors="replace"), r.stdout[:60].decode(errors="replace"))
        if w.encode() not in r.stderr:
            return "a word that is no option is passed over in silence"
    with ThreadPoolExecutor(8) as ex:
        for (pre, w, post), err in zip(cmds, ex.map(unknown, cmds)):
            if err:
                bad += 1
                if bad <= 8:
                    rep.violate("cloog %s: %s" % (" ".join("'%s'" % a for a in pre + [w] + post), err), show(pre + [w] + post, err + "\n" + A))
    rep.add(transitions=sum(len(a) + len(c) + 1 for a, _, c in cmds), traces=len(cmds), evals=len(cmds))
    rep.part("unknown words", command_lines=len(cmds), bad=bad)
    # ---- informational options --------------------------------------------------------------
    bad = 0
    for w, pat in (("-h", rb"Usage"), ("--help", rb"Usage"), ("-v", rb"CLooG"), ("--version", rb"CLooG")):
        r = T.sub([T.cli, w], stdin=b"")
        if not re.search(pat, r.stdout + r.stderr) or r.returncode < 0:
            bad += 1
            rep.violate("cloog %s prints no information" % w, show([w], dump()))
    rep.add(traces=4, evals=4)
    rep.part("information", command_lines=4, bad=bad)
    rep.add(states=len(settings) * len(INPUTS))
    rep.hashes |= texts
    # the inputs must be able to tell the settings apart, else the comparison says little
    base = {i: T.expect(i, i, model([])) for i in ins}
    blind = [u for u in UNITS if model([u]) != model([]) and all(T.expect(i, i, model([u])) == base[i] for i in ins)]
    rep.notes.append("options without visible effect on any input: %s" % [" ".join(u) for u in blind])
    return rep.finish("model_checking", RULE)
