"""Feeds cases to the worker `mcw` over all cores, restarts it after a crash,
replays every failure alone before believing it."""
import os, subprocess, tempfile, threading, queue, shutil, time
from concurrent.futures import ThreadPoolExecutor
import build as B

STOP_AFTER = 24        # failures after which a part of a check stops exploring
DEADLINE = None        # wall-clock time at which exploration stops (set by check.py)
NCPU = max(1, min(8, os.cpu_count() or 1))


class Case:
    __slots__ = ("id", "text", "attrs", "opts", "tag")

    def __init__(self, id, text, attrs, opts, tag):
        self.id, self.text, self.attrs, self.opts, self.tag = id, text, attrs, opts, tag

    def header(self, **over):
        a = dict(self.attrs); a.update(over)
        t = self.text.encode()
        return ("CASE %d %d %s | %s\n" % (self.id, len(t), " ".join("%s=%s" % kv for kv in sorted(a.items())),
                                         " | ".join(o or " " for o in self.opts))).encode() + t


def _run(prog, cases, scratch, env=None, wall=3600, stop=None, **over):
    """run mcw over the cases in one process after the other; {id: (status, fields/detail)}"""
    f = tempfile.NamedTemporaryFile(dir=scratch, delete=False)
    for c in cases:
        f.write(c.header(**over))
    f.close()
    res, skip = {}, 0
    e = dict(os.environ); e.update(env or {})
    while skip < len(cases):
        try:
            p = subprocess.run([prog, str(skip)], stdin=open(f.name, "rb"), stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, env=e, cwd=scratch, timeout=wall)
            out, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as ex:
            out, rc, err = ex.stdout or b"", -99, b"worker timed out"
        last, done = None, False
        for l in out.decode(errors="replace").split("\n"):
            if l.startswith("B "):
                last = int(l.split()[1])
            elif l.startswith("R "):
                p3 = l.split(" ", 2)
                res.setdefault(int(p3[1]), p3[2])
            elif l.startswith("DONE"):
                done = True
        if done:
            tail = err.decode(errors="replace")
            if rc != 0:
                # e.g. a leak report at exit: attributed to the batch
                res["batch"] = "FAIL EXIT opt=-1 par= :: exit %d: %s" % (rc, tail[-3000:])
            break
        if last is None:
            for c in cases[skip:]:
                res.setdefault(c.id, "FAIL HARNESS opt=-1 par= :: worker gave no answer rc=%d %s" % (rc, err[-400:].decode(errors="replace")))
            break
        k = next(i for i, c in enumerate(cases) if c.id == last)
        t = err.decode(errors="replace")
        if last not in res or "the library ended the process" in res[last]:
            res[last] = "FAIL CRASH opt=-1 par= :: rc=%d %s" % (rc, sanitizer_summary(t))
        skip = k + 1
        if stop and stop(sum(1 for t in res.values() if t.startswith("FAIL"))):
            break
    os.unlink(f.name)
    return res


def sanitizer_summary(t):
    ls = [l.strip() for l in t.split("\n")]
    key = [l for l in ls if "ERROR:" in l or "SUMMARY" in l or "runtime error" in l or l.startswith("[CLooG]")]
    fr = [l for l in ls if l.startswith("#") and "/source/" in l]
    return " ; ".join((key or ls[-4:])[:3] + fr[:4])[:1500]


def explore(prog, cases, env=None, chunk=24, progress=None, wall=3600):
    """-> (results {id: text}, list of (case, text) failures confirmed by replay, unstable list)"""
    scratch = tempfile.mkdtemp(prefix="vmc.")
    try:
        q = queue.Queue()
        byid = {c.id: c for c in cases}
        for i in range(0, len(cases), chunk):
            q.put(cases[i:i + chunk])
        res, lock = {}, threading.Lock()
        suspects, nfail = [], [0]

        def work():
            while True:
                # enough failures to report, or no time left: stop exploring
                if nfail[0] >= STOP_AFTER or (DEADLINE and time.time() > DEADLINE):
                    return
                try:
                    ch = q.get_nowait()
                except queue.Empty:
                    return
                r = _run(prog, ch, scratch, env, wall, stop=lambda n: nfail[0] + n >= STOP_AFTER)
                b = r.pop("batch", None)
                with lock:
                    res.update(r)
                    nfail[0] += sum(1 for t in r.values() if t.startswith("FAIL"))
                    if b:
                        suspects.extend(ch)
                        nfail[0] += 4
        ts = [threading.Thread(target=work) for _ in range(NCPU)]
        [t.start() for t in ts]; [t.join() for t in ts]
        bad = [byid[i] for i, t in sorted(res.items()) if t.startswith("FAIL")]
        bad += [c for c in suspects if c not in bad]
        # answers first, hangs last: they take longest to confirm
        bad.sort(key=lambda c: "HANG" in res.get(c.id, ""))
        confirmed, unstable = [], []

        def confirm(c):
            tmo = int(c.attrs.get("tmo", 20)) * 3
            r = _run(prog, [c], scratch, env, wall, tmo=tmo)
            return c, r.get("batch") or r.get(c.id, "FAIL HARNESS no answer")
        with ThreadPoolExecutor(NCPU) as ex:
            for k in range(0, min(len(bad), 400), NCPU):
                if len(confirmed) >= 8 or (confirmed and DEADLINE and time.time() > DEADLINE):
                    break
                for c, t in ex.map(confirm, bad[k:k + NCPU]):
                    if t.startswith("FAIL"):
                        confirmed.append((c, t))
                    else:
                        unstable.append((c, res.get(c.id), t))
                        res[c.id] = t
        return res, confirmed, unstable, len(bad)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def tally(res):
    st = dict(pts=0, inst=0, gens=0, execs=0, steps=0, nontriv=0, modsign=0, ok=0, skip=0, hashes=set())
    for t in res.values():
        if t.startswith("ok"):
            st["ok"] += 1
            for kv in t.split()[1:]:
                k, v = kv.split("=")
                if k == "h":
                    st["hashes"].add(v)
                else:
                    st[k] += int(v)
        elif t.startswith("SKIP"):
            st["skip"] += 1
    return st
