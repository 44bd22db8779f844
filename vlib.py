"""Reporting shared by all checks: statistics, violations, known findings, evidence."""
import json, os, sys, time, hashlib
import build as B
import engine as E
import fam

VERIF = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
        self.parts, self.samples, self.violations, self.knowns = [], [], [], {}
        self.assumptions, self.hashes = [], set()
        self.nontriv = self.evals = 0
        self.known_list = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]
        self.notes = []
        self.complete = True

    # -- results -----------------------------------------------------------
    def add(self, states=0, transitions=0, traces=0, evals=0, nontriv=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces
        self.evals += evals
        self.nontriv += nontriv

    def part(self, name, **kw):
        self.parts.append(dict(name=name, **kw))
        print("  %-28s %s" % (name, " ".join("%s=%s" % (k, v) for k, v in kw.items())), flush=True)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def known(self, key):
        """True if `key` names a committed known finding of this property"""
        for k in self.known_list:
            if k["key"] == key:
                self.knowns[key] = k["what"]
                return True
        return False

    def violate(self, title, artefact, ext="txt"):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        data = artefact if isinstance(artefact, bytes) else artefact.encode()
        p = os.path.join(d, hashlib.sha256(data).hexdigest()[:12] + "." + ext)
        open(p, "wb").write(data)
        self.violations.append((title, p))

    # -- end ---------------------------------------------------------------
    def finish(self, level, rule, exhaustive=True):
        cov = dict(self.cov)
        cov["samples"] = self.samples
        cov["evaluations"] = self.evals
        cov["distinct_nontrivial"] = len(self.hashes) if self.hashes else self.nontriv
        cov["rule"] = rule
        cov["exhaustive"] = bool(exhaustive and self.complete)
        cov["parts"] = self.parts
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k, w in sorted(self.knowns.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        for t, p in self.violations[:20]:
            print("  " + t)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if len(self.violations) > 20:
            print("  (%d more violations)" % (len(self.violations) - 20))
        print("%s %s: %s in %.1f s (%d states, %d transitions, %d traces)" % (
            self.pid, self.tier, "VIOLATED" if self.violations else "held", time.time() - self.t0,
            cov["states"], cov["transitions"], cov["traces_validated_against_impl"]))
        sys.stdout.flush()
        return 1 if self.violations else 0


ASAN_ENV = {"MC_KEEP_SIGNALS": "1", "ASAN_OPTIONS": "detect_leaks=1:exitcode=23:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1", "LSAN_OPTIONS": "exitcode=23"}


def family_cases(fams, d, opts, mode, order=None, start=0, extra=None, only_scat=None):
    """all programs of the families at depth d, each under every option vector"""
    cs, n = [], start
    for f in fams:
        for i, (text, a) in enumerate((fam.FAMILIES.get(f) or fam.EXTRA[f])(d)):
            a = dict(a)
            if only_scat is not None and has_scat(text) != only_scat:
                continue
            a["mode"] = mode
            if order is not None:
                a["order"] = order
            if extra:
                a.update(extra)
            o2 = a.pop("opts", None)
            # merging loops whose bounds are 2^60 apart, or unrolling them, is correct but cannot be executed step by step
            ol = [x for x in opts if not f.startswith("big") or not any(w in x for w in ("-f ", "-fs ", "-first-unroll", "-otl 0", "-strides 0"))]
            if not ol:
                continue
            ol = [(x + " " + o2).strip() if o2 else x for x in ol]
            cs.append(E.Case(n, text, a, ol, "%s/%d" % (f, i)))
            n += 1
    return cs


def has_scat(text):
    """does the program give a scattering?  (fam.prog ends the text with '0\\n' when not, and
    with '<rows>\\n0\\n' when it does; the case reader of the worker decides, this only routes)"""
    return _scat_re(text)


def _scat_re(text):
    import re
    # after the iterator names line comes either "0" (no scattering) or a count
    lines = [l for l in text.split("\n") if l.strip()]
    return not (lines[-1] == "0" and not re.match(r"^[-\d ]+ [-\d ]+$", lines[-2]) or
                (lines[-1] == "0" and lines[-2] == "0"))


def replay_text(c, detail, prog="mcw", variant="fast"):
    return ("# replay: python3 check.py --replay <this file>\n# variant=%s prog=%s\n# %s\n" % (variant, prog, detail.replace("\n", " ")[:2000])
            ).encode() + c.header()


def explore(rep, name, cases, variant="fast", prog="mcw", chunk=24, classify=None):
    """run the cases, account for them, report every confirmed failure"""
    p = B.build(variant, B.PROGS)
    t0 = time.time()
    res, conf, unst, nbad = E.explore(p[prog], cases, ASAN_ENV if variant == "asan" else None, chunk=chunk)
    s = E.tally(res)
    rep.add(states=s["inst"], transitions=s["steps"], traces=s["execs"], evals=s["gens"], nontriv=s["nontriv"])
    rep.hashes |= {"%s%s" % (h, "") for h in s["hashes"]}
    rep.part(name, programs=len(cases), ok=s["ok"], skipped=s["skip"], generations=s["gens"], executions=s["execs"],
             bad=nbad, variant=variant, wall_s=round(time.time() - t0, 1))
    miss = len(cases) - len([c for c in cases if c.id in res])
    if miss:
        rep.complete = False
        rep.notes.append("%s: %d cases gave no answer" % (name, miss))
    if cases and len(rep.samples) < 6:
        for k in (0, len(cases) // 2):
            c = cases[k]
            rep.sample(dict(family=c.tag, options=c.opts[:8], attrs=c.attrs, program=c.text[:600], result=res.get(c.id, "")[:200]))
    if s["modsign"] and not rep.known("MODSIGN"):
        c = next(c for c in cases if "modsign=0" not in res.get(c.id, "modsign=0"))
        rep.violate("bounded modulo guard mishandles negative values: %s" % c.tag, replay_text(c, "MODSIGN", prog, variant))
    for c, t in conf:
        k = int(t.split("opt=")[1].split()[0]) if "opt=" in t else -1
        if classify and classify(c, t):
            continue
        o = c.opts[k] if 0 <= k < len(c.opts) else "*"
        rep.violate("%s [%s]: %s" % (c.tag, o, t[:400]), replay_text(c, "%s [%s] %s" % (c.tag, o, t), prog, variant))
    for c, a, b in unst:
        rep.notes.append("%s %s: first %s, alone %s (not reported)" % (name, c.tag, (a or "")[:80], b[:60]))
    return res
