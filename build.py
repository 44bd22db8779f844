#!/usr/bin/env python3
"""Builds the checker against the sources in /repo's working tree.

Everything goes to /verif/build/<key>, where <key> hashes every input (library
sources and headers, harness sources, flags), so a change of any of them is
always seen and an unchanged tree is not rebuilt."""
import hashlib, os, re, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
OUT = os.path.join(VERIF, "build")

VARIANTS = {
    "fast": ["-O2", "-g1"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-omit-frame-pointer"],
}
LIBS = ["-lisl", "-lgmp", "-lm", "-ldl", "-rdynamic"]


def lib_sources():
    src = sorted(glob.glob(REPO + "/source/*.c")) + sorted(glob.glob(REPO + "/source/isl/*.c"))
    skip = {"cloog.c", "mp_get_memory_functions.c", "version.c"}
    return [s for s in src if os.path.basename(s) not in skip]


def headers():
    return [h for h in sorted(glob.glob(REPO + "/include/cloog/**/*", recursive=True) + glob.glob(REPO + "/source/**/*.h", recursive=True))
            if os.path.isfile(h) and os.path.basename(h) not in ("version.h", "int.h")]


def generated():
    """the two headers and the source configure would create"""
    ac = open(REPO + "/configure.ac").read()
    def ver(name, dflt):
        m = re.search(r"%s\D*?(\d+)" % name, ac)
        return m.group(1) if m else dflt
    inth = open(REPO + "/include/cloog/int.h.in").read().replace("@CLOOG_INT_CONFIGURE@", "CLOOG_INT_GMP")
    verh = open(REPO + "/include/cloog/version.h.in").read()
    verh = (verh.replace("@VERSION_MAJOR@", "0").replace("@VERSION_MINOR@", "21")
            .replace("@VERSION_REVISION@", "1"))
    verc = open(REPO + "/source/version.c.in").read().replace("@BITS@", "gmp")
    return {"include/cloog/int.h": inth, "include/cloog/version.h": verh,
            "version.h": '#define CLOOG_HEAD "0.21.1-mc"\n', "version.c": verc}


def build(variant, progs):
    """progs: {name: [harness .c files]}.  'cloog' builds the command line tool.
    Returns {name: path}."""
    flags = VARIANTS[variant]
    h = hashlib.sha256()
    files = lib_sources() + [REPO + "/source/cloog.c"] + headers()
    gen = generated()
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    for k in sorted(gen):
        h.update(k.encode()); h.update(gen[k].encode())
    hs = sorted(glob.glob(MC + "/*.c") + glob.glob(MC + "/*.h"))
    for f in hs:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(repr((flags, LIBS, sorted(progs.items()))).encode())
    d = os.path.join(OUT, variant + "-" + h.hexdigest()[:16])
    res = {p: os.path.join(d, p) for p in progs}
    if all(os.path.exists(x) for x in res.values()):
        return res
    os.makedirs(OUT, exist_ok=True)
    # drop stale builds of the same variant
    for old in glob.glob(os.path.join(OUT, variant + "-*")):
        if old != d and not os.path.exists(os.path.join(old, ".inuse")):
            shutil.rmtree(old, ignore_errors=True)
    t = tempfile.mkdtemp(prefix="tmp.", dir=OUT)
    for k, v in gen.items():
        p = os.path.join(t, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(v)
    inc = ["-I" + t + "/include", "-I" + t, "-I" + REPO + "/include"]
    # sources say "../include/cloog/cloog.h", whose own includes use cloog/...
    base = ["gcc", "-std=gnu11", "-w"] + flags + ["-DISL_USING_GMP_VAL=1", "-DCLOOG_RUSAGE=", "-DHAVE_STRTOL=1"] + inc
    jobs = []
    def obj(src, tag):
        o = os.path.join(t, tag + "_" + re.sub(r"\W", "_", os.path.relpath(src, "/")) + ".o")
        jobs.append(base + ["-c", src, "-o", o])
        return o
    libo = [obj(s, "l") for s in lib_sources()] + [obj(os.path.join(t, "version.c"), "l")]
    po = {}
    for p, srcs in progs.items():
        po[p] = [obj(REPO + "/source/cloog.c", "m")] if srcs is None else \
                [obj(os.path.join(MC, s), p) for s in srcs]
    def run(cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
        list(ex.map(run, [["gcc"] + flags + po[p] + libo + ["-o", os.path.join(t, p)] + LIBS for p in progs]))
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t, ignore_errors=True)
    return res

PROGS = {"mcw": ["mcw.c", "ext.c", "case.c", "oracle.c", "astinterp.c", "textinterp.c", "setops.c", "hist.c", "cc.c"], "optref": ["optref.c"], "cloog": None}

if __name__ == "__main__":
    for v in sys.argv[1:] or ["fast", "asan"]:
        print(build(v, PROGS))
