#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]   decide one property
   check.py --replay <file>                run one recorded case again"""
import os, sys, subprocess, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import vlib, build as B


def replay(path):
    data = open(path, "rb").read()
    head, i = {}, 0
    while data[i:i + 1] == b"#":
        j = data.index(b"\n", i)
        for w in data[i + 1:j].decode(errors="replace").split():
            if "=" in w:
                k, v = w.split("=", 1)
                head.setdefault(k, v)
        print(data[i:j].decode(errors="replace"))
        i = j + 1
    if not data[i:].startswith(b"CASE"):
        print(data[i:].decode(errors="replace"))
        return 0
    prog = B.build(head.get("variant", "fast"), B.PROGS)[head.get("prog", "mcw")]
    env = dict(os.environ)
    if head.get("variant") == "asan":
        env.update(vlib.ASAN_ENV)
    body = data[i:]
    body = body.replace(b" |", b" dump=1 |", 1)
    r = subprocess.run([prog], input=body, env=env)
    return r.returncode


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    pid = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    # a quick check must answer within 15 minutes even on a tree on which everything hangs
    import engine, time
    if tier != "thorough":
        engine.DEADLINE = time.time() + float(os.environ.get("VERIF_BUDGET", "600"))
    mod = importlib.import_module("checks." + pid.lower())
    rep = vlib.Report(pid, tier)
    return mod.run(rep, tier == "thorough") or 0


if __name__ == "__main__":
    sys.exit(main())
