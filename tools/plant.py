#!/usr/bin/env python3
"""Confirms planted bugs and measures which checks catch them.

  plant.py confirm [ID...]      build, test and demonstrate in a scratch copy
  plant.py catch [-a] [ID...]   run the property's check (-a: all checks)
                                against a scratch copy with the bug

Nothing here is used by the checks themselves.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off")


def sh(cmd, cwd=None, env=None, timeout=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, text=True, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout


def tests(wt):
    rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=wt)
    good = set()
    for line in out.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get("Test") and e["Action"] == "pass":
            good.add(e["Package"] + "." + e["Test"])
    return len(good)


def scratch():
    d = tempfile.mkdtemp(prefix="plant.")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def confirm(bid):
    src = os.path.join(SEEDED, bid)
    d, wt = scratch()
    demo = tempfile.mkdtemp(prefix="demo.")
    try:
        shutil.copytree(src, demo, dirs_exist_ok=True,
                        ignore=shutil.ignore_patterns("patch.diff", "meta.json"))
        n0 = tests(wt)
        t = time.time()
        rc0, out0 = sh(["bash", demo + "/demo.sh"], cwd=wt)
        t0 = time.time() - t
        rc, out = sh(["git", "apply", src + "/patch.diff"], cwd=wt)
        if rc:
            return "patch does not apply: " + out
        rc, out = sh(["go", "build", "./..."], cwd=wt)
        if rc:
            return "does not build: " + out
        n1 = tests(wt)
        t = time.time()
        rc1, out1 = sh(["bash", demo + "/demo.sh"], cwd=wt)
        t1 = time.time() - t
        ok = rc0 == 0 and rc1 != 0 and n1 == n0
        return "%s tests %d/%d demo clean=%d (%.0fs) patched=%d (%.0fs)%s" % (
            "OK" if ok else "BAD", n0, n1, rc0, t0, rc1, t1,
            "" if ok else "\n" + out0[-1500:] + "\n----\n" + out1[-1500:])
    finally:
        shutil.rmtree(d)
        shutil.rmtree(demo)


def catch(bid, everything):
    src = os.path.join(SEEDED, bid)
    prop = json.load(open(src + "/meta.json"))["property"]
    d, wt = scratch()
    try:
        rc, out = sh(["git", "apply", src + "/patch.diff"], cwd=wt)
        if rc:
            return "patch does not apply"
        props = [prop]
        if everything:
            props += [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]
                      if c["property"] != prop]
        res = []
        for p in props:
            t = time.time()
            env = dict(ENV, VERIF_REPO=wt)
            env.setdefault("VERIF_SEED", "1")
            env.setdefault("VERIF_TIER", "quick")
            rc, out = sh(["python3", "check.py", p], cwd=VERIF, env=env, timeout=3000)
            viol = [l for l in out.splitlines() if l.startswith("VIOLATION")]
            good = rc == 1 and any("property=%s " % p in l for l in viol)
            if p == prop or good:
                res.append("%s:%s(%.0fs)" % (p, "CAUGHT" if good else "missed rc=%d" % rc, time.time() - t))
                if p == prop:
                    res.append(" | ".join(l for l in out.splitlines()[:6])[:500])
        return "  ".join(res)
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    cmd = args.pop(0)
    everything = False
    if args and args[0] == "-a":
        everything = True
        args.pop(0)
    for bid in args or sorted(os.listdir(SEEDED)):
        r = confirm(bid) if cmd == "confirm" else catch(bid, everything)
        print(bid, r, flush=True)


main()
