#!/usr/bin/env python3
"""Mutation study: which small changes to /repo that build and pass its tests
does no check notice?  (A tool for strengthening the checks; no check uses it.)

  mutants.py OUT.jsonl [-j N] [-t SECONDS] [-k KIND,..] [-f FILE,..] [-r] [-only LIST] [-p PROPS]

Writes one line per mutant: build, test, caught (with scenario and class) or
survived.  -r runs the race build of P19 as well.
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOMAXPROCS="2")
ALL = ["P%02d" % i for i in range(1, 22)]
FIRST = {"counter": "P09", "ctx": "P02 P01 P03 P04 P05", "dist": "P11", "durdist": "P11", "floatdist": "P11", "intdist": "P11",
         "func": "P04 P08", "funcset": "P04", "funcstats": "P01 P18", "id": "P21", "meter": "P10", "registry": "P03 P08 P06", "rng": "P21 P11",
         "scope": "P08", "span": "P03 P04 P05", "spanbag": "P03", "spinlock": "P19", "stats": "P08", "tags": "P20 P08", "task": "P01 P08",
         "timer": "P12", "trace": "P05 P09", "transform": "P16", "val": "P09 P11", "collect": "P07 P14", "env": "P17", "os_unix": "P17",
         "proc_linux": "P17", "process": "P17", "runtime": "P17", "rusage": "P17", "client": "P15", "server": "P15", "http": "P15",
         "info": "P15", "json": "P13", "path": "P14 P13", "funcs": "P13", "spans": "P13", "utils": "P14 P13", "errs": "P13 P14", "dot": "P13"}
BASE = 0
ONLYP = []


def sh(cmd, cwd=None, timeout=120, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, text=True, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -99, "timeout"


def passed(wt):
    rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd=wt)
    return len({(e["Package"], e["Test"]) for e in map(parse, out.splitlines()) if e and e.get("Test") and e["Action"] == "pass"})


def parse(l):
    try:
        return json.loads(l)
    except ValueError:
        return None


def one(m, secs, race):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        wt = d + "/repo"
        subprocess.check_call(["cp", "-a", "/repo", wt])
        f = m["file"].replace("/repo", wt)
        src = open(f, "rb").read()
        for a, b, t in sorted(m["edits"], reverse=True):
            src = src[:a] + t.encode() + src[b:]
        open(f, "wb").write(src)
        rc, out = sh(["go", "build", "./..."], cwd=wt)
        if rc:
            return "nobuild", ""
        if passed(wt) < BASE:
            return "test", ""
        mk = d + "/monkit"
        last = "no build at any level"
        for level in (2, 1, 0):
            shutil.rmtree(mk, ignore_errors=True)
            rc, out = sh([INSTR, "-src", wt, "-out", mk, "-simrt", check.SIM + "/simrt", "-level", str(level), "-tags", ""], cwd=wt)
            if rc:
                return "tool", out[-300:]
            info = json.load(open(mk + "/instr.json"))
            with open(d + "/resets_gen.go", "w") as g:
                g.write("package main\n\nimport (\n%s)\n\nfunc resetPackages() {\n%s}\n" % (
                    "".join('\tp%d "%s"\n' % x for x in enumerate(info["packages"])),
                    "".join("\tp%d.ZsimReset()\n" % i for i in range(len(info["packages"])))))
            mod = open(check.SIM + "/harness/go.mod").read().replace("../../.build/monkit", mk).replace("../simrt", check.SIM + "/simrt")
            open(d + "/go.mod", "w").write(mod)
            json.dump({"Replace": {check.SIM + "/harness/resets_gen.go": d + "/resets_gen.go"}}, open(d + "/overlay.json", "w"))
            b = ["go", "build", "-modfile", d + "/go.mod", "-overlay", d + "/overlay.json"]
            rc, out = sh(b + ["-o", d + "/simrun", "."], cwd=check.SIM + "/harness", env=dict(check.ENV, GOMAXPROCS="2"))
            last = out
            if rc == 0:
                break
        else:
            return "tool", last[-300:]
        stem = os.path.basename(f)[:-3]
        pre = FIRST.get(stem, "").split()
        if "/present/" in f:
            pre = ["P13", "P14"] + pre
        if "/collect/" in f:
            pre = ["P07", "P06", "P14"] + pre
        for p in ONLYP or pre + [p for p in ALL if p not in pre]:
            o = d + "/o.json"
            rc, out = sh([d + "/simrun", "-scn", p, "-from", "1000", "-stride", "1", "-time", str(secs), "-verify", "0", "-mintime", "0.1", "-out", o],
                         env=dict(check.ENV, GOMAXPROCS="2"), timeout=secs + 150)
            if rc:
                return "caught", p + " trouble %s %s" % (rc, out[-200:])
            r = json.load(open(o))
            if r.get("fail"):
                return "caught", "%s %s" % (p, r["fail"]["class"])
        if race:
            rc, out = sh(b + ["-race", "-gcflags=simrt/...=-race=false -l", "-gcflags=harness/...=-race=false -l", "-o", d + "/simrun-race", "."],
                         cwd=check.SIM + "/harness", env=dict(check.ENV, GOEXPERIMENT="nosizespecializedmalloc", GOMAXPROCS="2"))
            if rc == 0:
                rc, out = sh([d + "/simrun-race", "-scn", "P19", "-from", "1000", "-stride", "1", "-time", str(secs * 15), "-verify", "0", "-mintime", "0.1", "-out", o],
                             env=dict(check.RACE_ENV, GOMAXPROCS="2"), timeout=secs * 15 + 150)
                r = json.load(open(o)) if rc == 0 else {}
                if rc or r.get("fail"):
                    return "caught", "P19 race"
        return "survived", ""
    except Exception as e:
        return "tool", repr(e)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global BASE, INSTR, ONLYP
    a = sys.argv[1:]
    out = a.pop(0)
    opt = {}
    while a:
        k = a.pop(0)
        opt[k] = True if k == "-r" else a.pop(0)
    ONLYP = opt.get("-p", "").split(",") if "-p" in opt else []
    rc, files = sh(["go", "list", "-f", "{{$d:=.Dir}}{{range .GoFiles}}{{$d}}/{{.}}\n{{end}}", "./..."], cwd="/repo")
    files = [f for f in files.split() if not re.search(r"/examples/|doc\.go|/internal/|struct\.go", f)]
    tmp = tempfile.mkdtemp(prefix="mutants.")
    try:
        subprocess.check_call(["go", "build", "-o", tmp + "/mutate", "."], cwd=VERIF + "/tools/mutate", env=ENV)
        INSTR = tmp + "/instr"
        subprocess.check_call(["go", "build", "-o", INSTR, "."], cwd=check.SIM + "/instr", env=check.ENV)
        ms = [json.loads(l) for l in subprocess.check_output([tmp + "/mutate"] + files, text=True).splitlines()]
        for i, m in enumerate(ms):
            m["n"] = i
        if "-k" in opt:
            ms = [m for m in ms if m["kind"] in opt["-k"].split(",")]
        if "-f" in opt:
            ms = [m for m in ms if os.path.relpath(m["file"], "/repo") in opt["-f"].split(",")]
        if "-only" in opt:
            # by content: the lines may have moved since
            key = lambda m: tuple(m[k] for k in ("file", "func", "kind", "was", "now"))
            want = {key(x) for x in map(json.loads, open(opt["-only"])) if x.get("status", "survived") == "survived"}
            ms = [m for m in ms if key(m) in want]
        done = set()
        if os.path.exists(out):
            done = {json.loads(l)["n"] for l in open(out)}
        ms = [m for m in ms if m["n"] not in done]
        BASE = passed("/repo")
        print(len(ms), "mutants, tests", BASE, flush=True)
        lock = threading.Lock()
        secs = float(opt.get("-t", 1.5))

        def go(m):
            st, why = one(m, secs, "-r" in opt)
            with lock, open(out, "a") as f:
                f.write(json.dumps(dict(m, status=st, why=why)) + "\n")

        with cf.ThreadPoolExecutor(int(opt.get("-j", 8))) as ex:
            list(ex.map(go, ms))
    finally:
        shutil.rmtree(tmp)


main()
