#!/usr/bin/env python3
"""Decides one property by deterministic simulation of the code in /repo.

  check.py P01                 the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py replay FILE         re-runs a recorded violation from its replay file
  check.py build               builds everything once
  check.py selftest            determinism of the simulator and harness
  check.py seed P01 N          one seed, with its event log

Exit 0: the property held on everything explored.  Exit 1: VIOLATION.
Exit 2: the check itself could not do its work (build or tool trouble).
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
CORES = max(1, min(8, os.cpu_count() or 1))

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED=os.environ.get("CGO_ENABLED", "1"))
ENV.setdefault("HOME", "/root")
RACE_ENV = dict(ENV, GORACE="exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5")

# seconds of exploration: (normal, race) per tier; race 0: not run
TIME = {"quick": (36, 0), "thorough": (240, 0)}
SPECIAL = {
    "quick": {"P19": (20, 40)},
    "thorough": {"P19": (200, 300)},
}
RACE_ALSO = set()
# the same scenarios in other builds of the library: (name, build tags, architecture), seconds per tier
BUILDS = [("32-bit build", "", "386"), ("appengine build", "appengine", "")]
BUILD_TIME = {"quick": 5, "thorough": 45}
# the appengine build replaces the compare-and-swap primitives of traces, watchers and collectors
# (and names errors of system calls otherwise, so it is not run where that shows)
APPENGINE = {"P05", "P06", "P07", "P18", "P19"}


class ToolError(Exception):
    pass


def run(cmd, cwd=None, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Build:
    """An instrumented copy of /repo and the simulation binaries made from it."""

    def __init__(self, tags="", level=2, arch=""):
        os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="b", dir=os.path.join(VERIF, ".build"))
        self.tags, self.level, self.arch = tags, level, arch
        self.env = dict(ENV, GOARCH=arch, CGO_ENABLED="0") if arch else ENV
        self.bins = {}

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def instrument(self):
        instr = os.path.join(self.dir, "instr")
        rc, out = run(["go", "build", "-o", instr, "."], cwd=os.path.join(SIM, "instr"))
        if rc:
            raise ToolError("building the instrumenter failed:\n" + out)
        last = ""
        for level in ([self.level] if self.level < 2 else [2, 1, 0]):
            mk = os.path.join(self.dir, "monkit")
            shutil.rmtree(mk, ignore_errors=True)
            rc, out = run([instr, "-src", REPO, "-out", mk, "-simrt", os.path.join(SIM, "simrt"), "-level", str(level), "-tags", self.tags], cwd=REPO, env=self.env)
            if rc:
                raise ToolError("instrumenting /repo failed:\n" + out)
            info = json.load(open(os.path.join(mk, "instr.json")))
            imports = "".join('\tp%d "%s"\n' % (i, p) for i, p in enumerate(info["packages"]))
            calls = "".join("\tp%d.ZsimReset()\n" % i for i in range(len(info["packages"])))
            with open(os.path.join(self.dir, "resets_gen.go"), "w") as f:
                f.write("package main\n\nimport (\n%s)\n\nfunc resetPackages() {\n%s}\n" % (imports, calls))
            mod = open(os.path.join(SIM, "harness", "go.mod")).read()
            mod = mod.replace("../../.build/monkit", mk).replace("../simrt", os.path.join(SIM, "simrt"))
            with open(os.path.join(self.dir, "go.mod"), "w") as f:
                f.write(mod)
            with open(os.path.join(self.dir, "overlay.json"), "w") as f:
                json.dump({"Replace": {os.path.join(SIM, "harness", "resets_gen.go"): os.path.join(self.dir, "resets_gen.go")}}, f)
            self.level = level
            try:
                self.binary(False)
                return
            except ToolError as e:
                last = str(e)
                if not (self.tags or self.arch):
                    sys.stderr.write("check: instrumentation level %d does not build, trying a lower one\n%s\n" % (level, last))
        raise ToolError("the instrumented copy does not build:\n" + last)

    def binary(self, race):
        if race in self.bins:
            return self.bins[race]
        out = os.path.join(self.dir, "simrun-race" if race else "simrun")
        cmd = ["go", "build", "-modfile", os.path.join(self.dir, "go.mod"), "-overlay", os.path.join(self.dir, "overlay.json"), "-o", out]
        if self.tags:
            cmd += ["-tags", self.tags]
        if race:
            cmd += ["-race", "-gcflags=simrt/...=-race=false -l", "-gcflags=harness/...=-race=false -l"]
        # in packages built with -race=false the compiler calls the size-specialised
        # allocators directly, and those do not tell the race detector about reused memory
        env = dict(self.env, GOEXPERIMENT="nosizespecializedmalloc") if race else self.env
        rc, o = run(cmd + ["."], cwd=os.path.join(SIM, "harness"), env=env)
        if rc:
            raise ToolError("building the simulation failed:\n" + o)
        self.bins[race] = out
        return out


def explore(binary, race, prop, seconds, base, workdir, ignore, runs=None, verify=None):
    """Runs CORES workers over disjoint seeds; stops all at the first failure."""
    procs = []
    for w in range(CORES):
        o = os.path.join(workdir, "w%d%s.json" % (w, "r" if race else ""))
        h = os.path.join(workdir, "h%d%s.bin" % (w, "r" if race else ""))
        e = open(os.path.join(workdir, "e%d%s.txt" % (w, "r" if race else "")), "w")
        cmd = [binary, "-scn", prop, "-from", str(base + w), "-stride", str(CORES), "-time", str(seconds), "-out", o, "-hashes", h, "-ignore", ",".join(ignore)]
        if runs:
            cmd += ["-runs", str(runs)]
        if verify is not None:
            cmd += ["-verify", str(verify)]
        if race:
            cmd += ["-verify", "0"]
        if w == 0:
            cmd += ["-samples", "3"]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, env=RACE_ENV if race else ENV), o, h, e.name))
    results, trouble = [], []
    pending = list(procs)
    limit = time.time() + seconds + 150
    failed_at = None
    while pending:
        time.sleep(0.05)
        for p in list(pending):
            rc = p[0].poll()
            if rc is None:
                continue
            pending.remove(p)
            if rc == 0 and os.path.exists(p[1]):
                r = json.load(open(p[1]))
                r["_hashes"] = p[2]
                r["_stderr"] = p[3]
                results.append(r)
                if r.get("fail") and failed_at is None:
                    failed_at = time.time()
            elif failed_at is None:
                trouble.append((rc, open(p[3]).read()[-3000:]))
        if failed_at is not None and pending:
            for p in pending:
                p[0].kill()
        if time.time() > limit:
            for p in pending:
                p[0].kill()
            trouble.append((-1, "worker exceeded its time limit"))
            break
    if failed_at is None and trouble:
        raise ToolError("%d of %d simulation workers did not finish: exit %s\n%s" % (len(trouble), CORES, trouble[0][0], trouble[0][1]))
    return results


def merge(results):
    out = {"runs": 0, "steps": 0, "switches": 0, "sim_ns": 0.0, "faults": {}, "probes": {}, "probe_runs": {}, "strategies": {}, "goroutines": 0,
           "max_goroutines": 0, "weird": 0, "determinism_reruns": 0, "determinism_mismatches": 0, "elapsed_s": 0.0, "max_run_ms": 0.0}
    hs = set()
    for r in results:
        for k, v in r.items():
            if k in ("max_goroutines", "elapsed_s", "max_run_ms"):
                out[k] = max(out[k], v)
            elif isinstance(out.get(k), dict):
                for a, b in (v or {}).items():
                    out[k][a] = out[k].get(a, 0) + b
            elif k in out:
                out[k] += v
        try:
            import array
            a = array.array("Q")
            with open(r["_hashes"], "rb") as f:
                a.frombytes(f.read())
            hs.update(a)
        except Exception:
            pass
    out["distinct"] = len(hs)
    return out


def props():
    return {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()}


def known_findings(prop):
    """Lines 'known: property=P class=C what' in known-findings.txt."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def race_report(stderr_path):
    try:
        t = open(stderr_path).read()
    except OSError:
        return ""
    i = t.rfind("WARNING: DATA RACE")
    return t[i:i + 5000] if i >= 0 else ""


def save_replay(rp, build, stderr_path=None):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    rp["tags"] = build.tags
    rp["arch"] = build.arch
    rp["level"] = build.level
    if rp["mode"] == "race" and stderr_path:
        rp["race_report"] = race_report(stderr_path)
    path = os.path.join(d, "%s-%s-%d.json" % (rp["property"], re.sub(r"[^a-z0-9-]+", "-", rp["class"].lower()), rp["seed"]))
    with open(path, "w") as f:
        json.dump(rp, f, indent=1)
    return path


def replay_run(build, path):
    rp = json.load(open(path))
    binary = build.binary(rp["mode"] == "race")
    out = os.path.join(build.dir, "replay.json")
    p = subprocess.run([binary, "-replay", path, "-out", out], env=RACE_ENV if rp["mode"] == "race" else ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200)
    if not os.path.exists(out):
        raise ToolError("replay did not run: " + p.stderr[-2000:])
    r = json.load(open(out))
    os.unlink(out)
    return r


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if tier not in TIME:
        tier = "quick"
    normal_s, race_s = SPECIAL[tier].get(prop, TIME[tier])
    if race_s == 0 and prop in RACE_ALSO and tier == "thorough":
        race_s = 60
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    normal_s, race_s = normal_s * scale, race_s * scale
    extra_s = BUILD_TIME[tier] * scale
    base = (seed * 0x9E3779B1 % (1 << 40)) * 1000003 % (1 << 46) + 1
    known = known_findings(prop)
    ignore = [k for k, _ in known]
    build = Build()
    phases = []
    fail = None
    race_err = []
    extra = []  # [name, build, None or why it could not be built]
    notes = []
    threads = []
    try:
        build.instrument()
        built = time.time()
        for name, tags, arch in BUILDS:
            if tags == "appengine" and prop not in APPENGINE:
                continue
            x = [name, Build(tags, 2, arch), None]
            extra.append(x)

            def xb(x=x):
                try:
                    x[1].instrument()
                except Exception as e:
                    x[2] = e
            threads.append(threading.Thread(target=xb))
            threads[-1].start()
        th = None
        if race_s > 0:
            def rb():
                try:
                    build.binary(True)
                except Exception as e:  # reported below
                    race_err.append(e)
            th = threading.Thread(target=rb)
            th.start()
        work = os.path.join(build.dir, "work")
        os.makedirs(work)
        res = explore(build.binary(False), False, prop, normal_s, base, work, ignore)
        phases.append(("normal", res))
        fail = next((r for r in res if r.get("fail")), None)
        if th is not None:
            th.join()
            if fail is None:
                if race_err:
                    raise ToolError(str(race_err[0]))
                res = explore(build.binary(True), True, prop, race_s, base + (1 << 20), work, ignore)
                phases.append(("race detector", res))
                fail = next((r for r in res if r.get("fail")), None)
        failed_build = build
        for i, x in enumerate(extra):
            threads[i].join()
            if fail is not None:
                continue
            why = x[2]
            if why is None:
                try:
                    d = os.path.join(x[1].dir, "work")
                    os.makedirs(d)
                    res = explore(x[1].binary(False), False, prop, extra_s, base + (2 + i << 20), d, ignore)
                    phases.append((x[0], res))
                    fail, failed_build = next((r for r in res if r.get("fail")), None), x[1]
                except (ToolError, OSError) as e:
                    why = e
            if why is not None:
                # this machine, or this tree, has no such build: the normal one decides
                notes.append("%s: not run: %s" % (x[0], str(why)[-600:]))
        path = None
        confirmed = None
        if fail is not None:
            rp = fail["fail"]
            path = save_replay(rp, failed_build, fail.get("_stderr"))
            confirmed = replay_run(failed_build, path)
            if not confirmed["reproduced"]:
                print("check: warning: the replay did not reproduce the violation in a fresh process: the code has nondeterminism the simulator does not control")
        write_evidence(prop, tier, seed, base, build, phases, fail, path, confirmed, t0, built - t0, known, notes)
        mism = sum(r["determinism_mismatches"] for _, res in phases for r in res)
        for c, what in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        if fail is not None:
            rp = fail["fail"]
            print("violation of %s [%s]: %s" % (prop, rp["class"], rp["message"]))
            if rp.get("mode") == "race":
                print(race_report(fail.get("_stderr", "")))
            print("seed %d, %d schedule deviations, %d plan and %d environment choices (from %s); reproduced in a fresh process: %s (same event hash: %s)" % (
                rp["seed"], len(rp["schedule"] or []), len(rp["plan"] or []), len(rp["env"] or []), rp["original_size"], confirmed["reproduced"], confirmed["same_hash"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if mism:
            print("check: warning: %d repeated runs differed: the code has nondeterminism the simulator does not control" % mism)
        m = merge([r for _, res in phases for r in res])
        print("%s held: %d simulated runs, %d scheduling points, %d distinct interleavings, %.0f s of simulated time, faults %s (%.0f s)" % (
            prop, m["runs"], m["steps"], m["distinct"], m["sim_ns"] / 1e9, sum(m["faults"].values()), time.time() - t0))
        return 0
    finally:
        for t in threads:
            t.join()
        for x in extra:
            x[1].clean()
        build.clean()


def write_evidence(prop, tier, seed, base, build, phases, fail, path, confirmed, t0, build_s, known, notes):
    p = props()[prop]
    allres = [r for _, res in phases for r in res]
    m = merge(allres)
    explore_s = sum(max([r["elapsed_s"] for r in res] or [0]) for _, res in phases)
    rph = m["runs"] / explore_s * 3600 if explore_s else 0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "violations": 1 if fail else 0,
        "wall_s": round(time.time() - t0, 1),
        "assumptions": [
            "atomics and locks are simulated as sequentially consistent (the race detector phases look for missing synchronisation)",
            "switches happen only at the scheduling points the instrumenter inserts: every synchronisation, channel, clock and randomness operation, every access to a field, element or package variable, every call and loop iteration",
            "seeded search, not exhaustive: goroutines, operations and faults per run are bounded as DESIGN.md says",
        ],
        "coverage": {
            "evaluations": m["runs"],
            "distinct_nontrivial": m["distinct"],
            "rule": "one case is one simulated execution, made from a seed: the plan (program of every simulated goroutine), the environment choices (faults, outcomes, delays) and every scheduling decision are drawn from it. Non-trivial: the schedule deviates from running each goroutine until it blocks at least once. Distinct: by 64-bit hash of the sequence of (goroutine, its scheduling point, next goroutine) at every switch",
            "samples": [dict(s, mode=n) for n, res in phases for s in [s for r in res for s in (r.get("samples") or [])][:3]],
            "runs_per_hour": round(rph),
            "seeds_per_hour": round(rph),
            "first_seed": base,
            "trivial_runs": sum(r.get("trivial_runs", 0) for r in allres),
            "scheduling_points": m["steps"],
            "context_switches": m["switches"],
            "simulated_seconds": round(m["sim_ns"] / 1e9, 3),
            "goroutines_per_run_mean": round(m["goroutines"] / max(1, m["runs"]), 1),
            "goroutines_per_run_max": m["max_goroutines"],
            "strategies": m["strategies"],
            "faults_injected": m["faults"],
            "conditions_reached": m["probes"],
            "runs_reaching_condition": m["probe_runs"],
            "phases": [{"mode": n, "runs": sum(r["runs"] for r in res), "seconds": round(max([r["elapsed_s"] for r in res] or [0]), 1)} for n, res in phases],
            "determinism": {"runs_repeated_and_replayed": m["determinism_reruns"], "mismatches": m["determinism_mismatches"], "unresolved_map_orders": m["weird"]},
            "instrumentation_level": build.level,
            "notes": notes,
            "build_s": round(build_s, 1),
            "longest_run_ms": round(m["max_run_ms"], 1),
            "real_components": "all code of /repo's packages (monkit, collect, present, environment, http, monotime) from the current working tree, instrumented; fmt, encoding/json, net/http types, regexp, bufio, sort of the standard library",
            "stubbed_components": "goroutine scheduling, sync, sync/atomic, channels and select, time, context (a copy of the standard one on simulated primitives), math/rand and crypto/rand, map iteration order, os files, memory, GC and rusage readings, the network between client and handler",
            "replay": path,
            "violation": None if not fail else {k: fail["fail"][k] for k in ("class", "message", "seed")},
            "replay_reproduced": None if confirmed is None else confirmed["reproduced"],
            "known_findings": [w for _, w in known],
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "replay":
            rp = json.load(open(a[1]))
            b = Build(rp.get("tags", ""), rp.get("level", 2), rp.get("arch", ""))
            try:
                b.instrument()
                r = replay_run(b, a[1])
                print(json.dumps(r, indent=1))
                if r["reproduced"]:
                    print("VIOLATION property=%s replay=%s" % (rp["property"], a[1]))
                    return 1
                return 0
            finally:
                b.clean()
        if a[0] == "seed":
            b = Build()
            try:
                b.instrument()
                subprocess.run([b.binary(False), "-scn", a[1], "-seed", a[2]], env=ENV)
            finally:
                b.clean()
            return 0
        if a[0] == "build":
            # everything builds offline from the committed files
            b = Build()
            try:
                b.instrument()
                b.binary(True)
                print("built, instrumentation level %d" % b.level)
            finally:
                b.clean()
            for name, tags, arch in BUILDS:
                b = Build(tags, 2, arch)
                try:
                    b.instrument()
                    print("%s: built, instrumentation level %d" % (name, b.level))
                except ToolError as e:
                    print("%s: %s" % (name, e))
                finally:
                    b.clean()
            return 0
        if a[0] == "selftest":
            return selftest()
        return check(a[0])
    except ToolError as e:
        print("check: could not decide: %s" % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("check: could not decide: %s" % e)
        return 2


def selftest():
    """The same seeds in two processes must give the same executions."""
    b = Build()
    bad = 0
    try:
        b.instrument()
        for prop in sorted(props()):
            outs = []
            for k in range(2):
                o = os.path.join(b.dir, "st.json")
                h = os.path.join(b.dir, "st%d.bin" % k)
                subprocess.run([b.binary(False), "-scn", prop, "-from", "77", "-runs", "200", "-time", "60", "-out", o, "-hashes", h, "-verify", "2"], env=ENV, check=False, stderr=subprocess.DEVNULL)
                if not os.path.exists(o):
                    break
                r = json.load(open(o))
                os.unlink(o)
                import hashlib
                d = open(h, "rb").read()
                outs.append((r["runs"], r["steps"], r["sim_ns"], r["determinism_mismatches"], r["weird"], hashlib.sha1(b"".join(sorted(d[i:i + 8] for i in range(0, len(d), 8)))).hexdigest()))
            if not outs:
                continue
            ok = len(outs) == 2 and outs[0] == outs[1] and outs[0][3] == 0
            bad += not ok
            print(prop, "deterministic" if ok else "NOT DETERMINISTIC", outs[0] if ok else outs)
    finally:
        b.clean()
    return 2 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
