"""The engine behind every check of this framework.

A check has up to three kinds of stages, all of which use the TLA+ specification under spec/ as the only oracle:

  model   TLC explores the specification itself, and evaluates its invariants and action properties in every state
  replay  TLC enumerates (or simulates) behaviours of the specification, every call carrying the result the specification
          demands; the Go driver steps them through the real code of /repo and compares
  trace   the Go driver runs random histories against the real code and records every call with its result; TLC decides
          whether each recorded history is a behaviour of the specification

Verdicts only come from what the real code did: a failing model stage, a crashing tool, or a timeout of ours is an error
exit (2), never a violation.
"""
import concurrent.futures as cf
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


# no new piece of random cases is begun after this many seconds of the thorough tier
THOROUGH_S = float(os.environ.get("VERIF_THOROUGH_S") or 540)

SERIAL = itertools.count()


class CheckError(Exception):
    """The check could not decide (exit 2)."""


def go_env():
    env = dict(os.environ)
    gobin = "/opt/veriftools/go1.27.3/bin"
    if os.path.isdir(gobin):
        env["PATH"] = gobin + ":" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    return env


class Violation:
    def __init__(self, case, at, expected, how, group=None):
        self.case, self.at, self.expected, self.how, self.group = case, at, expected, how, group


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "calls_validated_against_impl": 0, "stages": [], "samples": []}
        self.violations = []
        self.known_hits = {}
        self.known = [k for k in load_known() if k["property"] == pid and k["kind"] == "known"]
        self.exhaustive = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- tools
    def build(self, pkg, race=False):
        # The harness module is copied so that the go command can never rewrite files of /verif
        dst = os.path.join(self.tmp, "harness")
        if not os.path.isdir(dst):
            shutil.copytree(HARNESS, dst)
        out = os.path.join(self.tmp, "drv-" + pkg + ("-race" if race else ""))
        if os.path.exists(out):
            return out
        cmd = ["go", "build"] + (["-race"] if race else []) + (["-cover", "-covermode=atomic", "-coverpkg=./...,github.com/bantling/micro/..."] if os.environ.get("GOCOVERDIR") else []) + ["-o", out, "./" + pkg]
        p = subprocess.run(cmd, cwd=dst, env=go_env(), capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError("building the driver failed:\n" + p.stdout + p.stderr)
        return out

    def tlc(self, module, cfg=None, cfg_text=None, env=None, workers=1, args=(), heap="2g", timeout=3000):
        """Runs TLC, returns (stdout, stats)."""
        md = tempfile.mkdtemp(dir=self.tmp, prefix="tlc")
        if cfg_text is not None:
            cfgp = os.path.join(md, "run.cfg")
            with open(cfgp, "w") as f:
                f.write(cfg_text)
        else:
            cfgp = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        gc = "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC"
        cmd = ["java", gc, "-Xmx" + heap, "-Xss512m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(md, "md"),
               "-workers", str(workers), "-config", cfgp, "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        outp = os.path.join(md, "out.txt")
        with open(outp, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=md, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC on %s took more than %ds" % (module, timeout))
        stats = {"rc": p.returncode, "out": outp, "generated": 0, "distinct": 0, "ok": False}
        with open(outp, errors="replace") as f:
            for line in f:
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    stats["generated"], stats["distinct"] = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    stats["generated"] = stats["distinct"] = int(m.group(1))
                if line.startswith("Model checking completed. No error"):
                    stats["ok"] = True
        return stats

    @staticmethod
    def tail(path, n=40):
        with open(path, errors="replace") as f:
            return "".join(l for l in f.readlines() if not l.startswith('"BEHAVIOUR'))[-n * 120:]

    def count(self, st):
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]

    # ---------------------------------------------------------------- stages
    def model(self, module, cfg, what, args=(), heap="8g", sim=False):
        t = time.time()
        st = self.tlc(module, cfg, workers=NCPU, heap=heap, args=args)
        if not st["ok"] and not (sim and st["rc"] == 0):
            raise CheckError("the specification %s (%s) fails its own properties or TLC failed:\n%s" % (module, cfg, self.tail(st["out"])))
        self.count(st)
        self.cov["stages"].append({"stage": "model", "module": module, "config": cfg, "what": what, "distinct_states": st["distinct"],
                                   "states_generated": st["generated"], "exhaustive": not sim, "wall_s": round(time.time() - t, 1)})
        self.log("model %s/%s: %d states, %d transitions: %s" % (module, cfg, st["distinct"], st["generated"], what))

    def behaviours(self, module, cfg, what, args=(), sim=False, overrides=None, heap="8g", workers=None):
        """Behaviours of the specification as a file of cases."""
        t = time.time()
        text = open(os.path.join(SPEC, cfg)).read()
        for k, v in (overrides or {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), r"\1 %s" % v, text)
            if n != 1:
                raise CheckError("no constant %s in %s" % (k, cfg))
        st = self.tlc(module, cfg_text=text, workers=workers or NCPU, heap=heap, args=args)
        if not st["ok"] and not (sim and st["rc"] == 0):
            raise CheckError("generating behaviours from %s failed:\n%s" % (module, self.tail(st["out"])))
        self.count(st)
        out = os.path.join(self.tmp, "beh-%s-%s-%d.ndjson" % (module, os.path.basename(cfg), len(self.cov["stages"])))
        n = 0
        seen = set()
        with open(out, "w") as g, open(st["out"], errors="replace") as f:
            for line in f:
                if line.startswith('"BEHAVIOUR '):
                    js = json.loads(line)[len("BEHAVIOUR "):]
                    hsh = hashlib.md5(js.encode()).digest()
                    if hsh in seen:
                        continue
                    seen.add(hsh)
                    g.write(js + "\n")
                    n += 1
        if n == 0:
            raise CheckError("%s/%s generated no behaviours" % (module, cfg))
        self.log("generated %d behaviours from %s/%s: %s" % (n, module, cfg, what))
        return out, n, time.time() - t, st

    def replay(self, drv, module, cfg, what, **kw):
        path, n, gen_s, st = self.behaviours(module, cfg, what, **kw)
        os.remove(st["out"])
        t = time.time()
        # shard over the processors
        lines = open(path).read().splitlines(True)
        shards = [lines[i::NCPU] for i in range(NCPU)]
        shards = [s for s in shards if s]

        def one(i):
            p = os.path.join(self.tmp, "rp-%d-%s" % (i, os.path.basename(path)))
            with open(p, "w") as f:
                f.writelines(shards[i])
            r = self.drive(drv, ["replay", "-in", p, "-out", p + ".out", "-intent", p + ".intent"])
            if r is not None:
                case = json.loads(shards[i][r["idx"]])
                self.crash(drv, case, r, "replay")
                return 0, 0
            return 1, self.collect_replay(drv, p + ".out", shards[i])

        calls = 0
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, range(len(shards))))
        for s in shards:
            for l in s[:20]:
                calls += len(json.loads(l)["ops"])
        self.cov["traces_validated_against_impl"] += n
        self.cov["samples"].append({"stage": "replay", "behaviour": json.loads(lines[len(lines) // 2])})
        self.cov["stages"].append({"stage": "replay", "module": module, "config": cfg, "what": what, "behaviours": n,
                                   "distinct_states": st["distinct"], "wall_s": round(gen_s + time.time() - t, 1)})
        self.log("replayed %d behaviours into the real code" % n)

    def collect_replay(self, drv, path, shard):
        nbad = 0
        for line in open(path):
            d = json.loads(line)
            nbad += 1
            if nbad > 200:
                break
            case = {"id": d["id"], "ops": d["ops"]}
            self.violation(case, d["at"], d["want"], "replay of a behaviour of the specification")
        return nbad

    def explore(self, drv, module, cfg, tmodule, what, **kw):
        """Inputs generated from the specification, executed by the real code, what it did validated by TLC: for
        behaviours whose results the specification does not fix completely."""
        path, n, gen_s, st = self.behaviours(module, cfg, what, **kw)
        os.remove(st["out"])
        t = time.time()
        lines = open(path).read().splitlines(True)
        shards = [s for s in (lines[i::NCPU] for i in range(NCPU)) if s]
        tag = str(len(self.cov["stages"]))

        def one(i):
            p = os.path.join(self.tmp, "ex-%s-%d-%s" % (tag, i, os.path.basename(path)))
            with open(p, "w") as f:
                f.writelines(shards[i])
            r = self.drive(drv, ["exec", "-in", p, "-out", p + ".out", "-intent", p + ".intent"])
            if r is not None:
                self.crash(drv, json.loads(shards[i][r["idx"]]), r, "explore")
                return None
            os.remove(p)
            return p + ".out", self.validate(tmodule, tmodule + ".cfg", p + ".out")

        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, range(len(shards))))
        calls, rejected, sample = 0, [], None
        for r in results:
            if r is None:
                continue
            p, (rej, vst, expected) = r
            self.count(vst)
            cases = open(p).read().splitlines()
            for l in cases:
                calls += l.count('"op":')
            sample = sample or json.loads(cases[len(cases) // 2])
            for (ci, k) in rej:
                rejected.append((json.loads(cases[ci - 1]), k, expected.get((ci, k))))
            os.remove(p)
        rejected.sort(key=lambda x: len(json.dumps(x[0])))
        for case, k, exp in rejected[:200]:
            self.violation(case, k - 1, exp, "what the real code did with an input generated from the specification is rejected by it")
        if sample:
            self.cov["samples"].append({"stage": "explore", "case": sample})
        self.cov["traces_validated_against_impl"] += n
        self.cov["calls_validated_against_impl"] += calls
        self.cov["stages"].append({"stage": "explore", "module": module, "config": cfg, "what": what, "behaviours": n, "calls": calls, "rejected": len(rejected),
                                   "distinct_states": st["distinct"], "wall_s": round(gen_s + time.time() - t, 1)})
        self.log("explored %d generated inputs with the real code, validated against %s, %d rejected" % (n, tmodule, len(rejected)))

    def drive(self, drv, args, timeout=3000):
        """Runs the driver; returns None, or a description of how it died."""
        env = go_env()
        env["GOTRACEBACK"] = "single"
        env["GORACE"] = "halt_on_error=1"
        try:
            p = subprocess.run([drv] + args, capture_output=True, text=True, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise CheckError("the driver took more than %ds: %s" % (timeout, args))
        if p.returncode == 0:
            return None
        err = p.stderr[-3000:]
        if p.returncode == 9 or "HARNESS ERROR" in p.stderr:
            raise CheckError("harness error: " + err)
        died = p.returncode in (7, 66) or "fatal error:" in p.stderr or "panic:" in p.stderr or "WARNING: DATA RACE" in p.stderr
        if not died:
            raise CheckError("the driver ended with %d:\n%s" % (p.returncode, err))
        ip = args[args.index("-intent") + 1] if "-intent" in args else None
        idx = int(open(ip).read().strip() or 0) if ip else 0
        return {"idx": idx, "rc": p.returncode, "err": p.stderr[:3000]}

    def exec_case(self, drv, case, tag):
        """Executes one case in a process of its own; returns (executed case, died)"""
        p = os.path.join(self.tmp, "one-%s-%d.ndjson" % (tag, next(SERIAL)))
        with open(p, "w") as f:
            f.write(json.dumps(case) + "\n")
        r = self.drive(drv, ["exec", "-in", p, "-out", p + ".out", "-intent", p + ".intent"])
        if r is not None:
            return None, r
        return json.loads(open(p + ".out").readline()), None

    def crash(self, drv, case, r, how):
        """The process under test died in this case: confirm in a process of its own."""
        self.log("the driver died (%s) in case %s:\n%s" % (how, case["id"], r["err"][:1500]))
        for i in range(10):
            _, r2 = self.exec_case(drv, case, "crash%d" % i)
            if r2 is not None:
                self.violation(case, None, {"died": r2["err"][:1500]}, how + ": the process running the real code died, and again when only this case ran")
                return
        if "WARNING: DATA RACE" in r["err"] and REPO + "/" in r["err"]:
            self.violation(case, None, {"died": r["err"][:1500]}, how + ": the race detector reported a race in the real code (it depends on the schedule, and did not happen again)")
            return
        raise CheckError("the driver died in case %s, but not when that case ran again:\n%s" % (case["id"], r["err"]))

    def exec_group(self, drv, cases, how, tag):
        """Executes cases at a time; returns (executed cases, died)"""
        p = os.path.join(self.tmp, "group-%s-%d.ndjson" % (tag, next(SERIAL)))
        with open(p, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        r = self.drive(drv, ["exec", "-how", how, "-in", p, "-out", p + ".out", "-intent", p + ".intent"])
        if r is not None:
            return None, r
        return [json.loads(l) for l in open(p + ".out")], None

    def group(self, drv, seed, first, n):
        """The cases of a group as they were generated"""
        cases = []
        for i in range(first, first + n):
            p = os.path.join(self.tmp, "gen-%d.ndjson" % next(SERIAL))
            self.drive(drv, ["case", "-seed", str(seed), "-from", str(i), "-tier", self.tier, "-out", p])
            cases.append(json.loads(open(p).readline()))
        return cases

    def crash_group(self, drv, cases, r, how):
        """The process under test died while it executed these cases at a time"""
        what = {"weave": "woven calls of objects that have nothing to do with each other", "threads": "threads with objects of their own"}[how]
        self.log("the driver died (%s) in the cases %s ...:\n%s" % (what, cases[0]["id"], r["err"][:1500]))
        g = {"how": how, "cases": cases}
        if "WARNING: DATA RACE" in r["err"] and REPO + "/" in r["err"]:
            self.violation(cases[0], None, {"died": r["err"][:1500]}, what + ": the race detector reported a race in the real code", g)
            return
        for i in range(10):
            _, r2 = self.exec_group(drv, cases, how, "crash%d" % i)
            if r2 is not None:
                self.violation(cases[0], None, {"died": r2["err"][:1500]}, what + ": the process running the real code died, and again when only these cases ran", g)
                return
        raise CheckError("the driver died in the cases %s ..., but not when they ran again:\n%s" % (cases[0]["id"], r["err"]))

    def apart(self, drv, pkg, module, cfg, n, chunk=None, threads=True, weave=True):
        """Objects that have nothing to do with each other do not influence each other: several random cases at a time, each of
        which has to be a behaviour of the specification. Woven in one thread, changing over also in the middle of a call where
        the code calls back; and in threads of their own, under the race detector."""
        if weave:
            self.traces(drv, module, cfg, n, "as before, 4 cases at a time, going over from one to another between any two calls and within calls", chunk=chunk, seed_off=1000, how="weave")
        if threads:
            self.traces(self.build(pkg, True), module, cfg, n, "as before, 4 cases at a time in threads of their own, under the race detector", chunk=chunk, seed_off=2000, how="threads")

    def traces(self, drv, module, cfg, n, what, heap="2g", chunk=None, seed_off=0, how=None):
        """n random cases, executed by the real code, validated by TLC."""
        G = 4
        t = time.time()
        shards = NCPU
        per = (n + shards - 1) // shards
        if how:
            per = (per + G - 1) // G * G
            chunk = chunk and (chunk + G - 1) // G * G
        if self.tier == "thorough":
            # in pieces, so that the run can end in time: what was left out is reported
            chunk = min(chunk or per, max(200, per // 10 // G * G))
        chunk = chunk or per
        jobs = []
        for s in range(shards):
            lo = s * per
            while lo < (s + 1) * per:
                hi = min(lo + chunk, (s + 1) * per)
                jobs.append((lo, hi - lo))
                lo = hi
        if self.tier == "thorough":
            jobs.sort(key=lambda j: (j[0] % per, j[0]))
        tot = {"cases": 0, "ops": 0, "rej": 0}
        left = []
        kinds = {}
        tag = "%s-%d-%s" % (module, seed_off, how)

        def one(job):
            lo, cnt = job
            if self.tier == "thorough" and time.time() - self.t0 > THOROUGH_S and job not in jobs[:NCPU]:
                left.append(cnt)
                return
            p = os.path.join(self.tmp, "tr-%s-%d.ndjson" % (tag, lo))
            r = self.drive(drv, ["trace", "-seed", str(self.seed + seed_off), "-from", str(lo), "-n", str(cnt), "-tier", self.tier, "-out", p, "-intent", p + ".intent"] + (["-how", how, "-size", str(G)] if how else []))
            if r is not None and how:
                self.crash_group(drv, self.group(drv, self.seed + seed_off, r["idx"], min(G, lo + cnt - r["idx"])), r, how)
                return
            if r is not None:
                cp = p + ".case"
                self.drive(drv, ["case", "-seed", str(self.seed + seed_off), "-from", str(r["idx"]), "-tier", self.tier, "-out", cp])
                self.crash(drv, json.loads(open(cp).readline()), r, "trace")
                # the cases before the crash are still worth validating, but the file may end in the middle of a line
                return
            res = self.validate(module, cfg, p, heap)
            return p, res

        with cf.ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, jobs))
        rejected = []
        for r in results:
            if r is None:
                continue
            p, (rej, st, expected) = r
            self.count(st)
            cases = open(p).read().splitlines()
            tot["cases"] += len(cases)
            for l in cases:
                for o in json.loads(l)["ops"]:
                    tot["ops"] += 1
                    res = o.get("res")
                    key = "%s:%s" % (o.get("op"), res.get("k") if isinstance(res, dict) else "")
                    kinds[key] = kinds.get(key, 0) + 1
            for (ci, k) in rej:
                g = None
                if how:
                    first = (ci - 1) // G * G
                    g = {"how": how, "cases": [json.loads(l) for l in cases[first:first + G]]}
                rejected.append((json.loads(cases[ci - 1]), k, expected.get((ci, k)), g))
            os.remove(p)
            if not rej and len(self.cov["samples"]) < 6:
                self.cov["samples"].append({"stage": "trace", "case": json.loads(cases[len(cases) // 2])})
        tot["rej"] = len(rejected)
        rejected.sort(key=lambda x: len(json.dumps(x[0])))
        where = {None: "", "weave": " (calls of objects that have nothing to do with each other were woven)", "threads": " (in one of several threads with objects of their own)"}[how]
        for case, k, exp, g in rejected[:200]:
            self.violation(case, k - 1, exp, "trace rejected by the specification" + where, g)
        self.cov["traces_validated_against_impl"] += tot["cases"]
        self.cov["calls_validated_against_impl"] += tot["ops"]
        self.cov["stages"].append({"stage": "trace" + (" (%s)" % how if how else ""), "module": module, "config": cfg, "what": what, "cases": tot["cases"], "calls": tot["ops"],
                                   "rejected": tot["rej"], "left_out_for_time": sum(left), "calls_by_kind": dict(sorted(kinds.items())), "wall_s": round(time.time() - t, 1)})
        self.log("validated %d recorded cases (%d calls) against %s, %d rejected" % (tot["cases"], tot["ops"], module, tot["rej"]))

    def validate(self, module, cfg, path, heap="2g"):
        st = self.tlc(module, cfg, env={"TRACE": path}, heap=heap)
        rej, expected, done = [], {}, None
        for line in open(st["out"], errors="replace"):
            if line.startswith('"REJECT '):
                parts = json.loads(line).split(" ", 3)
                key = (int(parts[1]), int(parts[2]))
                rej.append(key)
                if len(parts) > 3:
                    expected[key] = parts[3]
            elif line.startswith('"DONE '):
                done = int(json.loads(line).split()[1])
        n = sum(1 for _ in open(path))
        if not st["ok"] or done != n:
            raise CheckError("TLC did not validate %s to its end (%s of %d cases):\n%s" % (path, done, n, self.tail(st["out"])))
        return rej, st, expected

    # ---------------------------------------------------------------- verdicts
    def violation(self, case, at, expected, how, group=None):
        for k in self.known:
            if known_matches(k, case, at):
                self.known_hits[k["id"]] = k
                return
        self.violations.append(Violation(case, at, expected, how, group))

    def known_cases(self, drv, module, cfg):
        """Runs the specific inputs of the known findings, so that they are reported on every run."""
        for k in self.known:
            for case in k.get("cases", []):
                done, died = self.exec_case(drv, dict(case, id=k["id"]), "known")
                if died is not None:
                    self.known_hits[k["id"]] = k
                    continue
                p = os.path.join(self.tmp, "known.ndjson")
                with open(p, "w") as f:
                    f.write(json.dumps(done) + "\n")
                rej, _, _ = self.validate(module, cfg, p)
                if rej:
                    self.known_hits[k["id"]] = k

    def finish(self, level="model_checking", assumptions=()):
        c = self.cov
        if c["traces_validated_against_impl"] == 0 and not self.violations:
            raise CheckError("nothing was validated against the implementation")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": c,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        for s in c["samples"]:
            ops = (s.get("behaviour") or s.get("case"))["ops"]
            del ops[40:]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        for k in sorted(self.known_hits):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known_hits[k]["what"]))
        if self.violations:
            rd = os.path.join(ROOT, "replays")
            os.makedirs(rd, exist_ok=True)
            self.violations.sort(key=lambda v: len(json.dumps(v.case)))
            v = self.violations[0]
            rp = os.path.join(rd, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "how": v.how, "case": v.case, "group": v.group, "failing_call": v.at,
                           "expected": v.expected, "others": [{"case": w.case, "failing_call": w.at, "expected": w.expected} for w in self.violations[1:4]]}, f, indent=1)
                f.write("\n")
            print("how: " + v.how)
            if v.at is not None and v.at < len(v.case["ops"]):
                print("failing call: " + json.dumps(v.case["ops"][v.at])[:1500])
            print("expected: " + json.dumps(v.expected)[:1500])
            print("%d violations in all; re-run one with: ./check %s --replay %s" % (len(self.violations), self.pid, rp))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.pid, self.tier, self.seed, c["states"], c["transitions"], c["traces_validated_against_impl"], time.time() - self.t0))
        return 0

    def clean(self):
        if self.tmp.startswith("/tmp/") or self.tmp.startswith(tempfile.gettempdir()):
            shutil.rmtree(self.tmp, ignore_errors=True)


def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)["findings"]


def known_matches(k, case, at):
    """A rejection is a known finding if the failing call is exactly one of the listed ones (all listed fields equal)."""
    if at is None:
        return False
    op = case["ops"][at]
    for pat in k.get("calls", []):
        if all(op.get(f) == v for f, v in pat.items()):
            return True
    return False
