"""Runs one check: cases from the specification's generators and seeded data, the real code on each of
them, and TLC's verdict on every recorded call.

  inputs  --driver (lib/drive.py, fresh processes importing /repo)-->  recorded calls
  recorded calls  --TLC with spec/<module>.tla-->  verdict per call

Exit 0: every verdict is empty, exit 1: a VIOLATION line was printed.
"""
import argparse
import glob
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OWC_REPO", "/repo")
TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
JOBS = max(2, min(8, os.cpu_count() or 2))


class Machinery(Exception):
    """Something of the check itself broke (never the code under test)."""


def code_env(scratch, extra=None):
    env = dict(os.environ)
    env.update({"PYTHONPATH": REPO + os.pathsep + os.path.join(VERIF, "lib"), "MPLBACKEND": "Agg",
                "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
                "MPLCONFIGDIR": os.path.join(scratch, "mpl"), "OWC_REPO": REPO, "PYTHONHASHSEED": "0",
                "OWC_TBASE": os.path.join(scratch, "tbase.int"), "HOME": scratch, "TMPDIR": scratch})
    env.update(extra or {})
    return env


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="owcverif_%s_" % prop)
        os.makedirs(os.path.join(self.scratch, "mpl"))
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.states = self.transitions = 0
        self.notes = []
        self.models = []
        self.classes = None

    quick = property(lambda self: self.tier == "quick")

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- TLC -------------------------------------------------------------------------------------
    def java(self):
        if self.classes is None:
            out = os.path.join(self.scratch, "classes")
            os.makedirs(out)
            r = subprocess.run(["javac", "-nowarn", "-cp", CP, "-d", out] +
                               sorted(glob.glob(VERIF + "/java/*.java")), capture_output=True, text=True)
            if r.returncode:
                raise Machinery("javac: " + r.stderr[-2000:])
            self.classes = out
            self.tlc("NumTest", what="self-test of the number primitives")
        return self.classes

    def tlc(self, module, cfg=None, params=None, workers=None, what="", timeout=800, mode=(), check=True, heap="6g"):
        """Runs TLC on spec/<module>.tla; gives the emitted lines per tag."""
        cls = self.java()
        n = len(os.listdir(self.scratch))
        if cfg is None:
            cfg = os.path.join(self.scratch, "cfg%d.cfg" % n)
            with open(cfg, "w") as f:
                f.write("INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
        elif not os.path.isabs(cfg):
            cfg = os.path.join(VERIF, "spec", cfg)
        tmp = os.path.join(self.scratch, "tlc%d" % n)
        os.makedirs(tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmp,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides"]
        cmd += ["-Dverif.%s=%s" % kv for kv in (params or {}).items()]
        cmd += ["-cp", cls + ":" + CP, "tlc2.TLC", "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE",
                "-workers", str(workers or JOBS), "-config", cfg] + list(mode) + [os.path.join(VERIF, "spec", module + ".tla")]
        out = os.path.join(tmp, "out.txt")
        with open(out, "w") as f:
            try:
                rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=tmp).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        emitted, log = {}, []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith("@@"):
                    tag, rest = line[2:].split(" ", 1)
                    emitted.setdefault(tag, []).append(json.loads(rest))
                else:
                    log.append(line)
        log = "".join(log)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", log.replace(",", ","))
        if m:
            self.transitions += int(m.group(1))
            self.states += int(m.group(2))
            self.models.append({"module": module, "cfg": os.path.basename(cfg), "generated": int(m.group(1)),
                                "distinct": int(m.group(2)), "what": what})
        shutil.rmtree(tmp, ignore_errors=True)
        if check and rc != 0:
            raise Machinery("TLC %s rc=%d: %s" % (module, rc, log[-3000:]))
        self.last_log, self.last_rc = log, rc
        return emitted

    # -- the code under test ---------------------------------------------------------------------
    def tbase(self):
        """The synthetic bathymetry shared by all worlds of this run."""
        p = os.path.join(self.scratch, "tbase.int")
        if not os.path.exists(p):
            sys.path.insert(0, os.path.join(VERIF, "lib"))
            import numpy as np
            import world
            r, c = np.arange(2160).reshape(-1, 1), np.arange(4320).reshape(1, -1)
            np.asarray(world.default_bathy(r, c) + np.zeros((2160, 4320)), dtype="<i2").tofile(p)
        return p

    def drive(self, module, cases, limit=60, env=None, jobs=None):
        """Runs checks/<module>.run on each case in fresh processes; adds the key 'out' to each case."""
        for i, c in enumerate(cases):
            c["k"] = i
        jobs = min(jobs or JOBS, len(cases)) or 1
        mixed = random.Random(len(cases)).sample(cases, len(cases))      # kinds that take turns are to meet in one process
        pending = {i: mixed[i::jobs] for i in range(jobs)}
        done = {}
        procs = {}

        def start(i):
            d = os.path.join(self.scratch, "drv%d_%d" % (i, len(os.listdir(self.scratch))))
            os.makedirs(d)
            with open(os.path.join(d, "in.json"), "w") as f:
                json.dump(pending[i], f)
            log = open(os.path.join(d, "log.txt"), "w")
            p = subprocess.Popen([PY, os.path.join(VERIF, "lib", "drive.py"), module, d, str(limit)],
                                 stdout=log, stderr=subprocess.STDOUT, env=code_env(self.scratch, env), cwd=d)
            procs[i] = (p, d, [time.time(), 0])

        def collect(i, why):
            p, d, _ = procs.pop(i)
            got = []
            try:
                with open(os.path.join(d, "out.jsonl")) as f:
                    for line in f:
                        if line.endswith("\n"):
                            got.append(json.loads(line))
            except FileNotFoundError:
                pass
            with open(os.path.join(d, "log.txt"), errors="replace") as f:
                tail = f.read()[-1500:]
            for k, out in got:
                done[k] = out
            rest = [c for c in pending[i] if c["k"] not in done]
            shutil.rmtree(d, ignore_errors=True)
            if rest:                           # the first one without an answer ended the process
                done[rest[0]["k"]] = {"error": why or "the process ended: " + tail[-300:], "crash": True}
                pending[i] = rest[1:]
                if pending[i]:
                    start(i)

        for i in range(jobs):
            start(i)
        while procs:
            for i in list(procs):
                p, d, st = procs[i]
                if p.poll() is not None:
                    collect(i, None)
                    continue
                o = os.path.join(d, "out.jsonl")
                size = os.path.getsize(o) if os.path.exists(o) else 0
                if size != st[1]:
                    st[0], st[1] = time.time(), size
                if time.time() - st[0] > limit * 2 + 20:
                    p.kill()
                    p.wait()
                    collect(i, "no result within %d s" % (limit * 2 + 20))
            time.sleep(0.02)
        for c in cases:
            c["out"] = done[c["k"]]
        return cases

    # -- verdicts --------------------------------------------------------------------------------
    def judge(self, module, cases, timeout=800, params=None):
        """TLC's verdict for each case: dict k -> {fail: [...], hit: [...]}."""
        path = os.path.join(self.scratch, "cases_%s_%d.json" % (module, len(os.listdir(self.scratch))))

        def go(sub, workers=None):
            with open(path, "w") as f:
                json.dump(sub, f)
            p = dict(params or {})
            p["cases"] = path
            em = self.tlc(module, params=p, what="verdicts", timeout=timeout, check=False, workers=workers)
            return {k: v for k, v in em.get("V", [])}
        verdicts = go(cases)
        missing = [c for c in cases if c["k"] not in verdicts]
        first_log = self.last_log if missing else ""
        if missing and len(missing) == len(cases) and "Parsing or semantic analysis failed" in first_log:
            raise Machinery(first_log[-3000:])
        budget = time.time() + 120
        for rnd in range(12):
            if not missing or time.time() > budget:
                break
            if len(missing) > 1 and rnd % 2 == 0:
                got = go(missing[1:])
            else:
                got = go(missing[:1], workers=1)
                if missing[0]["k"] not in got:
                    # the recorded call has a form the judge cannot even read
                    verdicts[missing[0]["k"]] = {"fail": ["unreadable"], "hit": [],
                                                 "log": self.last_log[max(0, self.last_log.find("Error:")):][:2500]}
            verdicts.update(got)
            missing = [c for c in missing if c["k"] not in verdicts]
        for c in missing:
            verdicts[c["k"]] = {"fail": [], "hit": ["not judged"]}
        if len(missing) == len(cases):
            raise Machinery("no verdict: " + first_log[-3000:])
        return verdicts

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"]


def slim(x, depth=0):
    s = json.dumps(x)
    return x if len(s) < 200000 else {"too large": len(s), "head": s[:2000]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay", help="run only the recorded case in this file")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    os.environ["OWC_REPO"] = REPO
    mod = importlib.import_module("checks." + a.prop.lower())
    run = Run(a.prop, a.tier, a.seed)
    os.environ["OWC_TBASE"] = os.path.join(run.scratch, "tbase.int")
    rc = 2
    try:
        replay = None
        if a.replay:
            with open(a.replay) as f:
                replay = json.load(f)
        rc = finish(run, mod, *mod.check(run, replay))
    except Machinery as e:
        print("MACHINERY-ERROR property=%s %s" % (a.prop, e))
        rc = 2
    finally:
        if a.keep:
            print("kept", run.scratch)
        else:
            run.close()
    sys.exit(rc)


def standard(run, name, spec, cases, controls=None, limit=60, env=None, replay=None, jobs=None):
    """cases -> real code -> verdicts, plus negative controls (corrupted recordings must be rejected)."""
    if replay:
        cases = [dict(replay["case"])]
        for c in cases:
            c.pop("out", None)
    run.drive(name, cases, limit=limit, env=env, jobs=jobs)
    extra = []
    if controls and not replay:
        for c in cases:
            for tag, out in controls(c) or []:
                x = dict(c)
                x["out"] = out
                x["k"] = "control %d %s %d" % (c["k"], tag, len(extra))
                extra.append(x)
    verdicts = run.judge(spec, cases + extra)
    return cases, verdicts, extra


def finish(run, mod, cases, verdicts, extra=()):
    known = load_known(run.prop)
    hits, violations, findings = {}, [], {}
    judged = 0
    for c in cases:
        v = verdicts[c["k"]]
        judged += 1
        for h in v.get("hit", []):
            hits[h] = hits.get(h, 0) + 1
        fails = list(v["fail"])
        for kf in known:
            if kf["clause"] in fails:
                fails.remove(kf["clause"])
                findings.setdefault(kf["clause"], kf)
        if fails:
            violations.append((c, fails, v))
    rejected = sum(1 for c in extra if verdicts[c["k"]]["fail"])
    for kf in findings.values():
        print("KNOWN-FINDING: property=%s %s" % (run.prop, kf["what"]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    for f in glob.glob(os.path.join(rdir, run.prop + "_*.json")):
        os.remove(f)
    for i, (c, fails, v) in enumerate(violations[:5]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%d.json" % (run.prop, i))
        with open(path, "w") as f:
            json.dump({"property": run.prop, "clauses": fails, "verdict": v, "seed": run.seed, "case": c}, f)
        print("VIOLATION property=%s replay=%s" % (run.prop, path))
        print("  clauses: %s; case %s %s" % (", ".join(map(str, fails)), c["k"], c.get("kind", "")))
        err = c["out"].get("error") if isinstance(c.get("out"), dict) else None
        if err:
            print("  error: %s" % str(err)[-600:])
    if len(violations) > 5:
        print("  ... %d violating cases in all" % len(violations))
    kinds = {}
    for c in cases:
        kinds[c.get("kind", "case")] = kinds.get(c.get("kind", "case"), 0) + 1
    distinct = len({hashlib.sha1(json.dumps({k: v for k, v in c.items() if k not in ("k", "out")},
                                            sort_keys=True).encode()).hexdigest() for c in cases})
    samples = [{"kind": c.get("kind"), "input": slim_head(c), "hit": verdicts[c["k"]].get("hit", [])}
               for c in cases[:: max(1, len(cases) // 4)][:5]]
    ev = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": "model_checking",
          "coverage": {"states": run.states, "transitions": run.transitions,
                       "traces_validated_against_impl": judged, "distinct_cases": distinct,
                       "cases_per_kind": kinds, "situations_shown": hits, "models": run.models,
                       "negative_controls": len(extra), "negative_controls_rejected": rejected,
                       "samples": samples},
          "wall_s": round(time.time() - run.t0, 1),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + run.notes,
          "violations": [{"clauses": f, "case": c["k"], "kind": c.get("kind", "")} for c, f, _ in violations[:20]]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d recorded calls judged by TLC (%d distinct), %d violating, controls %d/%d rejected, %.0f s" % (
        run.prop, run.tier, judged, distinct, len(violations), rejected, len(extra), time.time() - run.t0))
    missed = [h for h in getattr(mod, "EXPECT", []) if h not in hits]
    if missed:
        print("  situations not shown: %s" % missed)
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(hits, indent=1), json.dumps(kinds))
        for c in extra:
            if not verdicts[c["k"]]["fail"]:
                print("  control accepted:", c["k"])
    return 1 if violations else 0


def slim_head(c):
    s = json.dumps({k: v for k, v in c.items() if k not in ("out", "k")})
    return s if len(s) < 600 else s[:600] + "..."


if __name__ == "__main__":
    main()
