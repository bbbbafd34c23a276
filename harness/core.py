"""Shared machinery: run scenarios in parallel, validate the traces with TLC, report."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = os.path.join(VERIF, "tla")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Machinery(Exception):
    pass


def _worker(args):
    sc, want = args
    from harness import drive
    try:
        return drive.run(sc, want)
    except BaseException as e:  # machinery failure
        return {"machinery": repr(e)}


def execute(scs, want, fn=None):
    """run all scenarios on the real code; list of observations (same order)"""
    from harness import drive
    drive.lib()
    f = fn or _worker
    if len(scs) < 40:
        res = [f((s, want)) for s in scs]
    else:
        with mp.get_context("fork").Pool(NCPU) as pool:
            res = pool.map(f, [(s, want) for s in scs], chunksize=max(1, len(scs) // (NCPU * 8)))
    for r in res:
        if "machinery" in r:
            raise Machinery(r["machinery"])
    return res


def unnull(v):
    """JSON null and floats have no TLC value"""
    if v is None:
        return "None"
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, dict):
        return {k: unnull(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [unnull(x) for x in v]
    if isinstance(v, int) and not isinstance(v, bool) and abs(v) >= 2**31:
        return "i" + str(v)
    return v


def parse_verdicts(out):
    bad = []
    for line in out.splitlines():
        if line.startswith('"BAD '):
            s = json.loads(line)          # TLC prints a TLA+ string: same escapes as JSON here
            bad.append(json.loads(s[4:]))
    return bad


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def validate(module, traces, tmp, judge=None, shards=NCPU, timeout=800):
    """check traces (list of dict) with the TLC trace module; returns (verdicts, stats).
    With judge, the module walks the traces with TraceRun and that operator decides."""
    if judge:
        cfg = os.path.join(tmp, f"{module}_{judge}.cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION TraceSpec\nCONSTANT Judge <- {judge}\nINVARIANT TraceDone\nCHECK_DEADLOCK FALSE\n")
    else:
        cfg = f"{module}.cfg"
    shards = max(1, min(shards, (len(traces) + 24) // 25))
    procs = []
    for k in range(shards):
        part = traces[k::shards]
        path = os.path.join(tmp, f"{module}.{k}.ndjson")
        with open(path, "w") as f:
            for t in part:
                f.write(json.dumps(unnull(t)) + "\n")
        meta = os.path.join(tmp, f"meta{module}{k}")
        os.makedirs(meta, exist_ok=True)
        log = open(os.path.join(tmp, f"{module}.{k}.out"), "w+")
        e = dict(os.environ, TRACE=path)
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", *(["-XX:TieredStopAtLevel=1"] if len(part) < 1500 else []), "-XX:+UseSerialGC", "-Xmn400m", "-Xmx2500m", "-Xss256m", "-XX:-UsePerfData", f"-Djava.io.tmpdir={meta}",
               "-cp", JARS, "tlc2.TLC", "-workers", "1", "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg, f"{module}.tla"]
        procs.append((subprocess.Popen(cmd, cwd=TLA, env=e, stdout=log, stderr=subprocess.STDOUT), log, len(part)))
    verdicts, gen, dist = [], 0, 0
    end = time.time() + timeout
    for p, log, n in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise Machinery(f"{module}: TLC timed out")
        log.seek(0)
        out = log.read()
        log.close()
        m = STATS.findall(out)
        if p.returncode != 0 or not m or f"DONE {n}" not in out:
            raise Machinery(f"{module}: TLC failed ({p.returncode}):\n" + brief(out))
        gen += int(m[-1][0])
        dist += int(m[-1][1])
        verdicts += parse_verdicts(out)
    return verdicts, {"generated": gen, "distinct": dist}


def model_check(module, tmp, cfg=None, timeout=600, workers=NCPU, extra=(), sub=None):
    """run TLC on a model; returns (scenarios emitted by SCN lines, stats). A violated invariant
    of the *model* is a machinery error: the design itself would be wrong."""
    if sub:                      # other bounds than the committed ones
        with open(os.path.join(TLA, cfg or f"{module}.cfg")) as f:
            body = f.read()
        for k, v in sub.items():
            v = str(v)
            body, n = re.subn(rf"^(\s*{k}) *(=|<-).*$", lambda m: m.group(1) + " " + (v if v.startswith("<-") else "= " + v), body, flags=re.M)
            if n != 1:
                raise Machinery(f"{module}: no constant {k}")
        cfg = os.path.join(tmp, f"{module}_sub.cfg")
        with open(cfg, "w") as f:
            f.write(body)
    meta = os.path.join(tmp, "mc" + module)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", *([] if THOROUGH else ["-XX:TieredStopAtLevel=1"]), "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra,
           "-config", cfg or f"{module}.cfg", f"{module}.tla"]
    try:
        r = subprocess.run(cmd, cwd=TLA, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           encoding="utf-8", errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"{module}: TLC timed out")
    m = STATS.findall(r.stdout)
    if r.returncode != 0 or not m:
        raise Machinery(f"{module}: TLC failed ({r.returncode}):\n" + brief(r.stdout))
    scs = [json.loads(json.loads(l)[4:]) for l in r.stdout.split("\n") if l.startswith('"SCN ')]
    scs.sort(key=lambda s: json.dumps(s, sort_keys=True))
    return scs, {"generated": int(m[-1][0]), "distinct": int(m[-1][1])}


def brief(out):
    lines = [l[:600] for l in out.splitlines() if not l.startswith(('"SCN', "State ", "/\\\\ "))]
    k = next((i for i, l in enumerate(lines) if "Error" in l or "violated" in l), 0)
    return "\n".join(lines[max(0, k - 2):k + 40])


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"] if k["property"] == pid and k.get("status") == "known"]


def scenario_key(sc):
    return json.dumps({k: v for k, v in sc.items() if k not in ("id",)}, sort_keys=True)


class Check:
    """One property's run."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vt{pid}_", dir=os.environ.get("VT_TMP", "/tmp"))
        self.rng = random.Random(f"{SEED}/{pid}")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.known_hits = {}

    def lap(self, what):
        now = time.time()
        if os.environ.get("VT_LAPS"):
            print(f"  [{what}: {now - getattr(self, 'tl', self.t0):.1f}s]", file=sys.stderr)
        self.tl = now

    def run(self, scs, want, module, judge=None, label="random", fn=None):
        """execute scenarios on the real code and validate what was recorded"""
        outs = execute(scs, want, fn)
        self.lap(f"execute {len(scs)}")
        return self.validate(module, scs, outs, label, judge)

    def model(self, module, **kw):
        self.lap("gen")
        scs, st = model_check(module, self.tmp, **kw)
        self.lap(f"model {module} {st['distinct']}")
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.cov.setdefault("model_states_" + ((kw.get("cfg") if not kw.get("sub") else None) or module).replace(".cfg", ""), st["distinct"])
        return scs

    def validate(self, module, scs, outs, label, judge=None):
        traces = [{"id": i, "in": s, "out": o} for i, (s, o) in enumerate(zip(scs, outs))]
        return self.validate_traces(module, traces, scs, outs, label, judge)

    def validate_traces(self, module, traces, scs, outs, label, judge=None):
        bad, st = validate(module, traces, self.tmp, judge=judge)
        self.lap(f"validate {label} {len(traces)}")
        self.cov["states"] += st["distinct"]
        self.cov["transitions"] += st["generated"]
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["traces_" + label] = self.cov.get("traces_" + label, 0) + len(traces)
        if scs and len(self.cov["samples"]) < 4:
            k = self.rng.randrange(len(scs))
            self.cov["samples"].append({"scenario": trunc(scs[k]), "observed_notes": [n["n"] for n in outs[k].get("notes", [])][:30]})
        for v in bad:
            self.fail(scs[v["id"]], sorted(v["bad"]), outs[v["id"]], f"{module}/{judge or label}")
        return bad

    def fail(self, sc, clauses, out, where):
        for k in load_known(self.pid):
            if scenario_match(k, sc, clauses):
                self.known_hits.setdefault(k["id"], k)
                return
        self.violations.append({"property": self.pid, "clauses": clauses, "scenario": sc, "observed": out, "by": where})

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        for k in self.known_hits.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        rc = 0
        if self.violations:
            rc = 1
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            # smallest scenario first: the easiest to read
            self.violations.sort(key=lambda v: len(json.dumps(v["scenario"])))
            path = os.path.join(d, f"{self.pid}.json")
            with open(path, "w") as f:
                json.dump(self.violations[:200], f, indent=1)
            seen, show = set(), []
            for v in self.violations:
                key = json.dumps(v["clauses"])
                if key not in seen:
                    seen.add(key)
                    show.append(v)
            for v in show[:8]:
                print(f"  {v['by']}: {v['clauses'][:6]}  scenario={json.dumps(trunc(v['scenario']))[:700]}")
            print(f"  ({len(self.violations)} violating scenarios)")
            print(f"VIOLATION property={self.pid} replay={path}")
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"{self.pid}: {self.cov['traces_validated_against_impl']} traces validated, "
              f"{self.cov['states']} states, {ev['wall_s']}s, violations={len(self.violations)}")
        return rc


def scenario_match(k, sc, clauses):
    """a known finding names the exact clauses it explains and a fragment the scenario must contain"""
    if not set(clauses) <= set(k["clauses"]):
        return False
    text = json.dumps(sc)
    return all(frag in text for frag in k.get("contains", []))


def trunc(v, n=160):
    if isinstance(v, str):
        return v if len(v) <= n else v[:n] + f"...({len(v)})"
    if isinstance(v, dict):
        return {k: trunc(x, n) for k, x in v.items()}
    if isinstance(v, list):
        return [trunc(x, n) for x in v[:40]]
    return v
