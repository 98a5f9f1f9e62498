"""Shared machinery of the checks: scratch space, TLC, verdicts, evidence."""
import atexit
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SEED = int(os.environ.get("VERIF_SEED") or "1")
NCPU = os.cpu_count() or 4
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

_main_pid = os.getpid()


def scratch_root() -> Path:
    p = os.environ.get("VERIF_SCRATCH")
    if not p:
        raise RuntimeError("run through bin/check")
    return Path(p)


def mkscratch(prefix="s") -> Path:
    return Path(tempfile.mkdtemp(prefix=prefix + "-", dir=scratch_root()))


def rmtree(p):
    p = Path(p).absolute()
    assert scratch_root() in p.parents, p
    shutil.rmtree(p, ignore_errors=True)


class CheckError(Exception):
    """The machinery itself failed (never a verdict)."""


class TlcResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.out = ""
        self.violated = None
        self.prints = []
        self.coverage = {}


_state_re = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(
    module,
    cfg,
    *,
    env=None,
    workers=4,
    timeout=600,
    extra=(),
    simulate=None,
    depth=None,
    heap="3g",
    expect_violation=False,
    outfile=None,
    seed=None,
):
    """Run TLC on spec/<module>.tla with the cfg text (or spec/<cfg> file).

    Raises CheckError on anything but 'no error' / a property violation.
    """
    d = mkscratch("tlc")
    try:
        for f in SPEC.glob("*.tla"):
            os.symlink(f, d / f.name)
        if "\n" not in cfg and (SPEC / cfg).exists():
            cfg = (SPEC / cfg).read_text()
        (d / "run.cfg").write_text(cfg)
        cmd = [
            "java",
            f"-Xmx{heap}",
            "-Xss64m",
            "-XX:+UseParallelGC",
            f"-XX:ParallelGCThreads={max(1, min(4, workers))}",
            "-XX:TieredStopAtLevel=4",
            f"-Djava.io.tmpdir={d}",
            "-cp",
            JARS,
            "tlc2.TLC",
            "-config",
            "run.cfg",
            "-metadir",
            str(d / "states"),
            "-workers",
            str(workers),
            "-noGenerateSpecTE",
        ]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 30)]
            cmd += ["-seed", str(seed if seed is not None else SEED)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        with open(d / "out", "w") as o:
            try:
                p = subprocess.run(
                    cmd, cwd=d, env=e, stdout=o, stderr=subprocess.STDOUT,
                    timeout=timeout, stdin=subprocess.DEVNULL,
                )
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError(f"TLC timed out: {module}")
        out = (d / "out").read_text(errors="replace")
    finally:
        rmtree(d)
    r = TlcResult()
    r.out = out
    for m in _state_re.finditer(out):
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"The number of states generated: (\d+)", out)
    if simulate and m:
        r.states = int(m.group(1))
    for line in out.splitlines():
        if line.startswith('"@@'):
            # printed TLA+ string holding JSON
            r.prints.append(json.loads(json.loads(line)[2:]))
        elif line.startswith("<") and " of module " in line:
            mm = re.match(r"<(\w+) line .* of module (\w+)>: (\d+):(\d+)", line)
            if mm:
                r.coverage[mm.group(1)] = int(mm.group(4))
    if rc == 0:
        return r
    if rc in (10, 11, 12, 13):  # assumption / deadlock / safety / liveness
        r.violated = out
        if expect_violation:
            return r
        if rc == 12 or rc == 13:
            return r
    raise CheckError(f"TLC failed ({rc}) on {module}:\n" + out[-6000:])


def split(items, n):
    n = max(1, min(n, len(items)))
    k, m = divmod(len(items), n)
    res, i = [], 0
    for j in range(n):
        c = k + (1 if j < m else 0)
        res.append(items[i : i + c])
        i += c
    return res


def validate(module, traces, *, jobs=None, timeout=600, constants="", heap="3g",
             spec=True, min_batch=20):
    """Let TLC judge recorded executions.

    `module` reads IOEnv.DATA (a JSON array of traces) and prints one JSON
    record per problem and one DONE record per completely consumed trace.
    Returns (problems, stats) with problems = [(trace index, record)].
    Every trace has to be accounted for by TLC.
    """
    jobs = jobs or NCPU
    jobs = max(1, min(jobs, len(traces) // min_batch or 1))
    idx = list(range(len(traces)))
    stats = dict(states=0, distinct=0, traces=0)
    problems = []

    def one(part):
        d = mkscratch("val")
        try:
            f = d / "data.json"
            f.write_text(json.dumps([traces[i] for i in part]))
            cfg = (
                "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + constants
            )
            r = run_tlc(module, cfg, env={"DATA": f}, workers=1,
                        timeout=timeout, heap=heap)
            if r.violated:
                raise CheckError(r.out[-4000:])
            return part, r
        finally:
            rmtree(d)

    with ThreadPoolExecutor(jobs) as ex:
        for part, r in ex.map(one, split(idx, jobs)):
            done = set()
            seen = set()
            for rec in r.prints:
                key = json.dumps(rec, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                i = part[rec["t"] - 1]
                if rec["k"] == "DONE":
                    done.add(i)
                else:
                    problems.append((i, rec))
            missing = set(part) - done
            if missing:
                raise CheckError(
                    f"{module}: {len(missing)} traces not consumed, e.g. "
                    f"{min(missing)}:\n" + r.out[-3000:]
                )
            stats["states"] += r.states
            stats["distinct"] += r.distinct
            stats["traces"] += len(done)
    return problems, stats


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.start = time.time()
        self.rng = random.Random(f"{SEED}-{pid}-{tier}")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.level = "model_checking"
        kf = VERIF / "known_findings.json"
        self.known_list = json.loads(kf.read_text()) if kf.exists() else []

    def log(self, *a):
        print(f"[{time.time()-self.start:6.1f}s]", *a, flush=True)

    def left(self, budget):
        return budget - (time.time() - self.start)

    def add_mc(self, r: TlcResult, name):
        self.states += r.distinct
        self.transitions += r.states
        self.extra.setdefault("model_checking_runs", []).append(
            dict(spec=name, states=r.distinct, generated=r.states)
        )

    def mc(self, module, cfg, **kw):
        r = run_tlc(module, cfg, **kw)
        if r.violated:
            # The design itself is broken: this is a finding about the spec,
            # independent of the code, and must not happen.
            raise CheckError(
                f"specification {module} violates its own properties:\n"
                + r.out[-5000:]
            )
        self.add_mc(r, f"{module}:{cfg.splitlines()[0] if chr(10) in cfg else cfg}")
        self.log(f"TLC {module}: {r.distinct} states, {r.states} transitions")
        return r

    def add_traces(self, stats):
        self.traces += stats["traces"]
        self.states += stats["distinct"]
        self.transitions += stats["states"]

    def sample(self, x):
        if len(self.samples) < 5:
            self.samples.append(x)

    def violation(self, clause, detail):
        """detail: JSON-able description of the failing execution."""
        for k in self.known_list:
            if (
                k.get("status") == "known"
                and k["property"] == self.pid
                and k["clause"] == clause
                and re.search(k["match"], json.dumps(detail))
            ):
                if k["id"] not in self.known:
                    self.known.append(k["id"])
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
                return
        self.violations.append((clause, detail))

    def finish(self):
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        cov = dict(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples or ["(none)"],
        )
        cov.update(self.extra)
        (ev / f"{self.pid}.json").write_text(
            json.dumps(
                dict(
                    property=self.pid,
                    tier=self.tier,
                    seed=SEED,
                    level=self.level,
                    coverage=cov,
                    wall_s=round(time.time() - self.start, 2),
                    violations=len(self.violations),
                    assumptions=self.assumptions,
                ),
                indent=1,
                default=str,
            )
        )
        if self.violations:
            rd = ev / "replay"
            rd.mkdir(exist_ok=True)
            f = rd / f"{self.pid}.json"
            f.write_text(
                json.dumps(
                    [dict(clause=c, detail=d) for c, d in self.violations[:50]],
                    indent=1,
                    default=str,
                )
            )
            byc = {}
            for c, d in self.violations:
                byc.setdefault(c, []).append(d)
            for c, ds in byc.items():
                print(f"  {c}: {len(ds)} case(s), e.g. "
                      + json.dumps(ds[0], default=str)[:1500])
            print(f"VIOLATION property={self.pid} replay={f}")
            return 1
        self.log(
            f"{self.pid} held: {self.states} states, {self.transitions} "
            f"transitions, {self.traces} executions validated"
        )
        return 0
