"""
Runs one property's check: worker processes import the code from the working
tree, drive the workload and feed the monitors; the parent merges what they
observed, writes the evidence file and gives the verdict.
"""

import argparse
import contextlib
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VK_REPO", "/repo")).resolve()
PY = "/opt/venv/bin/python"
MAX_VIOLATIONS = 25
CASE_LIMIT = {"quick": 300, "thorough": 1800}
CPU_LIMIT = {"quick": 80, "thorough": 900}  # processor time of one case; the slowest take a twentieth of it
MEMORY_LIMIT = 3 << 30  # address space of a worker; the largest use a tenth of it
WATCHDOG = {"quick": 700, "thorough": 6 * 3600}


class Inconclusive(Exception):
    """The monitor cannot give a verdict."""


class TooLong(BaseException):
    """A case took far longer than any case should."""


class NoEnd(BaseException):
    """A case used many times the processor time any case needs."""


def _alarm(*_):
    raise TooLong


def _cpu_alarm(*_):
    raise NoEnd


class Ctx:
    def __init__(self, prop, seed, tier, scratch):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.thorough = tier == "thorough"
        self.scratch = Path(scratch)
        self.counters = Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.case_id = ""
        self.rng = random.Random(0)
        self.evaluations = 0
        self.note = None

    def start(self, case_id):
        self.case_id = case_id
        self.rng = random.Random(f"{self.prop}:{self.seed}:{case_id}")
        self.note = None

    def hit(self, name, n=1):
        self.counters[name] += n

    def ok(self, key=None, n=1):
        """One evaluation of the oracle; key makes it count as distinct."""
        self.evaluations += n
        if key is not None:
            self.distinct(key)

    def distinct(self, key):
        if not isinstance(key, (str, bytes)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode("utf-8", "surrogatepass")
        self.keys.add(hashlib.blake2b(key, digest_size=8).hexdigest())

    def sample(self, obj, every=1):
        if len(self.samples) < 2:
            self.samples.append(str(obj)[:1500])

    def fail(self, mechanism, message, **detail):
        self.counters["violations"] += 1
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append({
                "mechanism": mechanism, "message": str(message)[:2000], "case": self.case_id,
                "detail": {k: str(v)[:6000] for k, v in detail.items()},
            })

    def check(self, cond, mechanism, message="", **detail):
        if not cond:
            self.fail(mechanism, message, **detail)
        return bool(cond)


# ------------------------------------------------------------------ backend
def backends():
    import xml.etree.ElementTree as stdlib

    import lxml.etree as lx

    return {"lxml": lx, "stdlib": stdlib}


@contextlib.contextmanager
def backend(name):
    from fastkml import config

    old = config.etree
    config.set_etree_implementation(backends()[name])
    config.set_default_namespaces()
    try:
        yield
    finally:
        config.set_etree_implementation(old)


# ------------------------------------------------------------------ coverage
class Reach:
    """sys.monitoring probe: which functions and lines of fastkml ran."""

    def __init__(self):
        self.funcs, self.lines = set(), set()
        self.root = str(REPO / "fastkml") + os.sep
        mon = sys.monitoring
        self.tool = mon.COVERAGE_ID
        mon.use_tool_id(self.tool, "vk")
        mon.register_callback(self.tool, mon.events.PY_START, self._start)
        mon.register_callback(self.tool, mon.events.LINE, self._line)
        mon.set_events(self.tool, mon.events.PY_START | mon.events.LINE)

    def _start(self, code, _off):
        if code.co_filename.startswith(self.root):
            self.funcs.add(f"{code.co_filename[len(self.root):]}:{code.co_qualname}")
        return sys.monitoring.DISABLE

    def _line(self, code, line):
        if code.co_filename.startswith(self.root):
            self.lines.add((code.co_filename[len(self.root):], line))
        return sys.monitoring.DISABLE


# ------------------------------------------------------------------ worker
def load(prop):
    return importlib.import_module(f"checks.{prop.lower()}")


def worker(args):
    sys.setrecursionlimit(20000)
    import logging

    logging.disable(logging.CRITICAL)
    import fastkml

    if not Path(fastkml.__file__).resolve().is_relative_to(REPO):
        print("fastkml imported from", fastkml.__file__, file=sys.stderr)
        return 3
    global REACH
    reach = REACH = Reach()
    mod = load(args.prop)
    ctx = Ctx(args.prop, args.seed, args.tier, args.scratch)
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    n = 0
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _cpu_alarm)
    slowest = 0.0
    for i, item in enumerate(mod.cases(args.tier, args.seed)):
        case_id, payload = item
        if args.case is not None:
            if case_id != args.case:
                continue
        elif i % args.workers != args.worker:
            continue
        n += 1
        ctx.start(case_id)
        signal.alarm(CASE_LIMIT[args.tier])
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT[args.tier])
        cpu = time.process_time()
        try:
            mod.run(ctx, case_id, payload)
        except NoEnd:
            ctx.hit("endless")
            ctx.fail("no-end", f"the case had not ended after {CPU_LIMIT[args.tier]} s of processor time", traceback=traceback.format_exc(limit=-6))
        except TooLong:
            ctx.hit("inconclusive")
            ctx.hit("timeouts")
        except Inconclusive as e:
            ctx.hit("inconclusive")
            ctx.note = str(e)
        except (KeyboardInterrupt, SystemExit):
            raise
        except MemoryError:
            # ours is the only limit that is reached with this much in use
            if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > MEMORY_LIMIT >> 11:
                ctx.hit("endless")
                ctx.fail("memory", f"the case used up {MEMORY_LIMIT >> 30} GB of memory")
            else:
                ctx.hit("inconclusive")
        except BaseException as e:
            tb = traceback.format_exc(limit=-12)
            ctx.fail(f"exception:{type(e).__name__}", f"unexpected {type(e).__name__}: {e}", traceback=tb)
        finally:
            signal.alarm(0)
            signal.setitimer(signal.ITIMER_PROF, 0)
        slowest = max(slowest, time.process_time() - cpu)
        if len(ctx.violations) >= MAX_VIOLATIONS or ctx.counters["timeouts"] or ctx.counters["endless"]:
            break
    signal.alarm(0)
    if hasattr(mod, "finish"):
        mod.finish(ctx)
    out = {
        "cases": n, "evaluations": ctx.evaluations, "counters": dict(ctx.counters), "keys": sorted(ctx.keys),
        "samples": ctx.samples, "violations": ctx.violations, "slowest": slowest, "funcs": sorted(reach.funcs), "lines": len(reach.lines),
        "lineset": sorted(f"{f}:{ln}" for f, ln in reach.lines),
    }
    Path(args.out).write_text(json.dumps(out))
    return 0


# ------------------------------------------------------------------ parent
def known_findings():
    """Open findings: lines 'open: property=<id> mechanism=<key> <what fails>'."""
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("open: "):
                parts = dict(p.split("=", 1) for p in line.split()[1:3])
                out.append((parts["property"], parts["mechanism"], " ".join(line.split()[3:])))
    return out


def run_check(args):
    t0 = time.monotonic()
    mod_workers = args.workers
    scratch = Path(tempfile.mkdtemp(prefix=f"vk-{args.prop}-"))
    env = {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": str(scratch), "TMPDIR": str(scratch),
        "PYTHONHASHSEED": "0", "PYTHONPYCACHEPREFIX": str(scratch / "pyc"), "PYTHONPATH": f"{REPO}{os.pathsep}{VERIF}",
        "PYTHONSAFEPATH": "1", "LC_ALL": "C.UTF-8", "VK_REPO": str(REPO), "VERIF_SEED": str(args.seed),
        "VERIF_TIER": args.tier, "PYTHONWARNINGS": "ignore",
    }
    env.update(getattr(load(args.prop), "ENV", {}))
    try:
        # one import first, so that all workers share the compiled files
        subprocess.run([PY, "-c", "import fastkml, lxml.etree, shapely, checks." + args.prop.lower()], env=env,
                       cwd=scratch, check=False, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        procs = []
        for w in range(mod_workers):
            wd = scratch / f"w{w}"
            wd.mkdir()
            out = scratch / f"out{w}.json"
            cmd = [PY, "-m", "vk.runner", "--worker", str(w), "--workers", str(mod_workers), "--seed", str(args.seed),
                   "--tier", args.tier, "--out", str(out), "--scratch", str(wd), args.prop]
            if args.case is not None:
                cmd += ["--case", args.case]
            errf = open(scratch / f"err{w}.txt", "wb")
            procs.append((subprocess.Popen(cmd, env=env, cwd=wd, stdout=errf, stderr=errf), out, errf))
            if args.case is not None:
                break
        results, broken = [], []
        deadline = time.monotonic() + WATCHDOG[args.tier]
        for p, out, errf in procs:
            try:
                rc = p.wait(timeout=max(1, deadline - time.monotonic()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                broken.append("worker did not finish in time")
                continue
            errf.close()
            if rc != 0 or not out.exists():
                err = Path(errf.name).read_text(errors="replace")[-1500:]
                broken.append(f"worker ended with {rc}: {err}")
            else:
                results.append(json.loads(out.read_text()))
        return verdict(args, results, broken, time.monotonic() - t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verdict(args, results, broken, wall):
    prop = args.prop
    counters, keys, samples, violations = Counter(), set(), [], []
    funcs, lines = set(), set()
    evaluations = cases = 0
    for r in results:
        counters.update(r["counters"])
        keys.update(r["keys"])
        samples += r["samples"]
        violations += r["violations"]
        funcs.update(r["funcs"])
        lines.update(r["lineset"])
        evaluations += r["evaluations"]
        cases += r["cases"]
    mod = load(prop)
    rule, need, assumptions = mod.RULE, getattr(mod, "NEED", {}), getattr(mod, "ASSUMPTIONS", [])
    known = {(p, m): what for p, m, what in known_findings()}
    fresh = [v for v in violations if (prop, v["mechanism"]) not in known]
    seen_known = sorted({v["mechanism"] for v in violations if (prop, v["mechanism"]) in known})
    missing = []
    if args.case is None:
        missing = [f"{k}: {counters[k]} < {v}" for k, v in need.items() if counters[k] < v]
        if evaluations == 0:
            missing.append("no evaluation")
        if counters["inconclusive"]:
            missing.append(f"{counters['inconclusive']} inconclusive cases")
    files = Counter(f.partition(":")[0] for f in funcs)
    evidence = {
        "property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": rule,
            "samples": samples[:6] or ["(none)"], "cases": cases,
            "monitor_events": {k: v for k, v in sorted(counters.items())},
            "code_reached": {"functions": len(funcs), "lines": len(lines), "functions_by_file": dict(sorted(files.items()))},
            "slowest_case_cpu_s": round(max((r["slowest"] for r in results), default=0.0), 2),
            "workers": len(results), "inconclusive": missing + broken,
            "known_findings_seen": seen_known,
        },
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": len(fresh),
    }
    evd = VERIF / "evidence"
    evd.mkdir(exist_ok=True)
    if args.case is None:
        (evd / f"{prop}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=False), encoding="utf-8", errors="backslashreplace")
    for m in seen_known:
        print(f"KNOWN-FINDING: property={prop} {known[(prop, m)]}")
    if fresh:
        rdir = evd / "replay"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{prop}-{args.tier}-{args.seed}.json"
        path.write_text(json.dumps({
            "property": prop, "seed": args.seed, "tier": args.tier,
            "rerun": f"cd /verif && VERIF_SEED={args.seed} VERIF_TIER={args.tier} ./check {prop} --case '{fresh[0]['case']}'",
            "violations": fresh}, indent=1, ensure_ascii=False), encoding="utf-8", errors="backslashreplace")
        seen = set()
        for v in fresh:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            print(f"  {v['mechanism']} [{v['case']}]: {v['message'][:600]}")
            for k, d in list(v["detail"].items())[:3]:
                print(f"      {k}: {d[-700:] if k == 'traceback' else d[:400]}")
            if len(seen) >= 8:
                break
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if broken or missing:
        print(f"INCONCLUSIVE property={prop} {'; '.join(missing + broken)}")
        return 3
    print(f"held: property={prop} tier={args.tier} seed={args.seed} cases={cases} evaluations={evaluations} "
          f"distinct={len(keys)} functions={len(funcs)} lines={len(lines)} wall={wall:.1f}s")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    args = ap.parse_args(argv)
    if args.thorough:
        args.tier = "thorough"
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.worker is not None:
        return worker(args)
    sys.stdout.reconfigure(errors="backslashreplace")
    return run_check(args)


if __name__ == "__main__":
    sys.exit(main())
