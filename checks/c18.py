"""C18: independent work in several threads does not interfere."""

import hashlib
import io
import json
import os
import random as _random
import subprocess
import sys
import threading
import time

from vk.common import *
from vk.faults import BAD, sites
from vk.runner import PY, REPO, Inconclusive
from vk.xmltext import Lex, model_text, to_text

RULE = ("2 to 6 threads work through lists of reads (both modes, good and faulty documents), writes (all verbosities, precisions, files), comparisons, searches, repr and validations of their own documents, or only read one shared tree, with the switch interval at a "
        "microsecond and yields injected at random lines of the library; every single result is compared with the result of the same step run alone; fresh processes start with all threads at once (cold caches); non-trivial: distinct pair of functions between which a switch was observed, and distinct document")
NEED = {"steps": 4000, "rounds": 100, "cold-starts": 8, "shared-rounds": 30, "focus-rounds": 60, "switches": 5000, "injected-yields": 1000, "step:read": 300, "step:write": 300, "step:faulty": 80, "step:validate": 80, "step:eq": 100, "step:find": 100, "step:file": 80}
ASSUMPTIONS = ["the XML library is configured once, before the threads start", "a validation error's message is not compared, only that there is one"]


def cases(tier, seed):
    yield from random_cases(16 if tier == "quick" else 200, "cold")
    yield from random_cases(240 if tier == "quick" else 5000, "own")
    yield from random_cases(80 if tier == "quick" else 1500, "shared")
    yield from random_cases(160 if tier == "quick" else 3000, "focus")


# ------------------------------------------------------------------ steps
def digest(x):
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    return hashlib.blake2b(x.encode("utf-8", "surrogatepass") if isinstance(x, str) else x, digest_size=8).hexdigest() + ":" + str(len(x))


def outcome(thunk):
    try:
        return ("ok", digest(thunk()))
    except AssertionError:
        return ("AssertionError", "")
    except Exception as e:
        return (type(e).__name__, digest(str(e)))


def plan(rng, n):
    """The steps of one thread: (kind, parameters, model, text)."""
    steps = []
    for _ in range(n):
        node = tree(rng)
        kind = rng.choice(("read", "read", "write", "write", "faulty", "validate", "eq", "find", "file", "repr", "geometry"))
        text = model_text(node)
        if kind == "faulty":
            ps = sites(node)
            if not ps:
                kind = "read"
            else:
                raw = {(id(m), f.attr): rng.choice(BAD[k]) for m, f, k in rng.sample(ps, min(len(ps), 2))}
                text = to_text(expect(node, raw=raw), Lex.plain())
        steps.append((kind, node, text, rng.choice(("normal", "terse", "verbose")), rng.choice((None, 0, 3)), rng.random() < 0.5, rng.random()))
    return steps


def do(step, obj=None, scratch=None):
    """One step; everything it returns is compared."""
    from fastkml import utils
    from fastkml.base import _XMLObject
    from fastkml.enums import Verbosity

    kind, node, text, verb, precision, flag, x = step
    cls = SPECS[node.cls].pycls
    verbosity = getattr(Verbosity, verb)
    if kind == "read" or kind == "faulty":
        if node.cls == "KML" and flag:
            return outcome(lambda: canon(observe(cls.parse(io.BytesIO(text.encode()), strict=x < 0.5, validate=False), parsed=True)))
        return outcome(lambda: canon(observe(cls.from_string(text, strict=x < 0.5), parsed=True)))
    make = (lambda: obj) if obj is not None else (lambda: build(node) if flag else cls.from_string(text))
    if kind == "write":
        return outcome(lambda: make().to_string(verbosity=verbosity, precision=precision))
    if kind == "repr":
        return outcome(lambda: repr(make()))
    if kind == "validate":
        return outcome(lambda: make().validate())
    if kind == "eq":
        def eq():
            a, b = make(), build(node)
            return (a == b, b == a, a == build(Node("KML")))
        return outcome(eq)
    if kind == "find":
        return outcome(lambda: [type(o).__name__ for o in utils.find_all(make(), of_type=_XMLObject)])
    if kind == "geometry":
        return outcome(lambda: [repr(getattr(o, "geometry", None)) for o in utils.find_all(make(), of_type=_XMLObject)])
    if kind == "file":
        def file():
            if node.cls != "KML":
                return make().to_string(precision=precision)
            p = os.path.join(scratch or ".", f"t{threading.get_ident()}-{x}.{'kmz' if flag else 'kml'}")
            make().write(p, precision=precision, verbosity=verbosity)
            try:
                if flag:
                    import zipfile

                    with zipfile.ZipFile(p) as z:
                        return z.read("doc.kml")
                with open(p, "rb") as f:
                    return f.read()
            finally:
                os.unlink(p)
        return outcome(file)
    raise AssertionError(kind)


# ------------------------------------------------------------------ scheduler noise
class Noise:
    """Yields at lines of the library and records the switches seen there."""

    TOOL = 4

    def __init__(self, seed, p):
        self.p = p
        self.local = threading.local()
        self.seed = seed
        self.last = None
        self.switches = 0
        self.yields = 0
        self.pairs = set()
        self.root = str(REPO / "fastkml") + os.sep
        self.me = threading.get_ident()

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "vk-noise")
        mon.register_callback(self.TOOL, mon.events.LINE, self.line)
        mon.set_events(self.TOOL, mon.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        return self

    def __exit__(self, *a):
        sys.setswitchinterval(self.old)
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)

    def line(self, code, no):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        t = threading.get_ident()
        if t == self.me:
            return None
        here = (t, code.co_qualname)
        last = self.last
        if last is not None and last[0] != t:
            self.switches += 1
            if len(self.pairs) < 20000:
                self.pairs.add((last[1], code.co_qualname))
        self.last = here
        r = getattr(self.local, "rng", None)
        if r is None:
            r = self.local.rng = _random.Random(f"{self.seed}:{threading.current_thread().name}")
        x = r.random()
        if x < self.p:
            self.yields += 1
            time.sleep(0 if x < self.p * 0.8 else 0.00005)
        return None


def run_threads(plans, noise, objs=None, scratch=None):
    res = [[None] * len(p) for p in plans]
    bar = threading.Barrier(len(plans))

    def body(i):
        bar.wait()
        for j, s in enumerate(plans[i]):
            try:
                res[i][j] = do(s, objs, scratch)
            except BaseException as e:
                res[i][j] = ("driver:" + type(e).__name__, str(e))

    ts = [threading.Thread(target=body, args=(i,), name=f"w{i}") for i in range(len(plans))]
    with noise:
        for t in ts:
            t.start()
        for t in ts:
            t.join(300)
    if any(t.is_alive() for t in ts):
        raise Inconclusive("threads did not finish")
    return res


def focus_plans(rng, n):
    """Short documents, all threads do the same kind of step over and over."""
    kind = rng.choice(("read", "faulty", "write", "validate", "validate", "validate", "eq", "find", "repr", "geometry"))
    plans = []
    for _ in range(n):
        docs = []
        while len(docs) < 3:
            node = g.Gen(rng, fill=0.3, max_depth=2, valid=rng.random() < 0.5).any_node()
            if size(node) > 40:
                continue
            text = model_text(node)
            if kind == "faulty":
                ps = sites(node)
                if not ps:
                    continue
                text = to_text(expect(node, raw={(id(m), f.attr): rng.choice(BAD[k]) for m, f, k in ps[:1]}), Lex.plain())
            docs.append((node, text))
        plans.append([(kind, *rng.choice(docs), rng.choice(("normal", "terse", "verbose")), rng.choice((None, 0, 3)), rng.random() < 0.5, rng.random()) for _ in range(20)])
    return plans


def make_plans(seed, shared=False):
    rng = _random.Random(seed)
    n = rng.choice((2, 3, 4, 6))
    if ":focus:" in seed:
        return focus_plans(rng, n), rng.choice(("lxml", "lxml", "stdlib"))
    plans = [plan(rng, rng.choice((5, 8))) for _ in range(n)]
    be = rng.choice(("lxml", "stdlib"))
    if shared:
        node = g.Gen(rng, fill=0.4, max_depth=3).kml()
        text = model_text(node)
        plans = [[(rng.choice(("write", "write", "write", "repr", "eq", "find", "geometry", "validate", "file")), node, text, rng.choice(("normal", "terse", "verbose")), rng.choice((None, 0, 3)), rng.random() < 0.5, rng.random())
                  for _ in range(rng.choice((4, 8)))] for _ in range(n)]
    return plans, be


def judge(ctx, plans, got, want, what):
    for i, (p, a, b) in enumerate(zip(plans, got, want)):
        for j, (s, x, y) in enumerate(zip(p, a, b)):
            ctx.hit("steps")
            ctx.hit("step:" + s[0])
            ctx.ok()
            if tuple(x) != tuple(y):
                ctx.fail("interference", f"{what}: thread {i} of {len(plans)}, step {j} ({s[0]} of {s[1].cls}): {x} instead of {y}", xml=s[2])
                return False
    return True


def sequential(plans, objs=None, scratch=None):
    return [[do(s, objs() if objs else None, scratch) for s in p] for p in plans]


def cold_main(seed):
    """Fresh process: threads first, nothing warmed up."""
    import logging

    logging.disable(logging.CRITICAL)
    plans, be = make_plans(seed)
    with backend(be):
        noise = Noise(seed, 0.05)
        res = run_threads(plans, noise, scratch=os.getcwd())
    print(json.dumps({"res": res, "switches": noise.switches, "yields": noise.yields, "pairs": sorted(noise.pairs)}))


def run(ctx, case_id, _):
    kind = case_id.partition(":")[0]
    seed = f"C18:{ctx.seed}:{case_id}"
    plans, be = make_plans(seed, kind == "shared")
    for p in plans:
        for s in p:
            ctx.distinct(s[2])
    with backend(be):
        if kind == "cold":
            want = sequential(plans, scratch=ctx.scratch)
            p = subprocess.run([PY, "-c", "import sys; sys.setrecursionlimit(20000); from checks import c18; c18.cold_main(sys.argv[1])", seed],
                               cwd=ctx.scratch, capture_output=True, text=True, timeout=300, check=False)
            if p.returncode != 0:
                raise RuntimeError(p.stderr[-1500:])
            d = json.loads(p.stdout)
            ctx.hit("cold-starts")
            judge(ctx, plans, d["res"], want, "cold start")
            switches, yields, ps = d["switches"], d["yields"], [tuple(x) for x in d["pairs"]]
        else:
            noise = Noise(seed, ctx.rng.choice((0.05, 0.2, 0.5)) if kind == "focus" else ctx.rng.choice((0.0, 0.01, 0.05, 0.2)))
            if kind == "shared":
                ctx.hit("shared-rounds")
                node = plans[0][0][1]
                flag = ctx.rng.random() < 0.5
                fresh = lambda: build(node) if flag else SPECS[node.cls].pycls.from_string(plans[0][0][2])  # noqa: E731
                want = sequential(plans, fresh, ctx.scratch)
                shared = fresh()
                got = run_threads(plans, noise, shared, ctx.scratch)
                ctx.ok()
                if canon(observe(shared)) != canon(observe(fresh())):
                    ctx.fail("shared-changed", "reading a shared tree in threads changed it")
            else:
                if kind == "focus":
                    ctx.hit("focus-rounds")
                want = sequential(plans, scratch=ctx.scratch)
                got = run_threads(plans, noise, None, ctx.scratch)
            judge(ctx, plans, got, want, kind)
            switches, yields, ps = noise.switches, noise.yields, noise.pairs
        ctx.hit("rounds")
        ctx.hit("switches", switches)
        ctx.hit("injected-yields", yields)
        for x in ps:
            ctx.distinct(("switch", x))
    if ctx.rng.random() < 0.05:
        ctx.sample(f"{kind} {be}: {len(plans)} threads, {switches} switches, e.g. {sorted(ps)[:4]}")
