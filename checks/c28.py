"""C28: results do not depend on the environment of the process."""

import json
import os
import sys

from vk import proc
from vk.common import *

RULE = ("fresh interpreters in random environments (hash seed, optimisation levels, locale and encoding settings, time zone, working directory, recursion limit, warnings and bytes comparisons as errors, development mode, garbage collector stress, "
        "order in which the submodules are imported, a thread instead of the main one, lxml or the standard library) read, build, write to strings, .kml and .kmz files, parse, validate, search, compare and print random documents, sound and with bad values; every outcome, "
        "errors included, must equal that of a plain process; non-trivial: distinct (environment, document)")
SETTINGS = ("hash", "optimize", "locale", "timezone", "cwd", "warnings", "dev", "bytes", "gc", "imports", "thread", "library", "limit", "home")
NEED = {"processes": 60, "documents": 1000, "outcomes": 6000, **{"env:" + s: 15 for s in SETTINGS}}
ASSUMPTIONS = ["locales other than C, POSIX and C.utf8 are not installed here", "the plain process has hash seed 0, a UTF-8 locale, no optimisation, UTC"]
ENV = {"TZ": "UTC0"}
N = 24
MODULES = ("about", "atom", "base", "config", "containers", "data", "enums", "exceptions", "features", "geometry", "gx", "helpers", "kml", "kml_base", "links", "mixins", "model", "network_link_control", "overlays", "registry", "styles",
           "times", "types", "utils", "validator", "views")


def cases(tier, seed):
    yield from random_cases(120 if tier == "quick" else 1500, "env")


def environment(rng):
    """(settings used, interpreter flags, variables, dropped variables, plan for the child)."""
    used, flags, env, drop, plan = [], [], {}, [], {}

    def on(name, p=0.4):
        if rng.random() < p:
            used.append(name)
            return True
        return False

    if on("hash", 0.7):
        env["PYTHONHASHSEED"] = str(rng.randrange(1, 2**32))
    if on("optimize"):
        flags.append(rng.choice(("-O", "-OO")))
    if on("locale"):
        loc = rng.choice(("C", "POSIX", "C.utf8", "xx_YY.nowhere"))
        env.update(LC_ALL=loc, LANG=loc, PYTHONUTF8=rng.choice("01"), PYTHONCOERCECLOCALE="0")
        if rng.random() < 0.5:
            env["PYTHONIOENCODING"] = rng.choice(("ascii:backslashreplace", "latin-1:replace", "utf-16"))
            plan["setlocale"] = True
    if on("timezone"):
        env["TZ"] = rng.choice(("Asia/Kolkata", "Pacific/Apia", "America/St_Johns", "XYZ-14", "ABC+11:30", "EST5EDT,M3.2.0,M11.1.0", "Europe/Berlin", ":nowhere"))
    if on("cwd"):
        plan["cwd"] = rng.choice(("schema", "fastkml", "ü ö", "a/b/c"))
    if on("warnings"):
        flags += ["-W", rng.choice(("error", "default", "ignore"))]
    if on("dev", 0.25):
        flags += ["-X", "dev"]
    if on("bytes", 0.25):
        flags.append(rng.choice(("-b", "-bb")))
    if on("gc"):
        plan["gc"] = rng.choice((0, 1, 7))
    if on("imports"):
        plan["imports"] = rng.sample(MODULES, rng.choice((1, 3, len(MODULES))))
    if on("thread", 0.25):
        plan["thread"] = True
    if on("library", 0.3):
        plan["library"] = True
    if on("limit", 0.3):
        plan["limit"] = 1000
    if on("home", 0.25):
        drop += ["HOME", "LANG", "USER", "PATH"]
        env["TMPDIR"] = "/nonexistent/tmp"
    return used, flags, env, drop, plan


def child(seed, plan):
    sys.setrecursionlimit(plan.get("limit", 20000))
    if plan.get("setlocale"):
        import locale

        try:
            locale.setlocale(locale.LC_ALL, "")
        except locale.Error:
            locale.setlocale(locale.LC_ALL, "C")
    if "gc" in plan:
        import gc

        if plan["gc"]:
            gc.set_threshold(plan["gc"], 1, 1)
        else:
            gc.disable()
    if "cwd" in plan:
        where = plan["cwd"].encode()  # the locale may not know the name
        os.makedirs(where, exist_ok=True)
        os.chdir(where)
    import importlib

    try:
        for m in plan.get("imports", ()):
            importlib.import_module("fastkml." + m)
        import fastkml  # noqa: F401
    except Exception as e:  # noqa: BLE001
        print(json.dumps({"error": f"import failed: {e!r}"}))
        return
    proc.quiet()
    import vk.runner

    def job():
        if plan.get("library"):
            with vk.runner.backend("stdlib"):
                return proc.work(seed, N)
        return proc.work(seed, N)

    if plan.get("thread"):
        import threading

        threading.stack_size(64 << 20)
        out = []
        t = threading.Thread(target=lambda: out.append(job()))
        t.start()
        t.join()
        res = out[0]
    else:
        res = job()
    sys.stdout.flush()
    sys.stdout.buffer.write(("\n" + json.dumps({"res": res}) + "\n").encode("ascii"))
    sys.stdout.buffer.flush()


SCRIPT = "import sys, json; from checks import c28; c28.child(sys.argv[1], json.loads(sys.argv[2]))"


def run(ctx, case_id, _):
    rng = ctx.rng
    used, flags, env, drop, plan = environment(rng)
    seed = f"C28:{ctx.seed}:{case_id}"
    with backend("stdlib" if plan.get("library") else "lxml"):
        want = proc.here(seed, N, ctx.scratch)
    d = proc.start(SCRIPT, [seed, json.dumps(plan)], cwd=ctx.scratch, env=env, flags=flags, drop=drop)
    what = json.dumps([flags, env, plan])
    ctx.hit("processes")
    for s in used:
        ctx.hit("env:" + s)
    if d.get("error"):
        ctx.fail("process-fails", f"in the environment {what} {d['error']}")
        return
    js = proc.jobs(seed, N)
    for job, rec in zip(js, d["res"]):
        ctx.hit("documents")
        ctx.ok((what, job[1]), n=len(rec))
        ctx.hit("outcomes", len(rec))
    if bad := proc.differences(d["res"], want):
        i, op, got, exp = bad
        ctx.fail("environment-matters", f"{op} in the environment {what}: {str(got)[:300]} instead of {str(exp)[:300]}", xml=js[i][1])
    if rng.random() < 0.05:
        ctx.sample({"environment": what, "xml": js[0][1][:300]})
