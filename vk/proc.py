"""The same work in this process and in others: outcomes that can be compared."""

import contextlib
import io
import json
import os
import random
import re
import subprocess
import sys
import zipfile

from .common import *
from .faults import BAD, sites
from .xmltext import Lex, to_text


def jobs(seed, n):
    """(model, text, strict, verbosity, precision, pretty) and so on."""
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        node = no_repeats(tree(rng))
        ps = sites(node)
        raw = None
        if ps and rng.random() < 0.3:
            m, f, k = rng.choice(ps)
            raw = {(id(m), f.attr): rng.choice(BAD[k])}
        text = to_text(expect(node, raw=raw) if raw else expect(node), Lex.plain())
        if rng.random() < 0.5:
            text = twice(rng, text)
        if rng.random() < 0.5:  # date-times without an offset
            text = re.sub(r"(T\d\d:\d\d:\d\d(?:\.\d+)?)Z<", r"\1<", text)
        out.append((node, text, rng.random() < 0.5, rng.choice(("terse", "normal", "verbose")), rng.choice((None, 3)), rng.random() < 0.5))
    return out


def twice(rng, text):
    """Values given twice, once in each namespace or with different content."""
    gx = 'xmlns:gx="http://www.google.com/kml/ext/2.2"'
    if rng.random() < 0.6:
        text = text.replace("<altitudeMode>", f"<gx:altitudeMode {gx}>{rng.choice(('clampToSeaFloor', 'absolute'))}</gx:altitudeMode><altitudeMode>")
    for tag in ("name", "visibility", "when", "color", "scale", "href", "begin"):
        if rng.random() < 0.3:
            text = text.replace(f"<{tag}>", f"<{tag}>{rng.choice(('1', '2020', 'ff00ff00'))}</{tag}><{tag}>")
    return text


def one(job, op):
    """The observable outcome of one operation."""
    from fastkml import KML, utils, validator
    from fastkml.enums import Verbosity

    node, text, strict, verb, prec, pretty = job
    cls = SPECS[node.cls].pycls
    if op in ("parse", "write-kml", "write-kmz") and cls is not KML:
        return None
    kw = {"prettyprint": pretty, "verbosity": Verbosity[verb], "precision": prec}
    if op == "build":
        o = build(node)
    elif op == "parse":
        o = KML.parse(io.BytesIO(text.encode()), strict=strict)
    else:
        o = cls.from_string(text, strict=strict)
    if op == "write-kml":
        o.write("job.kml", **kw)
        try:
            with open("job.kml", "rb") as f:
                data = f.read()
            return [data.decode("utf-8", "backslashreplace"), KML.parse("job.kml", validate=False).to_string(**kw)]
        finally:
            os.unlink("job.kml")
    if op == "write-kmz":
        o.write("job.kmz", **kw)
        try:
            with zipfile.ZipFile("job.kmz") as z:
                return [z.namelist(), z.read("doc.kml").decode("utf-8", "backslashreplace")]
        finally:
            os.unlink("job.kmz")
    if op == "validate":
        return [repr(o.validate()), repr(validator.validate(element=o.etree_element()))]
    if op == "find":
        found = list(utils.find_all(o))
        other = build(node)
        return [[type(x).__name__ for x in found], o == other, other == o, bool(o), o == other.etree_element()]
    if op == "bytes":
        b = cls.from_string(text.encode(), strict=strict)
        return [b == o, b.to_string(**kw), list(utils.find_all(b, of_type=(KML, cls), name="x")) == [], repr(getattr(b, "id", None))]
    if op == "repr":
        return [repr(o), str(o)]
    return [o.to_string(**kw), repr(canon(observe(o)))]


OPS = ("string", "parse", "build", "write-kml", "write-kmz", "validate", "find", "repr", "bytes")


def work(seed, n, ops=OPS):
    res = []
    for job in jobs(seed, n):
        rec = []
        for op in ops:
            try:
                r = one(job, op)
            except Exception as e:  # noqa: BLE001
                # an assertion of the program itself has no place in its results
                r = ["raised", type(e).__name__, str(e)]
            if r is not None:
                rec.append([op, r])
        res.append(rec)
    return json.loads(json.dumps(res))


def here(seed, n, cwd, ops=OPS):
    """In this process, in another directory."""
    old = os.getcwd()
    os.chdir(cwd)
    try:
        return work(seed, n, ops)
    finally:
        os.chdir(old)


def start(script, args, *, cwd, env=None, flags=(), drop=()):
    """Run a script in a fresh interpreter; its last line of output is the result."""
    e = {**os.environ, **(env or {})}
    for k in drop:
        e.pop(k, None)
    p = subprocess.run([sys.executable, *flags, "-c", script, *args], cwd=cwd, env=e, capture_output=True, timeout=300, check=False)
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode != 0:
        return {"error": f"ended with {p.returncode}: {err[-1500:]}", "stderr": err}
    out = p.stdout.decode("utf-8", "replace").splitlines()
    try:
        return {**json.loads(out[-1]), "stderr": err, "stdout": "\n".join(out[:-1])}
    except (IndexError, ValueError) as x:
        return {"error": f"no result ({x}): {err[-1500:]}", "stderr": err}


def differences(a, b):
    """(job number, operation, outcome, outcome) of the first difference."""
    for i, (x, y) in enumerate(zip(a, b)):
        for p, q in zip(x, y):
            if p != q:
                return i, p[0], p[1], q[1]
        if len(x) != len(y):
            return i, "operations", len(x), len(y)
    return None


def quiet():
    import logging

    logging.disable(logging.CRITICAL)


__all__ = ["jobs", "work", "here", "start", "differences", "quiet", "OPS", "contextlib"]
