#!/usr/bin/env python3
"""
Mutation testing of the checks: systematic small changes to fastkml, each run
against a sample of every check until one reports a violation.

  mutate.py list                      number of mutants per file and operator
  mutate.py run OUT.jsonl [--n N] [--seed S] [--jobs J] [--files a.py,b.py] [--subtle]

--subtle makes the slips of careful people instead: caps, lost duplicates, other
orders, cleaned texts, shortened numbers, sharing instead of copying, exact types.

Works on scratch copies of /repo only; no check uses it.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
PY = "/opt/venv/bin/python"
SKIP = {"about.py", "types.py", "__init__.py"}
ORDER = ["C01", "C02", "C03", "C17", "C14", "C06", "C15", "C04", "C08", "C09", "C10", "C12", "C13", "C16", "C20", "C21", "C07", "C05", "C11", "C19", "C23", "C24", "C22", "C25", "C26", "C18"]


class M(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.func = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, op, n, new):
        a, b = self.pos(n)
        if self.b[a:b].decode() != new:
            self.out.append((op, a, b, new, n.lineno))

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__",) and False:
            return
        self.func.append(n.name)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            pass
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.func.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_Module(self, n):
        regs = []
        for s in n.body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets):
                continue
            if isinstance(s, ast.If) and "TYPE_CHECKING" in ast.dump(s.test):
                continue
            if isinstance(s, ast.Expr) and "registry.register" in self.seg(s)[:30]:
                self.add("del-register", s, "pass")
                regs.append(s)
            self.visit(s)
        for a, b in zip(regs, regs[1:]):
            if ast.dump(a.value.args[0]) == ast.dump(b.value.args[0]):
                x, y = self.pos(a), self.pos(b)
                type(self) is M and self.out.append(("swap-register", x[0], y[1], self.seg(b) + "\n" + self.seg(a), a.lineno))

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_If(self, n):
        t = ast.dump(n.test)
        if "TYPE_CHECKING" in t:
            return
        self.add("if-true", n.test, "True")
        self.add("if-false", n.test, "False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add("ifexp-body", n, "(" + self.seg(n.body) + ")")
        self.add("ifexp-else", n, "(" + self.seg(n.orelse) + ")")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i, v in enumerate(n.values):
            rest = [self.seg(x) for j, x in enumerate(n.values) if j != i]
            w = " and " if isinstance(n.op, ast.And) else " or "
            self.add("drop-operand", n, "(" + w.join(f"({r})" for r in rest) + ")")
        w = " or " if isinstance(n.op, ast.And) else " and "
        self.add("boolop", n, "(" + w.join(f"({self.seg(x)})" for x in n.values) + ")")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.add("not", n, "(" + self.seg(n.operand) + ")")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            swap = {ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in", ast.Lt: "<=", ast.Gt: ">=", ast.LtE: "<", ast.GtE: ">"}
            self.add("cmp", n, f"({l} {swap[type(n.ops[0])]} {r})")
            if isinstance(n.ops[0], ast.IsNot) and r == "None":
                self.add("truth", n, f"bool({l})")
            if isinstance(n.ops[0], ast.Is) and r == "None":
                self.add("truth", n, f"(not {l})")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add("const", n, str(not v))
        elif isinstance(v, (int, float)):
            self.add("const", n, repr(v + 1))
        elif isinstance(v, str) and v:
            self.add("const", n, repr(v + "X"))
            if len(v) < 40:
                self.add("const", n, "''")

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = self.seg(n.func)
        if f.startswith("logger") or f in ("cast",):
            return
        if f == "getattr" or f.endswith("Error") or f == "isinstance":
            pass
        for k in n.keywords:
            if k.arg and k.arg not in ("element", "node", "error", "expected"):
                rest = [self.seg(a) for a in n.args] + [(f"{x.arg}=" if x.arg else "**") + self.seg(x.value) for x in n.keywords if x is not k]
                self.add("drop-kw", n, f"{f}({', '.join(rest)})")
        if f == "clean_string" and n.args:
            self.add("call-arg", n, self.seg(n.args[0]))
        if f in ("list", "tuple", "dict", "bool", "str", "float", "int") and len(n.args) == 1 and not isinstance(n.args[0], ast.GeneratorExp):
            self.add("call-arg", n, "(" + self.seg(n.args[0]) + ")")
        if f.endswith((".strip", ".lower")) and not n.args:
            self.add("call-arg", n, self.seg(n.func.value))
        self.visit(n.func)
        for a in n.args:
            self.visit(a)
        for k in n.keywords:
            self.visit(k.value)

    def visit_Attribute(self, n):
        self.visit(n.value)

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            self.add("return", n, "return None")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if self.func:
            self.add("del-assign", n, " = ".join(self.seg(t) for t in n.targets) + " = None")
        self.visit(n.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if self.func and not self.seg(n).startswith("logger"):
            self.add("del-stmt", n, "pass")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add("raise", n, "pass")

    def visit_Break(self, n):
        self.add("break", n, "pass")

    def visit_Continue(self, n):
        self.add("continue", n, "pass")

    def visit_ListComp(self, n):
        self.comp(n)

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    def comp(self, n):
        for gen in n.generators:
            for t in gen.ifs:
                self.add("comp-if", t, "True")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
        if type(n.op) in sw:
            self.add("arith", n, f"({self.seg(n.left)} {sw[type(n.op)]} {self.seg(n.right)})")
        self.generic_visit(n)

    def visit_arguments(self, n):
        pass


class Subtle(M):
    """Changes that only show with particular data."""

    def add(self, op, n, new):
        if op.startswith("s-"):
            super().add(op, n, new)

    def loop(self, it):
        x = self.seg(it)
        if x.startswith("range("):
            return
        self.add("s-cap", it, f"list({x})[:40]")
        self.add("s-reverse", it, f"list({x})[::-1]")
        self.add("s-dedupe", it, f"[_x for _i, _x in enumerate(_l) if _x not in _l[:_i]]".replace("_l", f"list({x})"))

    def visit_For(self, n):
        self.loop(n.iter)
        self.generic_visit(n)

    def comp(self, n):
        for gen in n.generators:
            self.loop(gen.iter)
        self.generic_visit(n)

    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp = comp

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            if isinstance(n.ops[0], ast.Eq):
                self.add("s-is", n, f"({l} is {r})")
                self.add("s-str", n, f"(str({l}) == str({r}))")
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)) and r == "None":
                self.add("s-truth", n, f"(not {l})" if isinstance(n.ops[0], ast.Is) else f"bool({l})")
            elif isinstance(n.ops[0], ast.Is):
                self.add("s-eq", n, f"({l} == {r})")
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self.generic_visit(n)

    def visit_If(self, n):
        if "TYPE_CHECKING" in ast.dump(n.test):
            return
        if isinstance(n.test, (ast.Name, ast.Attribute, ast.NamedExpr)):
            self.add("s-notnone", n.test, f"({self.seg(n.test)}) is not None")
        self.generic_visit(n)

    def visit_Call(self, n):
        f, whole = self.seg(n.func), self.seg(n)
        if f.startswith("logger") or f == "cast":
            return
        if f.endswith(".strip") and not n.args:
            for new in (f"{whole}.lower()", f"' '.join({whole}.split())", f"{whole}[:500]", f"{self.seg(n.func.value)}.strip(' \\n')"):
                self.add("s-text", n, new)
        if f == "clean_string":
            for new in (f"(lambda t: t and t[:500])({whole})", f"(lambda t: t and ' '.join(t.split()))({whole})", f"(lambda t: t and t.replace('\\xa0', ' '))({whole})"):
                self.add("s-text", n, new)
        if f == "str" and len(n.args) == 1:
            a = self.seg(n.args[0])
            self.add("s-num", n, f"(f'{{{a}:.10g}}' if isinstance({a}, float) else {whole})")
            self.add("s-num", n, f"(f'{{{a}:.15g}}' if isinstance({a}, float) else {whole})")
            self.add("s-num", n, f"(str(int({a})) if isinstance({a}, float) and {a} == int({a}) else {whole})")
        if f == "float" and len(n.args) == 1:
            self.add("s-num", n, f"round({whole}, 9)")
        if f == "int" and len(n.args) == 1:
            self.add("s-num", n, f"int(float({self.seg(n.args[0])}))")
        if f in ("list", "tuple", "dict") and len(n.args) == 1 and not n.keywords:
            self.add("s-share", n, f"({self.seg(n.args[0])})")
        if f.endswith(".copy") and not n.args:
            self.add("s-share", n, f"({self.seg(n.func.value)})")
        if f == "isinstance" and len(n.args) == 2:
            self.add("s-exact", n, f"(type({self.seg(n.args[0])}) is {self.seg(n.args[1])})")
        if f.endswith((".find", ".findall")) and len(n.args) == 1:
            self.add("s-deep", n, f"{f}('.//' + {self.seg(n.args[0])})")
        if f.endswith(".findall") and len(n.args) == 1:
            self.add("s-cap", n, f"{whole}[:40]")
        if f.endswith(".update") and len(n.args) == 1:
            self.add("s-keep", n, f"{f}({{_k: _v for _k, _v in dict({self.seg(n.args[0])}).items() if _k not in {self.seg(n.func.value)}}})")
        if f.endswith((".append", ".extend")) and len(n.args) == 1:
            self.add("s-once", n, f"({self.seg(n.args[0])} in {self.seg(n.func.value)} or {whole})")
        if f == "len":
            self.add("s-cap", n, f"min({whole}, 64)")
        for k in n.keywords:
            if k.arg in ("strict",):
                self.add("s-strict", k.value, "True")
                self.add("s-strict", k.value, "False")
        M.visit_Call(self, n)

    def visit_BoolOp(self, n):
        if isinstance(n.op, ast.Or) and len(n.values) == 2:
            a, b = self.seg(n.values[0]), self.seg(n.values[1])
            self.add("s-or", n, f"({a} if {a} is not None else {b})")
        self.generic_visit(n)

    def visit_Dict(self, n):
        if None in n.keys and len(n.keys) > 1:
            parts = [("**" + self.seg(v)) if k is None else f"{self.seg(k)}: {self.seg(v)}" for k, v in zip(n.keys, n.values)]
            self.add("s-merge", n, "{" + ", ".join(reversed(parts)) + "}")
        elif None in n.keys:
            self.add("s-share", n, self.seg(n.values[0]))
        self.generic_visit(n)

    def visit_Attribute(self, n):
        self.visit(n.value)


def mutants(files=None):
    for p in sorted((REPO / "fastkml").glob("*.py")):
        if p.name in SKIP or (files and p.name not in files):
            continue
        src = p.read_text()
        m = (Subtle if '--subtle' in sys.argv else M)(src)
        m.visit(ast.parse(src))
        for i, (op, a, b, new, line) in enumerate(m.out):
            text = (src.encode()[:a] + new.encode() + src.encode()[b:]).decode()
            try:
                compile(text, p.name, "exec")
            except SyntaxError:
                continue
            yield {"id": f"{p.stem}:{line}:{op}:{i}", "file": p.name, "op": op, "line": line, "old": src.encode()[a:b].decode()[:200], "new": new[:200]}, text


def trial(item):
    meta, text = item
    d = Path(tempfile.mkdtemp(prefix="mut_", dir="/tmp"))
    try:
        shutil.copytree(REPO / "fastkml", d / "repo" / "fastkml", ignore=shutil.ignore_patterns("__pycache__"))
        (d / "repo" / "fastkml" / meta["file"]).write_text(text)
        env = {"PATH": "/usr/bin:/bin", "HOME": str(d), "TMPDIR": str(d), "PYTHONHASHSEED": "0", "PYTHONPYCACHEPREFIX": str(d / "pyc"),
               "PYTHONPATH": f"{d}/repo:{ROOT}", "PYTHONSAFEPATH": "1", "LC_ALL": "C.UTF-8", "VK_REPO": str(d / "repo"), "PYTHONWARNINGS": "ignore"}
        imp = subprocess.run([PY, "-c", "import fastkml"], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if imp.returncode:
            return {**meta, "result": "import"}
        for c in ORDER:
            if not (ROOT / "checks" / f"{c.lower()}.py").exists():
                continue
            out = d / f"{c}.json"
            (d / c).mkdir()
            for share in (640, 32):
                if share == 640 and c not in ("C01", "C02", "C03", "C17"):
                    continue
                try:
                    p = subprocess.run([PY, "-m", "vk.runner", "--worker", "1", "--workers", str(share), "--seed", "1", "--tier", "quick", "--out", str(out), "--scratch", str(d / c), c],
                                       env=env, cwd=d / c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                except subprocess.TimeoutExpired:
                    return {**meta, "result": "timeout", "by": c}
                if p.returncode or not out.exists():
                    return {**meta, "result": "broken", "by": c, "why": p.stdout.decode()[-300:]}
                r = json.loads(out.read_text())
                if r["violations"]:
                    return {**meta, "result": "killed", "by": c, "why": r["violations"][0]["mechanism"]}
        return {**meta, "result": "SURVIVED"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def main():
    cmd = sys.argv[1]
    files = opt("--files", "")
    files = set(files.split(",")) if files else None
    if cmd == "list":
        from collections import Counter
        ms = list(mutants(files))
        print(len(ms), Counter(m["file"] for m, _ in ms), Counter(m["op"] for m, _ in ms), sep="\n")
    elif cmd == "run":
        out = Path(sys.argv[2])
        ms = list(mutants(files))
        rng = random.Random(opt("--seed", "1"))
        rng.shuffle(ms)
        done = {json.loads(l)["id"] for l in out.read_text().splitlines()} if out.exists() else set()
        ms = [m for m in ms[: int(opt("--n", "100000"))] if m[0]["id"] not in done]
        with ThreadPoolExecutor(int(opt("--jobs", "8"))) as ex, out.open("a") as f:
            for r in ex.map(trial, ms):
                f.write(json.dumps(r) + "\n")
                f.flush()


main()
