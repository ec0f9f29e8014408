"""Systematic first-order changes of the library: tools/automut.py [FILE.py ...] [--runs N] [--jobs N] [--ops a,b]

Every change is applied to a scratch copy of /repo/src and the checks of the properties of that file are run, with few
runs each, until one reports it. What no check reports is printed: it is either equivalent or a gap.
"""
import ast
import concurrent.futures
import copy
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "/repo/src/frequenz/channels"
PROPS = {
    "_anycast.py": "C01 C02 C03 C04 C05 C36 C11 C12 C33 C37",
    "_broadcast.py": "C06 C07 C08 C09 C10 C38 C36 C11 C12 C33 C37",
    "_receiver.py": "C13 C11 C12 C15 C33 C36 C01 C18",
    "_merge.py": "C14 C15 C16 C17 C34 C35 C38 C36 C11 C12 C33 C37",
    "_select.py": "C18 C19 C20 C21 C22 C23 C38 C36 C34 C33 C37",
    "event.py": "C24 C12 C11 C33 C36",
    "timer.py": "C25 C26 C27 C28 C29 C30 C11 C33 C38 C36",
    "file_watcher.py": "C31 C32 C12 C11 C33 C38 C36",
    "_exceptions.py": "C33 C12 C01 C09", "_sender.py": "C33 C01 C09", "_generic.py": "C01",
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
CALLS = {"popleft": ["pop"], "append": ["appendleft"], "notify_all": ["notify"], "notify": ["notify_all"], "pop": ["popleft"],
         "discard": ["add"], "add": ["discard"], "set": ["clear"], "clear": ["set"], "cancel": ["done"]}


def bodies(node):
    for n in ast.walk(node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, b


def is_doc(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def mutations(tree):
    """Yields (description, function that changes a copy of the tree in place)."""
    funcs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    for fi, fn in enumerate(funcs):
        where = f"{fn.name}:"

        def in_fn(change, fi=fi):
            def apply(t):
                f = [n for n in ast.walk(t) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))][fi]
                return change(f)
            return apply

        nested = {id(x) for g in ast.walk(fn) if g is not fn and isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) for x in ast.walk(g)}
        nb = list(bodies(fn))
        for bi, (owner, body) in enumerate(nb):
            if id(owner) in nested:
                continue
            for si, s in enumerate(body):
                if is_doc(s) or isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    continue
                line = ast.unparse(s).split("\n")[0][:70]

                def delete(f, bi=bi, si=si):
                    b = list(bodies(f))[bi][1]
                    b[si] = ast.Pass()

                if not isinstance(s, (ast.Pass,)):
                    yield "del", f"{where}{s.lineno} delete {line}", in_fn(delete)
                if si + 1 < len(body) and not isinstance(s, (ast.Return, ast.Raise)):
                    def swap(f, bi=bi, si=si):
                        b = list(bodies(f))[bi][1]
                        b[si], b[si + 1] = b[si + 1], b[si]
                    yield "swap", f"{where}{s.lineno} swap with next: {line}", in_fn(swap)
                if isinstance(fn, ast.AsyncFunctionDef):
                    def pause(f, bi=bi, si=si):
                        b = list(bodies(f))[bi][1]
                        b.insert(si, ast.parse("await __import__('asyncio').sleep(0)").body[0])
                    yield "pause", f"{where}{s.lineno} pause before {line}", in_fn(pause)
                if isinstance(s, (ast.Break, ast.Continue)):
                    def brk(f, bi=bi, si=si, s=s):
                        list(bodies(f))[bi][1][si] = ast.Continue() if isinstance(s, ast.Break) else ast.Break()
                    yield "brk", f"{where}{s.lineno} break/continue", in_fn(brk)
                if isinstance(s, (ast.AsyncWith, ast.With)):
                    def unwrap(f, bi=bi, si=si):
                        b = list(bodies(f))[bi][1]
                        b[si:si + 1] = b[si].body
                    yield "unwith", f"{where}{s.lineno} without {line}", in_fn(unwrap)
                if isinstance(s, ast.Try):
                    def untry(f, bi=bi, si=si):
                        b = list(bodies(f))[bi][1]
                        b[si:si + 1] = b[si].body
                    yield "untry", f"{where}{s.lineno} without try", in_fn(untry)
                if isinstance(s, ast.While):
                    def once(f, bi=bi, si=si):
                        b = list(bodies(f))[bi][1]
                        b[si] = ast.If(test=b[si].test, body=b[si].body, orelse=b[si].orelse)
                    if not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
                        yield "once", f"{where}{s.lineno} if instead of {line}", in_fn(once)
        nodes = list(ast.walk(fn))
        for ni, n in enumerate(nodes):
            if id(n) in nested:
                continue
            at = getattr(n, "lineno", 0)

            def rep(make, ni=ni):
                def change(f):
                    x = list(ast.walk(f))[ni]
                    make(x)
                return in_fn(change)

            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                t = ast.unparse(n.test)[:60]
                yield "neg", f"{where}{at} not ({t})", rep(lambda x: setattr(x, "test", ast.UnaryOp(ast.Not(), x.test)))
                if not isinstance(n, ast.While):
                    yield "const", f"{where}{at} True for ({t})", rep(lambda x: setattr(x, "test", ast.Constant(True)))
                yield "const", f"{where}{at} False for ({t})", rep(lambda x: setattr(x, "test", ast.Constant(False)))
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for new in CMP.get(type(n.ops[0]), ()):
                    yield "cmp", f"{where}{at} {new.__name__} in {ast.unparse(n)[:60]}", rep(
                        lambda x, new=new: setattr(x, "ops", [new()]))
            if isinstance(n, ast.BoolOp):
                yield "bool", f"{where}{at} and/or in {ast.unparse(n)[:60]}", rep(
                    lambda x: setattr(x, "op", ast.Or() if isinstance(x.op, ast.And) else ast.And()))
                for k in range(len(n.values)):
                    yield "bool", f"{where}{at} without {ast.unparse(n.values[k])[:60]}", rep(
                        lambda x, k=k: x.values.pop(k) if len(x.values) > 2 else setattr(x, "values", [x.values[1 - k]] * 2))
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Mod)):
                new = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Mod: ast.FloorDiv}[type(n.op)]
                yield "bin", f"{where}{at} {new.__name__} in {ast.unparse(n)[:60]}", rep(
                    lambda x, new=new: setattr(x, "op", new()))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                yield "lit", f"{where}{at} not {n.value}", rep(lambda x: setattr(x, "value", not x.value))
            elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                for d in (1, -1):
                    yield "lit", f"{where}{at} {n.value}{d:+}", rep(lambda x, d=d: setattr(x, "value", x.value + d))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                for new in CALLS.get(n.func.attr, ()):
                    yield "call", f"{where}{at} {new} for {ast.unparse(n)[:60]}", rep(
                        lambda x, new=new: setattr(x.func, "attr", new))
                for k in range(len(n.keywords)):
                    yield "kw", f"{where}{at} without {n.keywords[k].arg}= in {ast.unparse(n)[:60]}", rep(
                        lambda x, k=k: x.keywords.pop(k))
            if isinstance(n, ast.Raise) and n.cause is not None:
                yield "cause", f"{where}{at} no cause", rep(lambda x: setattr(x, "cause", None))
            if isinstance(n, ast.ExceptHandler) and n.type is not None:
                for t in ("Exception", "BaseException", "ReceiverStoppedError"):
                    yield "exc", f"{where}{at} except {t} for {ast.unparse(n.type)}", rep(
                        lambda x, t=t: setattr(x, "type", ast.Name(t, ast.Load())))
            if isinstance(n, ast.Return) and n.value is not None:
                yield "ret", f"{where}{at} return None for {ast.unparse(n.value)[:50]}", rep(
                    lambda x: setattr(x, "value", ast.Constant(None)))


def attempt(fname, desc, code, runs):
    tmp = tempfile.mkdtemp(prefix="automut-")
    try:
        src = os.path.join(tmp, "src")
        shutil.copytree("/repo/src", src, ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(src, "frequenz/channels", fname), "w").write(code)
        for prop in PROPS[fname].split():
            env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "DST", "VERIF"))}
            env.update(DST_REPO_SRC=src, DST_OUT=os.path.join(tmp, "out"))
            c = subprocess.run([os.path.join(ROOT, "run.sh"), "check", prop, "--runs", str(runs)], capture_output=True,
                               text=True, env=env)
            if c.returncode != 0:
                return prop, c.returncode, (c.stdout + c.stderr).strip().splitlines()[-2:]
        return None, 0, []
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    opts = {"--runs": "1500", "--jobs": "8", "--ops": "", "--only": ""}
    for o in list(opts):
        if o in args:
            i = args.index(o)
            opts[o] = args[i + 1]
            del args[i:i + 2]
    todo = []
    for fname in args or list(PROPS):
        text = open(os.path.join(PKG, fname)).read()
        tree = ast.parse(text)
        base = ast.unparse(tree)
        seen = {base}
        for op, desc, change in mutations(tree):
            if opts["--ops"] and op not in opts["--ops"].split(","):
                continue
            if opts["--only"] and opts["--only"] not in desc:
                continue
            t = copy.deepcopy(tree)
            change(t)
            try:
                code = ast.unparse(ast.fix_missing_locations(t))
                compile(code, fname, "exec")
            except (SyntaxError, ValueError):
                continue
            if code in seen:
                continue
            seen.add(code)
            todo.append((fname, f"{op} {desc}", code))
    print(len(todo), "changes", flush=True)
    n = 0
    with concurrent.futures.ThreadPoolExecutor(int(opts["--jobs"])) as ex:
        for (fname, desc, _c), (prop, rc, out) in zip(todo, ex.map(lambda t: attempt(*t, int(opts["--runs"])), todo)):
            if prop is None:
                print("LEFT", fname, desc, flush=True)
                n += 1
            else:
                print("    ", fname, desc, "->", prop, rc, (out[0] if out else "")[:110], flush=True)
    print(n, "left")


main()
