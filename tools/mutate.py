"""Tries many small changes of the library at once: tools/mutate.py FILE [ID...] [--seed N] [--jobs N]

FILE defines MUTANTS = [(id, property or list of properties, file, old, new, [old, new, ...])]. Each is applied
to a scratch copy of /repo/src, and the checks of its properties have to report it (with --quiet: have to stay quiet,
for changes that keep the behaviour; property None then means all properties of the file's families).
"""
import concurrent.futures
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def attempt(m, extra, quiet):
    mid, props, fname, *edits = m
    props = [props] if isinstance(props, str) else props
    tmp = tempfile.mkdtemp(prefix="mutate-")
    res = []
    try:
        src = os.path.join(tmp, "src")
        shutil.copytree(os.environ.get("MUT_SRC", "/repo/src"), src, ignore=shutil.ignore_patterns("__pycache__"))
        for i in range(0, len(edits), 2):
            old, new = edits[i:i + 2]
            f = fname
            if isinstance(old, tuple):
                f, old = old
            p = os.path.join(src, "frequenz/channels", f)
            s = open(p).read()
            if s.count(old) != 1:
                return mid, [("-", f"EDIT {s.count(old)} times: {old[:60]!r}", None)]
            open(p, "w").write(s.replace(old, new))
        for prop in props:
            env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "DST", "VERIF"))}
            env.update(DST_REPO_SRC=src, DST_OUT=os.path.join(tmp, "out"))
            c = subprocess.run([os.path.join(ROOT, "run.sh"), "check", prop] + extra, capture_output=True, text=True, env=env)
            res.append((prop, c.returncode, (c.stdout + c.stderr).strip().splitlines()[-4:]))
    finally:
        shutil.rmtree(tmp)
    return mid, res


def main():
    args = sys.argv[1:]
    quiet = "--quiet" in args
    extra, jobs = [], 3
    for opt in ("--seed", "--runs", "--tier"):
        if opt in args:
            i = args.index(opt)
            extra += args[i:i + 2]
            del args[i:i + 2]
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    args = [a for a in args if a != "--quiet"]
    ns = {}
    exec(compile(open(args[0]).read(), args[0], "exec"), ns)
    ms = [m for m in ns["MUTANTS"] if not args[1:] or m[0] in args[1:] or m[0].startswith(tuple(args[1:]))]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for mid, res in ex.map(lambda m: attempt(m, extra, quiet), ms):
            for prop, rc, out in res:
                ok = rc == (0 if quiet else 1)
                txt = " | ".join(out) if isinstance(out, list) else str(out)
                print("ok  " if ok else "BAD ", mid, prop, rc, txt[-300:] if not ok else txt[-160:], flush=True)


main()
