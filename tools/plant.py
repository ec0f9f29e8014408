"""Plants bugs and tries them: tools/plant.py make FILE | try ID... [--no-tests] [--prop C01]

`make` reads a Python file defining BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo)]
and writes seeded/<id>/; `try` verifies each one in a scratch copy: the patch applies, the tests pass, the
demonstration tells the trees apart, and the check of its property reports it.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
DEMO_HEAD = '''import asyncio, gc, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
'''


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy_repo(dst):
    run(["cp", "-a", "/repo", dst], check=True)


def make(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    for b in ns["BUGS"]:
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            rep = os.path.join(tmp, "repo")
            copy_repo(rep)
            for f, old, new in b["edits"]:
                p = os.path.join(rep, "src/frequenz/channels", f)
                s = open(p).read()
                if s.count(old) != 1:
                    sys.exit(f"{b['id']}: {f}: {s.count(old)} times {old!r}")
                open(p, "w").write(s.replace(old, new))
            diff = run(["git", "-C", rep, "diff"]).stdout
        finally:
            shutil.rmtree(tmp)
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(DEMO_HEAD + b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def blame_ok(d):
    """The changed lines come from the base commit."""
    base = run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    bad, f, n = [], None, 0
    removed = 0
    for line in open(os.path.join(d, "patch.diff")):
        if line.startswith("--- a/"):
            f = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line)[1])
        elif line.startswith("-") and not line.startswith("---"):
            removed += 1
            b = run(["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{n},{n}", "HEAD", "--", f]).stdout
            if not b.lstrip("^").startswith(base[:39]):
                bad.append((f, n, line.strip()))
            n += 1
        elif line.startswith(" "):
            n += 1
    return removed, bad


def attempt(bid, tests, prop, tier_args):
    d = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    prop = prop or meta["property"]
    tmp = tempfile.mkdtemp(prefix="plant-")
    out = {"id": bid, "prop": prop}
    try:
        rep = os.path.join(tmp, "repo")
        copy_repo(rep)
        env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "DST", "VERIF"))}
        env.update(PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1")
        demo = os.path.join(tmp, "demo")
        shutil.copytree(d, demo)
        demo_cmd = ["bash", os.path.join(demo, "demo.sh")]
        if tests:
            out["demo_clean"] = run(demo_cmd, cwd=rep, env=env).returncode
        r = run(["git", "-C", rep, "apply", os.path.join(d, "patch.diff")])
        if r.returncode:
            out["apply"] = r.stderr
            return out
        if tests:
            out["removed"], out["not_base"] = blame_ok(d)
            p = run(demo_cmd, cwd=rep, env=env)
            out["demo_bug"], out["demo_out"] = p.returncode, (p.stdout + p.stderr)[-150:]
            t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--hypothesis-seed=0", "-x"],
                    cwd=rep, env=dict(env, PYTHONPATH=os.path.join(rep, "src"), PYTHONHASHSEED="0"))
            out["tests"] = t.returncode
            if t.returncode:
                out["tests_out"] = t.stdout[-600:]
        e = dict(env, DST_REPO_SRC=os.path.join(rep, "src"), DST_OUT=os.path.join(tmp, "out"))
        c = run([os.path.join(ROOT, "run.sh"), "check", prop] + tier_args, env=e)
        out["check"] = c.returncode
        out["check_out"] = c.stdout.strip().splitlines()[-3:] if c.returncode == 1 else (c.stdout + c.stderr)[-400:]
    finally:
        shutil.rmtree(tmp)
    return out


def main():
    if sys.argv[1] == "make":
        for f in sys.argv[2:]:
            make(f)
        return
    args = sys.argv[2:]
    tests = "--no-tests" not in args
    prop = None
    if "--prop" in args:
        i = args.index("--prop")
        prop = args[i + 1]
        del args[i: i + 2]
    tier_args = []
    if "--seed" in args:
        i = args.index("--seed")
        tier_args = ["--seed", args[i + 1]]
        del args[i: i + 2]
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(SEEDED))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for o in ex.map(lambda b: attempt(b, tests, prop, tier_args), ids):
            good = o.get("check") == 1 and (not tests or (o.get("demo_clean") == 0 and o.get("demo_bug") and
                                                         o.get("tests") == 0 and not o.get("not_base")))
            print("OK  " if good else "BAD ", o["id"], o["prop"], end=" ")
            if good:
                print("|".join(o["check_out"])[:260])
            else:
                print(json.dumps(o))
            sys.stdout.flush()


main()
