"""Development tool: build one planted bug and confirm it (never used by a check).

seed.py SPEC.py   SPEC.py defines id, prop, needs, breaks, edits=[(file, old, new)...], demo (python
text using mini.py).  seed.py --run ID [PROP...]  runs the checks against a planted bug."""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def demo(d, cwd):
    return sh("bash", os.path.join(d, "demo.sh"), cwd=cwd)


def build(path):
    s = runpy.run_path(path)
    d = os.path.join(V, "seeded", s["id"])
    wt = tempfile.mkdtemp(prefix="seedwt")
    shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "-C", wt, "diff").stdout
        assert diff
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(V, "tools/seedlib/mini.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from mini import *\n\n" + s["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a, b = demo(d, "/repo"), demo(d, wt)
        print("clean:", a.returncode, a.stdout[-300:], a.stderr[-300:])
        print("bug:  ", b.returncode, b.stdout[-300:], b.stderr[-300:])
        runner = os.path.join(wt, "runner.py")
        open(runner, "w").write(open("/opt/vp/acacia_tests.py").read().replace('"/repo"', repr(wt)))
        lines = os.path.join(wt, "lines.txt")
        sh("/usr/bin/python3", runner, lines, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
           PYTHONHASHSEED="0", PYTHONWARNINGS="ignore::SyntaxWarning"))
        n = open(lines).read().count("PASS ")
        print("tests passed:", n)
        ok = a.returncode == 0 and b.returncode != 0 and n >= 30
        print(s["id"], "OK" if ok else "NOT OK")
        return ok
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def run(ident, props):
    d = os.path.join(V, "seeded", ident)
    props = props or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    wt = tempfile.mkdtemp(prefix="seedwt")
    shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        r = sh("git", "-C", wt, "apply", os.path.join(d, "patch.diff"))
        assert r.returncode == 0, r.stderr
        for p in props:
            c = sh("python3", "harness/check.py", p, cwd=V, env=dict(os.environ, ACACIA_REPO=wt))
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            print(ident, p, "exit", c.returncode, len(v), "violations", c.stdout.strip().splitlines()[-1:], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2], sys.argv[3:])
    else:
        sys.exit(0 if all([build(p) for p in sys.argv[1:]]) else 1)
