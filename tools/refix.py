"""Undo each `fix:` commit of /repo in a scratch copy and see whether the
property's quick check reports the defect again.
usage: refix.py [COMMIT...]   (default: every fixed: line of known-findings.txt)"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = []
    for ln in open(os.path.join(V, "known-findings.txt")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", ln)
        if m and (len(sys.argv) == 1 or m.group(2) in sys.argv[1:]):
            rows.append(m.groups())
    for prop, commit, what in rows:
        d = tempfile.mkdtemp(prefix="refix")
        try:
            w = os.path.join(d, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
            r = subprocess.run(["git", "-C", w, "revert", "-n", commit], capture_output=True, text=True)
            if r.returncode:
                print("%s %s CONFLICT %s" % (prop, commit, what))
                continue
            r = subprocess.run(["python3-vt", os.path.join(V, "harness", "check.py"), prop, "--tier", "quick"],
                               env=dict(os.environ, ACACIA_REPO=w), capture_output=True, text=True)
            hit = "VIOLATION property=%s" % prop in r.stdout
            print("%s %s %s %s" % (prop, commit, "detected" if hit and r.returncode == 1 else
                                   "MISSED rc=%d" % r.returncode, what), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
