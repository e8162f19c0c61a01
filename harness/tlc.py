"""Run TLC on spec/<module>.tla with a case file; collect verdict lines."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARDIR = "/opt/veriftools/tla"


class TlcResult:
    def __init__(self):
        self.verdicts = []      # (case id, variant, hist, clause)
        self.voids = []         # (case id, reason)
        self.done = []          # (case id, variant, steps)
        self.lines = []         # other printed strings
        self.states = 0
        self.distinct = 0
        self.error = None       # text of a TLC evaluation error
        self.error_ci = None
        self.wall = 0.0
        self.actions = {}       # action -> count (coverage)
        self.out = ""


def classpath():
    jars = [os.path.join(JARDIR, n) for n in sorted(os.listdir(JARDIR)) if n.endswith(".jar")]
    jars.sort(key=lambda p: 0 if "tla2tools" in p else 1)
    return ":".join(jars)


def run(module, cases=None, cfg=None, workers=8, timeout=800, extra=(), env=None,
        coverage=False, simulate=None, xmx="10g"):
    tmp = tempfile.mkdtemp(prefix="tlc")
    res = TlcResult()
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if cases is not None:
            p = os.path.join(tmp, "cases.json")
            with open(p, "w") as f:
                json.dump(cases, f, ensure_ascii=True, separators=(",", ":"))
            e["CASES"] = p
        e.update(env or {})
        cmd = ["java", "-Xss256m", "-Xmx" + xmx, "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + tmp, "-cp", classpath(), "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "meta"),
               "-noGenerateSpecTE", "-continue", "-deadlock"]
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra)
        cmd += ["-config", os.path.join(SPEC, cfg or module + ".cfg"),
                os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        log = os.path.join(tmp, "log")
        with open(log, "w") as f:
            try:
                pr = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e,
                                    cwd=tmp, timeout=timeout)
                rc = pr.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        res.wall = time.time() - t0
        with open(log, encoding="utf-8", errors="replace") as f:
            out = f.read()
        res.out = out
        res.rc = rc
        _parse(res, out, rc)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _parse(res, out, rc):
    seen = set()
    for m in re.finditer(r'^"(VERDICT|VOID|DONE|GEN|INFO)\|(.*)"$', out, re.M):
        kind, body = m.group(1), m.group(2)
        body = body.replace('\\"', '"').replace("\\\\", "\\")
        if kind == "VERDICT":
            if body in seen:
                continue
            seen.add(body)
        if kind == "VERDICT":
            res.verdicts.append(tuple(body.split("|", 3)))
        elif kind == "VOID":
            res.voids.append(tuple(body.split("|", 1)))
        elif kind == "DONE":
            res.done.append(tuple(body.split("|")))
        else:
            res.lines.append((kind, body))
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if m:
        res.states = int(m[-1][0].replace(",", ""))
        res.distinct = int(m[-1][1].replace(",", ""))
    m = re.search(r"The number of states generated: (\d[\d,]*)", out)
    if m:
        res.states = int(m.group(1).replace(",", ""))
    for m in re.finditer(r"^<(\w+) line .*>: (\d+):(\d+)", out, re.M):
        res.actions[m.group(1)] = res.actions.get(m.group(1), 0) + int(m.group(3))
    bad = re.search(r"^(Error: (?!Invariant|The behavior up to|The following behavior|Action property|Temporal).*(?:\n(?!State|Error).*){0,12})", out, re.M)
    if rc == -1:
        res.error = "TLC timed out"
    elif bad:
        res.error = bad.group(1)[:1500]
        m = re.findall(r"ci = (\d+)", out)
        res.error_ci = int(m[-1]) if m else None
    elif not re.search(r"Model checking completed|Finished in|Simulation", out):
        res.error = "TLC did not finish: " + out[-1500:]
