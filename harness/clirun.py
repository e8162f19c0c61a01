"""Histories of real compiler runs over one directory tree, recorded and
judged by TLC (spec/Cli.tla)."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

import compilepool
import conform
import tlc

SIMPLE = "x := 1\n/say hello\nscb(\"p0\", \"obs\") = x + 2\n"
SCHED = """import schedule
def f(a: int):
    scb("p0", "obs") = a
const t = schedule.Task(f, 3)
t.after(5)
interface go:
    t.after(2)
"""
LOOP = "import schedule\ndef f():\n    /say tick\nschedule.register_loop(f, 3)\n"
IFACE = """n := 0
def f(k: int) -> int:
    result k * n
interface api/go:
    n += 1
    /say go
interface boot:
    n = f(2)
interface Foo/Bar_2/baz:
    pass
interface setup/x:
    if n > 3:
        /say big
        n = 0
        /say small
"""
ENT = """entity A:
    n: int
    new():
        self.n = 3
    virtual def f():
        /say a
entity B extends A:
    override def f():
        /say b
entity D extends A:
    override def f():
        /say d
x := B()
x.f()
&y: A = x
g := Engroup[A]()
g.add(x)
for e in g:
    e.f()
"""
MAIN_MOD = "import util.a\nfrom b import f, g as h\nf()\nh(3)\na.k()\n"
MODS = {"util/a.aca": "import b\nx := 1\ndef k():\n    x += 1\n    b.f()\n", "b.aca": "y := 2\ndef f():\n    /say f\n    y += 1\n"
        "def g(n: int):\n    scb(\"p0\", \"obs\") = n + y\n    /say g\ninterface lib/b:\n    f()\n"}
UNI = "/say h\u00e9llo \u4e2d\u6587\n# comment \u00fc\n"


def known(src, ifaces=(), tick=False, ok=True, files=None, empty=(), nomain=False):
    return {"files": dict(files or {}, **{"main.aca": src}), "ifaces": list(ifaces), "tick": tick, "ok": ok, "known": True, "any": False,
            "empty": list(empty), "nomain": nomain}


GOOD = {
    "simple": known(SIMPLE), "sched": known(SCHED, ["go"], True), "loop": known(LOOP, [], True),
    "iface": known(IFACE, ["api/go", "boot", "Foo/Bar_2/baz", "setup/x"], empty=["Foo/Bar_2/baz"]), "ent": known(ENT),
    "mods": known(MAIN_MOD, ["lib/b"], files=MODS), "empty": known("", nomain=True), "uni": known(UNI),
    "iftop": known("interface start:\n    /say s\ninterface main2/main:\n    /say m\n", ["start", "main2/main"], nomain=True),
}
# programs that are fine or not depending on the options
DEP = {
    "resv": known("interface main/x:\n    /say m\n", ["main/x"], nomain=True),
    "intv": known("interface _acacia/acalib1:\n    /say i\n", ["_acacia/acalib1"], nomain=True),
    "resi": known("interface Init:\n    /say i\n", ["Init"], nomain=True),
}
BAD = {
    "lex": known("x := 1\ny := $\n", ok=False), "gram": known("x := (1\n", ok=False),
    "type": known("/say hi\nx := 1\nx = True\n", ok=False),
    "late": known(IFACE + "interface last:\n    undefined()\n", ok=False),
    "dup": known("interface a:\n    pass\ninterface A:\n    pass\n", ok=False),
    "nomod": known("import nothere\n", ok=False),
    "circ": known("import a\n", ok=False, files={"a.aca": "import b\n", "b.aca": "import a\n"}),
    "modbad": known("import a\n/say x\n", ok=False, files={"a.aca": "y := True + 1\n"}),
}
IDS = ["zz", "start", "Start", "boot", "init", "main", "setup", "_x", "A9_", "api", "foo", "lib", "Foo", "acalib1", "tick"]
BADID = ["9a", "a b", "a-b", "a.b", "a/b", "-", " "]


def codes(s):
    return [ord(c) for c in s]


class Scenario:
    def __init__(self, rnd, cid, extra=()):
        r = self.r = rnd
        self.cid = cid
        self.projects = {}
        self.plain = bool(extra)
        names = [] if extra else r.sample(sorted(GOOD), 2) + [r.choice(sorted(BAD) if r.random() < 0.6 else sorted(DEP))]
        for n in names:
            self.projects[n] = GOOD.get(n) or BAD.get(n) or DEP[n]
        for n, files, ifaces in extra:
            self.projects[n] = {"files": files, "ifaces": ifaces, "tick": False, "ok": True, "known": False, "any": True,
                                "empty": [], "nomain": False}
        self.cfgs = [self.options() for _ in range(2)]
        self.acts = [self.action() for _ in range(r.randrange(4, 7))]

    def options(self):
        r = self.r
        o = []
        for k, p in (("-s", 0.3), ("-m", 0.3), ("--internal-folder", 0.25), ("-t", 0.2)):
            if r.random() < p:
                o.append([k, r.choice(IDS)])
        if r.random() < 0.35:
            o.append(["-i", r.choice([None, r.choice(IDS), ""])])
        if r.random() < 0.4:
            o.append(["-f", r.choice(["fn", "fn/x", "a//b/", "/fn", "", "/", "F/g/h"])])
        if r.random() < 0.3:
            o.append(["-v", r.choice(["1.19.50", "1.20", "1.19.60", "1.20.10", "2.0", "1.19.50.1"])])
        if r.random() < 0.3:
            o.append(["--max-inline-file-size", str(r.choice([0, 1, 20, 1000]))])
        for f in ("-d", "-O", "-e"):
            if r.random() < 0.25:
                o.append([f, None])
        return o

    def spoil(self, o):
        r = self.r
        k = r.choice(["-s", "-m", "-i", "--internal-folder", "-f", "-v", "--max-inline-file-size", "-x", "-f", "same"])
        if k in ("-s", "-m", "-i", "--internal-folder"):
            o.append([k, r.choice(BADID)])
        elif k == "-f":
            o.append([k, r.choice(["a/9", "a b", "a/b c/d", "..", "a/../b", "./a", "a\\b"])])
        elif k == "-v":
            o.append([k, r.choice(["1", "1.19.49", "1.19", "1.18.100", "x", "1.20.x", "1..20", "0.20.20", "1.20.-1"])])
        elif k == "--max-inline-file-size":
            o.append([k, r.choice(["-1", "x", "1.5"])])
        elif k == "same":
            n = r.choice(IDS)
            o += [["-m", n], ["-i", r.choice([n, n.upper(), n.lower(), n.capitalize()])]]
        else:
            o.append(["--nonsense", None])
        return o

    def action(self):
        r = self.r
        p = r.choice(sorted(self.projects))
        o = [list(x) for x in (r.choice(self.cfgs) if r.random() < (0.95 if self.plain else 0.75) else self.options())]
        if r.random() < (0.02 if self.plain else 0.12):
            o = self.spoil(o)
        if r.random() < 0.4:
            o.append(["-u", None])
        src = ["proj", p, "src", "main.aca"]
        x = r.random()
        if x < 0.04 and not self.plain:
            src = r.choice([["proj", p, "src", "nothere.aca"], ["proj", p], ["proj", "none", "main.aca"]])
        out = r.choice([["w", "out1"], ["w", "out1"], ["w", "out2"], ["out3"], []])
        if r.random() < 0.06:
            out = ["w", "no", "such"]
        r.shuffle(o)
        return {"src": src, "out": out, "opts": o, "env": r.randrange(1 << 30)}


def snapshot(root, strip):
    es = []
    for d, dirs, names in os.walk(root):
        dirs.sort()
        rel = [] if d == root else os.path.relpath(d, root).split(os.sep)
        if rel:
            es.append({"p": rel, "h": "D"})
        for n in sorted(names):
            with open(os.path.join(d, n), "rb") as f:
                b = f.read()
            if strip and n.endswith(".mcfunction"):       # comments that name source files do not count
                b = b"\n".join(x for x in b.split(b"\n") if not (x.startswith(b"#") and b".aca" in x))
            es.append({"p": rel + [n], "h": hashlib.sha256(b).hexdigest()[:20]})
    return es


def spell(r, path, cwd):
    x = r.randrange(4)
    if x == 0:
        return path
    if x == 1:
        return os.path.relpath(path, cwd)
    if x == 2:
        return os.path.join(".", os.path.relpath(path, cwd))
    d, b = os.path.split(path)
    return os.path.join(d, ".", b)


LONG = {"-s": "--scoreboard", "-f": "--function-folder", "-m": "--main-file", "-t": "--entity-tag", "-i": "--init-file",
        "-v": "--mc-version", "-d": "--debug-comments", "-O": "--no-optimize", "-e": "--education-edition",
        "-u": "--override-old"}


def invoke(root, act, out, seed):
    r = random.Random(seed)
    cwd = os.path.join(root, *r.choice([[], ["w"], ["proj"]]))
    src = os.path.join(root, *act["src"])
    a = spell(r, src, cwd)
    argv = []
    opts = list(act["opts"])
    for o, v in opts:
        name = LONG.get(o, o) if r.random() < 0.4 else o
        if v is None:
            argv.append([name])
        elif name.startswith("--") and (r.random() < 0.5 or v.startswith("-") or v == ""):
            argv.append([name + "=" + v])
        elif v.startswith("-"):
            argv.append([LONG.get(o, o) + "=" + v])
        else:
            argv.append([name, v])
    if out is not None:
        argv.append(["-o", spell(r, out, cwd)])
    # an option whose value may be missing must not swallow the file
    flat = [x for p in argv for x in p]
    cmd = [sys.executable, "-W", "ignore", os.path.join(compilepool.REPO, "acacia.py")]
    cmd += [a] + flat if r.random() < 0.5 or any(x in ("-i", "--init-file") for x in flat) else flat + [a]
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str(r.randrange(1000)), "LC_ALL": r.choice(["C", "C.UTF-8", "POSIX"]),
           "PYTHONDONTWRITEBYTECODE": "1", "HOME": root}
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        return p.returncode, p.stderr.decode("utf-8", "replace"), cmd
    except subprocess.TimeoutExpired:
        return 124, "timeout", cmd


def run_one(sc):
    base = tempfile.mkdtemp(prefix="cli")
    try:
        root = os.path.join(base, "t")
        for n, p in sc.projects.items():
            for f, t in p["files"].items():
                q = os.path.normpath(os.path.join(root, "proj", n, "src", f))
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "w", encoding="utf-8") as fh:
                    fh.write(t)
        for f in ("w/out1/keep.mcfunction", "w/out1/fn/old.mcfunction", "w/out1/_acacia/acalib9.mcfunction", "w/notes.txt"):
            q = os.path.join(root, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as fh:
                fh.write("say old\n")
        tree0 = snapshot(root, True)
        steps = []
        for i, act in enumerate(sc.acts):
            out = os.path.join(root, *act["out"]) if act["out"] else None
            rc, err, cmd = invoke(root, act, out, act["env"])
            after = snapshot(root, True)
            wrote, ticks = [], []
            if rc == 0:
                fresh = os.path.join(base, "fresh%d" % i)
                os.mkdir(fresh)
                # the same use, into an empty place, in another environment
                rc2, err2, _ = invoke(root, dict(act, opts=[o for o in act["opts"] if o[0] != "-u"]), fresh, act["env"] + 1)
                wrote = [e for e in snapshot(fresh, True) if e["h"] != "D"] if rc2 == 0 else [{"p": ["failed"], "h": "x"}]
                tj = os.path.join(fresh, "tick.json")
                if os.path.exists(tj):
                    try:
                        ticks = json.load(open(tj, encoding="utf-8"))["values"]
                        assert all(isinstance(x, str) for x in ticks)
                    except Exception:
                        ticks = ["?"]
            msg = "".join(ch if 32 <= ord(ch) < 127 and ch not in '|"\\' else "?" for ch in err.strip().split("\n")[-1])[-150:]
            steps.append({"act": {"src": act["src"], "out": act["out"],
                                  "opts": [{"o": o, "v": [0] if v is None else codes(v)} for o, v in act["opts"]]},
                          "rc": rc, "said": "error" in err, "msg": msg, "after": after, "wrote": wrote, "ticks": ticks,
                          "_cmd": cmd})
        return {"id": sc.cid, "tree": tree0,
                "projects": {n: {"src": ["proj", n, "src", "main.aca"], "ok": p["ok"], "tick": p["tick"], "known": p["known"],
                                 "any": p["any"], "nomain": p["nomain"], "empty": [[codes(s) for s in f.split("/")] for f in p["empty"]],
                                 "ifaces": [[codes(s) for s in f.split("/")] for f in p["ifaces"]]}
                             for n, p in sc.projects.items()}, "steps": steps}
    finally:
        shutil.rmtree(base, ignore_errors=True)


class CliFailure:
    program = None

    def __init__(self, cid, variant, hist, clause, case, sc):
        self.cid, self.variant, self.hist, self.clause = cid, variant, hist, clause
        m = re.match(r"step(\d+)", variant)
        st = case["steps"][:int(m.group(1))] if m else case["steps"]
        self.data = {"projects": {n: p["files"] for n, p in sc.projects.items()},
                     "runs": [{"command": s["_cmd"], "rc": s["rc"], "message": s["msg"]} for s in st]}


def check(scs, workers=8):
    o = conform.Outcome()
    t0 = time.time()
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        cases = list(ex.map(run_one, scs))
    o.wall_compile = time.time() - t0
    clean = [dict(c, steps=[{k: v for k, v in s.items() if k != "_cmd"} for s in c["steps"]]) for c in cases]
    t = tlc.run("Cli", clean, workers=workers)
    o.wall_tlc = t.wall
    if t.error:
        raise RuntimeError("Cli: %s" % t.error + (json.dumps(clean[t.error_ci - 1])[:3000] if t.error_ci else ""))
    o.programs = len(cases)
    o.compiled = sum(len(c["steps"]) for c in cases)
    o.states, o.distinct = t.states, t.distinct
    by = {c["id"]: (c, s) for c, s in zip(cases, scs)}
    for cid, v, h, what in t.verdicts:
        o.failures.append(CliFailure(cid, v, h, what, *by[cid]))
    o.done = len(t.done)
    o.conformed = len(t.done)
    o.rc = {}
    for c in cases:
        for s in c["steps"]:
            o.rc["exit %d" % s["rc"]] = o.rc.get("exit %d" % s["rc"], 0) + 1
    return o
