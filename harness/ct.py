"""Compile-time programs: compile them with the real compiler, record what it
printed (the /say commands) or that it reported an error, and let TLC check
every record against spec/CtSem.tla."""
import time

import compilepool
import tlc


class CtFailure:
    variant = hist = ""

    def __init__(self, cid, clause, program, record):
        self.cid, self.clause, self.program, self.record = cid, clause, program, record
        self.data = {"record": record}


class CtOutcome:
    def __init__(self):
        self.failures, self.voids, self.samples = [], {}, []
        self.programs = self.ok = self.rejected = self.void = self.lines = 0
        self.states = self.distinct = 0
        self.tlc_wall = 0.0


def says(files):
    out = []
    for ln in files.get("main.mcfunction", "").split("\n"):
        if ln.startswith("say "):
            out.append(ln[4:])
    return out


def ascii_(s):
    return "".join(c if 32 <= ord(c) < 127 else "?" for c in s)


def repair(programs, workers=8, batch=1500):
    """Let the specification drop the statements without a defined meaning."""
    for i in range(0, len(programs), batch):
        part = programs[i:i + batch]
        cases = []
        for cid, p in part:
            c = p.case(cid)
            c.update(mode="repair", kind="ok", msg="", out=[])
            cases.append(c)
        t = tlc.run("CtSem", cases, workers=workers)
        if t.error:
            raise RuntimeError("CtSem: %s" % t.error + (
                "\nprogram:\n" + part[t.error_ci - 1][1].text() if t.error_ci else ""))
        bad = dict(b.split("|", 1) for k, b in t.lines if k == "GEN")
        for cid, p in part:
            p.drop({int(x) for x in bad[cid].split(",") if x})
    return programs


def check(programs, batch=400, workers=8):
    o = CtOutcome()
    for i in range(0, len(programs), batch):
        part = programs[i:i + batch]
        res = compilepool.run_jobs([{"sources": {"main.aca": p.text()}, "opts": ["-d"]} for _, p in part], timeout=20,
                                   workers=workers)
        cases, by = [], {}
        for (cid, p), r in zip(part, res):
            c = p.case(cid)
            c["mode"] = "check"
            c["kind"], c["msg"] = r.kind, ascii_(r.message())[:200]
            c["out"] = [ascii_(x) for x in says(r.files)] if r.kind == "ok" else []
            cases.append(c)
            by[cid] = (p, {"kind": r.kind, "message": r.message(), "out": c["out"]})
        t0 = time.time()
        t = tlc.run("CtSem", cases, workers=workers)
        o.tlc_wall += time.time() - t0
        if t.error:
            raise RuntimeError("CtSem: %s" % t.error + (
                "\nprogram:\n" + part[t.error_ci - 1][1].text() if t.error_ci else ""))
        o.programs += len(part)
        o.states += t.states
        o.distinct += t.distinct
        dead = set()
        for cid, _, _, what in t.verdicts:
            if cid in by and cid not in dead:
                dead.add(cid)
                o.failures.append(CtFailure(cid, what, *by[cid]))
        for cid, why in t.voids:
            o.void += 1
            o.voids[why] = o.voids.get(why, 0) + 1
        for cid, kind, n in t.done:
            if kind == "ok":
                o.ok += 1
                o.lines += int(n)
            else:
                o.rejected += 1
                o.voids[n] = o.voids.get(n, 0) + 1
    return o
