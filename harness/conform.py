"""Compile programs with the real compiler in several configurations and let
TLC decide (spec/Refine.tla) whether every compiled artefact refines the
meaning of its source."""
import os
import time

import compilepool
import mcparse
import tlc

VARIANTS = {
    "std": {},
    "O": {"opts": ["-O"]},
    "nl0": {"opts": ["--max-inline-file-size", "0"]},
    "nl1": {"opts": ["--max-inline-file-size", "1"]},
    "nlbig": {"opts": ["--max-inline-file-size", "1000000"]},
    "init": {"opts": ["-i", "-d"], "init": "init"},
    "names": {"opts": ["-s", "zz", "-m", "start", "-t", "Tg", "-f", "root/x",
                       "--internal-folder", "intern", "-i", "setup"], "int": "intern",
              "pre": "root/x/", "main": "start", "init": "setup"},
    "full": {"full": True},
}


class Failure:
    """One violation: what, with everything needed to reproduce it."""
    def __init__(self, cid, variant, hist, clause, program=None):
        self.cid, self.variant, self.hist, self.clause = cid, variant, hist, clause
        self.program = program

    def sig(self):
        return "%s|%s" % (self.variant, self.clause)


class Outcome:
    def __init__(self):
        self.failures = []
        self.programs = 0
        self.compiled = 0
        self.void = 0
        self.done = 0
        self.states = 0
        self.distinct = 0
        self.voids = {}
        self.conformed = 0
        self.machine_error = None
        self.samples = []
        self.seen_commands = {}
        self.actions = {}
        self.wall_compile = 0.0
        self.wall_tlc = 0.0

    def merge(self, o):
        for k in ("programs", "compiled", "void", "done", "states", "distinct",
                  "conformed", "wall_compile", "wall_tlc"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.failures += o.failures
        for d, e in ((self.voids, o.voids), (self.seen_commands, o.seen_commands),
                     (self.actions, o.actions)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        self.machine_error = self.machine_error or o.machine_error
        self.samples = (self.samples + o.samples)[:5]


def functions(files):
    out = {}
    for p, t in files.items():
        if p.endswith(".mcfunction"):
            out[p[:-len(".mcfunction")]] = mcparse.parse_file(t)
    return out


def _count(seen, cmds):
    for c in cmds:
        seen[c["k"]] = seen.get(c["k"], 0) + 1
        if c["k"] == "exec":
            for s in c["sub"]:
                seen["/" + s["k"]] = seen.get("/" + s["k"], 0) + 1
            _count(seen, [c["run"]])


def _sources(p, v):
    d = {"main.aca": p.text(v.get("full", False))}
    d.update(p.sources)
    return d


def check(programs, variants=("std",), timeout=600, batch=400, workers=8, module="Refine",
          keep_text=True, deadline=None, xform=None):
    """programs: list of (id, Program)."""
    out = Outcome()
    t0 = time.time()
    jobs, meta = [], []
    for cid, p in programs:
        for vn in getattr(p, "variants", None) or variants:
            v = VARIANTS[vn]
            jobs.append({"sources": _sources(p, v), "opts": v.get("opts", []) + getattr(p, "opts", [])})
            meta.append((cid, p, vn, v))
    results = compilepool.run_jobs(jobs, workers=workers)
    out.wall_compile = time.time() - t0
    cases = {}
    for (cid, p, vn, v), r in zip(meta, results):
        if cid not in cases:
            out.programs += 1
            c = p.case(cid)
            c["variants"] = []
            cases[cid] = (p, c)
        p, c = cases[cid]
        if r.kind != "ok":
            out.failures.append(Failure(cid, vn, "", "valid program not compiled (%s): %s"
                                        % (r.kind, r.message()), p))
            continue
        F = functions(r.files)
        for cmds in F.values():
            _count(out.seen_commands, cmds)
        out.compiled += 1
        pre, mn, ini = v.get("pre", ""), v.get("main", "main"), v.get("init")
        want = [pre + mn] + ([pre + ini] if ini else [])
        if not any(x in F for x in want):
            out.failures.append(Failure(cid, vn, "", "no main function written", p))
            continue
        # the first entry point is the program: init file (if split), main
        E = []
        for i, e in enumerate(c["entries"]):
            if i == 0:
                cand = ([pre + ini] if ini else []) + [pre + mn]
            else:
                cand = [pre + q.replace("%int", v.get("int", "_acacia")) for q in e["_rel"]]
            E.append([q for q in cand if q in F])
            if i and not E[-1]:
                out.failures.append(Failure(cid, vn, "", "no function for entry " + cand[0], p))
        c["variants"].append({"name": vn, "F": F, "E": E})
    todo = []
    for cid, (p, c) in cases.items():
        for e in c["entries"]:
            e.pop("_rel", None)
        if c["variants"]:
            todo.append(c)
    t1 = time.time()
    i = 0
    while i < len(todo):
        part = todo[i:i + batch]
        i += batch
        _run(out, part, cases, module, timeout, workers)
        if out.machine_error:
            break
        if deadline and time.time() > deadline:
            break
    out.wall_tlc += time.time() - t1
    if todo and len(out.samples) < 3:
        for cid in list(cases)[:3]:
            out.samples.append({"id": cid, "source": cases[cid][0].text()[:1500]})
    return out


def _run(out, part, cases, module, timeout, workers):
    r = tlc.run(module, cases=part, workers=workers, timeout=timeout)
    out.states += r.states
    out.distinct += r.distinct
    failed = set()
    for cid, vn, hist, clause in r.verdicts:
        out.failures.append(Failure(cid, vn, hist, clause, cases[cid][0]))
        failed.add(cid)
    for cid, why in r.voids:
        out.voids[why] = out.voids.get(why, 0) + 1
        out.void += 1
    out.done += len(r.done)
    ok = {d[0] for d in r.done} - failed
    out.conformed += len(ok)
    if r.error:
        # TLC could not evaluate one case: isolate it
        if len(part) == 1:
            out.failures.append(Failure(part[0]["id"], part[0]["variants"][0]["name"], "",
                                        "not executable: " + r.error[:400],
                                        cases[part[0]["id"]][0]))
            return
        if r.error_ci and r.error_ci <= len(part) and not r.error.startswith("TLC timed"):
            bad = part[r.error_ci - 1]
            rest = [c for c in part if c is not bad]
            _run(out, [bad], cases, module, timeout, workers)
            _run(out, rest, cases, module, timeout, workers)
            return
        out.machine_error = r.error
