"""Compile multi-file projects and let TLC judge them (spec/ModRefine.tla)."""
import re
import time

import compilepool
import conform
import tlc

VARIANTS = {"std": [], "nl0": ["--max-inline-file-size", "0"], "O": ["-O"], "init": ["-i"]}


class ModFailure:
    def __init__(self, cid, variant, hist, clause, p):
        self.cid, self.variant, self.hist, self.clause, self.program = cid, variant, hist, clause, None
        self.data = {"sources": p.sources(), "options": VARIANTS.get(variant, [])}


def record(c, name, r):
    F = conform.functions(r.files) if r.kind == "ok" else {}
    m = re.search(r"compiler error: (.*)", r.message())
    at = m.group(1) if m else r.message()
    at = "".join(ch if 32 <= ord(ch) < 127 and ch not in '|"\\' else "?" for ch in at)[:160]
    if name == "init" and "init" in F:  # init file and main file together are the program
        F["main"] = F["init"] + F.get("main", [])
        del F["init"]
    c["variants"].append({"name": name, "kind": r.kind if r.kind in ("ok", "error") else "crash", "at": at,
                          "F": F or {"_": []}, "E": [], "user": sorted(f for f in F if not f.startswith("_acacia/"))})


def check(projects, variants=("std",), batch=300, workers=8):
    o = conform.Outcome()
    o.rejected = 0
    o.reasons = {}
    for i in range(0, len(projects), batch):
        part = projects[i:i + batch]
        jobs, meta = [], []
        t0 = time.time()
        for j, (cid, p) in enumerate(part):
            vs = variants if j % 3 == 0 else variants[:1] + variants[1 + j % max(1, len(variants) - 1):][:1]
            for v in vs:
                jobs.append({"sources": p.sources(), "opts": VARIANTS[v]})
                meta.append((cid, p, v))
        res = compilepool.run_jobs(jobs, workers=workers)
        o.wall_compile += time.time() - t0
        cases = {}
        for (cid, p, v), r in zip(meta, res):
            if cid not in cases:
                cases[cid] = p.case(cid)
                cases[cid]["variants"] = []
            record(cases[cid], v, r)
        by = dict(part)
        t0 = time.time()
        t = tlc.run("ModRefine", list(cases.values()), workers=workers)
        o.wall_tlc += time.time() - t0
        if t.error:
            raise RuntimeError("ModRefine: %s\n%s" % (t.error, by[part[t.error_ci - 1][0]].text() if t.error_ci else ""))
        o.programs += len(part)
        o.compiled += len(jobs)
        o.states += t.states
        o.distinct += t.distinct
        seen = set()
        for cid, v, h, what in t.verdicts:
            if (cid, v) not in seen:
                seen.add((cid, v))
                o.failures.append(ModFailure(cid, v, h, what, by[cid]))
        for cid, why in t.voids:
            why = why.split(" ", 2)
            why = " ".join(why[:2])
            o.void += 1
            o.voids[why] = o.voids.get(why, 0) + 1
        o.done += len(t.done)
        o.conformed += len({d[0] for d in t.done})
        for k, b in t.lines:
            if k == "INFO":
                o.rejected += 1
                w = b.split("|")[1]
                o.reasons[w] = o.reasons.get(w, 0) + 1
    return o
