"""Compile source texts and let TLC judge them (spec/SrcRefine.tla)."""
import re
import time

import compilepool
import conform
import mcparse
import tlc


class SrcFailure:
    def __init__(self, cid, variant, hist, clause, p):
        self.cid, self.variant, self.hist, self.clause, self.program = cid, variant, hist, clause, None
        self.data = {"sources": {"main.aca": p.src}, "options": conform.VARIANTS.get(variant, {}).get("opts", [])}


def ascii_(t):
    return "".join(c if ord(c) < 127 else "{u%d}" % ord(c) for c in t)


def variant(name, r):
    kind, F, line = r.kind, {}, 0
    at = r.message()
    m = re.search(r"(?:^|/)main\.aca:(\d+):\d+.*?compiler error: (.*)", r.err) or re.search(r"main\.aca:(\d+):(\d+)", r.err)
    if m:
        line = int(m.group(1))
    m = re.search(r"compiler error: (.*)", r.err)
    if m:
        at = m.group(1)
    if kind == "ok":
        try:
            F = conform.functions({k: ascii_(v) for k, v in r.files.items()})
        except mcparse.BadCmd as e:
            kind, at = "crash", "output is not commands: %s" % e
    elif kind != "error":
        kind = "crash"
    at = "".join(ch if 32 <= ord(ch) < 127 and ch not in '|"\\' else "?" for ch in at)[:200]
    return {"name": name, "kind": kind, "at": at, "line": line, "F": F or {"_": []}, "E": [],
            "user": sorted(f for f in F if not f.startswith("_acacia/"))}


def check(texts, variants=("std",), batch=400, workers=8):
    o = conform.Outcome()
    o.rejected = 0
    o.reasons = {}
    for i in range(0, len(texts), batch):
        part = texts[i:i + batch]
        t0 = time.time()
        jobs = [{"sources": {"main.aca": p.src}, "opts": conform.VARIANTS[v].get("opts", [])}
                for _, p in part for v in variants]
        res = compilepool.run_jobs(jobs, workers=workers)
        o.wall_compile += time.time() - t0
        cases, k = [], 0
        for cid, p in part:
            c = p.case(cid)
            c["variants"] = []
            for v in variants:
                c["variants"].append(variant(v, res[k]))
                k += 1
            cases.append(c)
        by = dict(part)
        t = tlc.run("SrcRefine", cases, workers=workers)
        o.wall_tlc += t.wall
        if t.error:
            raise RuntimeError("SrcRefine: %s\n%s" % (t.error, part[t.error_ci - 1][1].src if t.error_ci else ""))
        o.programs += len(part)
        o.compiled += len(jobs)
        o.states += t.states
        o.distinct += t.distinct
        seen = set()
        for cid, v, h, what in t.verdicts:
            if (cid, v) not in seen:
                seen.add((cid, v))
                o.failures.append(SrcFailure(cid, v, h, what, by[cid]))
        for cid, why in t.voids:
            why = " ".join(why.split(" ", 2)[:2])
            o.void += 1
            o.voids[why] = o.voids.get(why, 0) + 1
        o.done += len(t.done)
        o.conformed += len({d[0] for d in t.done})
        for kk, b in t.lines:
            if kk == "INFO":
                o.rejected += 1
                w = b.split("|")[1].split(" ")[0]
                o.reasons[w] = o.reasons.get(w, 0) + 1
    return o
