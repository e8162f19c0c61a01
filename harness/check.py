"""Decide one property:  check.py <id> [--tier quick|thorough] [--replay DIR]

Exit 0 when the property held on everything explored, 1 with a VIOLATION line
otherwise, 2 when the machinery itself could not give an answer."""
import importlib
import json
import os
import pickle
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

if os.environ.get("PYTHONHASHSEED") != "0":     # same programs for the same seed
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.failures = []          # conform.Failure-like: cid, variant, hist, clause, program
        self.cov = {}
        self.assumptions = []
        self.soft = 420 if tier == "quick" else 3000   # stop starting new work
        self.level = "translation_validation"

    def n(self, quick, thorough=None):
        return quick if self.tier == "quick" else (thorough or quick * 12)

    def late(self):
        return time.time() - self.t0 > self.soft

    def add(self, d):
        for k, v in d.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, dict):
                t = self.cov.setdefault(k, {})
                for a, b in v.items():
                    t[a] = t.get(a, 0) + b
            elif isinstance(v, list):
                self.cov[k] = (self.cov.get(k, []) + v)[:6]
            else:
                self.cov[k] = v

    def fail(self, cid, clause, data=None):
        self.failures.append(Plain(cid, clause, data))


class Plain:
    """A violation that is not a refinement failure."""
    variant = hist = ""
    program = None

    def __init__(self, cid, clause, data):
        self.cid, self.clause, self.data = cid, clause, data


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property="):
                head, _, what = line[len("known: property="):].partition(" | ")
                prop, _, case = head.partition(" ")
                out.append((prop, case.strip(), what))
    return out


def save_replay(ctx, i, f):
    d = os.path.join(VERIF, "replay", "%s-%s-%d" % (ctx.prop, ctx.tier, i))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    info = {"property": ctx.prop, "case": f.cid, "configuration": f.variant,
            "history": f.hist, "what": f.clause, "seed": ctx.seed, "tier": ctx.tier}
    p = f.program
    if p is not None:
        import conform
        try:
            with open(os.path.join(d, "failure.pickle"), "wb") as fh:
                pickle.dump(f, fh)
        except Exception:
            pass
        v = conform.VARIANTS.get(f.variant, {})
        for name, text in conform._sources(p, v).items():
            q = os.path.join(d, "src", name)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as fh:
                fh.write(text)
        info["options"] = v.get("opts", []) + getattr(p, "opts", [])
        info["inputs"] = p.inputs
        with open(os.path.join(d, "spec-case.json"), "w") as fh:
            json.dump(p.case(f.cid), fh, indent=1)
        try:
            job = {"cid": f.cid, "variant": f.variant, "case": p.case(f.cid),
                   "sources": conform._sources(p, v), "options": info["options"]}
            with open(os.path.join(d, "job.json"), "w") as fh:
                json.dump(job, fh)
        except Exception:
            pass
    else:
        info["data"] = f.data
    with open(os.path.join(d, "violation.json"), "w") as fh:
        json.dump(info, fh, indent=1, default=str)
    return d


def replay(d):
    """Recompile the recorded program and let TLC judge it again."""
    import conform
    info = json.load(open(os.path.join(d, "violation.json")))
    print(json.dumps({k: v for k, v in info.items() if k != "data"}, indent=1))
    jp = os.path.join(d, "job.json")
    if not os.path.exists(jp):
        print(json.dumps(info.get("data"), indent=1))
        print("(re-run the check itself to replay this one)")
        return 0
    job = json.load(open(jp))

    class P:
        variants = [job["variant"]]
        opts, sources = [], {}

        def case(self, cid):
            return job["case"]

        def text(self, full=False):
            return job["sources"]["main.aca"]
    P.sources = {k: v for k, v in job["sources"].items() if k != "main.aca"}
    o = conform.check([(job["cid"], P())], (job["variant"],))
    for f in o.failures:
        print("reproduced:", f.variant, f.hist, f.clause)
    if not o.failures:
        print("not reproduced", o.machine_error or "")
    return 1 if o.failures else 0


def main():
    args = sys.argv[1:]
    if "--replay" in args:
        sys.exit(replay(args[args.index("--replay") + 1]))
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    rd = os.path.join(VERIF, "replay")
    if os.path.isdir(rd):
        for n in os.listdir(rd):
            if n.startswith("%s-%s-" % (prop, tier)):
                shutil.rmtree(os.path.join(rd, n), ignore_errors=True)
    mod = importlib.import_module("plans." + prop.lower())
    try:
        mod.run(ctx)
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the check could not finish" % prop)
        if not ctx.failures:
            sys.exit(2)
    known = [(c, w) for p, c, w in known_findings() if p == prop]
    bad, hit = [], set()
    for f in ctx.failures:
        for c, w in known:
            if f.cid == c:
                hit.add((c, w))
                break
        else:
            bad.append(f)
    for c, w in sorted(hit):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, c, w))
    shown = set()
    out = []
    for f in bad:
        key = (f.clause[:40], f.variant)
        if len(out) < 12 and (key not in shown or len(out) < 3):
            shown.add(key)
            out.append(f)
    for i, f in enumerate(out):
        d = save_replay(ctx, i, f)
        print("VIOLATION property=%s replay=%s" % (prop, d))
        print("   case %s %s %s: %s" % (f.cid, f.variant, f.hist, f.clause[:600]))
    ctx.cov.setdefault("samples", [])
    ev_obj = {"property": prop, "tier": tier, "seed": seed, "level": ctx.level,
              "coverage": ctx.cov, "assumptions": ctx.assumptions,
              "wall_s": round(time.time() - ctx.t0, 2), "violations": len(bad)}
    with open(ev, "w") as fh:
        json.dump(ev_obj, fh, indent=1, default=str)
        fh.write("\n")
    print("%s %s: %s in %.0fs: %s" % (
        prop, tier, "VIOLATED (%d)" % len(bad) if bad else "held", time.time() - ctx.t0,
        ", ".join("%s=%s" % (k, v) for k, v in ctx.cov.items()
                  if isinstance(v, (int, float)))))
    sys.stdout.flush()
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
