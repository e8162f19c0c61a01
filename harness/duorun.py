"""Two projects in one world (C17): compiled apart with their own prefixes and
folders, run in turns.  Each behaves as if it were alone, i.e. together they
are the program that consists of both (spec/Refine.tla)."""
import re
import time

import compilepool
import conform
from conform import Failure, Outcome, functions


class Duo:
    """Programs p and q (their names must differ) and how each is compiled."""
    def __init__(self, p, q, opts):
        self.ps, self.opts2 = (p, q), opts
        self.inputs = p.inputs
        self.sources, self.opts, self.variants = {}, [], ["std"]

    def text(self, full=False):
        return "".join("# ---- %s\n%s" % (" ".join(o["opts"]), p.text()) for p, o in zip(self.ps, self.opts2))

    def case(self, cid):
        a, b = (p.case(cid) for p in self.ps)
        c = dict(a)
        for k in ("fns", "tpl"):
            c[k] = {n: v for x in (a, b) for n, v in x[k].items() if n != "_"} or {"_": 0}
        for k in ("obs", "objs", "tagobs"):
            c[k] = list(dict.fromkeys(a[k] + b[k]))
        c["ticks"] = a["ticks"] + b["ticks"]
        c["fuel"] = a["fuel"] + b["fuel"]
        c["maxsteps"] = a["maxsteps"] + b["maxsteps"]
        c["worlds"] = [a["worlds"][0] + b["worlds"][0]]
        c["rnd"] = max(a["rnd"], b["rnd"], key=lambda r: max(map(len, r)))
        c["depth"] = max(a["depth"], b["depth"], 3)
        ea = [e for e in a["entries"] if e["_rel"][:1] != ["%int/tick"]]
        eb = [e for e in b["entries"] if e["_rel"][:1] != ["%int/tick"]]
        c["entries"] = [{"body": ea[0]["body"] + eb[0]["body"], "_rel": [(0, "%main"), (1, "%main")]}]
        for i, es in ((0, ea), (1, eb)):
            c["entries"] += [{"body": e["body"], "_rel": [(i, q) for q in e["_rel"]]} for e in es[1:]]
        tk = [i for i, p in enumerate(self.ps) if p.tickruns]
        if tk:
            c["entries"].append({"body": [{"k": "tick"}], "_rel": [(i, "%int/tick") for i in tk]})
        return c


def paths(rel, o):
    if rel == "%main":
        return ([o["pre"] + o["init"]] if o.get("init") else []) + [o["pre"] + o["main"]]
    return [o["pre"] + rel.replace("%int", o["int"])]


def check(duos, timeout=600, batch=300, workers=8):
    out = Outcome()
    t0 = time.time()
    jobs = []
    for cid, d in duos:
        for p, o in zip(d.ps, d.opts2):
            jobs.append({"sources": dict(p.sources, **{"main.aca": p.text()}), "opts": o["opts"]})
    rs = compilepool.run_jobs(jobs, workers=workers)
    out.wall_compile = time.time() - t0
    cases, todo = {}, []
    for k, (cid, d) in enumerate(duos):
        out.programs += 1
        pair = rs[2 * k:2 * k + 2]
        bad = [r for r in pair if r.kind != "ok"]
        if bad:
            out.failures.append(Failure(cid, "std", "", "valid program not compiled (%s): %s" % (bad[0].kind, bad[0].message()), d))
            continue
        out.compiled += 2
        Fs = [functions(r.files) for r in pair]
        both = set(Fs[0]) & set(Fs[1])
        if both:
            out.failures.append(Failure(cid, "std", "", "both projects write %s" % sorted(both)[0], d))
            continue
        F = dict(Fs[0], **Fs[1])
        for cmds in F.values():
            conform._count(out.seen_commands, cmds)
        c = d.case(cid)
        E = [[q for i, rel in e["_rel"] for q in paths(rel, d.opts2[i]) if q in F] for e in c["entries"]]
        for i, e in enumerate(E):
            if not e:
                out.failures.append(Failure(cid, "std", "", "no function for entry %d" % (i + 1), d))
        for e in c["entries"]:
            e.pop("_rel")
        c["variants"] = [{"name": "std", "F": F, "E": E}]
        cases[cid] = (d, c)
        todo.append(c)
    t1 = time.time()
    for i in range(0, len(todo), batch):
        conform._run(out, todo[i:i + batch], cases, "Refine", timeout, workers)
        if out.machine_error:
            break
    out.wall_tlc = time.time() - t1
    return out


PRE = ["acacia", "zz", "Q_", "x9y", "main", "long_prefix_0"]
# prefixes that look alike
ALIKE = [("team1", "team2"), ("s1", "s3"), ("a01", "a02"), ("p_1", "p_2x"), ("Red", "red"), ("ab", "ab_c"), ("v10", "v2"), ("x1y1", "x1y2"),
         ("acacia", "acacia_"), ("k_", "k")]
FOLD = ["", "fa", "fa/deep", "root", "zz", "a/b/c"]


def options(r):
    """two ways to compile that keep out of each other's way"""
    while True:
        sb = r.sample(PRE, 2)
        tg = r.sample(PRE, 2)
        if r.random() < 0.3:
            sb = r.sample(r.choice(ALIKE), 2)
        if r.random() < 0.6:
            tg = r.sample(r.choice(ALIKE), 2)
        # (x and x1: the compiler numbers its names, x1 + 1 is x + 11)
        if not any(re.fullmatch(re.escape(a) + "[0-9]+", b) for q in (sb, tg) for a, b in (q, q[::-1])):
            break
    same = r.random() < 0.35
    fo = [r.choice(FOLD)] * 2 if same else r.sample(FOLD, 2)
    names = r.sample(["main", "start", "boot", "go_x", "M1", "zz"], 4)
    ints = r.sample(["_acacia", "lib", "intern", "_I2"], 2)
    out = []
    for i in (0, 1):
        init = names[2 + i] if r.random() < 0.4 else None
        o = []
        if sb[i] != "acacia" or r.random() < 0.5:
            o += ["-s", sb[i]]
        if tg[i] != "acacia" or r.random() < 0.5:
            o += ["-t", tg[i]]
        if names[i] != "main" or r.random() < 0.5:
            o += ["-m", names[i]]
        if ints[i] != "_acacia" or r.random() < 0.5:
            o += ["--internal-folder", ints[i]]
        if fo[i]:
            o += ["-f", fo[i]]
        if init:
            o += ["-i", init]
        if r.random() < 0.2:
            o += ["-O"]
        if r.random() < 0.2:
            o += ["--max-inline-file-size", str(r.choice([0, 1, 1000]))]
        out.append({"opts": o, "pre": fo[i] + "/" if fo[i] else "", "main": names[i], "int": ints[i], "init": init})
    return out


def make(r):
    from entgen import EGen
    from gen import Gen
    from schedgen import SGen
    ps = []
    k = r.random()
    for i in (0, 1):
        if i and r.random() < 0.4:
            k = r.random()
        if k < 0.4:
            g = EGen(r, ents=2.5, meth=0.6, groups=0.8, kills=0.3)
            a = dict(ntpl=2, nmeth=2, nst=4, nent=2, ninp=1, iface=1)
        elif k < 0.6:
            g = SGen(r, fn=1, inl=0.6, callargs=0)
            a = dict(nst=2, nfn=2, nsched=2, nif=1)
        else:
            g = Gen(r, fn=0.8, inl=0.5, structs=0.5, alias=0.3, cont=0.3)
            a = dict(nst=5, nfn=2, nstruct=1, depth=1, ninp=1, iface=1)
        g.nname = 500 * i
        p = g.program(**a)
        if p is None:
            return None
        # interfaces of their own
        p.items = [(it[0], "pq"[i] + it[1], it[2]) if isinstance(it, tuple) else it for it in p.items]
        ps.append(p)
    return Duo(ps[0], ps[1], options(r))
