"""Programs that use the schedule module: tasks, requests, loops."""
from astlib import Decl, If, Int, Probe, V
from gen import Bad, Gen, Sc


def _args(pr, call):
    t = pr.e(call)
    return t[t.index("(") + 1:-1]


def _task(pr, s):
    a = _args(pr, s["_call"])
    return "const %s = schedule.Task(%s%s)" % (s["n"], pr.fns[s["f"]].pn, ", " + a if a else "")


def _loop(pr, s):
    a = _args(pr, s["_call"])
    f = pr.fns[s["f"]].pn
    if s["_iv"] is None:
        return "schedule.register_loop(%s%s)" % (f, ", " + a if a else "")
    iv = pr.e(s["_iv"])
    if s["_kwiv"] and a and all(x["p"] in s["_call"]["_kw"] for x in s["args"]):
        return "schedule.register_loop(%s, %s, interval=%s)" % (f, a, iv)
    return "schedule.register_loop(%s, %s%s)" % (f, iv, ", " + a if a else "")


def After(n, e):
    return {"k": "after", "n": n, "e": e, "_src": lambda pr, s: "%s.after(%s)" % (s["n"], pr.e(s["e"]))}


def Cancel(n):
    return {"k": "cancel", "n": n, "_src": lambda pr, s: "%s.cancel()" % s["n"]}


def Has(n):
    return {"k": "thas", "n": n, "_t": "bool", "_src": lambda pr, e: "%s.has_schedule()" % e["n"]}


class SGen(Gen):
    def __init__(self, rnd, **feats):
        super().__init__(rnd, **feats)
        self.tasks = []

    def bool_e(self, sc, d):
        if self.tasks and self.ch(0.12):
            return Has(self.r.choice(self.tasks))
        return super().bool_e(sc, d)

    def delay(self, sc):
        r = self.r
        c = r.random()
        if c < 0.6:
            return Int(r.choice([0, 1, 1, 2, 2, 3, 4, 5, -1, 7]))
        if c < 0.8:
            return self.int_e(sc, 1)
        return dict(r.choice(self.settled)) if self.settled else Int(2)

    def stmt(self, sc, depth, pure):
        if self.tasks and not pure and self.ch(0.35):
            n = self.r.choice(self.tasks)
            c = self.r.random()
            if c < 0.55:
                return [After(n, self.delay(sc))]
            if c < 0.75:
                return [Cancel(n)]
            if c < 0.9:
                return [Probe(self.r.randint(1, 8), Has(n))]
            return [If(Has(n), [Cancel(n)], [After(n, self.delay(sc))])]
        return super().stmt(sc, depth, pure)

    def callargs(self, f):
        """arguments that mean the same whenever they are evaluated"""
        sc = Sc(self.settled)
        old, tasks, self.tasks = self.fns, self.tasks, []
        self.fns = [g for g in old if g.kind == "def" and g._pure]
        if not self.f["callargs"]:
            self.fns = []
        try:
            return self.call(sc, f, 2)
        finally:
            self.fns, self.tasks = old, tasks
            self.incall = 0

    def target(self):
        c = [f for f in self.fns if "ref" not in f.ports.values()]
        late = [f for f in c if f._late]
        return self.r.choice(late if late and self.ch(0.6) else c) if c else None

    def add_fn(self, sc, kind, level):
        f = super().add_fn(sc, kind, level)
        f._late = bool(self.tasks)
        return f

    def schedule(self, sc, late=False):
        r, p = self.r, self.p
        f = self.target()
        if f is None:
            return
        n = self.name("t")
        try:
            call = self.callargs(f)
        except Bad:
            return
        args = call["args"]
        if self.ch(0.6):
            st = {"k": "task", "n": n, "f": f.name, "args": args, "_call": call, "_src": _task}
            p.ticks.append({"k": "task", "n": n, "f": f.name})
            self.tasks.append(n)
        else:
            c = r.random()
            iv = Int(r.choice([1, 2, 2, 3, 3, 4, 0, -1]))
            if c < 0.2 and all(a["p"] in call["_kw"] for a in args):
                iv = None
            elif c < 0.5 and self.settled:
                old, self.fns = self.fns, []
                iv = self.int_e(Sc(self.small), self.r.choice([0, 1, 2]))
                self.fns = old
            st = {"k": "loopreg", "n": n, "f": f.name, "args": args, "_call": call, "_iv": iv,
                  "_kwiv": self.ch(0.5), "_src": _loop}
            p.ticks.append({"k": "loop", "n": n, "f": f.name, "iv": iv or Int(1)})
        p.items.append(st)

    def program(self, nst=4, nfn=3, nsched=4, nif=2, ninp=1, nstruct=0):
        p, r = self.p, self.r
        self.settled = []
        self.small = []
        super().program(nst=nst, nfn=nfn, depth=1, ninp=1, nstruct=nstruct)
        for f in self.fns:
            f._late = False
        sc = Sc([dict(i["x"], _t=i["x"]["_t"]) for i in p.items if isinstance(i, dict) and i.get("_decl")])
        for k in range(r.choice([1, 2])):
            for e in (self.small_e(sc), Int(r.randint(-1, 4))):
                n = self.name()
                s = Decl(n, e)
                s["x"]["_t"] = "int"
                p.items.append(s)
                v = dict(V(n, "int"), _w=False)
                self.settled.append(v)
                if e["k"] == "int":
                    self.small.append(v)
        glob = Sc(sc.vs)
        for k in range(nsched):
            self.schedule(glob)
            if self.ch(0.6):
                try:
                    f = self.add_fn(Sc(glob.vs + self.settled), r.choice(["def", "def", "inline"]), len(self.fns) + 1)
                except Bad:
                    self.incall = 0
                    self.in_fn = None
            if self.ch(0.4):
                p.items += self.stmts(Sc(glob.vs + self.settled), 1, 1)
        if not self.tasks and not p.ticks:
            return None
        ifs = []
        for i in range(nif):
            body = self.stmts(Sc(glob.vs + self.settled), r.randint(1, 3), 1)
            if self.tasks and self.ch(0.8):
                body.insert(r.randint(0, len(body)), After(r.choice(self.tasks), self.delay(glob)))
            body.append(self.mark())
            ifs.append(("iface", "go%d" % i, body))
        p.items += self.stmts(Sc(glob.vs + self.settled), 2, 1)
        p.items += self.final_probes(glob)
        p.items += ifs
        p.pre.insert(0, "import schedule")
        p.tickruns = [1, r.choice([2, 3])] if self.ch(0.7) else [1]
        p.depth = 6 if nif + len(p.tickruns) < 4 else 5
        p.obs = ["p%d obs" % i for i in range(1, 9)]
        p.fuel = 400
        return p

    def small_e(self, sc):
        try:
            return self.int_e(sc, 1)
        except Bad:
            self.incall = 0
            return Int(self.r.randint(-5, 9))
