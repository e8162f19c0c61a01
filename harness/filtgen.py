"""Random programs that select entities of a random world with filters."""
from astlib import *        # noqa
from entlib import *        # noqa
from gen import Gen, Sc

TYPES = ["cow", "pig", "player", "armor_stand", "mod:thing"]
NAMES = ["", "bob", "al ice", "Bob", "!x", "a,b", 'q"t']
TAGS = ["t1", "t2", "t 3"]
MODES = ["survival", "creative", "adventure"]
PERMS = ["camera", "movement"]
OBJ = ["so", "obj two"]
ITEMS = ["apple", "mod:it", "diamond"]


class FGen(Gen):
    def __init__(self, rnd, **feats):
        self.geo = feats.pop("geo", 1.0)
        self.lim = feats.pop("lim", 1.0)
        self.player = feats.pop("player", 1.0)
        self.value = feats.pop("value", 1.0)
        self.same = feats.pop("same", 0)    # chance of repeating a kind of condition
        self.last = None
        super().__init__(rnd, **feats)
        self.named = []

    # ------------------------------------------------------------ the world
    def coord(self):
        return (self.r.randint(-6, 6) * 500, self.r.randint(124, 132) * 500,
                self.r.randint(-6, 6) * 500)

    def world(self, n):
        out = []
        for i in range(n):
            ty = self.r.choice(TYPES + ["cow"])
            kw = dict(nm=self.r.choice(NAMES), tags=[t for t in TAGS if self.ch(0.4)],
                      rot=(self.r.randint(-9, 9) * 10000, self.r.randint(-18, 17) * 10000))
            if ty == "player":
                kw.update(md=self.r.choice(MODES), lvl=self.r.randint(0, 6),
                          perms=[p for p in PERMS if self.ch(0.5)])
            if self.ch(0.5):
                kw["inv"] = [item(self.r.choice(ITEMS), self.r.randint(1, 5), self.r.choice([0, 0, 1]),
                                  self.r.choice(["slot.hotbar", "slot.inventory"]), self.r.randint(0, 3))
                             for _ in range(self.r.choice([1, 1, 2]))]
            kw["scb"] = {o: self.r.randint(-3, 6) for o in OBJ if self.ch(0.7)}
            out.append((ty, self.coord(), kw))
        return out

    # -------------------------------------------------------------- filters
    def pos(self):
        c = self.coord()
        if self.ch(0.35):
            x = self.var_ent()
            if x is not None:
                return PEnt(x)
        # distances from the point are all different: no ties
        return PXYZ(c[0] + self.r.choice([10, 20, 30]), c[1] + self.r.choice([110, 120]),
                    c[2] + self.r.choice([40, 50, 60]))

    def var_ent(self):
        return dict(self.r.choice(self.ents)) if self.ents else None

    def rng(self, lo, hi):
        a, b = sorted(self.r.randint(lo, hi) for _ in range(2))
        return self.r.choice([(a, b), (a, None), (None, b), (a, a)])

    def step(self, st):
        """st: what is known so far: ty = type for random"""
        r = self.r
        some = lambda xs: r.sample(xs, r.choice([0, 1, 1, 1, 2]) if self.ch(0.2) else r.choice([1, 1, 2]))
        opts = [
            (1, lambda: FVals("has_tag", some(TAGS))),
            (1, lambda: FVals("has_no_tag", some(TAGS))),
            (1, lambda: self.set_type(st)),
            (0.7, lambda: FVals("is_not_type", some(TYPES))),
            (0.8, lambda: FVals("is_name", [r.choice(NAMES[1:])])),
            (0.6, lambda: FVals("is_not_name", some(NAMES[1:]))),
            (1.2 * self.value, self.scores), (1.2 * self.value, self.has_item),
            (0.6 * self.geo, lambda: self.rot("rot_vertical", 9)),
            (0.6 * self.geo, lambda: self.rot("rot_horizontal", 18)),
            (1.2 * self.geo, lambda: FDist(self.pos(), *self.span())),
            (1.0 * self.geo, lambda: FInside(self.pos(), [r.randint(-4, 4) * 1000 for _ in range(3)])),
            (1.5 * self.lim, lambda: self.near(st)), (1.2 * self.lim, lambda: self.random(st)),
            (0.4 * self.player, lambda: self.pl(st, FPlayers())),
            (0.4 * self.player, lambda: self.pl(st, FLevel(*self.rng(0, 6)))),
            (0.4 * self.player, lambda: self.pl(st, FVals("is_game_mode", [r.choice(MODES)]))),
            (0.3 * self.player, lambda: self.pl(st, FVals("is_not_game_mode", some(MODES)))),
            (0.3 * self.player, lambda: self.pl(st, FVals("has_permission", some(PERMS)))),
            (0.3 * self.player, lambda: self.pl(st, FVals("has_no_permission", some(PERMS)))),
        ]
        if self.last is None or not self.ch(self.same):
            self.last = r.choices(range(len(opts)), [w for w, _ in opts])[0]
        return opts[self.last][1]()

    def pl(self, st, s):
        # a player condition on another type has no meaning of its own to take a random one of
        st["odd"] = st.get("odd") or st.get("ty", "player") != "player"
        st["ty"] = "player"
        return s

    def set_type(self, st):
        old, st["ty"] = st.get("ty"), self.r.choice(TYPES)
        st["odd"] = st.get("odd") or old == "player" != st["ty"]
        return FVals("is_type", [st["ty"]])

    def span(self):
        a, b = sorted(self.r.randint(1, 12) * 500 + 250 for _ in range(2))
        return self.r.choice([(a, b), (a, None), (None, b), (None, None), (None, b)])

    def rot(self, k, m):
        a, b = sorted(self.r.randint(-m, m) * 10000 - 5000 for _ in range(2))
        return FRot(k, *self.r.choice([(a, b), (a, None), (None, b)]))

    def scores(self):
        used = self.used
        o = [o for o in OBJ if o not in used]
        if not o:
            return FVals("has_tag", ["t1"])
        o = self.r.choice(o)
        used.add(o)
        return FScores(o, *self.rng(-3, 6), n=self.ch(0.35))

    def has_item(self):
        kw = {}
        if self.ch(0.5):
            kw["q"] = self.rng(0, 6)
            kw["n"] = self.ch(0.3)
        if self.ch(0.3):
            kw["data"] = self.r.choice([0, 1])
        if self.ch(0.4):
            kw["loc"] = self.r.choice(["slot.hotbar", "slot.inventory"])
            if self.ch(0.5):
                kw["slot"] = self.rng(0, 3)
        return FItem(self.r.choice(ITEMS), **kw)

    def near(self, st):
        return FNear(self.r.choice(["nearest_from", "farthest_from"]), self.pos(),
                     self.r.choice([None, 1, 2, 3]))

    def random(self, st):
        n = self.r.choice([None, 1, 2])
        if st.get("odd"):
            return FVals("has_tag", ["t1"])
        if st.get("ty"):
            return FRandom(st["ty"], n, self.ch(0.5))
        st["ty"] = self.r.choice(TYPES)
        return FRandom(st["ty"], n)

    def filt(self, out):
        """a filter; may put a definition into out"""
        st = {}
        self.used = set()
        self.last = None
        steps = [self.step(st) for _ in range(self.r.choice([2, 2, 3] if self.same else [0, 1, 1, 2, 2, 3, 4]))]
        f = Filt(steps)
        if self.ch(0.25) and not any("pos" in s and s["pos"]["base"]["k"] == "ent" for s in steps):
            n = self.name("F")
            out.append(FDef(n, Filt(steps)))
            self.named.append((n, list(steps), dict(st), set(self.used)))
        if self.named and self.ch(0.4):
            n, s0, st0, u0 = self.r.choice(self.named)
            st0, self.used = dict(st0), set(u0)
            f = Filt(s0 + [self.step(st0) for _ in range(self.r.choice([0, 0, 1, 2]))])
            f.name, f.k = n, len(s0)
        return f

    # ------------------------------------------------------------- programs
    def program(self, nst=8, nent=7, ninp=3):
        p = self.p
        self.ents = []
        groups = [V("g%d" % i, "grp:Entity") for i in range(3)]
        for g in groups:
            p.items.append(Decl(g["n"], GNew("Entity")))
        f = lambda: GCh(dict(groups[0]), gop("select", Filt([FVals("has_tag", ["mark%d" % i])])))
        for i in range(2):
            p.items.append(ExprS(GCh(dict(groups[0]), gop("clear"))))
            p.items.append(ExprS(f()))
            p.items.append(Decl("e%d" % i, GAttr("gsingle", dict(groups[0]))))
            self.ents.append(V("e%d" % i, "ent:Entity"))
        out = p.items
        for i in range(nst):
            c = self.r.random()
            g = dict(self.r.choice(groups))
            ops = []
            if c < 0.15:
                ops.append(gop("clear"))
            if c < 0.85:
                ops.append(gop(self.r.choice(["select", "select", "drop", "filter"]), self.filt(out)))
                if self.ch(0.3):
                    ops.append(gop(self.r.choice(["drop", "filter"]), self.filt(out)))
            else:
                ops.append(gop(self.r.choice(["extend", "subtract", "intersect"]),
                               dict(self.r.choice(groups))))
            out.append(ExprS(GCh(g, *ops)))
            if self.ch(0.35):
                out.append(self.show(g, "s%d" % i))
        for g in groups:
            out.append(self.show(g, "fin " + g["n"]))
        p.tagobs = []
        self.finish(1)
        p.objs += OBJ
        p.rnd = [[self.r.randint(0, 9) for _ in range(40)] for _ in range(2)]
        for k in range(ninp):
            w = self.world(nent)
            for i in range(2):
                w[i][2]["tags"] = w[i][2]["tags"] + ["mark%d" % i]
            p.worlds.append([ent(ty, pos, **kw) for ty, pos, kw in w])
        return p

    def show(self, g, t):
        n = self.name("x")
        return ForG(n, dict(g), [ESay(V(n, "ent:Entity"), t)])
