"""Random programs with entity templates, methods, entity groups."""
from astlib import *        # noqa
from entlib import *        # noqa
from gen import Gen, Sc, Bad, SMALL
import gen

EF = dict(again=0, ents=1.5, groups=0.0, kills=0.1, meth=1.5, inlm=0.3, virt=1.0)


class MName:
    """A method name: kind simple/virtual/static, result, parameter types."""
    def __init__(self, name, kind, ret, ptypes, level, pure):
        self.name, self.kind, self.ret, self.ptypes = name, kind, ret, ptypes
        self.level, self.pure = level, pure
        self.impl = {}          # template -> Fn
        self.inl = {}


class EGen(Gen):
    def __init__(self, rnd, **feats):
        f = dict(EF)
        f.update(feats)
        super().__init__(rnd, **f)
        self.tp = {}            # template name -> Tpl
        self.allf = {}          # template -> [(field, type)] with inherited ones
        self.mn = []            # MName
        self.in_meth = None
        self.sub = {}           # template -> set of its subtemplates (with itself)
        self.mro = {}
        self.dead_ok = False
        self.noself = False
        self.cur_tpl = None
        self.gscope = {}

    # ------------------------------------------------------ class hierarchy
    def c3(self, t, bases):
        seqs = [list(self.mro[b]) for b in bases] + [list(bases)]
        out = [t]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                if not any(s[0] in q[1:] for q in seqs):
                    h = s[0]
                    break
            else:
                raise Bad
            out.append(h)
            seqs = [[x for x in q if x != h] for q in seqs]
            seqs = [q for q in seqs if q]
        return out

    def plan_templates(self, n):
        """names, bases, fields"""
        for i in range(n):
            nm = self.name("T")
            have = list(self.tp)
            k = self.r.choices([0, 1, 2], [3, 5, 3 if len(have) > 1 else 0])[0] if have else 0
            bases = self.r.sample(have, k)
            # the same field must not be inherited twice
            seen = []
            for b in bases:
                seen += [f for f, _ in self.allf[b]]
            if len(seen) != len(set(seen)):
                bases = bases[:1]
            try:
                mro = self.c3(nm, bases)
            except Bad:
                bases = bases[:1]
                mro = self.c3(nm, bases)
            fs = [(self.name("f"), self.r.choice(["int", "int", "bool"] + list(self.structs)))
                  for _ in range(self.r.choice([0, 0, 1, 1, 2]))]
            if not self.tp and not fs:
                fs = [(self.name("f"), "int")]
            t = Tpl(nm, bases, fs)
            self.tp[nm] = t
            self.mro[nm] = mro
            self.allf[nm] = fs + [x for b in bases for x in self.allf[b]]
            for a in mro:
                self.sub.setdefault(a, set()).add(nm)

    def find(self, t, m):
        """the implementation of m seen on template t, or None"""
        for a in self.mro[t]:
            if a in m.impl:
                return m.impl[a]
        return None

    def add_methods(self, n):
        """decide names and definers, then bodies in order of level"""
        for i in range(n):
            kind = self.r.choices(["simple", "virtual", "static"],
                                  [3, 4 * self.f["virt"], 0.7])[0]
            names = list(self.tp)
            if kind == "virtual":
                root = self.r.choice([t for t in names if len(self.sub[t]) > 1] or names)
                defs = [root] + [t for t in names if t != root and t in self.sub[root]
                                 and self.ch(0.65)]
            else:
                defs = [t for t in names if self.ch(0.45)] or [self.r.choice(names)]
            # a template is not visible inside its own definition
            known = names[:names.index(defs[0])]
            ret = self.r.choice(["int", "int", "int", "bool", "none"])
            if self.ch(0.15) and known:
                ret = "ent:" + self.r.choice(known)
            pt = [self.r.choice(["int", "int", "bool"]) for _ in range(self.r.choice([0, 1, 1, 2]))]
            if self.ch(0.25) and known:
                pt.append("ent:" + self.r.choice(known))
            if ret.startswith("ent:") and ret not in pt:
                pt.append(ret)
            m = MName(self.name("m"), kind, ret, pt, len(self.mn) + 1,
                      ret != "none" and self.ch(0.6))
            for t in defs:
                self.body_of(m, t, "override" if kind == "virtual" and t != defs[0] else
                             {"virtual": "virtual", "simple": "", "static": "static"}[kind])
            self.mn.append(m)
        for t in self.tp.values():
            if self.ch(0.5):
                self.r.shuffle(t.methods)

    def body_of(self, m, t, q):
        inl = self.ch(self.f["inlm"])
        sc = Sc([dict(v) for v in self.gscope.get(t, ())], inl)
        for v in sc.vs:
            v.pop("_own", None)
        ps = []
        self.cur_tpl = t
        for i, ty in enumerate(m.ptypes):
            p = self.name("p")
            ps.append(p)
            v = V(p, ty, inl)
            v["_own"] = True
            sc.vs.append(v)
        if m.kind != "static":
            v = Self(t)
            v["_w"] = False
            v["_fw"] = not m.pure
            v["_self"] = True
            sc.vs.append(v)
        old = self.in_fn, self.in_meth, self.noself
        self.in_fn, self.in_meth = 0, m.level
        self.noself = inl
        body = self.stmts(sc, self.r.randint(0, 3), 1, m.pure)
        if not m.pure and self.ch(0.5) and m.kind != "static":
            body.append(ESay(Self(t), "%s.%s" % (t, m.name)))
        if m.ret != "none":
            if self.ch(0.25):
                body.append(If(self.expr(sc, "bool", 1), [Result(self.expr(sc, m.ret, 1))],
                               [Result(self.expr(sc, m.ret, 1))]))
            else:
                body.append(Result(self.expr(sc, m.ret, 2)))
        self.in_fn, self.in_meth, self.noself = old
        self.cur_tpl = None
        f = Fn("%s.%s" % (t, m.name), ps, body, m.ret, "inline" if inl else "def",
               ptypes=dict(zip(ps, m.ptypes)), pn=m.name)
        m.impl[t] = f
        self.tp[t].methods.append((q, f))

    # --------------------------------------------------------------- `new`
    def summon_d(self):
        ty = self.r.choice(["cow", "pig", "armor_stand"])
        nm = self.r.choice(["", "", "bob", "al ice"])
        ev = self.r.choice(["", "", "ev:x"])
        x, y, z = (self.r.randint(-5, 5) * 1000 + 500, self.r.randint(60, 70) * 1000,
                   self.r.randint(-5, 5) * 1000 + 500)
        return summon(ty, PXYZ(x, y, z, ints=self.ch(0.5)), nm, ev, self.r.choice([0, 1]))

    def add_news(self):
        for t in self.tp:
            if self.ch(0.45):
                continue
            inl = self.ch(0.3)
            sc = Sc([], inl)
            ps = [self.name("p") for _ in range(self.r.choice([0, 1, 1, 2]))]
            for p in ps:
                v = V(p, "int", inl)
                v["_own"] = True
                sc.vs.append(v)
            body = []
            old = self.in_fn, self.in_meth
            self.in_fn, self.in_meth = 0, 0
            if self.ch(0.3):
                body += self.stmts(sc, 1, 0, True)
            self.cur_tpl = t
            par = [b for b in self.mro[t][1:]]
            if par and self.ch(0.5):
                b = self.r.choice(par)
                body.append(self.new_call(sc, b, stmt=True))
            else:
                body.append(NewC("Entity", d=self.summon_d(), named=self.ch(0.15)))
            v = Self(t)
            v["_self"] = True
            v["_w"] = False
            sc2 = Sc(sc.vs + [v], inl)
            for f, ty in self.tp[t].fields:
                if self.ch(0.7):
                    body.append(Set(Fld(Self(t), f, ty, True), self.expr(sc, ty, 1)))
            if self.ch(0.4):
                body.append(ESay(Self(t), "new " + t))
            if self.ch(0.3):
                body.append(ETag(Self(t), "tg"))
            self.in_fn, self.in_meth = old
            self.cur_tpl = None
            self.tp[t].new = Fn(t + ".new", ps, body, "none", "inline" if inl else "def",
                                ptypes={p: "int" for p in ps}, pn="new")

    def new_owner(self, t):
        for a in self.mro[t]:
            if self.tp[a].new is not None:
                return self.tp[a].new
        return None

    def new_call(self, sc, t, stmt=False):
        f = self.new_owner(t)
        if f is None:
            d = self.summon_d()
            return NewC(t, d=d) if stmt else New(t, d=d)
        args = [(p, self.int_e(sc, 1)) for p in f.params]
        kw = {f.params[-1]} if f.params and self.ch(0.2) else set()
        if stmt:
            return NewC(t, f, args, kw=kw)
        return New(t, f, args, kw=kw)

    def visible(self):
        """templates that can be named here"""
        names = list(self.tp)
        return names if self.cur_tpl is None else names[:names.index(self.cur_tpl)]

    # --------------------------------------------------------- expressions
    def isent(self, t):
        return t.startswith("ent:")

    def of_ent(self, sc, t):
        """visible variables whose declared template is t or below"""
        return [v for v in sc.vs if v["_t"].startswith("ent:")
                and (t == "Entity" or v["_t"][4:] in self.sub[t])]

    def ent_e(self, sc, ty, d):
        t = ty[4:]
        c = self.of_ent(sc, t)
        if c and self.ch(0.9):
            x = dict(c[max(self.r.randrange(len(c)), self.r.randrange(len(c)))])
            if d > 0 and self.ch(0.1) and t in self.visible():
                return Upcast(x, t)
            return x
        fs = [f for f in self.fns if f.ret.startswith("ent:") and f.ret[4:] in self.sub.get(t, ())
              and f._pure and (self.in_fn is None or f._level < self.in_fn)]
        if fs and self.incall < 2:
            return self.call(sc, self.r.choice(fs), d)
        if not c:
            raise Bad
        return dict(self.r.choice(c))

    def expr(self, sc, ty, d):
        if self.isent(ty):
            return self.ent_e(sc, ty, d)
        if ty.startswith("grp:"):
            return self.grp_e(sc, ty)
        return super().expr(sc, ty, d)

    def methods_for(self, t, ret, pure):
        out = []
        for m in self.mn:
            if self.in_meth is not None and m.level >= self.in_meth:
                continue
            if (ret is None or m.ret == ret) and (m.pure or not pure) and self.find(t, m):
                out.append(m)
        return out

    def mcall_e(self, sc, ret, pure=True, d=2):
        try:
            return self.mcall_e1(sc, ret, pure, d)
        except Bad:
            return None

    def mcall_e1(self, sc, ret, pure=True, d=2):
        ents = [v for v in sc.vs if v["_t"].startswith("ent:")]
        if self.ch(0.12):
            st = [(t, m) for t in self.visible() for m in self.methods_for(t, ret, pure)
                  if m.kind == "static"]
            if st:
                t, m = self.r.choice(st)
                f = self.find(t, m)
                obj = None
                c = [v for v in ents if v["_t"] == "ent:" + t]
                if c and self.ch(0.4):
                    obj = dict(self.r.choice(c))
                return SCall(t, m.name, f, self.margs(sc, m, f, d), obj=obj)
        for _ in range(4):
            if not ents:
                return None
            o = dict(self.r.choice(ents))
            t = o["_t"][4:]
            if t == "Entity":
                continue
            cast = False
            if not o.get("_self") and self.ch(0.15) and len(self.mro[t]) > 1:
                up = [x for x in self.mro[t][1:] if x in self.visible()]
                if not up:
                    continue
                t = self.r.choice(up)
                o, cast = Upcast(o, t), True
            ms = [m for m in self.methods_for(t, ret, pure) if m.kind != "static"]
            if o.get("_self") and self.noself:
                # self has the template of the object in inline methods
                ms = [m for m in ms if m.kind == "virtual" or len(m.impl) == 1]
            if not ms:
                continue
            m = self.r.choice(ms)
            f = self.find(t, m)
            return MCall(o, t, m.name, f, self.margs(sc, m, f, d), cast=cast)
        return None

    def margs(self, sc, m, f, d):
        self.incall += 1
        try:
            return [(p, self.expr(sc, ty, min(1, d))) for p, ty in zip(f.params, m.ptypes)]
        finally:
            self.incall -= 1

    def _int_e(self, sc, d):
        if d > 0:
            if self.f["meth"] and self.incall < 2 and self.ch(0.12 * self.f["meth"]):
                x = self.mcall_e(sc, "int")
                if x is not None:
                    return x
            if self.f["ents"] and self.ch(0.2):
                return self.field_e(sc, "int")
            if self.f["groups"] and self.ch(0.12 * self.f["groups"]):
                g = self.grp_var(sc)
                if g is not None:
                    return GAttr("gsize", g)
        return super()._int_e(sc, d)

    def bool_e(self, sc, d):
        if d > 0:
            if self.f["meth"] and self.incall < 2 and self.ch(0.08 * self.f["meth"]):
                x = self.mcall_e(sc, "bool")
                if x is not None:
                    return x
            if self.f["groups"] and self.ch(0.25 * self.f["groups"]):
                g = self.grp_var(sc)
                if g is not None:
                    if self.ch(0.4):
                        return GAttr("gempty", g)
                    c = self.of_ent(sc, g["_t"][4:])
                    if c:
                        return GHas(g, dict(self.r.choice(c)))
        return super().bool_e(sc, d)

    def lv_struct_field(self, sc, ty, writable):
        opts = []
        for v in sc.vs:
            if writable and not v.get("_fw" if v["_t"].startswith("ent:") else "_w", True):
                continue
            if v["_t"] in self.structs:
                self._paths(v, v["_t"], ty, opts)
            elif v["_t"].startswith("ent:"):
                self._epaths(v, ty, opts)
        return self.r.choice(opts) if opts else None

    def _epaths(self, v, ty, out):
        t = v["_t"][4:]
        for f, ft in self.allf.get(t, ()):
            x = Fld(dict(v), f, ft, True)
            if ft == ty:
                out.append(x)
            if ft in self.structs:
                self._paths(x, ft, ty, out)

    def field_e(self, sc, ty):
        x = self.lv_struct_field(sc, ty, False) or self.var(sc, ty)
        if x is None:
            x = self.lit() if ty == "int" else Bool(False)
        return x

    def lvalue(self, sc, ty):
        x = None
        if self.f["ents"] and self.ch(0.5):
            x = self.lv_struct_field(sc, ty, True)
        return x or super().lvalue(sc, ty)

    def var(self, sc, ty, writable=False):
        c = [v for v in sc.of(ty, writable) if not v.get("_self")]
        if not c:
            return None
        return dict(c[max(self.r.randrange(len(c)), self.r.randrange(len(c)))])

    # ---------------------------------------------------------- statements
    def extra_rets(self):
        return ["ent:" + t for t in self.tp][:2] if self.f["ents"] else []

    def writable(self, sc, pure):
        if not pure:
            return sc
        return Sc([dict(v, _fw=False) for v in sc.vs if v.get("_own")], sc.l)

    def types(self, store=True):
        ts = super().types(store)
        if self.f["ents"] and self.tp and self.in_fn is None:
            ts += ["ent:" + self.r.choice(list(self.tp))] * 2
        return ts

    def declare(self, sc, ty, e=None, d=2):
        e = e or self.expr(sc, ty, d)
        if not (self.isent(ty) or ty.startswith("grp:")):
            return super().declare(sc, ty, e, d)
        n = self.name()
        if e["k"] == "upcast":
            e = e["e"]
            ty = e["_t"]
        typed = ty if self.ch(0.5) and ty[4:] in self.visible() else None
        s = Decl(n, e, sc.l, typed)
        sc.vs.append(dict(s["x"]))
        return s

    def init_fields(self, v, t, sc):
        return [Set(Fld(dict(v), f, ty, True), self.expr(sc, ty, 1)) for f, ty in self.allf[t]]

    def make_ent(self, sc, t=None):
        """v := T(...); all its fields are given values"""
        t = t or self.r.choice(list(self.tp))
        e = self.new_call(sc, t)
        n = self.name("o")
        out = [Decl(n, e, sc.l)]
        v = V(n, "ent:" + t, sc.l)
        init = self.init_fields(v, t, sc)
        if self.ch(0.5):
            sc.vs.append(dict(v))
            v["_own"] = True
        else:
            # keep it under a base template as well
            sc.vs.append(dict(v))
            b = self.r.choice(self.mro[t])
            n2 = self.name("o")
            out.append(Decl(n2, dict(v), sc.l, "ent:" + b))
            sc.vs.append(V(n2, "ent:" + b, sc.l))
        return out[:1] + init + out[1:]

    def stmt(self, sc, depth, pure):
        c = self.r.random()
        e, g = self.f["ents"], self.f["groups"]
        tot = 10.0 + 3 * e + 3 * g
        w = c * tot
        if w < 3 * e and self.tp and not pure:
            x = self.ent_stmt(sc, depth)
            if x is not None:
                return x
        elif w < 3 * e + 3 * g and self.tp and not pure:
            x = self.grp_stmt(sc, depth)
            if x is not None:
                return x
        return super().stmt(sc, depth, pure)

    def ent_stmt(self, sc, depth):
        ents = [v for v in sc.vs if v["_t"].startswith("ent:")]

        def call():
            x = self.mcall_e(sc, None, False)
            return None if x is None else [ExprS(x)]

        def callv():
            x = self.mcall_e(sc, self.r.choice(["int", "int", "bool"]), False)
            if x is None:
                return None
            y = self.lvalue(sc, x["_t"])
            return [Set(y, x)] if y is not None and y["k"] != "fld" else [self.declare(sc, x["_t"], x)]

        def assign():
            c = [v for v in ents if v.get("_w", True) and not v.get("_self")]
            if not c:
                return None
            x = dict(self.r.choice(c))
            t = x["_t"][4:]
            if t in self.sub and self.ch(0.25) and self.in_fn is None:
                t2 = self.r.choice(sorted(self.sub[t]))
                if len(self.allf[t2]) > len(self.allf[t]):
                    out = self.make_ent(sc, t2)
                    return out + [Set(x, out[0]["x"])]
                sc3 = Sc([v for v in sc.vs if v["n"] != x["n"]], sc.l)
                init = self.init_fields(x, t, sc3)
                return [Set(x, self.new_call(sc, t2))] + init
            try:
                return [Set(x, self.ent_e(sc, x["_t"], 1))]
            except Bad:
                return None

        def swap():
            c = [v for v in ents if v.get("_w", True) and not v.get("_self")]
            if not c:
                return None
            a = self.r.choice(c)
            bs = [v for v in c if v["_t"] == a["_t"]]
            return [Swap(dict(a), dict(self.r.choice(bs)))]

        def tag():
            return [ETag(dict(self.r.choice(ents)), self.r.choice(["tg", "th"]), self.ch(0.7))]

        def say():
            self.nmark += 1
            return [ESay(dict(self.r.choice(ents)), "e%d" % self.nmark)]

        def kill():
            c = [v for v in ents if not v.get("_self")]
            return [Kill(dict(self.r.choice(c)))] if c and self.in_fn is None and depth > 1 else None

        def make():
            return self.make_ent(sc) if self.in_fn is None else None
        if not ents:
            return make()
        return self.pick([(1.5, make), (3 * self.f["meth"], call), (2 * self.f["meth"], callv),
                          (2, assign), (0.6, swap), (0.6, tag), (1.2, say),
                          (self.f["kills"], kill)])

    # -------------------------------------------------------------- groups
    def grp_var(self, sc, t=None, sub=None):
        c = [v for v in sc.vs if v["_t"].startswith("grp:") and (t is None or v["_t"] == "grp:" + t)
             and (sub is None or v["_t"][4:] in self.sub.get(sub, ()))]
        return dict(self.r.choice(c)) if c else None

    def grp_e(self, sc, ty):
        g = self.grp_var(sc, ty[4:]) or self.grp_var(sc, sub=ty[4:])
        if g is None:
            raise Bad
        if self.ch(0.3):
            return GAttr("gcopy", g)
        return g

    def filt(self, sc, n=None):
        """only what tells generated entities from each other"""
        out = []
        for _ in range(n or self.r.choice([1, 1, 2])):
            c = self.r.random()
            if c < 0.25:
                out.append(FVals("is_type", [self.r.choice(["cow", "pig", "armor_stand"])]))
            elif c < 0.4:
                out.append(FVals("is_not_type", self.r.sample(["cow", "pig", "armor_stand"], 1)))
            elif c < 0.55:
                out.append(FVals(self.r.choice(["is_name", "is_not_name"]), ["bob"]))
            elif c < 0.8:
                out.append(FVals(self.r.choice(["has_tag", "has_no_tag"]), [self.r.choice(["tg", "th"])]))
            else:
                out.append(FNear(self.r.choice(["nearest_from", "farthest_from"]),
                                 PXYZ(self.r.randint(-4, 4) * 1000, 64000, 100),
                                 self.r.choice([None, 1, 2])))
        return out

    def grp_stmt(self, sc, depth):
        gs = [v for v in sc.vs if v["_t"].startswith("grp:")]
        ents = [v for v in sc.vs if v["_t"].startswith("ent:") and not v.get("_self")]

        def make():
            t = self.r.choice(list(self.tp))
            if self.in_fn not in (None,):
                return None
            e = GNew(t)
            s = Decl(self.name("g"), e, sc.l, "grp:" + t if self.ch(0.3) else None)
            sc.vs.append(dict(s["x"]))
            out = [s]
            c = self.of_ent(sc, t)
            if c:
                out.append(ExprS(GCh(dict(s["x"]), gop("add", [dict(x) for x in self.r.sample(
                    c, self.r.randint(1, min(3, len(c))))]))))
            return out
        if not gs:
            return make()

        def chain():
            g = dict(self.r.choice(gs))
            t = g["_t"][4:]
            ops = []
            for _ in range(self.r.choice([1, 1, 2, 3])):
                k = self.r.choice(["add", "add", "remove", "extend", "subtract", "intersect",
                                   "drop", "filter", "clear", "add"])
                if k in ("add", "remove"):
                    c = self.of_ent(sc, t)
                    if not c:
                        continue
                    ops.append(gop(k, [dict(x) for x in self.r.sample(
                        c, self.r.randint(1, min(3, len(c))))]))
                elif k in ("drop", "filter"):
                    ops.append(gop(k, self.filt(sc)))
                elif k == "clear":
                    if self.ch(0.3):
                        ops.append(gop(k))
                else:
                    o = self.grp_var(sc, sub=t)
                    if o is not None:
                        ops.append(gop(k, GAttr("gcopy", o) if self.ch(0.15) else o))
            if not ops:
                return None
            e = GCh(g, *ops)
            if self.ch(0.15):
                h = [v for v in gs if v["_t"] == g["_t"]]
                return [Set(dict(self.r.choice(h)), e)]
            return [ExprS(e)]

        def assign():
            a = dict(self.r.choice(gs))
            try:
                return [Set(a, self.grp_e(sc, a["_t"]))]
            except Bad:
                return None

        def swap():
            a = self.r.choice(gs)
            bs = [v for v in gs if v["_t"] == a["_t"]]
            return [Swap(dict(a), dict(self.r.choice(bs)))]

        def loop():
            g = dict(self.r.choice(gs))
            if self.in_fn is not None:
                return None
            n = self.name("e")
            k = len(sc.vs)
            v = V(n, "ent:" + g["_t"][4:], sc.l)
            sc.vs.append(dict(v, _w=False, _fw=True))
            body = self.stmts(sc, self.r.randint(1, 3), depth - 1, False) if depth > 0 else []
            if self.ch(0.6):
                self.nmark += 1
                body.append(ESay(dict(v), "l%d" % self.nmark))
            del sc.vs[k:]
            return [ForG(n, g, body or [self.mark()], sc.l)]

        def copy():
            g = dict(self.r.choice(gs))
            s = Decl(self.name("g"), GAttr("gcopy", g) if self.ch(0.6) else g, sc.l)
            sc.vs.append(dict(s["x"]))
            return [s]

        def single():
            t = self.r.choice(gs)["_t"][4:]
            g = self.grp_var(sc, t)
            st = ExprS(GCh(g, gop("filter", self.filt(sc, 1)
                                  + [FNear("nearest_from", PXYZ(0, 64000, 100))])))
            s = Decl(self.name("o"), GAttr("gsingle", g), sc.l)
            v = s["x"]
            k = len(sc.vs)
            body = [s]
            sc.vs.append(dict(v))
            body += self.stmts(sc, 1, 0, False)
            del sc.vs[k:]
            return [st, If(Not(GAttr("gempty", g)), body)]

        def probe():
            g = dict(self.r.choice(gs))
            return [Probe(self.r.randint(1, 8), GAttr("gsize", g)), self.mark()]
        def again():
            """the same group statements run again after tags and members have changed"""
            g0 = dict(self.r.choice(gs))
            mine = self.of_ent(sc, g0["_t"][4:])
            if self.in_fn is not None or not mine:
                return None
            few = lambda: [dict(x) for x in self.r.sample(mine, self.r.randint(1, min(4, len(mine))))]
            add = lambda: ExprS(GCh(dict(g0), gop("add", few())))
            n = Decl(self.name("k"), Int(0), sc.l)
            k = n["x"]

            def change(i):
                if self.ch(0.75):
                    return ETag(few()[0], "tg" if self.ch(0.8) else "th", self.ch(0.2 if i else 0.9))
                return add() if self.ch(0.7) else ExprS(GCh(dict(g0), gop("remove", few())))
            body = [If(Cmp(dict(k), "==", Int(i)), [change(i) for _ in range(self.r.randint(1, 3) + (i == 0))])
                    for i in range(2)]
            body.append(Aug(dict(k), "+", Int(1)))
            m = len(sc.vs)
            for _ in range(self.r.randint(1, 2)):
                f = [FVals("has_tag" if self.ch(0.7) else "has_no_tag", ["tg" if self.ch(0.8) else "th"])]
                op = gop(self.r.choice(["drop", "filter", "filter"]), f if self.ch(0.7) else self.filt(sc))
                try:
                    body += self.pick([(1, chain), (3, lambda: [ExprS(GCh(dict(g0), op))]), (0.3, swap), (0.5, loop),
                                       (1, copy), (0.3, single)]) or []
                except Bad:
                    pass
            body += [Probe(self.r.randint(1, 8), GAttr("gsize", dict(g0))), self.mark()]
            del sc.vs[m:]
            return [add(), n, While(Cmp(dict(k), "<", Int(self.r.randint(2, 3))), body)]

        return self.pick([(1, make), (4, chain), (1, assign), (0.5, swap), (2.5, loop),
                          (1, copy), (0.7, single), (1.2, probe)]
                         + ([(self.f["again"], again)] if self.f["again"] and depth > 0 else []))

    def final_probes(self, sc):
        out = []
        for v in sc.vs:
            if v["_t"].startswith("grp:"):
                out.append(ForG(self.name("e"), dict(v), [], False))
                out[-1]["b"] = [ESay(V(out[-1]["n"], "ent:" + v["_t"][4:]), "fin " + v["n"])]
        lv = []
        for v in sc.vs:
            if v["_t"] in ("int", "bool"):
                lv.append(dict(v))
            elif v["_t"].startswith("ent:"):
                self._epaths(v, "int", lv)
                self._epaths(v, "bool", lv)
        if len(lv) > 8:
            lv = self.r.sample(lv, 8)
        for i, v in enumerate(lv):
            out.append(Probe(i + 1, v))
        for v in sc.vs:
            if v["_t"].startswith("ent:") and not self.f["kills"]:
                out.append(ESay(dict(v), "is " + v["n"]))
        out.append(self.mark())
        return out

    # ------------------------------------------------------------ programs
    def eprogram(self, ntpl=3, nmeth=3, nst=8, nfn=0, depth=2, ninp=3, nent=2, nstruct=0, iface=0):
        p = self.p
        if nstruct:
            self.add_structs(nstruct)
        self.plan_templates(ntpl)
        self.add_news()
        sc = Sc()
        for nm in ("a", "b"):
            p.items.append(self.declare(sc, "int", Ext(nm, "inp")))
        for t, x in self.tp.items():
            self.gscope[t] = [dict(v) for v in sc.vs]
            p.items.append(x)
            if self.ch(0.4):
                p.items += self.make_ent(sc, t)
        self.add_methods(nmeth)
        for _ in range(nent):
            p.items += self.make_ent(sc)
        if self.f["groups"]:
            for _ in range(2):
                p.items += self.grp_stmt(sc, 1) or []
        pend = nfn
        for i in range(nst):
            while pend and self.ch(pend / float(max(1, nst - i))):
                kind = "inline" if self.f["inl"] and self.ch(
                    self.f["inl"] / (self.f["inl"] + self.f["fn"])) else "def"
                try:
                    self.add_fn(sc, kind, len(self.fns) + 1)
                except Bad:
                    self.incall, self.in_fn = 0, None
                pend -= 1
            k = len(sc.vs)
            try:
                p.items += self.stmt(sc, depth, False)
            except Bad:
                self.incall = 0
                del sc.vs[k:]
        ifs = []
        for i in range(iface):
            inner = Sc(sc.vs)
            body = []
            for _ in range(self.r.randint(1, 3)):
                k = len(inner.vs)
                try:
                    body += self.stmt(inner, 1, False)
                except Bad:
                    self.incall = 0
                    del inner.vs[k:]
            ifs.append(("iface", "if%d" % i if self.ch(0.5) else "dir/if%d" % i, body + self.final_probes(sc)))
        p.items += self.final_probes(sc)
        p.items += ifs
        if iface:
            p.depth = 3
        p.ents = [player((2000, 66000, 3000)), ent("pig", (9500, 64000, 500))]
        p.tagobs = ["tg", "th"]
        self.finish(ninp)
        return p

    program = eprogram
