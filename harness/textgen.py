"""Programs that show texts: formatting, fonts, titles (print module)."""
from astlib import *        # noqa
from astlib import js
from entlib import FVals, Filt, GAttr, GCh, GNew, ent, gop
from filtgen import FGen, TYPES, NAMES
from gen import Bad, Sc

COLORS = ["black", "dark_blue", "dark_green", "dark_aqua", "dark_red", "dark_purple", "gold", "gray", "dark_gray",
          "blue", "green", "aqua", "red", "light_purple", "yellow", "white", "minecoin_gold"]
NEW = ["material_" + x for x in ("quartz", "iron", "netherite", "redstone", "copper", "gold", "emerald", "diamond",
                                 "lapis", "amethyst")]
PLAIN = ["Hi", "a b", "%", "100%", "%%", "x: ", "", "{0}", "%{}", "\\", '"q"', "[]", "@a", "~ ^", "$v", "true", "," ]


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def XS(t):
    return {"k": "xs", "t": t, "_src": lambda pr, x: q(x["t"]), "_fs": False}


def XT(t):
    return {"k": "xt", "t": t, "_src": lambda pr, x: "print.translate(%s)" % q(x["t"]), "_fs": True}


def XE(e):
    return {"k": "xe", "e": e, "ty": e["_t"], "_src": lambda pr, x: pr.e(x["e"]), "_fs": False}


def XP(pat, args, kw):
    """pat: text; args: texts; kw: name -> text"""
    def src(pr, x):
        a = [q(pat)] + [pr.e(y) for y in args] + ["%s=%s" % (n, pr.e(y)) for n, y in kw.items()]
        return "print.format(%s)" % ", ".join(a)
    return {"k": "xp", "cs": list(pat), "as": args, "kw": dict(kw, _=0), "_src": src, "_fs": True, "_pat": (pat, args, kw)}


def XC(a, b):
    return {"k": "xc", "a": a, "b": b, "_src": lambda pr, x: "(%s + %s)" % (pr.e(x["a"]), pr.e(x["b"])),
            "_fs": a["_fs"] or b["_fs"]}


def XF(x, c, b, i, o, how):
    def src(pr, y):
        a = [pr.e(y["x"])]
        if c is not None:
            a.append(q(c) if how & 1 else "color=" + q(c))
        for n, v in (("bold", b), ("italic", i), ("obfuscated", o)):
            if v or how & 2:
                a.append("%s=%s" % (n, "True" if v else "False"))
        return "print.with_font(%s)" % ", ".join(a)
    return {"k": "xf", "x": x, "c": c or "default", "b": b, "i": i, "o": o, "_src": src, "_fs": True}


def Tell(x, md, to, times, how):
    def src(pr, s):
        a = [pr.e(x)] if md != "clear" else []
        if to["k"] != "all":
            a.append(("target=" if how & 1 or md == "clear" else "") + pr.e(to["e"]))
        if md == "clear":
            return "print.title_clear(%s)" % ", ".join(a)
        if md == "tell":
            return "print.tell(%s)" % ", ".join(a)
        if md != "title" or how & 2:
            a.append("mode=" + ("print." + md.upper() if how & 4 else q(md)))
        if times:
            for n, v, d in zip(("fade_in", "stay_time", "fade_out"), times, (10, 70, 20)):
                if v != d or how & 8:
                    a.append("%s=%d" % (n, v))
        return "print.title(%s)" % ", ".join(a)
    return {"k": "tell", "x": x, "md": md, "to": to, "times": list(times or ()), "_src": src}


class TGen(FGen):
    def __init__(self, rnd, **feats):
        super().__init__(rnd, **feats)
        self.texts = []      # (name, text, nested fonts, has font)
        self.old = feats.get("old", 0)

    # how: "free" (any font inside), "col" (fonts inside have a colour), "none"
    def text(self, sc, d, how="free"):
        r = self.r
        c = [x for x in self.texts if x[2] == how or x[2] == "none" or how == "free"]
        if c and self.ch(0.2):
            n, x, _ = r.choice(c)
            return dict(x, _src=lambda pr, y: n)
        w = r.random()
        if d <= 0 or w < 0.1:
            return XS(r.choice(PLAIN)) if self.ch(0.8) else XT(r.choice(["item.apple.name", "a b"]))
        if w < 0.6:
            return self.pattern(sc, d, how)
        if w < 0.75:
            a, b = self.text(sc, d - 1, how), self.text(sc, d - 1, how)
            return XC(a, b)
        if how == "none":
            return self.pattern(sc, d, how)
        b, i, o = (self.ch(0.3), self.ch(0.3), self.ch(0.2))
        col = r.choice(COLORS + NEW)
        if self.ch(0.4):        # fonts within fonts: only the colour is overridden
            return XF(self.text(sc, d - 1, "col"), col, False, False, False, r.randrange(4))
        if how == "free" and self.ch(0.3):
            col = r.choice([None, "default"])
        return XF(self.text(sc, d - 1, "none"), col, b, i, o, r.randrange(4))

    def arg(self, sc, d, how):
        c = self.r.random()
        if c < 0.3:
            return self.text(sc, d - 1, how)
        if c < 0.75:
            return XE(self.int_e(sc, self.r.choice([0, 0, 1, 2])))
        if c < 0.95:
            return XE(self.expr(sc, "bool", self.r.choice([0, 1, 2])))
        return XE(S(self.r.choice(["s", "%0", "x y"])))

    def pattern(self, sc, d, how):
        r = self.r
        args = [self.arg(sc, d, how) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if self.ch(0.05):
            args += [XE(Int(k)) for k in range(11)]
        kw = {n: self.arg(sc, d, how) for n in r.sample(["val", "x", "name_1", "Yy"], r.choice([0, 0, 1, 2]))}
        t = ""
        for _ in range(r.randint(0, 5)):
            k = r.random()
            if k < 0.3:
                t += r.choice(["a", " ", "Val: ", "}", "{", "; ", "%%", "%%0", "%-", "% ", "0", "%x", "\\", '"', "%}"])
            elif k < 0.75 and args:
                n = r.randrange(len(args))
                if n > 9 or self.ch(0.4):
                    t += "%%{%s%d}" % ("0" * r.choice([0, 0, 0, 1]), n)
                else:
                    t += "%%%d" % n
            elif kw:
                t += "%%{%s}" % r.choice(list(kw))
        if self.ch(0.1):
            t += "%"
        return XP(t, args, kw)

    def target(self):
        c = self.r.random()
        if c < 0.45:
            return {"k": "all"}
        if c < 0.7:
            return {"k": "ent", "e": dict(self.r.choice(self.ents))}
        return {"k": "grp", "e": dict(self.r.choice(self.groups))}

    def tell(self, sc):
        r = self.r
        md = r.choice(["tell", "tell", "tell", "title", "subtitle", "actionbar", "clear"])
        times = None
        if md in ("title", "subtitle", "actionbar") and self.ch(0.5):
            times = (r.choice([10, 0, 5]), r.choice([70, 70, 1, 100]), r.choice([20, 20, 3]))
            if times == (10, 70, 20):
                times = None
        x = self.text(sc, r.choice([1, 2, 2, 3])) if md != "clear" else XS("")
        return Tell(x, md, self.target(), times, r.randrange(16))

    def stmt(self, sc, depth, pure):
        if not pure and self.ch(0.4):
            return [self.tell(sc)]
        return super().stmt(sc, depth, pure)

    def program(self, nst=10, nfn=1, ninp=2, nent=4):
        p, r = self.p, self.r
        self.groups = [V("g%d" % i, "grp:Entity") for i in range(2)]
        self.ents = [V("e%d" % i, "ent:Entity") for i in range(2)]
        p.pre.append("import print")
        for g in self.groups:
            p.items.append(Decl(g["n"], GNew("Entity")))
        for i, e in enumerate(self.ents):
            g = lambda: dict(self.groups[0])
            p.items.append(ExprS(GCh(g(), gop("clear"), gop("select", Filt([FVals("has_tag", ["mark%d" % i])])))))
            p.items.append(Decl(e["n"], GAttr("gsingle", g())))
        for g in self.groups:
            p.items.append(ExprS(GCh(dict(g), gop("select", self.filt(p.items)))))
        sc = Sc()
        for nm in ("a", "b", "c")[:r.choice([2, 3])]:
            p.items.append(self.declare(sc, "int", Ext(nm, "inp")))
        p.items.append(self.declare(sc, "bool", d=1))
        for i in range(nst):
            if nfn and self.ch(0.2):
                nfn -= 1
                try:
                    self.add_fn(sc, r.choice(["def", "inline"]), len(self.fns) + 1)
                except Bad:
                    self.incall, self.in_fn = 0, None
            if self.ch(0.25):
                how = r.choice(["free", "col", "none"])
                # calls and int(...) are evaluated where they are written
                fns, self.fns, bools = self.fns, [], self.f["bools"]
                self.f["bools"] = 0
                try:
                    x = self.text(sc, 2, how)
                finally:
                    self.fns, self.f["bools"] = fns, bools
                n = self.name("T")
                if self.ch(0.25):       # given by an inline function
                    p.items.append({"k": "pass", "_x": x, "_n": n, "_src": lambda pr, s:
                                    "inline def %s() -> const Any:\n    result %s" % (s["_n"], pr.e(s["_x"]))})
                    n += "()"
                else:
                    p.items.append({"k": "pass", "_x": x, "_n": n,
                                    "_src": lambda pr, s: "const %s = %s" % (s["_n"], pr.e(s["_x"]))})
                self.texts.append((n, x, how))
            k = len(sc.vs)
            try:
                p.items += self.stmt(sc, 2, False)
            except Bad:
                self.incall = 0
                del sc.vs[k:]
        p.items.append(self.tell(sc))
        p.items += self.final_probes(sc)
        p.tagobs = []
        self.finish(ninp)
        p.objs += ["so", "obj two"]
        p.rnd = [[r.randint(0, 9) for _ in range(40)]]
        for _ in range(2):
            w = self.world(nent)
            for i in range(2):
                w[i][2]["tags"] = w[i][2]["tags"] + ["mark%d" % i]
            w.append(("player", self.coord(), dict(nm="p1")))
            p.worlds.append([ent(ty, pos, **kw) for ty, pos, kw in w])
        return p
