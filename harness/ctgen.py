"""Random compile-time programs (for spec/CtSem.tla)."""
import copy

IMAX = 2147483647
PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6, "neg": 7}


def esc(s):
    return s.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$")


def lit(t, v):
    return {"k": "lit", "t": t, "v": v}


def N(n):
    return {"k": "n", "n": n}


class CtGen:
    def __init__(self, rnd, err=0.0, depth=2):
        self.r = rnd
        self.err = err               # how often something invalid is written
        self.depth = depth
        self.count = 0
        self.fns = {}
        self.fdef = {}               # name -> (params, ret)
        self.ct = False
        self.scopes = [{}]           # name -> (type, assignable)
        self.busy = set()            # lists that must not change now

    def ch(self, p):
        return self.r.random() < p

    def name(self, p):
        self.count += 1
        return "%s%d" % (p, self.count)

    # ----------------------------------------------------------- the scope
    def vars(self, ty=None, asg=False):
        out = []
        for s in self.scopes:
            for n, (t, a) in s.items():
                if (ty is None or t == ty) and (a or not asg):
                    out.append((n, t))
        return out

    def anytype(self, d=2):
        c = self.r.random()
        if c < 0.35 or d == 0:
            return self.r.choice(["int", "int", "bool", "str", "float"])
        if c < 0.75:
            return "list:" + self.r.choice(["int", "int", "str", "bool"] + (["list:int"] if d > 1 else []))
        return "map:%s:%s" % (self.r.choice(["int", "str", "bool"]), self.r.choice(["int", "str", "list:int"]))

    # -------------------------------------------------------- expressions
    def int_lit(self):
        c = self.r.random()
        if c < 0.8:
            return lit("int", self.r.randint(0, 9))
        if c < 0.95:
            return lit("int", self.r.randint(0, 70000))
        return lit("int", self.r.choice([IMAX, IMAX - 1, 2 ** 30, 65536]))

    def wrong(self, ty):
        t = ty
        while t == ty:
            t = self.anytype(1)
        return self.e(t, 1)

    def e(self, ty, d=None):
        d = self.depth if d is None else d
        if self.err and self.ch(self.err):
            return self.wrong(ty)
        v = self.vars(ty)
        if v and self.ch(0.45 if d else 0.8):
            return N(self.r.choice(v)[0])
        fs = [f for f, (ps, r) in self.fdef.items() if r == ty]
        if fs and d and self.ch(0.35):
            return self.call(self.r.choice(fs), d)
        return getattr(self, "e_" + ty.split(":")[0])(ty, d)

    def idx(self, d):
        return lit("int", self.r.randint(0, 3)) if self.ch(0.8) else \
            {"k": "un", "op": "-", "e": lit("int", self.r.randint(1, 3))}

    def from_container(self, ty, d):
        """an element of some list or map variable"""
        c = [(n, t) for n, t in self.vars() if t == "list:" + ty
             or (t.startswith("map:") and t.split(":", 2)[2] == ty)]
        if not c or not self.ch(0.5):
            return None
        n, t = self.r.choice(c)
        if t.startswith("list"):
            # an index that exists: wrap around the size
            i = {"k": "bin", "op": "%", "l": self.idx(0), "r":
                 {"k": "meth", "o": N(n), "m": "size", "as": []}} if self.ch(0.7) else self.idx(0)
            return {"k": "sub", "o": N(n), "i": i}
        k = self.e(t.split(":")[1], 0)
        if self.ch(0.6) or ty.startswith("list"):
            return {"k": "meth", "o": N(n), "m": "get", "as": [k, self.e(ty, 0)]}
        return {"k": "sub", "o": N(n), "i": k}

    def e_int(self, ty, d):
        x = self.from_container(ty, d)
        if x:
            return x
        if d == 0 or self.ch(0.15):
            return self.int_lit()
        c = self.r.random()
        if c < 0.6:
            return {"k": "bin", "op": self.r.choice("++-**/%"), "l": self.e("int", d - 1), "r": self.e("int", d - 1)}
        if c < 0.7:
            return {"k": "un", "op": self.r.choice("-+"), "e": self.e("int", d - 1)}
        if c < 0.78:
            return {"k": "stat", "m": "int", "as": [self.e("bool", d - 1)]}
        v = [n for n, t in self.vars() if ":" in t]
        if v:
            return {"k": "meth", "o": N(self.r.choice(v)), "m": "size", "as": []}
        return self.int_lit()

    def e_bool(self, ty, d):
        x = self.from_container(ty, d)
        if x:
            return x
        if d == 0 or self.ch(0.15):
            return lit("bool", self.ch(0.5))
        c = self.r.random()
        if c < 0.5:
            if self.ch(0.2):
                return {"k": "cmp", "l": self.e("bool", d - 1),
                        "ops": [{"op": self.r.choice(["==", "!="]), "e": self.e("bool", d - 1)}]}
            return {"k": "cmp", "l": self.e("int", d - 1),
                    "ops": [{"op": self.r.choice(["==", "!=", "<", ">", "<=", ">="]), "e": self.e("int", d - 1)}
                            for _ in range(self.r.choice([1, 1, 1, 2, 3]))]}
        if c < 0.75:
            return {"k": "bl", "op": self.r.choice(["and", "or"]),
                    "es": [self.e("bool", d - 1) for _ in range(self.r.choice([2, 2, 3]))]}
        if c < 0.85:
            return {"k": "un", "op": "not", "e": self.e("bool", d - 1)}
        v = [(n, t) for n, t in self.vars() if t.startswith("map")]
        if v:
            n, t = self.r.choice(v)
            return {"k": "meth", "o": N(n), "m": "has", "as": [self.e(t.split(":")[1], d - 1)]}
        return lit("bool", self.ch(0.5))

    def e_str(self, ty, d):
        x = self.from_container(ty, d)
        if x:
            return x
        c = self.r.random()
        if d == 0 or c < 0.3:
            return lit("str", "".join(self.r.choice("abc xyz=@[]{}$\"\\'#~:,") for _ in range(self.r.randint(0, 4))))
        if c < 0.5:
            return {"k": "bin", "op": "+", "l": self.e("str", d - 1), "r": self.e("str", d - 1)}
        return self.fs(d)

    def fs(self, d):
        ps = []
        for i in range(self.r.randint(1, 3)):
            if self.ch(0.3):
                ps.append({"e": lit("str", self.r.choice(["a", " - ", "x:", "$", "}"])), "t": True})
            else:
                ps.append({"e": self.e(self.r.choice(["int", "bool", "str", "float"]), d - 1 if d else 0)})
        return {"k": "fs", "ps": ps}

    def e_float(self, ty, d):
        if d == 0 or self.ch(0.4):
            if self.ch(0.3):
                return {"k": "stat", "m": "float", "as": [lit("int", self.r.randint(0, 20))]}
            return lit("float", self.r.randint(1, 120))
        c = self.r.random()
        if c < 0.8:
            a, b = self.e("float", d - 1), self.e(self.r.choice(["float", "int"]), d - 1)
            if self.ch(0.4):
                a, b = b, a
            return {"k": "bin", "op": self.r.choice("+-+-*/"), "l": a, "r": b}
        return {"k": "un", "op": "-", "e": self.e("float", d - 1)}

    def e_list(self, ty, d):
        x = self.from_container(ty, d)
        if x:
            return x
        el = ty[5:]
        v = [n for n, t in self.vars(ty)]
        c = self.r.random()
        if v and c < 0.45 and d:
            o = N(self.r.choice(v))
            m = self.r.choice(["slice", "slice", "slice", "cycle", "copy"])
            if m == "copy":
                a = []
            elif m == "cycle":
                a = [lit("int", self.r.randint(0, 2))]
            else:
                z = lambda: lit("none", 0) if self.ch(0.25) else self.sint()
                a = [[self.sint()], [z(), z()], [z(), z(), self.step()]][self.r.randint(0, 2)]
            return {"k": "meth", "o": o, "m": m, "as": a}
        mp = [(n, t) for n, t in self.vars() if t.startswith("map")
              and (t.split(":")[1] == el or t.split(":", 2)[2] == el)]
        if mp and c < 0.6:
            n, t = self.r.choice(mp)
            ms = (["keys"] if t.split(":")[1] == el else []) + (["values"] if t.split(":", 2)[2] == el else [])
            return {"k": "meth", "o": N(n), "m": self.r.choice(ms), "as": []}
        if el == "int" and c < 0.75:
            k = self.r.random()
            if k < 0.6:
                return {"k": "stat", "m": "range", "as":
                        [[lit("int", self.r.randint(0, 5))], [self.sint(), self.sint()],
                         [self.sint(), self.sint(), self.step()]][self.r.randint(0, 2)]}
            return {"k": "stat", "m": "geometric", "as":
                    [self.sint(), self.sint(), lit("int", self.r.randint(0, 4))]}
        if not self.ct and d and c < 0.85:
            if self.ch(0.6):
                return {"k": "bin", "op": "+", "l": self.e(ty, d - 1), "r": self.e(ty, d - 1)}
            return {"k": "bin", "op": "*", "l": self.e(ty, d - 1), "r": self.sint()}
        if c < 0.9 and d and (el in ("int", "str", "bool") or self.ch(0.5)):
            return {"k": "stat", "m": "repeat", "as": [self.e(el, d - 1), lit("int", self.r.randint(0, 3))]}
        if c < 0.93 and d:
            return {"k": "stat", "m": "list", "as": [self.e(ty, d - 1)]}
        return {"k": "list", "es": [self.e(el, max(0, d - 1)) for _ in range(self.r.randint(0 if c > 0.97 else 1, 4))]}

    def sint(self):
        n = self.r.randint(-5, 6)
        return lit("int", n) if n >= 0 else {"k": "un", "op": "-", "e": lit("int", -n)}

    def step(self):
        n = self.r.choice([1, 2, 3, -1, -2, -1, 1])
        if self.err and self.ch(0.1):
            n = 0
        return lit("int", n) if n >= 0 else {"k": "un", "op": "-", "e": lit("int", -n)}

    def e_map(self, ty, d):
        k, v = ty.split(":", 2)[1:]
        old = [n for n, t in self.vars(ty)]
        if old and self.ch(0.3):
            return {"k": "meth", "o": N(self.r.choice(old)), "m": "copy", "as": []}
        if d and self.ch(0.15):
            return {"k": "stat", "m": "map", "as": [self.e("list:" + k, d - 1), self.e("list:" + v, d - 1)]} \
                if v != "list:int" else {"k": "map", "ks": [], "vs": []}
        if d and self.ch(0.1):
            return {"k": "stat", "m": "from_keys", "as": [self.e("list:" + k, d - 1), self.e(v, d - 1)]}
        n = self.r.randint(0, 3)
        ks = [self.e(k, 0) for _ in range(n)]
        if n and self.ch(0.25):
            # keys of other types that look alike
            ks.append(self.r.choice([lit("bool", True), lit("float", 8), lit("str", "1"), lit("int", 1)]))
            n += 1
        return {"k": "map", "ks": ks, "vs": [self.e(v, max(0, d - 1)) for _ in range(n)]}

    def call(self, f, d):
        ps, _ = self.fdef[f]
        a = []
        kw = False
        for p, ty, df in ps:
            if df and self.ch(0.4):
                kw = True
                continue
            if self.ch(0.2):
                kw = True
            if kw and self.err and self.ch(0.05):
                continue
            a.append({"p": p, "e": self.e(ty, d - 1), "kw": kw})
        if self.err and self.ch(self.err) and a:
            a = a[:-1]
        return {"k": "call", "f": f, "as": a}

    # --------------------------------------------------------- statements
    def stmts(self, n, d):
        out = []
        for _ in range(n):
            out += self.stmt(d)
        return out or [{"k": "pass"}]

    def body(self, n, d, new=True):
        """statements with definitions of their own (not visible after)"""
        self.scopes.append({})
        b = self.stmts(n, d)
        self.scopes.pop()
        return b

    def stmt(self, d):
        c = self.r.random()
        if c < 0.3:
            t = self.anytype()
            n = self.name("v")
            s = {"k": "def", "n": n, "e": self.e(t), "ty": self.tyname(t) if self.ch(0.25) else ""}
            self.scopes[-1][n] = (t, self.ct)
            return [s]
        if self.ct:
            if c < 0.55:
                s = self.mutate()
                return [s] if s else []
            if c < 0.63:
                v = self.vars("int", True)
                if v:
                    return [{"k": "aug", "l": N(self.r.choice(v)[0]), "op": self.r.choice("+-*+-/%"),
                             "e": self.e("int", 1)}]
            if c < 0.68 and self.ch(0.5):
                return self.item_ref()
            if c < 0.68:
                v = self.vars(None, True)
                if v:
                    n, t = self.r.choice(v)
                    m = self.name("r")
                    self.scopes[-1][m] = (t, True)
                    return [{"k": "ref", "n": m, "e": N(n)}]
            if c < 0.74:
                v = self.vars(None, True)
                if v:
                    n, t = self.r.choice(v)
                    if n not in self.busy:
                        return [{"k": "asg", "l": N(n), "e": self.e(t)}]
        elif c < 0.55:
            return [{"k": "say", "e": self.fs(2)}]
        if d == 0:
            return [{"k": "say", "e": self.fs(1)}] if not self.ct else []
        if c < 0.85:
            return [{"k": "if", "c": self.e("bool"), "b": self.body(self.r.randint(1, 2), d - 1),
                     "el": self.body(1, d - 1) if self.ch(0.6) else []}]
        if c < 0.9 and self.ct:
            return self.while_(d)
        t = self.r.choice(["list:int", "list:int", "list:str", "map:int:str", "list:list:int"])
        x = self.e(t)
        n = self.name("i")
        busy = self.busy
        self.busy = self.busy | {v for v, ty in self.vars() if ":" in ty}
        self.scopes.append({n: (t.split(":", 2)[1] if t.startswith("map") else t[5:], False)})
        b = self.stmts(self.r.randint(1, 2), d - 1)
        self.scopes.pop()
        self.busy = busy
        return [{"k": "for", "n": n, "e": x, "b": b}]

    def while_(self, d):
        n = self.name("w")
        k = self.r.randint(1, 4)
        self.scopes[-1][n] = ("int", False)
        ds, fr = self.stmt, {}
        # no definitions inside: they would be made twice
        b = [s for s in self.body(2, 0) if s["k"] not in ("def", "ref")]
        # a dropped definition must not be used by what is kept
        b = [] if any(s["k"] in ("def", "ref") for s in b) else b
        names = set()
        self.collect(b, names)
        vis = {m for m, _ in self.vars()}
        if not names <= vis:
            b = []
        b = b + [{"k": "aug", "l": N(n), "op": "+", "e": lit("int", 1)}]
        return [{"k": "def", "n": n, "e": lit("int", 0), "ty": ""},
                {"k": "while", "c": {"k": "cmp", "l": N(n), "ops": [{"op": "<", "e": lit("int", k)}]}, "b": b}]

    def collect(self, x, names):
        if isinstance(x, dict):
            if x.get("k") == "n":
                names.add(x["n"])
            for v in x.values():
                self.collect(v, names)
        elif isinstance(x, list):
            for v in x:
                self.collect(v, names)

    def item_ref(self):
        """a reference to an item of a list or map, which then changes"""
        v = [(n, t) for n, t in self.vars() if ":" in t and n not in self.busy]
        if not v:
            return []
        n, t = self.r.choice(v)
        o = N(n)
        if t.startswith("list"):
            el = t[5:]
            out = [{"k": "expr", "e": {"k": "meth", "o": o, "m": "append", "as": [self.e(el, 1)]}}]
            i = lit("int", 0) if self.ch(0.5) else {"k": "un", "op": "-", "e": lit("int", 1)}
            put = {"k": "asg", "l": {"k": "sub", "o": o, "i": i}, "e": self.e(el, 1)}
        else:
            kt, el = t.split(":", 2)[1:]
            i = self.e(kt, 0)
            one = lambda: {"k": "expr", "e": {"k": "meth", "o": o, "m": "update", "as": [
                {"k": "map", "ks": [i], "vs": [self.e(el, 1)]}]}}
            out, put = [one()], one()
        m = self.name("r")
        out.append({"k": "ref", "n": m, "e": {"k": "sub", "o": o, "i": i}})
        for _ in range(self.r.randint(0, 2)):
            x = self.mutate((n, t)) if self.ch(0.5) else put
            out.append(x)
        self.scopes[-1][m] = (el, True)
        c = self.r.random()
        if c < 0.3:
            out.append({"k": "asg", "l": N(m), "e": self.e(el, 1)})
        if c > 0.2:
            w = self.name("v")
            out.append({"k": "def", "n": w, "e": {"k": "list", "es": [N(m), {"k": "sub", "o": o, "i": i}]}
                        if el == "int" else N(m), "ty": ""})
            self.scopes[-1][w] = ("list:int" if el == "int" else el, True)
        return out

    def mutate(self, pick=None):
        v = [pick] if pick else [(n, t) for n, t in self.vars() if ":" in t and n not in self.busy]
        if not v:
            return None
        n, t = self.r.choice(v)
        o = N(n)
        if t.startswith("list"):
            el = t[5:]
            m = self.r.choice(["append", "append", "extend", "insert", "reverse", "pop", "set", "set"])
            if m == "set":
                i = {"k": "bin", "op": "%", "l": lit("int", self.r.randint(0, 9)),
                     "r": {"k": "meth", "o": o, "m": "size", "as": []}} if self.ch(0.8) else self.idx(0)
                l = {"k": "sub", "o": o, "i": i}
                if el == "int" and self.ch(0.4):
                    return {"k": "aug", "l": l, "op": self.r.choice("+-*"), "e": self.e("int", 1)}
                return {"k": "asg", "l": l, "e": self.e(el, 1)}
            a = {"append": lambda: [self.e(el, 1)], "extend": lambda: [self.e(t, 1)],
                 "insert": lambda: [lit("int", 0) if self.ch(0.7) else self.idx(0), self.e(el, 1)],
                 "reverse": lambda: [], "pop": lambda: [self.r.choice([lit("int", 0), self.idx(0)])]}[m]()
        else:
            k, w = t.split(":", 2)[1:]
            m = self.r.choice(["update", "update", "pop", "set_default", "set_default", "clear", "set"])
            if m == "set":
                return {"k": "if", "c": {"k": "meth", "o": o, "m": "has", "as": [lit("int", 1)]},
                        "b": [{"k": "asg", "l": {"k": "sub", "o": o, "i": lit("int", 1)}, "e": self.e(w, 1)}],
                        "el": []}
            a = {"update": lambda: [self.e(t, 1)], "pop": lambda: [self.e(k, 0), self.e(w, 0)],
                 "set_default": lambda: [self.e(k, 0), self.e(w, 1)], "clear": lambda: []}[m]()
        return {"k": "expr", "e": {"k": "meth", "o": o, "m": m, "as": a}}

    def tyname(self, t):
        return {"list": "list", "map": "map", "str": "Any"}.get(t.split(":")[0], t)

    # ----------------------------------------------------------- programs
    def function(self):
        f = self.name("f")
        ps, out = [], []
        keep, self.ct = self.scopes, True
        glob = {n: (t, False) for s in self.scopes for n, (t, a) in s.items()}
        sc = {}
        df = False
        for i in range(self.r.randint(0, 3)):
            t = self.anytype(1)
            p = self.name("p")
            d = {"k": "none", "e": lit("none", 0)}
            if t in ("int", "bool", "str", "float") and (df or self.ch(0.25)):
                df = True
                d = {"k": "e", "e": {"int": lambda: lit("int", self.r.randint(0, 5)), "bool": lambda: lit("bool", True),
                                     "str": lambda: lit("str", "d"), "float": lambda: lit("float", 12)}[t]()}
            elif df:
                continue
            ps.append((p, t, d["k"] == "e"))
            out.append({"n": p, "ty": self.tyname(t), "d": d})
            sc[p] = (t, False)
        self.scopes = [glob, sc]
        ret = self.anytype(1)
        # globals are immutable here: leave them alone
        self.busy = {n for n in glob} | {n for n, (t, _) in sc.items() if ":" in t}
        b = self.stmts(self.r.randint(2, 5), 2)
        b.append({"k": "res", "e": self.e(ret)})
        if self.ch(0.3):
            b.append({"k": "if", "c": self.e("bool"), "b": [{"k": "res", "e": self.e(ret, 1)}], "el": []})
        self.scopes, self.ct, self.busy = keep, False, set()
        # a fresh copy of a parameter may be changed
        self.fns[f] = {"ps": out, "b": b, "ret": self.tyname(ret)}
        self.fdef[f] = (ps, ret)
        return {"k": "fn", "f": f}

    def rec_function(self):
        """recursion on a decreasing argument"""
        f, p = self.name("f"), self.name("p")
        q = self.name("q")
        base = lit("int", self.r.randint(0, 3))
        rec = {"k": "call", "f": f, "as": [{"p": p, "e": {"k": "bin", "op": "-", "l": N(p), "r": lit("int", 1)}, "kw": False},
                                         {"p": q, "e": {"k": "bin", "op": "+", "l": N(q), "r": lit("int", 2)}, "kw": True}]}
        comb = self.r.choice([
            {"k": "bin", "op": "*", "l": N(p), "r": rec}, {"k": "bin", "op": "-", "l": rec, "r": N(q)},
            {"k": "bin", "op": "+", "l": rec, "r": {"k": "bin", "op": "%", "l": rec, "r": lit("int", 7)}}])
        b = [{"k": "if", "c": {"k": "cmp", "l": N(p), "ops": [{"op": "<=", "e": lit("int", 0)}]},
              "b": [{"k": "res", "e": base}], "el": [{"k": "res", "e": comb}]}]
        self.fns[f] = {"ps": [{"n": p, "ty": "int", "d": {"k": "none", "e": lit("none", 0)}},
                              {"n": q, "ty": "int", "d": {"k": "e", "e": lit("int", 1)}}], "b": b, "ret": "int"}
        return {"k": "fn", "f": f}, f, p

    def alias_function(self):
        """references to items of a list or map that changes in every way;
        the result shows the items and the references"""
        r = self.r
        f, c = self.name("f"), self.name("v")
        mp = r.random() < 0.6
        num = lambda: lit("int", r.randint(0, 30))
        ks = r.sample(range(-2, 6), 3)
        o = N(c)
        keys = [lit("int", k) if k >= 0 else {"k": "un", "op": "-", "e": lit("int", -k)} for k in ks]
        if mp:
            b = [{"k": "def", "n": c, "e": {"k": "map", "ks": keys, "vs": [num() for _ in ks]}, "ty": ""}]
            ix = keys
        else:
            b = [{"k": "def", "n": c, "e": {"k": "list", "es": [num() for _ in range(4)]}, "ty": ""}]
            ix = [lit("int", 0), lit("int", 1), {"k": "un", "op": "-", "e": lit("int", 1)}]
        meth = lambda m, *a: {"k": "expr", "e": {"k": "meth", "o": o, "m": m, "as": list(a)}}
        at = lambda: {"k": "sub", "o": o, "i": r.choice(ix)}
        refs = []
        for _ in range(r.randint(4, 8)):
            q = r.random()
            if not refs or q < 0.25:
                n = self.name("r")
                b.append({"k": "ref", "n": n, "e": at() if not refs or r.random() < 0.8 else N(r.choice(refs))})
                refs.append(n)
            elif q < 0.4:
                b.append({"k": "asg", "l": N(r.choice(refs)), "e": num()})
            elif q < 0.55:
                b.append({"k": "asg", "l": at(), "e": num()})
            elif q < 0.62:
                b.append({"k": "aug", "l": N(r.choice(refs)), "op": r.choice("+-*"), "e": at()})
            elif mp:
                if q < 0.85:
                    b.append(meth("update", {"k": "map", "ks": r.sample(keys, 2) + [lit("int", 8)],
                                             "vs": [num() for _ in range(3)]}))
                elif q < 0.93:
                    k = r.choice(keys)
                    b += [meth("pop", k), meth("set_default", k, num())]
                else:
                    b.append(meth("set_default", r.choice(keys), num()))
            elif q < 0.75:
                b.append(meth(*r.choice([("reverse",), ("append", num()), ("insert", lit("int", 0), num())])))
            elif q < 0.85:
                b += [meth("append", num()), meth("pop", lit("int", 0))]
            elif q < 0.92:
                b.append(meth("extend", {"k": "list", "es": [N(r.choice(refs)), num()]}))
            else:
                b.append(meth("insert", lit("int", 1), N(r.choice(refs))))
        if mp:
            b += [meth("set_default", k, lit("int", 77)) for k in keys]
        b.append({"k": "res", "e": {"k": "list", "es": [N(n) for n in refs] + [{"k": "sub", "o": o, "i": i} for i in ix]}})
        self.fns[f] = {"ps": [], "b": b, "ret": "list"}
        i = self.name("i")
        return [{"k": "fn", "f": f}, {"k": "for", "n": i, "e": {"k": "call", "f": f, "as": []},
                                      "b": [{"k": "say", "e": {"k": "fs", "ps": [{"e": N(i)}]}}]}]

    def program(self, nst=8, nfn=3):
        items = []
        for i in range(nst):
            if nfn and self.ch(nfn / float(nst - i)):
                nfn -= 1
                if self.ch(0.2):
                    items += self.alias_function()
                elif self.ch(0.15):
                    it, f, p = self.rec_function()
                    items.append(it)
                    items.append({"k": "say", "e": {"k": "fs", "ps": [{"e": {"k": "call", "f": f, "as": [
                        {"p": p, "e": lit("int", self.r.randint(0, 4)), "kw": False}]}}]}})
                else:
                    items.append(self.function())
            items += self.stmt(2)
        for n, t in self.vars():
            items += self.show(n, t)
        for f in list(self.fdef):
            x = self.call(f, 2)
            n = self.name("v")
            t = self.fdef[f][1]
            items.append({"k": "def", "n": n, "e": x, "ty": ""})
            items += self.show(n, t)
        return CtProgram(items, self.fns)

    def show(self, n, t):
        if t.startswith("list:"):
            i = self.name("i")
            return [{"k": "for", "n": i, "e": N(n), "b": self.show(i, t[5:])}]
        if t.startswith("map:"):
            i = self.name("i")
            j = self.name("v")
            return [{"k": "for", "n": i, "e": N(n), "b": [
                {"k": "say", "e": {"k": "fs", "ps": [{"e": lit("str", n + " key "), "t": True}, {"e": N(i)}]}},
                {"k": "def", "n": j, "e": {"k": "sub", "o": N(n), "i": N(i)}, "ty": ""}]
                + self.show(j, t.split(":", 2)[2])}]
        return [{"k": "say", "e": {"k": "fs", "ps": [{"e": lit("str", n + "="), "t": True}, {"e": N(n)}]}}]


class CtProgram:
    def __init__(self, items, fns):
        self.items, self.fns = items, fns

    inputs, sources, opts, variants = [], {}, ["-d"], ["std"]

    def drop(self, bad):
        """remove top-level statements (1-based, functions not counted)"""
        n, keep = 0, []
        for it in self.items:
            if it["k"] != "fn":
                n += 1
                if n in bad:
                    continue
            keep.append(it)
        self.items = keep

    def text(self, full=False):
        out = []
        for it in self.items:
            if it["k"] == "fn":
                f = self.fns[it["f"]]
                ps = []
                for p in f["ps"]:
                    ps.append(p["n"] + ("" if p["ty"] == "Any" and p["d"]["k"] == "e" else ": " + p["ty"])
                              + (" = " + pe(p["d"]["e"]) if p["d"]["k"] == "e" else ""))
                out.append("const def %s(%s)%s:" % (it["f"], ", ".join(ps),
                                                    "" if f["ret"] == "None" else " -> " + f["ret"]))
                out += ps_(f["b"], "    ", True)
            else:
                out += ps_([it], "", False)
        return "\n".join(out) + "\n"

    def case(self, cid):
        return {"id": cid, "fns": strip(self.fns) or {"_": 0},
                "body": strip([i for i in self.items if i["k"] != "fn"])}


EXPR = {"lit", "n", "un", "bin", "cmp", "bl", "list", "map", "sub", "meth", "stat", "fs", "call"}


def _walk(x, par, key, out):
    """(container, key, node) of every expression that may be replaced"""
    if isinstance(x, dict):
        if x.get("k") in EXPR and par is not None:
            out.append((par, key, x))
        for k, v in x.items():
            if k == "d" or (x.get("k") in ("asg", "aug", "ref") and k in ("l",)) \
                    or (x.get("k") == "ref" and k == "e") or (x.get("k") == "fs" and False):
                continue
            if x.get("k") == "say" and k == "e":
                for i in v["ps"]:
                    if not i.get("t"):
                        _walk(i["e"], i, "e", out)
                continue
            if x.get("k") == "fs" and k == "ps":
                for i in v:
                    if not i.get("t"):
                        _walk(i["e"], i, "e", out)
                continue
            _walk(v, x, k, out)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            _walk(v, x, i, out)


def _calls(x):
    if isinstance(x, dict):
        return x.get("k") == "call" or any(map(_calls, x.values()))
    return isinstance(x, list) and any(map(_calls, x))


def mutate(p, rnd, times=1):
    """Change a program at random places (mostly, it becomes invalid)."""
    p.items, p.fns = copy.deepcopy((p.items, p.fns))
    for _ in range(times):
        ex = []
        _walk(p.items, None, None, ex)
        _walk(p.fns, None, None, ex)
        c = rnd.random()
        lists = []

        def bodies(x):
            if isinstance(x, dict):
                for v in x.values():
                    bodies(v)
            elif isinstance(x, list):
                if x and isinstance(x[0], dict) and x[0].get("k") in (
                        "pass", "def", "ref", "asg", "aug", "expr", "res", "if", "while", "for", "say"):
                    lists.append(x)
                for v in x:
                    bodies(v)
        bodies(p.fns)
        bodies([i for i in p.items if i["k"] != "fn"])
        lists = [b for b in lists if len(b) > 1]
        if c < 0.12 and lists:
            b = rnd.choice(lists)
            i = rnd.randrange(len(b))
            b.insert(rnd.randrange(len(b) + 1), copy.deepcopy(b[i]))
        elif c < 0.24 and lists:
            b = rnd.choice(lists)
            i, j = rnd.randrange(len(b)), rnd.randrange(len(b))
            b[i], b[j] = b[j], b[i]
        elif c < 0.3 and lists:
            b = rnd.choice(lists)
            del b[rnd.randrange(len(b))]
        elif ex:
            at = rnd.randrange(len(ex))
            par, key, old = ex[at]
            names = sorted({e["n"] for _, _, e in ex[max(0, at - 25):at + 25] if e["k"] == "n"})
            d = rnd.random()
            if d < 0.4 and names:
                new = N(rnd.choice(names))
            elif d < 0.7:
                new = rnd.choice([lit("int", rnd.choice([0, 1, 7])), lit("bool", True), lit("str", "q"),
                                  lit("float", 12), lit("none", 0), {"k": "list", "es": [lit("int", 1)]},
                                  {"k": "un", "op": "-", "e": lit("int", 3)},
                                  {"k": "map", "ks": [], "vs": []}])
            else:
                # (a call might come before the function)
                new = rnd.choice([x[2] for x in ex if not _calls(x[2])] or [lit("int", 2)])
            par[key] = copy.deepcopy(new)
    return p


def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("kw",)}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


def ps_(b, ind, ct):
    out = []
    for s in b:
        k = s["k"]
        if k == "pass":
            out.append(ind + "pass")
        elif k == "def":
            if ct:
                out.append("%s%s%s %s" % (ind, s["n"], ": %s =" % s["ty"] if s["ty"] else " :=", pe(s["e"])))
            else:
                out.append("%sconst %s%s = %s" % (ind, s["n"], ": " + s["ty"] if s["ty"] else "", pe(s["e"])))
        elif k == "ref":
            out.append("%s&%s = %s" % (ind, s["n"], pe(s["e"])))
        elif k == "asg":
            out.append("%s%s = %s" % (ind, pe(s["l"]), pe(s["e"])))
        elif k == "aug":
            out.append("%s%s %s= %s" % (ind, pe(s["l"]), s["op"], pe(s["e"])))
        elif k == "expr":
            out.append(ind + pe(s["e"]))
        elif k == "res":
            out.append(ind + "result " + pe(s["e"]))
        elif k == "if":
            out.append("%sif %s:" % (ind, pe(s["c"])))
            out += ps_(s["b"], ind + "    ", ct)
            if s["el"]:
                out.append(ind + "else:")
                out += ps_(s["el"], ind + "    ", ct)
        elif k == "while":
            out.append("%swhile %s:" % (ind, pe(s["c"])))
            out += ps_(s["b"], ind + "    ", ct)
        elif k == "for":
            out.append("%sfor %s in %s:" % (ind, s["n"], pe(s["e"])))
            out += ps_(s["b"], ind + "    ", ct)
        elif k == "say":
            out.append(ind + "/say " + fstr(s["e"], False))
        else:
            raise ValueError(k)
    return out


def fstr(e, quoted=True):
    t = ""
    for p in e["ps"]:
        if p.get("t"):
            s = p["e"]["v"].replace("\\", "\\\\").replace("$", "\\$")
            t += s.replace('"', '\\"') if quoted else s
        else:
            t += "${" + pe(p["e"]) + "}"
    return '"%s"' % t if quoted else t


def pe(e, p=0):
    k = e["k"]
    if k == "lit":
        t, v = e["t"], e["v"]
        if t == "int":
            return str(v)
        if t == "bool":
            return "True" if v else "False"
        if t == "float":
            return repr(v / 8.0)
        if t == "none":
            return "None"
        return '"%s"' % esc(v)
    if k == "n":
        return e["n"]

    def w(s, q):
        return "(%s)" % s if p > q else s
    if k == "un":
        if e["op"] == "not":
            return w("not " + pe(e["e"], 3), 3)
        return w(e["op"] + pe(e["e"], 8), 7)
    if k == "bin":
        q = PREC[e["op"]]
        return w("%s %s %s" % (pe(e["l"], q), e["op"], pe(e["r"], q + 1)), q)
    if k == "cmp":
        return w(pe(e["l"], 5) + "".join(" %s %s" % (o["op"], pe(o["e"], 5)) for o in e["ops"]), 4)
    if k == "bl":
        q = PREC[e["op"]]
        return w((" %s " % e["op"]).join(pe(x, q + 1) for x in e["es"]), q)
    if k == "list":
        return "{%s}" % ", ".join(pe(x) for x in e["es"])
    if k == "map":
        return "{%s}" % (", ".join("%s: %s" % (pe(a), pe(b)) for a, b in zip(e["ks"], e["vs"])) or ":")
    if k == "sub":
        return "%s[%s]" % (pe(e["o"], 9), pe(e["i"]))
    if k == "meth":
        return "%s.%s(%s)" % (pe(e["o"], 9), e["m"], ", ".join(map(pe, e["as"])))
    if k == "stat":
        f = e["m"]
        f = {"range": "list.range", "repeat": "list.repeat", "geometric": "list.geometric",
             "from_keys": "map.from_keys"}.get(f, f)
        return "%s(%s)" % (f, ", ".join(map(pe, e["as"])))
    if k == "call":
        return "%s(%s)" % (e["f"], ", ".join((a["p"] + "=" if a["kw"] else "") + pe(a["e"]) for a in e["as"]))
    if k == "fs":
        return fstr(e)
    raise ValueError(k)
