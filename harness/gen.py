"""Random generation of Acacia programs (as abstract syntax).

Generated programs are valid and avoid what the language leaves open: the
operands of an operator have no side effects on each other, constant
sub-expressions do not overflow, loops end."""
import random

from astlib import *    # noqa

SMALL = [-9, -5, -3, -2, -1, 0, 1, 2, 3, 4, 5, 7, 9]
SPECIAL = [10, 16, 50, 100, 255, 1000, 4096, 46341, 65536, 99999, 123456789,
           -10, -100, -46341, -65537, IMAX, IMAX - 1, IMIN, IMIN + 1, 1 << 30, -(1 << 30)]


class Bad(Exception):
    pass


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def rng_of(e):
    """Interval of a compile-time integer expression, or None.  Raises Bad if
    evaluating it at compile time could fail."""
    k = e["k"]
    if k == "int":
        return (e["v"], e["v"])
    if k == "v":
        return e.get("_rng")
    if k in ("neg", "pos"):
        r = rng_of(e["e"])
        if r is None:
            return None
        if k == "pos":
            return r
        return chk(-r[1], -r[0])
    if k == "bin" and e["op"] in "+-*/%":
        a, b = rng_of(e["a"]), rng_of(e["b"])
        if e["op"] in "/%" and b is not None and b[0] <= 0 <= b[1]:
            raise Bad
        if a is None or b is None:
            return None
        op = e["op"]
        if op == "+":
            return chk(a[0] + b[0], a[1] + b[1])
        if op == "-":
            return chk(a[0] - b[1], a[1] - b[0])
        if op == "*":
            c = [x * y for x in a for y in b]
            return chk(min(c), max(c))
        if op == "/":
            c = [tdiv(x, y) for x in a for y in b]
            m = max(abs(a[0]), abs(a[1]))
            if a[0] == a[1] and b[0] == b[1]:
                return chk(c[0], c[0])
            return chk(-m, m)
        m = max(abs(a[0]), abs(a[1]))
        if a[0] == a[1] and b[0] == b[1]:
            v = a[0] - b[0] * tdiv(a[0], b[0])
            return (v, v)
        return chk(-m, m)
    if k == "bin":
        a, b = rng_of(e["a"]), rng_of(e["b"])
        if a is None or b is None:
            return None
        m = min if e["op"] == "min" else max
        return (m(a[0], b[0]), m(a[1], b[1]))
    if k == "mfn":
        if e["op"] in ("mod", "floordiv"):
            b = rng_of(e["es"][1])
            if b is not None and b[0] <= 0 <= b[1]:
                raise Bad
        rs = [rng_of(x) for x in e["es"]]
        if e["op"] == "pow" and rs[1] is not None and (rs[1][0] < 0 or rs[1][1] > 60):
            raise Bad
        if any(r is None for r in rs):
            return (1, 1) if e["op"] == "pow" and rs[1] == (0, 0) else None
        if any(r[0] != r[1] for r in rs):
            raise Bad
        vs = [r[0] for r in rs]
        v = {"min": lambda *a: min(a), "max": lambda *a: max(a), "pow": lambda a, b: a ** b,
             "mod": lambda a, b: a % b, "floordiv": lambda a, b: a // b}[e["op"]](*vs)
        return chk(v, v)
    if k == "toint":
        return (0, 1)       # possibly known at compile time
    if k in ("idx", "get", "len", "cc"):
        return e.get("_rng")
    return None


def chk(lo, hi):
    if lo < IMIN or hi > IMAX:
        raise Bad
    return (lo, hi)


def check_consts(e):
    """Raise Bad if any constant sub-expression can fail at compile time."""
    if isinstance(e, dict):
        if e.get("k") in ("bin", "neg", "mfn"):
            rng_of(e)
        for k, v in e.items():
            if not k.startswith("_"):
                check_consts(v)
    elif isinstance(e, (list, tuple)):
        for v in e:
            check_consts(v)


class Sc:
    """Names visible at a point of the program."""
    def __init__(self, vs=(), l=False):
        self.vs = list(vs)
        self.l = l

    def child(self, l):
        # an inline function sees the names of its surroundings unchanged
        return Sc(self.vs, l)

    def of(self, ty, writable=False):
        return [v for v in self.vs if v["_t"] == ty
                and (not writable or v.get("_w", True))]


FEATS_ALL = dict(ints=1.0, bools=0.7, ctrl=0.7, aug=1.0, fn=0.0, inl=0.0, alias=0.0,
                 const=0.0, lists=0.0, structs=0.0, swap=0.0, minmax=0.0)


class Gen:
    def __init__(self, rnd, **feats):
        self.r = rnd
        self.f = dict(FEATS_ALL)
        self.f.update(feats)
        self.p = Program()
        self.nname = 0
        self.nprobe = 0
        self.nmark = 0
        self.lits = []
        self.fns = []            # callable Fn objects, with ._pure
        self.incall = 0
        self.size = 0
        self.structs = {}        # name -> ordered list of (field, type)
        self.needs_math = False
        self.in_fn = None

    # -- helpers
    def ch(self, p):
        return self.r.random() < p

    def name(self, pre="v"):
        self.nname += 1
        return "%s%d" % (pre, self.nname)

    def pick(self, opts):
        """opts: list of (weight, thunk)"""
        opts = [(w, f) for w, f in opts if w > 0]
        t = self.r.random() * sum(w for w, _ in opts)
        for w, f in opts:
            t -= w
            if t <= 0:
                return f()
        return opts[-1][1]()

    # -- int expressions
    def lit(self, small=False):
        v = self.r.choice(SMALL) if small or self.ch(0.75) else self.r.choice(SPECIAL)
        self.lits.append(v)
        form = None
        if v >= 0 and self.ch(0.06):
            form = self.r.choice(["hex", "bin", "oct", "MAX"])
        return Int(v, form)

    def var(self, sc, ty, writable=False):
        c = sc.of(ty, writable)
        if not c:
            return None
        # prefer recent names
        i = max(self.r.randrange(len(c)), self.r.randrange(len(c)))
        v = dict(c[i])
        return v

    def ext(self):
        return Ext(self.r.choice(["a", "b", "c"]), "inp")

    def int_e(self, sc, d):
        for _ in range(40):
            e = self._int_e(sc, d)
            try:
                check_consts(e)
                return e
            except Bad:
                continue
        return Int(1)

    def _int_e(self, sc, d):
        def v():
            x = self.var(sc, "int")
            return x if x is not None else self.lit()
        if d <= 0:
            return self.pick([(3, v), (2, self.lit), (0.3, self.ext)])

        def binop():
            op = self.r.choices(["+", "-", "*", "/", "%"], [4, 4, 3, 2, 2])[0]
            a = self._int_e(sc, d - 1 if self.ch(0.8) else 0)
            b = self._int_e(sc, d - 1 if self.ch(0.6) else 0)
            if op in "/%":
                # mostly divide by something that is not zero
                if self.ch(0.75):
                    b = Int(self.r.choice([2, 3, -2, 5, 7, -3, 10, 16, 1, -1]))
                elif b["k"] == "int" and b["v"] == 0:
                    b = Int(3)
            return Bin(op, a, b)

        def minmax():
            self.needs_math = True
            op = self.r.choice(["min", "max"])
            return Bin(op, self._int_e(sc, d - 1), self._int_e(sc, 0))
        return self.pick([
            (2, v), (1, self.lit), (6, binop),
            (1, lambda: Un("-", self._int_e(sc, d - 1))),
            (0.2, lambda: Un("+", self._int_e(sc, d - 1))),
            (0.6 * self.f["bools"], lambda: ToInt(self.bool_e(sc, d - 1))),
            (self.f["fn"] + self.f["inl"], lambda: self.call_e(sc, "int", d)),
            (self.f["minmax"], minmax),
            (self.f["structs"], lambda: self.field_e(sc, "int")),
        ])

    # -- bool expressions
    def bool_e(self, sc, d):
        def v():
            x = self.var(sc, "bool")
            return x if x is not None else self.cmp_e(sc, d)
        if d <= 0:
            return self.pick([(2, v), (0.3, lambda: Bool(self.ch(0.5))), (2, lambda: self.cmp_e(sc, 0))])

        def conn(mk):
            n = self.r.choice([2, 2, 2, 3])
            return mk(*[self.bool_e(sc, d - 1 if self.ch(0.6) else 0) for _ in range(n)])

        def booleq():
            op = self.r.choice(["==", "!="])
            return Cmp(self.bool_e(sc, d - 1), op, self.bool_e(sc, d - 1))
        return self.pick([
            (2, v), (4, lambda: self.cmp_e(sc, d)), (2.5, lambda: conn(And)),
            (2.5, lambda: conn(Or)), (2, lambda: Not(self.bool_e(sc, d - 1))),
            (1, booleq), (0.2, lambda: Bool(self.ch(0.5))),
            (0.6 * (self.f["fn"] + self.f["inl"]), lambda: self.call_e(sc, "bool", d)),
            (0.6 * self.f["structs"], lambda: self.field_e(sc, "bool")),
        ])

    def cmp_e(self, sc, d):
        def op():
            return self.r.choice(["==", "!=", "<", "<=", ">", ">="])

        def side(k):
            return self.int_e(sc, k)
        a = side(max(0, d - 1) if self.ch(0.5) else 0)
        b = self.lit() if self.ch(0.5) else side(max(0, d - 1) if self.ch(0.4) else 0)
        if self.ch(0.15):
            a, b = b, a
        if self.ch(0.25):
            return Cmp(a, op(), b, op(), side(0))
        return Cmp(a, op(), b)

    def expr(self, sc, ty, d):
        if ty == "int":
            return self.int_e(sc, d)
        if ty == "bool":
            for _ in range(40):
                e = self.bool_e(sc, d)
                try:
                    check_consts(e)
                    return e
                except Bad:
                    continue
            return Bool(True)
        return self.struct_e(sc, ty, d)

    # -- calls
    def call_e(self, sc, ty, d, pure=True):
        c = [f for f in self.fns if f.ret == ty and (f._pure or not pure)]
        if self.in_fn is not None:
            c = [f for f in c if f._level < self.in_fn]
        if not c or self.incall >= 3:
            if ty in ("int", "bool"):
                x = self.var(sc, ty)
                return x if x is not None else (self.lit() if ty == "int" else Bool(True))
            return self.struct_e(sc, ty, 0)
        return self.call(sc, self.r.choice(c), d)

    def call(self, sc, f, d):
        self.incall += 1
        args = []
        kw = set()
        for p in f.params:
            t = f.ptypes[p]
            port = f.ports[p]
            if p in f.dflt and self.ch(0.4):
                # every later positional argument must be named
                kw |= set(f.params[f.params.index(p):])
                continue
            if port == "ref":
                e = self.var(sc, t, True)
                if e is None:
                    raise Bad
                args.append((p, e))
            elif port == "const":
                args.append((p, self.const_arg(sc, t, f._crng.get(p))))
            else:
                args.append((p, self.expr(sc, t, min(d - 1, 2) if d else 0)))
        self.incall -= 1
        if args and self.ch(0.25):
            cut = self.r.randrange(len(args))
            kw |= {p for p, _ in args[cut:]}
        named = [a for a in args if a[0] in kw]
        pos = [a for a in args if a[0] not in kw]
        if self.ch(0.3):
            self.r.shuffle(named)
        e = Call(f.name, pos + named, kw, f.ret)
        if f.rp == "const" and f.kind == "inline" and f.ret == "int":
            e["_rng"] = f._rrng
        return e

    def const_arg(self, sc, t, rng=None):
        if t == "bool":
            return Bool(self.ch(0.5))
        lo, hi = rng or (-9, 9)
        return Int(self.r.randint(lo, hi))

    # -- structs
    def field_e(self, sc, ty):
        x = self.lv_struct_field(sc, ty, False)
        if x is None:
            x = self.var(sc, ty)
        if x is None:
            x = self.lit() if ty == "int" else Bool(False)
        return x

    def lv_struct_field(self, sc, ty, writable):
        opts = []
        for v in sc.vs:
            if v["_t"] in self.structs and (not writable or v.get("_w", True)):
                self._paths(v, v["_t"], ty, opts)
        return self.r.choice(opts) if opts else None

    def _paths(self, e, st, ty, out):
        for f, t in self.structs[st]:
            x = Fld(dict(e), f, t)
            if t == ty:
                out.append(x)
            if t in self.structs:
                self._paths(x, t, ty, out)

    def struct_e(self, sc, ty, d):
        def v():
            x = self.var(sc, ty)
            if x is None or self.ch(0.3):
                x = self.lv_struct_field(sc, ty, False) or x
            return x if x is not None else ctor()

        def ctor():
            fs = [(f, self.expr(sc, t, max(0, min(d, 2) - 1))) for f, t in self.structs[ty]]
            if self.ch(0.3):
                self.r.shuffle(fs)
            return Sctor(ty, fs)
        return self.pick([(2, v), (2, ctor),
                          (1.5 * (self.f["fn"] + self.f["inl"]) if d > 0 else 0,
                           lambda: self.call_e(sc, ty, d))])

    def add_structs(self, n):
        for _ in range(n):
            nm = self.name("S")
            fs = []
            base = None
            if self.structs and self.ch(0.35):
                base = self.r.choice(list(self.structs))
            for i in range(self.r.choice([1, 2, 2, 3])):
                t = self.r.choice(["int", "int", "bool"])
                if self.structs and self.ch(0.3):
                    t = self.r.choice(list(self.structs))
                fs.append((self.name("f"), t))
            lines = ["struct %s%s:" % (nm, " extends " + base if base else "")]
            lines += ["    %s: %s" % (f, t) for f, t in fs]
            self.p.pre += lines
            self.structs[nm] = (self.structs[base] if base else []) + fs

    # -- statements
    def lvalue(self, sc, ty):
        def v():
            return self.var(sc, ty, True)

        def f():
            return self.lv_struct_field(sc, ty, True)
        for _ in range(3):
            x = self.pick([(2, v), (2 * self.f["structs"], f)])
            if x is not None:
                return x
        return None

    def types(self, store=True):
        ts = ["int"] * 4 + (["bool"] * 2 if self.f["bools"] else [])
        if self.f["structs"] and self.structs:
            ts += list(self.structs) * 2
        return ts

    def declare(self, sc, ty, e=None, d=2):
        e = e or self.expr(sc, ty, d)
        n = self.name()
        s = Decl(n, e, sc.l, ty if self.ch(0.4) else None)
        x = s["x"]
        x["_t"] = ty
        x["ty"] = V(n, ty)["ty"]
        sc.vs.append(dict(x))
        return s

    def mark(self):
        self.nmark += 1
        return Say("m%d" % self.nmark)

    def probe_any(self, sc):
        out = []
        c = [v for v in sc.vs if v["_t"] in ("int", "bool")]
        fs = []
        for v in sc.vs:
            if v["_t"] in self.structs:
                self._paths(v, v["_t"], "int", fs)
                self._paths(v, v["_t"], "bool", fs)
        if fs and self.ch(0.6):
            c = fs
        if not c:
            return [self.mark()]
        for _ in range(self.r.choice([1, 1, 2])):
            out.append(Probe(self.r.randint(1, 8), dict(self.r.choice(c))))
        self.nprobe = 8
        out.append(self.mark())
        return out

    def stmts(self, sc, n, depth, pure=False):
        out = []
        for _ in range(n):
            k = len(sc.vs)
            try:
                out += self.stmt(sc, depth, pure)
            except Bad:
                del sc.vs[k:]
        return out

    def writable(self, sc, pure):
        """In a pure function only its own names may be written."""
        if not pure:
            return sc
        s = Sc([v for v in sc.vs if v.get("_own")], sc.l)
        return s

    def stmt(self, sc, depth, pure):
        def assign():
            ty = self.r.choice(self.types())
            w = self.writable(sc, pure)
            x = self.lvalue(w, ty)
            if x is None:
                return decl()
            e = self.expr(sc, ty, 3)
            s = Set(x, e)
            return [s]

        def decl():
            k = len(sc.vs)
            s = self.declare(sc, self.r.choice(self.types()), d=3)
            sc.vs[k]["_own"] = True
            return [s]

        def aug():
            x = self.lvalue(self.writable(sc, pure), "int")
            if x is None:
                return decl()
            op = self.r.choices(["+", "-", "*", "/", "%"], [4, 4, 2, 1, 1])[0]
            for _ in range(20):
                e = self.int_e(sc, 2)
                if op in "/%" and self.ch(0.7):
                    e = Int(self.r.choice([2, 3, -2, 5, 7, -3, 10]))
                try:
                    check_consts(Bin(op, x, e))
                    break
                except Bad:
                    e = Int(2)
            return [Aug(x, op, e)]

        def iff():
            c = self.expr(sc, "bool", 2)
            k = len(sc.vs)
            t = self.stmts(sc, self.r.randint(1, 3), depth - 1, pure)
            del sc.vs[k:]
            if not pure and self.ch(0.4):
                t.append(self.mark())
            e = []
            if self.ch(0.6):
                e = self.stmts(sc, self.r.randint(1, 3), depth - 1, pure)
                if not pure and self.ch(0.4):
                    e.append(self.mark())
                del sc.vs[k:]
                if len(e) == 1 and e[0]["k"] == "if":
                    return [If(c, t, e, True)]
            return [If(c, t, e)]

        def whilee():
            i = self.name("i")
            init = Decl(i, Int(0), sc.l)
            iv = V(i, "int", sc.l)
            cond = Cmp(iv, "<", Int(self.r.randint(1, 3)))
            if self.ch(0.5):
                cond = And(cond, self.expr(sc, "bool", 2))
                if self.ch(0.3):
                    cond["es"].reverse()
            k = len(sc.vs)
            sc.vs.append(dict(iv, _w=False))
            body = self.stmts(sc, self.r.randint(1, 3), depth - 1, pure)
            del sc.vs[k:]
            if not pure and self.ch(0.5):
                body.append(self.mark())
            body.insert(self.r.randint(0, len(body)), Aug(iv, "+", Int(1)))
            return [init, While(cond, body)]

        def probe():
            if pure:
                return decl()
            return self.probe_any(sc)

        def callst():
            c = [f for f in self.fns if (not pure or f._pure)
                 and (self.in_fn is None or f._level < self.in_fn)]
            if not c:
                return assign()
            f = self.r.choice(c)
            e = self.call(self.argscope(sc, pure), f, 2)
            if f.ret == "none" or self.ch(0.2):
                return [ExprS(e)]
            if self.ch(0.5) and f.rp != "const":
                x = self.lvalue(self.writable(sc, pure), f.ret)
                if x is not None:
                    return [Set(x, e)]
            k = len(sc.vs)
            s = self.declare(sc, f.ret, e)
            sc.vs[k]["_own"] = True
            return [s]

        def alias():
            ty = self.r.choice(self.types())
            e = self.lvalue(self.writable(sc, pure), ty)
            if e is None:
                return decl()
            n = self.name("r")
            s = Ref(n, e, sc.l, ty if self.ch(0.4) else None)
            v = V(n, ty, sc.l)
            v["_own"] = True
            sc.vs.append(v)
            return [s]

        def const():
            n = self.name("k")
            if self.ch(0.8):
                for _ in range(20):
                    e = self.const_int(sc, 2)
                    try:
                        rg = rng_of(e)
                        break
                    except Bad:
                        continue
                else:
                    e = Int(2)
                    rg = (2, 2)
                ty = "int"
            else:
                e, ty, rg = Bool(self.ch(0.5)), "bool", None
            s = Const(n, e, sc.l)
            v = V(n, ty, sc.l)
            v["_w"] = False
            v["_rng"] = rg
            v["_c"] = True
            sc.vs.append(v)
            return [s]

        def fors():
            n = self.name("e")
            c = self.r.random()
            k = len(sc.vs)
            v = V(n, "int", sc.l)
            if c < 0.5:
                vals = [self.r.randint(-9, 9) for _ in range(self.r.randint(0, 3))]
                it = List([Int(x) for x in vals])
                v["_w"] = False
                v["_rng"] = (min(vals), max(vals)) if vals else (0, 0)
            elif c < 0.7:
                a = self.r.randint(-2, 3)
                b = a + self.r.randint(0, 3)
                it = Rng(a, b)
                v["_w"] = False
                v["_rng"] = (a, max(a, b - 1))
            else:
                x = self.lvalue(self.writable(sc, pure), "int")
                if x is None:
                    return decl()
                it = Repeat(x, self.r.randint(0, 3), True)
                v["_own"] = True
            v["_c"] = True
            sc.vs.append(v)
            # names declared in the body are declared once per expansion:
            # keep the body free of declarations
            body = self.nodecl(sc, pure)
            del sc.vs[k:]
            return [For(n, it, body, sc.l)]

        def swap():
            ty = self.r.choice(self.types())
            w = self.writable(sc, pure)
            a, b = self.lvalue(w, ty), self.lvalue(w, ty)
            if a is None or b is None:
                return decl()
            self.uses_swap = True
            return [Swap(a, b)]
        c = self.f["ctrl"] if depth > 0 else 0
        return self.pick([
            (3, assign), (2.2, decl), (2 * self.f["aug"], aug), (3 * c, iff), (1.2 * c, whilee),
            (1.2, probe), (2.0 * (self.f["fn"] + self.f["inl"]), callst),
            (1.2 * self.f["alias"], alias), (1.0 * self.f["const"], const),
            (1.2 * self.f["lists"], fors), (0.8 * self.f["swap"], swap)])

    def argscope(self, sc, pure):
        """Scope whose writable names a pure function may pass by reference."""
        if not pure:
            return sc
        return Sc([v if v.get("_own") else dict(v, _w=False) for v in sc.vs], sc.l)

    def nodecl(self, sc, pure):
        out = []
        for _ in range(self.r.randint(1, 2)):
            ty = self.r.choice(["int", "int", "bool"])
            x = self.lvalue(self.writable(sc, pure), ty)
            if x is None:
                if not pure:
                    out.append(self.mark())
                continue
            if ty == "int" and self.ch(0.5):
                s = Aug(x, self.r.choice("+-*"), self.int_e(sc, 1))
            else:
                s = Set(x, self.expr(sc, ty, 2))
            if self.ch(0.4):
                s = If(self.expr(sc, "bool", 1), [s])
            out.append(s)
        if not pure and self.ch(0.5):
            out.append(self.mark())
        return out or [PASS]

    def const_int(self, sc, d):
        cs = [v for v in sc.vs if v.get("_c") and v["_t"] == "int" and v.get("_rng")]
        if d <= 0 or self.ch(0.3):
            if cs and self.ch(0.5):
                return dict(self.r.choice(cs))
            return Int(self.r.randint(-9, 9))
        return Bin(self.r.choice("+-*/%"), self.const_int(sc, d - 1), self.const_int(sc, d - 1))

    # -- functions
    def extra_rets(self):
        return []

    def add_fn(self, sc, kind, level):
        pure = self.ch(0.6)
        n = self.name("f")
        params, ptypes, ports, dflt, crng = [], {}, {}, {}, {}
        ret = self.r.choice(["int", "int", "int", "bool", "none"]
                            + (list(self.structs) if self.f["structs"] else [])
                            + self.extra_rets())
        rp = "val"
        if ret == "none":
            pure = False
        local = Sc(sc.vs, kind == "inline")
        for v in local.vs:
            v.pop("_own", None)
        local.vs = [dict(v) for v in local.vs]
        for _ in range(self.r.choice([0, 1, 1, 2, 2, 3])):
            p = self.name("p")
            t = self.r.choice(self.types())
            port = "val"
            if kind == "inline":
                port = self.r.choices(["val", "ref", "const"], [4, 2, 2])[0]
                if t not in ("int", "bool") and port == "const":
                    port = "val"
            params.append(p)
            ptypes[p] = t
            ports[p] = port
            v = V(p, t, kind == "inline")
            v["_own"] = True
            if port == "const":
                crng[p] = (-5, 5)
                v["_w"] = False
                v["_c"] = True
                if t == "int":
                    v["_rng"] = crng[p]
            if port == "ref" and pure:
                v["_w"] = False
            local.vs.append(v)
        # defaults on a suffix of the parameters
        if params and self.ch(0.35):
            for p in reversed(params):
                if ptypes[p] in ("int", "bool") and ports[p] != "ref" and self.ch(0.7):
                    dflt[p] = Int(self.r.choice(SMALL[:5] if ports[p] != "val" else SMALL)) \
                        if ptypes[p] == "int" else Bool(self.ch(0.5))
                    if ports[p] == "const" and ptypes[p] == "int":
                        dflt[p] = Int(self.r.randint(-5, 5))
                else:
                    break
        if kind == "inline" and ret in ("int", "bool") and self.ch(0.25):
            refs = [v for v in local.vs if v["_t"] == ret and v.get("_w", True)
                    and not v.get("_c") and not pure]
            if refs:
                rp = "ref"
        old_in, self.in_fn = self.in_fn, level
        body = self.stmts(local, self.r.randint(1, 4), 1, pure)
        if ret != "none":
            if rp == "ref":
                body.append(Result(dict(self.r.choice(refs))))
            else:
                if self.ch(0.35):
                    body.append(If(self.expr(local, "bool", 1),
                                   [Result(self.expr(local, ret, 2))],
                                   [Result(self.expr(local, ret, 2))]))
                else:
                    body.append(Result(self.expr(local, ret, 2)))
                if self.ch(0.2) and kind != "inline":
                    body.append(If(self.expr(local, "bool", 1), [Result(self.expr(local, ret, 1))]))
        self.in_fn = old_in
        f = Fn(n, params, body, ret, kind, ports, dflt, rp, ptypes, anno=self.ch(0.7))
        f._pure = pure
        f._level = level
        f._crng = crng
        f._rrng = None
        self.p.add_fn(f)
        self.fns.append(f)
        return f

    # -- whole programs
    def program(self, nst=8, nfn=0, nstruct=0, depth=2, ninp=6, iface=0):
        p = self.p
        if nstruct:
            self.add_structs(nstruct)
        sc = Sc()
        pend = nfn
        # a few inputs read into variables
        for nm in ("a", "b", "c")[:self.r.choice([2, 3])]:
            s = self.declare(sc, "int", Ext(nm, "inp"))
            p.items.append(s)
        if self.f["bools"] and self.ch(0.5):
            p.items.append(self.declare(sc, "bool", d=1))
        for st in self.structs:
            if self.ch(0.7):
                p.items.append(self.declare(sc, st, d=1))
        for i in range(nst):
            while pend and self.ch(pend / float(max(1, nst - i))):
                kind = "def"
                if self.f["inl"] and (not self.f["fn"] or self.ch(
                        self.f["inl"] / (self.f["inl"] + self.f["fn"]))):
                    kind = "inline"
                try:
                    self.add_fn(sc, kind, len(self.fns) + 1)
                except Bad:
                    self.incall = 0
                    self.in_fn = None
                pend -= 1
            k = len(sc.vs)
            try:
                p.items += self.stmt(sc, depth, False)
            except Bad:
                self.incall = 0
                del sc.vs[k:]
        ifs = []
        for i in range(iface):
            body = self.stmts(Sc(sc.vs), self.r.randint(1, 4), 1, False)
            body += self.final_probes(sc)
            ifs.append(("iface", "if%d" % i if self.ch(0.5) else "dir/if%d" % i, body))
        p.items += self.final_probes(sc)
        p.items += ifs
        if iface:
            p.depth = 3
        self.finish(ninp)
        return p

    def final_probes(self, sc):
        out = []
        lv = []
        for v in sc.vs:
            if v["_t"] in ("int", "bool"):
                lv.append(dict(v))
            elif v["_t"] in self.structs:
                self._paths(v, v["_t"], "int", lv)
                self._paths(v, v["_t"], "bool", lv)
        if len(lv) > 8:
            lv = self.r.sample(lv, 8)
        for i, v in enumerate(lv):
            out.append(Probe(i + 1, v))
        self.nprobe = 8
        out.append(self.mark())
        return out

    def finish(self, ninp=6):
        p = self.p
        p.obs = ["p%d obs" % i for i in range(1, 9)]
        if self.needs_math:
            p.pre.insert(0, "import math")
        vals = []
        for v in self.lits:
            vals += [v, v + 1, v - 1]
        vals = [v for v in vals if IMIN <= v <= IMAX] + [0, 1, -1, 5, IMIN, IMAX]
        for _ in range(ninp):
            vec = {}
            for nm in ("a", "b", "c"):
                c = self.r.random()
                vec[nm] = self.r.choice(vals) if c < 0.6 else (
                    self.r.randint(-12, 12) if c < 0.9 else self.r.randint(IMIN, IMAX))
            p.inputs.append(vec)
