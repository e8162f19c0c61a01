"""Systematic small programs: every combination of operand kinds, operators
and targets, packed several to a program."""
import random

from astlib import *    # noqa
from gen import check_consts, Bad, rng_of

INPS = ("a", "b", "c")


class Packer:
    """Collects snippets (lists of statements) and packs them in programs.
    A snippet ends with probes of what it computed."""
    def __init__(self, prefix, per=10, pre=(), fns=(), setup=None, extra_inputs=()):
        self.prefix, self.per = prefix, per
        self.pre, self.fns, self.setup = list(pre), list(fns), setup
        self.snips = []
        self.extra = list(extra_inputs)

    def add(self, snip):
        self.snips.append(snip)

    def programs(self, rnd, limit=None, vecs=None):
        snips = self.snips
        if limit and len(snips) > limit:
            snips = rnd.sample(snips, limit)
        out = []
        for i in range(0, len(snips), self.per):
            p = Program()
            p.pre += self.pre
            for f in self.fns:
                p.add_fn(f)
            if self.setup:
                p.items += self.setup()
            k = 0
            for sn in snips[i:i + self.per]:
                k += 1
                p.items += sn
                p.items.append(Say("m%d" % k))
            p.obs = ["p%d obs" % j for j in range(1, 9)]
            p.inputs = vecs(rnd) if vecs else vectors(rnd, self.extra)
            out.append(("%s%d" % (self.prefix, i // self.per), p))
        return out


VALS = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 17, -25, 100, 4096, 46341, -46341, 65536,
        IMAX, IMIN, IMAX - 1, IMIN + 1, 1 << 30]


def vectors(rnd, extra=(), n=5):
    vals = VALS + list(extra)
    out = []
    for i in range(n):
        if i < 2:
            out.append({k: rnd.randint(-20, 20) or 3 for k in INPS})
        else:
            out.append({k: rnd.choice(vals) for k in INPS})
    return out


def setup():
    """va, vb, vc from the inputs; struct variable sv with fields; bools."""
    return [Decl("va", Ext("a", "inp")), Decl("vb", Ext("b", "inp")),
            Decl("vc", Ext("c", "inp")),
            Decl("ba", Cmp(V("va"), ">", Int(0))), Decl("bb", Cmp(V("vb"), ">", Int(0))),
            Decl("sv", Sctor("Sx", [("fi", V("vb")), ("fb", V("ba", "bool"))]))]


PRE = ["struct Sx:", "    fi: int", "    fb: bool", "import math"]
SV = V("sv", "Sx")


def fns():
    f = Fn("dbl", ["pd"], [Result(Bin("+", V("pd"), V("pd")))], "int")
    g = Fn("inc", ["pi"], [Result(Bin("+", V("pi", l=True), Int(1)))], "int", "inline")
    h = Fn("big", ["pb"], [Result(Cmp(V("pb"), ">", Int(4)))], "bool")
    return [f, g, h]


def int_kinds():
    va, vb, vc = V("va"), V("vb"), V("vc")
    return {
        "lit": lambda: Int(3), "neglit": lambda: Int(-7), "zero": lambda: Int(0),
        "one": lambda: Int(1), "m1": lambda: Int(-1),
        "max": lambda: Int(IMAX), "min": lambda: Int(IMIN),
        "a": lambda: va, "b": lambda: vb, "c": lambda: vc,
        "fld": lambda: Fld(SV, "fi"), "ext": lambda: Ext("c", "inp"),
        "sum": lambda: Bin("+", vb, vc), "dif": lambda: Bin("-", Int(5), va),
        "prod": lambda: Bin("*", va, Int(3)), "neg": lambda: Neg(va),
        "divl": lambda: Bin("/", vb, Int(4)), "call": lambda: Call("dbl", [("pd", vb)]),
        "icall": lambda: Call("inc", [("pi", vc)]), "int": lambda: ToInt(V("ba", "bool")),
        "intc": lambda: ToInt(Cmp(va, "<", vb)),
        "deep": lambda: Bin("-", Bin("*", va, vb), Bin("%", vc, Int(7))),
        "mm": lambda: Bin("max", va, vb),
    }


def bool_kinds():
    ba, bb = V("ba", "bool"), V("bb", "bool")
    va, vb = V("va"), V("vb")
    return {
        "t": lambda: Bool(True), "f": lambda: Bool(False), "ba": lambda: ba, "bb": lambda: bb,
        "nba": lambda: Not(ba), "fld": lambda: Fld(SV, "fb", "bool"),
        "lt": lambda: Cmp(va, "<", Int(2)), "eq": lambda: Cmp(va, "==", vb),
        "ne": lambda: Cmp(va, "!=", vb), "nel": lambda: Cmp(vb, "!=", Int(1)),
        "chain": lambda: Cmp(Int(-2), "<=", va, "<", vb),
        "and": lambda: And(ba, Cmp(vb, ">=", Int(0))), "or": lambda: Or(bb, Cmp(va, "<", vb)),
        "nand": lambda: Not(And(ba, bb)), "nor": lambda: Not(Or(ba, Cmp(va, "==", Int(0)))),
        "beq": lambda: Cmp(ba, "==", bb), "bne": lambda: Cmp(ba, "!=", Cmp(va, "<", vb)),
        "call": lambda: Call("big", [("pb", va)], ty="bool"),
        "oa": lambda: Or(And(ba, bb), And(Not(ba), Cmp(vb, ">", Int(3)))),
        "ao": lambda: And(Or(ba, bb), Or(Not(bb), Cmp(va, "<=", Int(3)))),
    }


def ok(e):
    try:
        check_consts(e)
        return True
    except Bad:
        return False


def int_ops():
    """every operator over every pair of operand kinds and targets"""
    k = int_kinds()
    out = []
    for op in ("+", "-", "*", "/", "%", "min", "max"):
        for a in k:
            for b in k:
                ea, eb = k[a](), k[b]()
                e = Bin(op, ea, eb)
                if not ok(e):
                    continue
                if op in "/%" and b in ("zero",):
                    continue
                const = rng_of(e) is not None
                for tgt in ("new", "old", "left", "ext", "aug", "fld"):
                    out.append((op, a, b, tgt, e, const))
    return out


_n = [0]


def fresh(pre="t"):
    _n[0] += 1
    return "%s%d" % (pre, _n[0])


def int_snip(item):
    op, a, b, tgt, e, const = item
    k = int_kinds()
    if tgt == "new":
        n = fresh()
        return [Decl(n, e), Probe(1, V(n))]
    if tgt == "old":
        n = fresh()
        return [Decl(n, Int(9)), Set(V(n), e), Probe(1, V(n))]
    if tgt == "left":       # the target is also an operand
        return [Set(V("va"), e), Probe(1, V("va")), Set(V("va"), Ext("a", "inp"))]
    if tgt == "ext":
        return [Set(Ext("p1", "obs"), e)]
    if tgt == "fld":
        return [Set(Fld(SV, "fi"), e), Probe(1, Fld(SV, "fi")), Set(Fld(SV, "fi"), V("vb"))]
    if tgt == "aug" and op in "+-*/%":
        return [Aug(V("vb"), op, k[b]()), Probe(1, V("vb")), Set(V("vb"), Ext("b", "inp"))]
    n = fresh()
    return [Decl(n, Neg(e) if ok(Neg(e)) else e), Probe(1, V(n))]


def bool_snips(rnd, n):
    """boolean expression in every context"""
    k = bool_kinds()
    ks = list(k)
    ik = int_kinds()
    iks = list(ik)
    out = []

    def ctxs(mk):
        c = rnd.randrange(9)
        e = mk()
        if c == 0:
            x = fresh()
            return [Decl(x, e), Probe(1, V(x, "bool"))]
        if c == 1:
            return [If(e, [Probe(1, Int(1))], [Probe(1, Int(2))])]
        if c == 2:
            return [Probe(1, Int(0)), If(e, [Probe(1, Int(1))])]
        if c == 3:
            return [Probe(1, ToInt(e))]
        if c == 4:
            x = fresh()
            return [Decl(x, Bool(True)), Set(V(x, "bool"), Not(e)), Probe(1, V(x, "bool"))]
        if c == 5:
            return [Set(V("ba", "bool"), e), Probe(1, V("ba", "bool")),
                    Set(V("ba", "bool"), Cmp(V("va"), ">", Int(0)))]
        if c == 6:
            x = fresh("i")
            return [Decl(x, Int(0)),
                    While(And(Cmp(V(x), "<", Int(2)), e), [Aug(V(x), "+", Int(1))]),
                    Probe(1, V(x))]
        if c == 7:
            return [Set(Fld(SV, "fb", "bool"), e), Probe(1, Fld(SV, "fb", "bool")),
                    Set(Fld(SV, "fb", "bool"), V("ba", "bool"))]
        return [If(Not(e), [Probe(1, Int(1))], [If(e, [Probe(1, Int(5))])])]
    pool = []
    for a in ks:
        pool.append(lambda a=a: k[a]())
        pool.append(lambda a=a: Not(k[a]()))
        for b in ks:
            for m in ("and", "or", "==", "!="):
                if m in ("and", "or"):
                    pool.append(lambda a=a, b=b, m=m: (And if m == "and" else Or)(k[a](), k[b]()))
                    pool.append(lambda a=a, b=b, m=m: Not((And if m == "and" else Or)(k[a](), k[b]())))
                else:
                    pool.append(lambda a=a, b=b, m=m: Cmp(k[a](), m, k[b]()))
    for a in iks:
        for b in iks:
            for op in ("==", "!=", "<", "<=", ">", ">="):
                pool.append(lambda a=a, b=b, op=op: Cmp(ik[a](), op, ik[b]()))
    rnd.shuffle(pool)
    for f in pool[:n]:
        if ok(f()):
            out.append(ctxs(f))
    return out


def range_snips(n, rnd):
    """Conditions over two small variables, with constants close to each other,
    nested: what happens when ranges of one variable meet."""
    va, vb, ba = V("va"), V("vb"), V("ba", "bool")

    def leaf():
        c = rnd.random()
        x = va if rnd.random() < 0.7 else vb
        k = Int(rnd.randint(-1, 6))
        op = rnd.choice(["==", "!=", "<", "<=", ">", ">="])
        if c < 0.62:
            return Cmp(x, op, k) if rnd.random() < 0.85 else Cmp(k, op, x)
        if c < 0.74:
            return Cmp(Int(rnd.randint(-1, 4)), rnd.choice(["<", "<=", "!="]), x,
                       rnd.choice(["<", "<=", "!=", "=="]), Int(rnd.randint(1, 6)))
        if c < 0.82:
            return Cmp(va, op, vb)
        if c < 0.95:
            return ba
        return Bool(rnd.random() < 0.5)

    def tree(d):
        if d == 0:
            return leaf()
        c = rnd.random()
        m = rnd.choice([2, 2, 3])
        es = [tree(d - 1 if rnd.random() < 0.6 else 0) for _ in range(m)]
        if c < 0.45:
            return And(*es)
        if c < 0.75:
            return Or(*es)
        if c < 0.93:
            return Not(tree(d - 1))
        return Cmp(es[0], rnd.choice(["==", "!="]), es[1])
    out = []
    while len(out) < n:
        e = tree(rnd.choice([1, 2, 2, 3]))
        c = rnd.randrange(4)
        if c == 0:
            out.append([If(e, [Probe(1, Int(1))], [Probe(1, Int(2))])])
        elif c == 1:
            out.append([Probe(1, ToInt(e))])
        elif c == 2:
            out.append([Probe(1, Int(0)), If(Not(e), [Probe(1, Int(1))])])
        else:
            x = fresh()
            out.append([Decl(x, e), Probe(1, V(x, "bool"))])
    return out


def small_vectors(rnd, n=9):
    return [{"a": rnd.randint(-2, 7), "b": rnd.randint(-2, 7), "c": rnd.randint(-2, 7)} for _ in range(n)]


def dense(rnd, nfn=4, nst=8, depth=2, inline=0.25):
    """Programs whose statements all work on the same few variables, through
    functions that call each other: every condition is likely to be changed
    while it still matters."""
    p = Program()
    gs = ["g1", "g2", "g3"]
    bs = ["b1", "b2"]
    mk = [0]
    made = []

    def mark():
        mk[0] += 1
        return Say("m%d" % mk[0])

    def v(l):
        return V(rnd.choice(gs), "int", l)

    def cond(l):
        c = rnd.random()
        op = rnd.choice(["==", "!=", "<", "<=", ">", ">="])
        if c < 0.3:
            return Cmp(v(l), op, Int(rnd.randint(-1, 5)))
        if c < 0.6:
            return Cmp(v(l), op, v(l))
        if c < 0.75:
            x = V(rnd.choice(bs), "bool", l)
            return x if rnd.random() < 0.6 else Not(x)
        if c < 0.85:
            return And(cond(l), cond(l))
        if c < 0.95:
            return Or(cond(l), cond(l))
        return Cmp(Bin("+", v(l), v(l)), op, Int(rnd.randint(0, 6)))

    def stmt(d, level, l):
        c = rnd.random()
        if c < 0.14:
            return [Set(v(l), Int(rnd.randint(-1, 5)))]
        if c < 0.28:
            return [Aug(v(l), rnd.choice("+-+-*"), Int(rnd.randint(1, 3)))]
        if c < 0.36:
            return [Set(v(l), rnd.choice([v(l), Bin(rnd.choice("+-"), v(l), v(l))]))]
        if c < 0.44:
            return [Set(V(rnd.choice(bs), "bool", l), cond(l))]
        if c < 0.5:
            return [mark()]
        if c < 0.72 and level > 0:
            f = rnd.choice(made[:level])
            return [ExprS(Call(f.name, [], ty="none"))]
        if d > 0 and c < 0.92:
            t = stmts(rnd.randint(1, 3), d - 1, level, l)
            e = stmts(rnd.randint(1, 2), d - 1, level, l) if rnd.random() < 0.45 else []
            return [If(cond(l), t, e)]
        if d > 0 and c < 0.97:
            w = "w%d" % mk[0]
            mk[0] += 1
            return [Decl(w, Int(0), l), While(And(Cmp(V(w, "int", l), "<", Int(2)), cond(l)),
                                           [Aug(V(w, "int", l), "+", Int(1))] + stmts(rnd.randint(1, 2), d - 1, level, l))]
        return [Aug(v(l), "+", Int(1))]

    def stmts(n, d, level, l):
        out = []
        for _ in range(n):
            out += stmt(d, level, l)
        return out
    for i, g in enumerate(gs):
        p.items.append(Decl(g, Ext("abc"[i], "inp")))
    for b in bs:
        p.items.append(Decl(b, Cmp(V(rnd.choice(gs)), "<", Int(3))))
    for i in range(nfn):
        kind = "inline" if rnd.random() < inline else "def"
        # globals keep instance 0 inside inline functions too
        f = Fn("f%d" % i, [], stmts(rnd.randint(1, 4), 1, i, False) if kind == "def"
               else strip_decl(stmts(rnd.randint(1, 3), 1, i, False)), "none", kind)
        p.add_fn(f)
        made.append(f)
    p.items += stmts(nst, depth, nfn, False)
    for i, g in enumerate(gs):
        p.items.append(Probe(i + 1, V(g)))
    for i, b in enumerate(bs):
        p.items.append(Probe(i + 4, V(b, "bool")))
    p.items.append(mark())
    p.obs = ["p%d obs" % j for j in range(1, 9)]
    p.inputs = small_vectors(rnd, 4)
    return p


def strip_decl(ss):
    """an inline body must not hold names of its own here"""
    return [s for s in ss if not s.get("_decl") and s["k"] != "while"]


def calls(rnd, nfn=3, nst=6):
    """Pure functions called in the middle of expressions: what the caller has
    already computed must survive the call, whatever the function computes."""
    r = rnd
    p = Program()
    p.items += [Decl("a", Ext("a", "inp")), Decl("b", Ext("b", "inp"))]
    fs = []

    def expr(atoms, d, ty="int"):
        if ty == "bool":
            c = r.random()
            if d <= 0 or c < 0.35:
                return Cmp(expr(atoms, d - 1), r.choice(["<", ">", "==", "!=", "<=", ">="]), expr(atoms, d - 1))
            if c < 0.8:
                return (And if r.random() < 0.5 else Or)(*[expr(atoms, d - 1, "bool") for _ in range(r.choice([2, 2, 3]))])
            if c < 0.88:
                return Not(expr(atoms, d - 1, "bool"))
            bf = [f for f in fs if f.ret == "bool"]
            if bf:
                return call(r.choice(bf), atoms, d)
            return expr(atoms, d - 1, "bool")
        c = r.random()
        if d <= 0:
            return r.choice(atoms)() if c < 0.75 else Int(r.randint(-5, 9))
        if c < 0.5:
            return Bin(r.choice("+-*+-*"), expr(atoms, d - 1), expr(atoms, d - 1))
        if c < 0.57:
            return ToInt(expr(atoms, d - 1, "bool"))
        if c < 0.62:
            return Neg(expr(atoms, d - 1))
        nf = [f for f in fs if f.ret == "int"]
        if nf:
            return call(r.choice(nf), atoms, d)
        return Bin("*", expr(atoms, d - 1), expr(atoms, d - 1))

    def call(f, atoms, d):
        return Call(f.name, [(q, expr(atoms, d - 1, f.ptypes[q])) for q in f.params], ty=f.ret)

    for i in range(nfn):
        n = "f%d" % i
        ps = ["%sx" % n, "%sy" % n][:r.choice([1, 2])]
        pt = {q: "int" if r.random() < 0.75 else "bool" for q in ps}
        at = [lambda q=q: V(q, l=True) for q in ps if pt[q] == "int"] or [lambda: V("a")]
        body, loc = [], []
        for j in range(r.randint(0, 2)):
            v = "%sv%d" % (n, j)
            body.append(Decl(v, expr(at, 2), l=True))
            at = at + [lambda v=v: V(v, l=True)]
            loc.append(v)
        bq = [q for q in ps if pt[q] == "bool"]
        ret = "int" if r.random() < 0.7 else "bool"
        if r.random() < 0.5:
            c = V(r.choice(bq), "bool", True) if bq and r.random() < 0.5 else expr(at, 1, "bool")
            body.append(If(c, [Result(expr(at, 2, ret))], [Result(expr(at, 2, ret))]))
        else:
            body.append(Result(expr(at, 2, ret)))
        kind = "inline" if r.random() < 0.15 else "def"
        if kind == "def":
            strip_local(body)
        f = Fn(n, ps, body, ret=ret, ptypes=pt, kind=kind)
        p.add_fn(f)
        fs.append(f)
    at = [lambda: V("a"), lambda: V("b"), lambda: Ext("c", "inp")]
    for j in range(nst):
        if r.random() < 0.65:
            v = "s%d" % j
            p.items.append(Decl(v, expr(at, r.choice([2, 3, 3]))))
            at.append(lambda v=v: V(v))
            p.items.append(Probe(1 + j % 7, V(v)))
        elif r.random() < 0.5:
            p.items.append(Decl("t%d" % j, expr(at, 2, "bool")))
            p.items.append(Probe(1 + j % 7, V("t%d" % j, "bool")))
        else:
            p.items.append(If(expr(at, 2, "bool"), [Probe(1 + j % 7, expr(at, 2))], [Probe(1 + j % 7, Int(-1))]))
        p.items.append(Say("m%d" % j))
    p.obs = ["p%d obs" % j for j in range(1, 9)]
    p.inputs = vectors(r, n=3)
    return p


def strip_local(x):
    """names of a non-inline function are statically allocated"""
    if isinstance(x, dict):
        if x.get("k") == "v":
            x["l"] = False
        for v in x.values():
            strip_local(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            strip_local(v)


def guards(rnd):
    """A condition on a variable, and under it calls of functions that call
    functions ... one of which changes that variable."""
    r = rnd
    p = Program()
    gs = ["g1", "g2"]
    k = [0]
    made = []

    def tick():
        k[0] += 1
        return Aug(V("n"), "+", Int(r.choice([1, 10, 100, 1000]))) if r.random() < 0.7 else Say("m%d" % k[0])

    def change(g):
        return r.choice([lambda: Set(V(g), Int(r.randint(0, 4))), lambda: Aug(V(g), r.choice("+-"), Int(r.randint(1, 3))),
                         lambda: Swap(V("g1"), V("g2")), lambda: Set(V(g), Bin("+", V("n"), V(g)))])()

    def cond():
        c = r.random()
        a = Cmp(V(r.choice(gs)), r.choice(["<", "<=", ">", ">=", "==", "!="]),
                Int(r.randint(0, 4)) if r.random() < 0.7 else V(r.choice(gs)))
        if c < 0.6:
            return a
        if c < 0.7:
            return V("b1", "bool") if r.random() < 0.5 else Not(V("b1", "bool"))
        return (And if c < 0.9 else Or)(a, cond())

    def seq(n, level):
        out = []
        for _ in range(n):
            c = r.random()
            if c < 0.3 and level:
                out.append(ExprS(Call(r.choice(made[:level]).name, [], ty="none")))
            elif c < 0.55:
                out.append(change(r.choice(gs)))
            elif c < 0.6:
                out.append(Set(V("b1", "bool"), cond()))
            else:
                out.append(tick())
        return out
    p.items += [Decl("g1", Ext("a", "inp")), Decl("g2", Ext("b", "inp")), Decl("n", Int(0)),
                Decl("b1", Cmp(V("g1"), "<", Int(2)))]
    for i in range(r.choice([2, 3, 3, 4])):
        body = seq(r.randint(1, 3), i)
        if i and r.random() < 0.5:
            body.insert(r.randint(0, len(body)), ExprS(Call(made[r.randint(0, i - 1)].name, [], ty="none")))
        if r.random() < 0.15:
            body = [If(cond(), body)]
        f = Fn("f%d" % i, [], body, "none")
        p.add_fn(f)
        made.append(f)
    for i in range(r.randint(2, 4)):
        p.items += [Set(V("g1"), Ext(r.choice("ab"), "inp")), Set(V("n"), Int(0))]
        t = seq(r.randint(0, 2), len(made))
        t.insert(r.randint(0, len(t)), ExprS(Call(r.choice(made).name, [], ty="none")))
        t.append(tick())
        if r.random() < 0.2:
            t = [If(cond(), t)]
        p.items.append(If(cond(), t, seq(r.randint(1, 2), len(made)) if r.random() < 0.4 else ()))
        p.items += [Probe(1, V("g1")), Probe(2, V("g2")), Probe(3, V("n")), Probe(4, V("b1", "bool")), Say("e%d" % i)]
    p.obs = ["p%d obs" % j for j in range(1, 5)]
    p.inputs = [{"a": r.randint(0, 4), "b": r.randint(0, 4)} for _ in range(3)]
    return p


def edense(rnd):
    """A few entity variables, fields and globals that methods, `new` methods
    and statements all read and change."""
    from entlib import Tpl, New, NewC, MCall, Self, summon, PXYZ, ESay, Upcast, PEnt
    r = rnd
    p = Program()
    k = [0]
    gs, evs = ["g1", "g2"], []
    tpls = {}
    nopure = [False]        # no calls of the pure method here

    def mark():
        k[0] += 1
        return Say("m%d" % k[0])

    def fld(o):
        return Fld(o, r.choice(["fi", "fj"]), "int", True)

    def ev():
        n, t = r.choice(evs)
        return V(n, "ent:" + t)

    def lval(me):
        c = r.random()
        if me and c < 0.3:
            return fld(Self(me))
        if evs and c < 0.6:
            return fld(ev())
        return V(r.choice(gs))

    def ie(me, d=1):
        c = r.random()
        if d and c < 0.35:
            return Bin(r.choice("+-*"), ie(me, d - 1), ie(me, d - 1))
        if d and c < 0.55 and not nopure[0] and (me or evs):
            o = Self(me) if me and r.random() < 0.7 or not evs else ev()
            t = o["_t"][4:]
            m = MCall(o, t, "m0", impl(t, "m0"), [])
            return m if r.random() < 0.3 else Bin(r.choice("+-*"), *r.sample([m, ie(me, 0)], 2))
        return lval(me) if c < 0.85 else Int(r.randint(-2, 5))

    def cond(me):
        a = Cmp(lval(me), r.choice(["<", ">", "==", "!=", "<="]), Int(r.randint(0, 3)) if r.random() < 0.5 else lval(me))
        return a if r.random() < 0.7 else (And if r.random() < 0.5 else Or)(a, cond(me))

    def chain(t):
        out = []
        while t:
            out.append(t)
            t = tpls[t].bases[0] if tpls[t].bases else None
        return out

    def impl(t, m):
        for a in chain(t):
            for q, f in tpls[a].methods:
                if f.pn == m:
                    return f

    def mcall(me, level):
        o = Self(me) if me and r.random() < 0.5 or not evs else ev()
        ms = ["m1", "m2", "m3"][:level]
        t = o["_t"][4:]
        ms = [m for m in ms if impl(t, m)]
        if not ms:
            return None
        m = r.choice(ms)
        if r.random() < 0.08 and o["k"] == "v" and tpls[t].bases and impl(tpls[t].bases[0], m):
            b = tpls[t].bases[0]
            return MCall(Upcast(o, b), b, m, impl(b, m), [], cast=True)
        return MCall(o, t, m, impl(t, m), [])

    def stmt(me, level, d, new=False):
        c = r.random()
        if c < 0.2:
            return [Set(lval(me), ie(me))]
        if c < 0.3:
            return [Aug(lval(me), r.choice("+-"), ie(me, 0))]
        if c < 0.55 and level:
            m = mcall(me, level)
            if m:
                x = r.random()
                if x < 0.6:
                    return [Set(lval(me), m)]
                return [ExprS(m)]
        if c < 0.65 and len(evs) > 1:
            (a, t), (b, u) = r.sample(evs, 2)
            if t in chain(u):
                if t == u and r.random() < 0.4:
                    return [Swap(V(a, "ent:" + t), V(b, "ent:" + u))]
                return [Set(V(a, "ent:" + t), V(b, "ent:" + u))]
        if c < 0.73 and evs and not new and not me:
            return newst(*r.choice(evs))
        if c < 0.88 and d:
            t = sum((stmt(me, level, d - 1, new) for _ in range(r.randint(1, 3))), [])
            e = sum((stmt(me, level, d - 1, new) for _ in range(r.randint(1, 2))), []) if r.random() < 0.4 else []
            return [If(cond(me), t + [mark()], e)]
        if c < 0.93:
            return [mark()]
        if me:
            return [ESay(Self(me), "s" + me)]
        return [Set(lval(me), ie(me, 2))]

    def owner(t):
        for a in chain(t):
            if tpls[a].new is not None:
                return tpls[a].new
        return None

    def newst(a, t):
        u = r.choice([x for x in tpls if t in chain(x)])
        f = owner(u)
        e = New(u, f, []) if f else New(u, d=at())
        return [Set(V(a, "ent:" + t), e)]

    def at():
        pos = PXYZ(1000 * r.randint(-3, 3), 64000, 1000 * r.randint(-3, 3))
        return summon(r.choice(["armor_stand", "pig"]), pos, r.choice(["", "n1"]))

    def meth(t, m, q):
        if m == "m0":
            nopure[0] = True
            f = Fn(t + ".m0", [], [], "int", "def", pn="m0")
            f.body = [Result(ie(t))]
            nopure[0] = False
            tpls[t].methods.append((q, f))
            return
        lv = {"m1": 0, "m2": 1, "m3": 2}[m]
        body = sum((stmt(t, lv, 1) for _ in range(r.randint(0, 3))), [])
        if r.random() < 0.3:
            body.append(ESay(Self(t), t + m))
        if r.random() < 0.3:
            body.append(If(cond(t), [Result(ie(t))], [Result(ie(t, 0))]))
        else:
            body.append(Result(ie(t)))
        tpls[t].methods.append((q, Fn(t + "." + m, [], body, "int", "def", pn=m)))

    def newm(t):
        body = []
        if r.random() < 0.4:
            body += stmt(None, 0, 0, True)
        b = tpls[t].bases
        if b and r.random() < 0.7:
            f = owner(b[0])
            body.append(NewC(b[0], f, []) if f else NewC(b[0], d=at()))
        else:
            body.append(NewC("Entity", d=at()))
        for f in ("fi", "fj"):
            body.append(Set(Fld(Self(t), f, "int", True), ie(None)))
        body += stmt(t, 0, 1, True)
        fwd = r.random() < 0.25     # refers to a variable that is defined later
        if fwd:
            x = Fld(V(t.lower() + "0", "ent:" + t), "fj", "int", True)
            body.append(If(Cmp(V("g1"), "==", Int(7)), [r.choice([Set(Fld(Self(t), "fi", "int", True), x), Set(x, V("g2"))])]))
        tpls[t].new = Fn(t + ".new", [], body, "none", "inline" if fwd or r.random() < 0.15 else "def", pn="new")
        return fwd

    from entlib import player, ent
    late, links = [], []
    p.ents = [player((2000, 66000, 3000)), ent("pig", (9500, 64000, 500))]
    p.items += [Decl("g1", Ext("a", "inp")), Decl("g2", Ext("b", "inp"))]
    virt = {m: r.random() < 0.8 for m in ("m0", "m1", "m2", "m3")}
    for i, t in enumerate(["A", "D", "E"][:r.choice([2, 3, 3])]):
        base = [] if i == 0 else [r.choice(list(tpls))]
        tpls[t] = Tpl(t, base, [("fi", "int"), ("fj", "int")] if i == 0 else [])
        fwd = False
        if i == 0 or r.random() < 0.6:
            meth(t, "m0", ("virtual" if i == 0 else "override") if virt["m0"] else "")
        if i == 0 or r.random() < 0.6:
            fwd = newm(t)
        for m in ("m1", "m2", "m3"):
            if i == 0 or r.random() < 0.6:
                meth(t, m, ("virtual" if i == 0 else "override") if virt[m] else "")
        if r.random() < 0.5:
            r.shuffle(tpls[t].methods)
        p.items.append(tpls[t])
        if fwd:
            late.append(t)
            p.items.append(DeclT(t.lower() + "0", "ent:" + t))
        for j in range(2 if i == 0 else 1):
            n = "%s%d" % (t.lower(), j)
            f = owner(t)
            x = New(t, f, []) if f else New(t, d=at())
            p.items.append(Set(V(n, "ent:" + t), x) if fwd and j == 0 else Decl(n, x))
            evs.append((n, t))
    for i in range(r.choice([0, 0, 1, 2])):     # functions from entities to entities
        t = r.choice(["A", "A", evs[-1][1]])
        q = "p%d" % i
        evs.append((q, t))
        body = sum((stmt(None, 2, 1, True) for _ in range(r.randint(0, 2))), [])
        ys = [(n, u) for n, u in evs if t in chain(u)]
        ye = lambda: (lambda n, u: V(n, "ent:" + u))(*r.choice(ys))
        if r.random() < 0.7:
            body.append(If(cond(None), [Set(V(q, "ent:" + t), ye())]))
        body += stmt(None, 3, 0, True)
        if r.random() < 0.5:
            body.append(If(cond(None), [Result(ye())], [Result(ye())]))
        else:
            body.append(Result(ye()))
        evs.pop()
        links.append(Fn("lk%d" % i, [q], body, "ent:" + t, r.choice(["inline", "inline", "def"]),
                        ptypes={q: "ent:" + t}, anno=True))
        p.add_fn(links[-1])
    for i in range(r.randint(6, 10)):
        p.items += stmt(None, 3, 1)
        if links and r.random() < 0.3:
            f = r.choice(links)
            t = f.ret[4:]
            x = [n for n, u in evs if u == t]
            y = [(n, u) for n, u in evs if t in chain(u)]
            a, u = r.choice(y)
            p.items.append(Set(V(r.choice(x), f.ret), Call(f.name, [(f.params[0], V(a, "ent:" + u))], ty=f.ret)))
        if late and r.random() < 0.3:
            t = r.choice(late)
            u = r.choice([x for x in tpls if owner(x) is tpls[t].new])
            p.items += [Set(V("g1"), Int(7)), Set(V(t.lower() + "0", "ent:" + t), New(u, owner(u), []))]
    for i, g in enumerate(gs):
        p.items.append(Probe(i + 1, V(g)))
    for i, (n, t) in enumerate(evs):
        p.items.append(Probe(3 + i, Bin("+", Fld(V(n, "ent:" + t), "fi", "int", True), Fld(V(n, "ent:" + t), "fj", "int", True))))
        p.items.append(ESay(V(n, "ent:" + t), n))
    p.items.append(mark())
    p.obs = ["p%d obs" % j for j in range(1, 9)]
    p.inputs = [{"a": r.randint(-2, 5), "b": r.randint(-2, 5)} for _ in range(3)]
    return p


def counters(rnd, nst=8):
    """Functions whose result differs from call to call, called several times
    in one expression: each call has a result of its own."""
    r = rnd
    p = Program()
    p.items += [Decl("n0", Ext("a", "inp")), Decl("n1", Int(r.randint(-3, 5)))]
    fs = []
    for i in range(4):
        n = "k%d" % i
        ps = [[], [], ["%sx" % n], ["%sx" % n, "%sy" % n]][r.randrange(4)]
        g = V(r.choice(["n0", "n1"]))
        body = [Aug(g, r.choice("++-*"), Int(r.randint(1, 3)))]
        if ps and r.random() < 0.6:
            body.append(Aug(g, "+", V(ps[0])))
        ret = "int" if r.random() < 0.75 else "bool"
        inner = [f for f in fs if f.ret == "int" and not f.params]
        if ret == "bool":
            body.append(Result(Cmp(Bin("%", g, Int(r.choice([2, 3]))), r.choice(["==", "!="]), Int(0))))
        else:
            c = r.random()
            if inner and c < 0.3:
                f = r.choice(inner)
                body.append(Result(Bin("-", Call(f.name, []), Bin("*", Call(f.name, []), Int(3)))))
            elif c < 0.7:
                body.append(Result(Bin(r.choice("+-*"), g, Int(r.randint(0, 4)))))
            else:
                body.append(Result(Int(r.randint(10, 20))))
                body.append(If(Cmp(g, r.choice([">", "<="]), Int(r.randint(-1, 6))), [Result(Bin("+", g, Int(100)))]))
        f = Fn(n, ps, body, ret=ret)
        p.add_fn(f)
        fs.append(f)

    def call(ty, d):
        f = r.choice([f for f in fs if f.ret == ty] or [None])
        if f is None:
            return Int(r.randint(0, 5)) if ty == "int" else Bool(True)
        return Call(f.name, [(q, expr(d - 1)) for q in f.params], ty=ty)

    def expr(d):
        if d <= 0 or r.random() < 0.25:
            return Int(r.randint(-4, 9)) if d < -1 or r.random() < 0.25 else call("int", d)
        c = r.random()
        if c < 0.7:
            return Bin(r.choice("+-*-"), expr(d - 1), expr(d - 1))
        if c < 0.78:
            return ToInt(call("bool", d - 1))
        return call("int", d)

    def cond():
        if r.random() < 0.3:
            return call("bool", 1)
        return Cmp(expr(1), r.choice(["<", ">", "==", "!=", "<=", ">="]), expr(1))
    for j in range(nst):
        c = r.random()
        if c < 0.5:
            p.items += [Decl("s%d" % j, expr(2)), Probe(1 + j % 6, V("s%d" % j))]
        elif c < 0.6:
            p.items += [Aug(V("n0"), "+", Int(1)), Probe(1 + j % 6, expr(2))]
        elif c < 0.8:
            p.items.append(If(cond(), [Probe(1 + j % 6, expr(1))], [Probe(1 + j % 6, Int(-1))]))
        elif c < 0.9:
            p.items += [Decl("t%d" % j, cond()), Probe(1 + j % 6, V("t%d" % j, "bool"))]
        else:
            p.items.append(ExprS(call("int", 1)))
    p.items += [Probe(7, V("n0")), Probe(8, V("n1"))]
    p.obs = ["p%d obs" % j for j in range(1, 9)]
    p.inputs = vectors(r, n=3)
    return p
