"""Programs that use the math module."""
from astlib import *        # noqa
from gen import Gen


def _src(pr, x):
    return "math.%s(%s)" % (x["op"], ", ".join(pr.e(y) for y in x["es"]))


def MFn(op, *es):
    return {"k": "mfn", "op": op, "es": list(es), "_t": "int", "_src": _src}


def _rand(pr, x):
    return "math.randint(%s, %s)" % (pr.e(x["a"]), pr.e(x["b"]))


class MGen(Gen):
    def _int_e(self, sc, d):
        if d > 0 and self.ch(self.f.get("math", 0.35)):
            r = self.r
            self.needs_math = True
            sub = lambda k=1: self._int_e(sc, d - 1 if self.ch(0.5) else 0)
            op = r.choice(["pow", "pow", "mod", "floordiv", "min", "max"])
            if op in ("min", "max"):
                return MFn(op, *[sub() for _ in range(r.choice([1, 2, 2, 3, 4]))])
            if op == "pow":
                c = r.random()
                if c < 0.55:
                    e = Int(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 31, 40]))
                elif c < 0.8:
                    e = MFn("mod", sub(), Int(r.choice([2, 3, 5, 8, 12])))
                else:
                    e = sub()
                return MFn(op, sub(), e)
            b = Int(r.choice([2, 3, -2, 5, -3, 10, 1, -1, 7, IMAX, IMIN, 1 << 30])) if self.ch(0.6) else sub()
            return MFn(op, sub(), b)
        return super()._int_e(sc, d)

    def stmt(self, sc, depth, pure):
        if not pure and self.ch(0.12):
            r = self.r
            self.needs_math = True
            a, b = sorted(r.choice([-5, -1, 0, 1, 3, 7, 20, IMIN, IMAX]) for _ in range(2))
            e = {"k": "rand", "a": Int(a), "b": Int(b), "_t": "int", "_src": _rand}
            if self.ch(0.3):
                n = r.choice([-1, 1, 2])
                e = Bin(r.choice("+*"), e, Int(n))
            x = self.lvalue(self.writable(sc, pure), "int")
            c = r.random()
            if x is not None and c < 0.5:
                return [Set(x, e)]
            return [self.declare(sc, "int", e)]
        return super().stmt(sc, depth, pure)

    def program(self, **kw):
        p = super().program(**kw)
        p.rnd = [[self.r.randint(0, 12) if self.ch(0.8) else 101 for _ in range(30)] for _ in range(2)]
        p.fuel = 600
        return p
