"""Random source texts for spec/Source.tla: programs as tokens, laid out in
random ways, and damaged copies of them.  What a text means is decided by the
specification alone, from its characters."""
import re

KW2 = {"==", "!=", ">=", "<=", "+=", "-=", "*=", "/=", "%=", "->", ":="}
PLAYERS = ["p%d" % i for i in range(8)] + ["a", "b"]
PLAIN = PLAYERS + ["inp", "obs"]
WORDS = ["alpha", "be ta", "x1", "the  end", "q", "a+b", "if", "0", "(x", "y)", "z,", "#", "'", "*", "/", "=", ":",
         "\\n", "a#b", "//", "&", "end."]
BUILTIN = ["int", "bool", "Pos", "Rot", "Offset", "Engroup", "Enfilter", "list", "map", "AbsPos", "Any", "float",
           "ExternEngroup", "Entity", "swap", "scb", "upcast"]
FONTS = ["red", "bold", "reset", "minecoin_gold", "white", "italic", "material_gold", "dark_gray"]


class Str:
    """A string literal or a command: parts are text or token lists."""
    def __init__(self, parts, cmd=False):
        self.parts, self.cmd = parts, cmd


class Num:
    def __init__(self, v):
        self.v = v


class SrcGen:
    def __init__(self, rnd, layout=1.0, depth=2, wrong=0.0):
        self.r = rnd
        self.lay = layout
        self.d = depth
        self.wrong = wrong
        self.scopes = [{}]
        self.fns = {}
        self.lines = []            # (depth, tokens)
        self.n = 0
        self.out = 0

    def ch(self, p):
        return self.r.random() < p

    # -- expressions: random derivations of the grammar, by type ----------
    def vars(self, ty, kinds=("var", "const", "ref")):
        return [n for s in self.scopes for n, (t, k) in s.items() if t == ty and k in kinds]

    def num(self):
        r = self.r
        return Num(r.choice([0, 1, 2, 3, 5, 7, 10, 100, r.randrange(1000)] if r.random() < 0.97 else
                            [2147483647, 65536, r.randrange(1 << 31)]))

    def expr(self, ty, d=None):
        d = self.d if d is None else d
        if self.ch(self.wrong):
            ty = self.r.choice(["int", "bool", "str"])
        return {"int": self.e_int, "bool": self.e_or, "str": self.e_str}[ty](d)

    def chain(self, ops, sub, d, n):
        out = sub(d)
        for _ in range(n):
            out = out + [self.r.choice(ops)] + sub(d)
        return out

    def e_int(self, d):
        return self.chain(["+", "-"], self.e_mul, d, self.r.choice([0, 0, 0, 1, 1, 2]) if d > 0 else 0)

    def e_mul(self, d):
        n = self.r.choice([0, 0, 0, 0, 1, 1, 2]) if d > 0 else 0
        out = self.e_sign(d)
        for _ in range(n):
            op = self.r.choice(["*", "*", "/", "%"])
            out = out + [op] + (self.e_sign(d) if op == "*" or self.ch(0.03)
                                else [Num(self.r.choice([2, 3, 5, 10]))] if self.ch(0.8)
                                else ["-", Num(self.r.choice([2, 3]))])
        return out

    def e_sign(self, d):
        k = self.r.choice([0] * 9 + [1, 1, 2]) if d > 0 else 0
        return [self.r.choice("-+--") for _ in range(k)] + self.a_int(d)

    def a_int(self, d):
        r = self.r
        vs = self.vars("int")
        x = r.random()
        if x < 0.5 and vs:
            return [r.choice(vs)]
        if d > 0 and x < 0.66:
            return ["("] + self.expr("int", d - 1) + [")"]
        if x < 0.74:
            return ["scb", "(", Str([r.choice("ab")]), ",", Str(["inp"]), ")"]
        fs = [f for f, (ps, t) in self.fns.items() if t == "int"]
        if d > 1 and x < 0.84 and fs:
            return self.call(r.choice(fs), d - 1)
        if d > 0 and x < 0.88:
            return ["int", "("] + self.expr("bool", d - 1) + [")"]
        return [self.num()]

    def e_or(self, d):
        return self.chain(["or"], self.e_and, d, self.r.choice([0, 0, 0, 1, 1, 2]) if d > 0 else 0)

    def e_and(self, d):
        return self.chain(["and"], self.e_not, d, self.r.choice([0, 0, 0, 1, 1, 2]) if d > 0 else 0)

    def e_not(self, d):
        k = self.r.choice([0, 0, 0, 0, 1, 2]) if d > 0 else 0
        return ["not"] * k + self.e_cmp(d)

    def e_cmp(self, d):
        r = self.r
        if d > 0 and r.random() < 0.62:
            if self.ch(0.15):
                return self.chain(["==", "!="], self.a_bool, d - 1, 1)
            out = self.e_int(d - 1)
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                out = out + [r.choice(["<", ">", "<=", ">=", "==", "!="])] + self.e_int(d - 1)
            return out
        return self.a_bool(d)

    def a_bool(self, d):
        r = self.r
        vs = self.vars("bool")
        x = r.random()
        if x < 0.5 and vs:
            return [r.choice(vs)]
        if d > 0 and x < 0.8:
            return ["("] + self.expr("bool", d - 1) + [")"]
        fs = [f for f, (ps, t) in self.fns.items() if t == "bool"]
        if d > 1 and x < 0.9 and fs:
            return self.call(r.choice(fs), d - 1)
        return [r.choice(["True", "False"])]

    def text(self):
        return " ".join(self.r.choice(WORDS) for _ in range(self.r.randrange(1, 4)))

    def parts(self, d):
        out = []
        for _ in range(self.r.choice([1, 1, 2, 3])):
            if self.ch(0.35) and d > 0:
                out.append(self.const(self.r.choice(["int", "bool", "str"]), d - 1))
            else:
                out.append(self.text())
        return out

    def e_str(self, d):
        r = self.r
        vs = self.vars("str")
        if vs and self.ch(0.4):
            return [r.choice(vs)]
        out = [Str(self.parts(d))]
        if self.ch(0.2):
            out.append(Str(self.parts(d)))
        if d > 0 and self.ch(0.25):
            out = out + ["+"] + self.e_str(d - 1)
        return out

    def const(self, ty, d):
        """Something known at compile time."""
        keep = self.scopes
        self.scopes = [{n: v for n, v in s.items() if v[1] == "const"} for s in keep]
        f, self.fns = self.fns, {}
        old, self.r0 = self.a_int, None
        try:
            for _ in range(20):
                t = self.expr(ty, min(d, 2))
                if "scb" not in t and "int" not in t:
                    return t
            return {"int": [self.num()], "bool": ["True"], "str": [Str(["s"])]}[ty]
        finally:
            self.scopes, self.fns = keep, f

    def call(self, f, d):
        ps, _ = self.fns[f]
        n = len(ps)
        pos = self.r.randrange(n + 1)
        out = [f, "("]
        rest = list(range(pos, n))
        self.r.shuffle(rest)
        args = []
        for i in range(pos):
            args.append(self.expr(ps[i][1], d))
        for i in rest:
            if ps[i][2] and self.ch(0.5):
                continue
            args.append([ps[i][0], "="] + self.expr(ps[i][1], d))
        if self.ch(self.wrong):
            self.r.shuffle(args)
        for i, a in enumerate(args):
            out += a + ([","] if i + 1 < len(args) or self.ch(0.15) else [])
        return out + [")"]

    # -- statements ---------------------------------------------------------
    def put(self, d, toks):
        self.lines.append((d, toks))

    def new(self, ty, kind):
        vs = [n for s in self.scopes for n in s]
        if self.ch(0.1 + self.wrong) and vs:
            n = self.r.choice(vs)                # taken, or shadows
            if n in self.scopes[-1] and not self.ch(0.3 * (self.wrong > 0)):
                n = None
        else:
            n = None
        if n is None:
            n = self.r.choice(["v", "v_", "_v", "Va", "iff", "notx", "True_", "r2", "x"]) + str(self.n)
            self.n += 1
        self.scopes[-1][n] = (ty, kind)
        return n

    def show(self, d):
        i = self.out % 8
        self.out += 1
        self.put(d, ["scb", "(", Str(["p%d" % i]), ",", Str(["obs"]), ")", self.r.choice(["=", "=", "=", "+="])] +
                 self.expr("int"))

    def block(self, d, n):
        keep = dict(self.scopes[-1])
        for _ in range(n):
            self.stmt(d)
        if d and self.ch(0.95):        # what a branch declares may be unset afterwards
            self.scopes[-1] = keep

    def stmt(self, d):
        r = self.r
        x = r.random()
        ty = r.choice(["int", "int", "bool"])
        if x < 0.17:
            e = self.expr(ty)
            n = self.new(ty, "var")
            self.put(d, [n, ":="] + e if self.ch(0.6) else [n, ":", ty, "="] + e)
        elif x < 0.30:
            vs = self.vars(ty, ("var", "ref"))
            if not vs:
                return self.show(d)
            n = r.choice(vs)
            if ty == "int" and self.ch(0.4):
                op = r.choice(["+=", "-=", "*=", "/=", "%="])
                self.put(d, [n, op] + (self.expr("int") if op[0] in "+-*" else [Num(r.choice([2, 3, 7]))]))
            else:
                self.put(d, [n, "="] + self.expr(ty))
        elif x < 0.46:
            self.show(d)
        elif x < 0.56:
            t = r.choice(["int", "bool", "str"])
            e = self.const(t, 2)
            if self.ch(0.3):
                e2 = self.const("int", 2)
                n, m = self.new(t, "const"), self.new("int", "const")
                self.put(d, ["const", "(", n, "="] + e + [",", m, ":", "int", "="] + e2 +
                         ([","] if self.ch(0.3) else []) + [")"])
            elif self.ch(0.1):
                e2 = self.const("int", 1)
                n, m = self.new(t, "const"), self.new("int", "const")
                self.put(d, ["const", n, "="] + e + [",", m, "="] + e2)
            else:
                n = self.new(t, "const")
                self.put(d, ["const", n] + ([":", t] if t != "str" and self.ch(0.3) else []) + ["="] + e)
        elif x < 0.61:
            vs = self.vars(ty, ("var", "ref"))
            if vs and self.ch(0.7):
                v = [r.choice(vs)]
            elif ty == "int":
                v = ["scb", "(", Str(["p%d" % r.randrange(8)]), ",", Str(["obs"]), ")"]
            else:
                return self.show(d)
            if self.ch(0.2):
                v = ["("] + v + [")"]
            n = self.new(ty, "ref")
            self.put(d, ["&", n] + ([":", ty] if self.ch(0.3) else []) + ["="] + v)
        elif x < 0.72:
            keep = len(self.lines)
            ps = ["say "] if not self.ch(0.02) else ["tell "]
            ps += self.parts(2)
            self.put(d, [Str(ps, True)])
        elif x < 0.86 and d < 3:
            self.put(d, ["if"] + self.expr("bool") + [":"])
            self.block(d + 1, r.randrange(1, 3))
            while self.ch(0.35):
                self.put(d, ["elif"] + self.expr("bool") + [":"])
                self.block(d + 1, r.randrange(1, 3))
            if self.ch(0.4):
                self.put(d, ["else", ":"])
                self.block(d + 1, r.randrange(1, 3))
        elif x < 0.91 and d < 3:
            i = self.new("int", "var")
            self.put(d, [i, ":=", Num(r.randrange(3))])
            hide = self.scopes[-1].pop(i)
            self.put(d, ["while", i] + [r.choice(["<", "<="]), Num(3)] +
                     (["and"] + self.expr("bool", 1) if self.ch(0.3) else []) + [":"])
            self.block(d + 1, r.randrange(1, 3))
            self.put(d + 1, [i, "+=", Num(1)])
            self.scopes[-1][i] = hide
        elif x < 0.93:
            self.put(d, ["pass"])
        elif x < 0.96:
            self.put(d, self.expr(r.choice(["int", "bool", "str"])))
        elif d == 0 and len(self.scopes) == 1:
            self.function()
        else:
            self.show(d)

    def function(self):
        r = self.r
        ps, dflt = [], False
        head = []
        ret = r.choice(["int", "int", "bool", None])
        name = "f%d" % len(self.fns) + r.choice(["", "_", "x"])
        for i in range(r.randrange(4)):
            ty = r.choice(["int", "int", "bool"])
            dflt = dflt or self.ch(0.3)
            n = "%s%d" % (r.choice(["p", "arg", "k_"]), self.n)
            self.n += 1
            t = [n]
            if not dflt or self.ch(0.5):
                t += [":", ty]
            if dflt:
                t += ["="] + self.const(ty, 1)
            ps.append((n, ty, dflt))
            head += ([","] if i else []) + t
        if ps and self.ch(0.1):
            head.append(",")
        self.put(0, ["def", name, "("] + head + [")"] + (["->", ret] if ret else []) + [":"])
        self.scopes.append({n: (ty, "var") for n, ty, _ in ps})
        self.block(1, r.randrange(1, 4))
        if ret:
            self.put(1, ["result"] + self.expr(ret))
        self.scopes.pop()
        self.fns[name] = (ps, ret)

    def program(self, nst=6):
        for i in range(self.r.randrange(0, 3)):
            ty = self.r.choice(["int", "bool"])
            e = ["scb", "(", Str([self.r.choice("ab")]), ",", Str(["inp"]), ")"]
            if ty == "bool":
                e += [self.r.choice(["<", ">", "=="]), Num(3)]
            self.put(0, [self.new(ty, "var"), ":="] + e)
        if self.ch(0.5):
            self.function()
        self.block(0, nst)
        self.show(0)
        return self

    # -- layout ---------------------------------------------------------------
    def number(self, v):
        k = self.r.randrange(8)
        s = str(v)
        if k == 0:
            s = "0" + self.r.choice("xX") + "%x" % v
            s = s.upper() if self.ch(0.3) else s
        elif k == 1:
            s = "0" + self.r.choice("oO") + "%o" % v
        elif k == 2 and v < 4096:
            s = "0" + self.r.choice("bB") + "0" * self.r.randrange(3) + bin(v)[2:]
        elif k == 3 and self.ch(0.3):
            s = "0" * self.r.randrange(1, 3) + s
        return s

    def esc(self, t, cmd, plain=False):
        out = []
        for c in t:
            x = self.r.random()
            if c == "\\":
                out.append("\\\\" if self.ch(0.8) else "\\")
            elif c == '"' and not cmd:
                out.append('\\"')
            elif c == "$":
                out.append("\\$")
            elif x < 0.03 * self.lay and c != " ":
                out.append(self.r.choice(["\\x%02x", "\\u%04X", "\\U%08x"]) % ord(c))
            elif x < 0.035 * self.lay and not plain:
                out.append(c + self.r.choice(["\\#", "\\#(%s)" % self.r.choice(FONTS), "\\\\", "\\$", '\\"', "$", "{",
                                              "\\#(%s , %s)" % (self.r.choice(FONTS), self.r.choice(FONTS)), "\\u4e2d", "\u4e2d",
                                              "\\xe9", "\\z"]))
            else:
                out.append(c)
        return "".join(out)

    def string(self, s, one):
        if s.cmd:
            body = []
            long = self.ch(0.3 * self.lay) and not one
            for i, p in enumerate(s.parts):
                body.append(self.esc(p, True) if isinstance(p, str) else "${" + self.toks(p, not long, "{") + "}")
            if long:
                for i in range(len(body)):
                    if not body[i].startswith("${") and self.ch(0.5):
                        body[i] = re.sub(r" (?=[a-z])", lambda m: self.r.choice([" ", "\n"]), body[i])
                return "/*" + "".join(body) + "*/"
            return "/" + "".join(body)
        return '"' + "".join(self.esc(p, False, s.parts[0] in PLAIN) if isinstance(p, str) else "${" + self.toks(p, True, "{") + "}"
                             for p in s.parts) + '"'

    def gap(self, a, b, one, br):
        """What goes between two tokens."""
        r = self.r
        w = (a[-1:].isalnum() or a[-1:] == "_") and (b[:1].isalnum() or b[:1] == "_")
        if a[-1:] + b[:1] in KW2 or (a == "/" and b[:1] == "*") or (a == "-" and b == ">"):
            w = True
        if b == "." or a == ".":
            w = False
        if self.lay == 0:
            tight = a in ("(", "[", "{") or b in (")", "]", "}", ",", ":") or b == "(" or a == ":"
            return " " if w or not tight else ""
        x = r.random() / self.lay
        sp = " " * r.choice([0, 1, 1, 1, 2, 5])
        if x < 0.03:
            return sp + "#*" + r.choice(["", " c ", "*", " # ", "x := 1", '"', "(", "/* */" if False else "..", "#*",
                                         "" if one else "\n ", "" if one else " a\n\n  b "]) + "*#" + r.choice(["", " "])
        if x < 0.05 and not one:
            return sp + "\\\n" + " " * r.randrange(9)
        if br and not one and x < 0.14:
            return sp + r.choice(["", "# c", "#", "# )\" '"]) + "\n" + r.choice(["", "\n", "  # x\n"]) + " " * r.randrange(9)
        return sp or (" " if w else "")

    def toks(self, toks, one=False, br0=""):
        out, prev, br = [], None, 1 if br0 else 0
        for t in toks:
            s = self.string(t, one) if isinstance(t, Str) else self.number(t.v) if isinstance(t, Num) else t
            if prev is not None:
                out.append(self.gap(prev, s, one, br > 0))
            elif br0:
                out.append(self.r.choice(["", "", " "]))
            if s in ("(", "[", "{"):
                br += 1
            elif s in (")", "]", "}"):
                br -= 1
            out.append(s)
            prev = s
        if br0:
            out.append(self.r.choice(["", "", " "]))
        return "".join(out)

    def between(self):
        """Whole lines without tokens."""
        r = self.r
        if r.random() >= 0.15 * self.lay:
            return ""
        return r.choice(["\n", "\n\n", "   \n", "# c\n", "      # c\n", "#* c *#\n", "  #* a\n b *#  \n", "#\n", "\\\n\n" if False else "\n",
                         "#* *# # y\n"])

    def render(self):
        r = self.r
        ind, out = [0], []
        for d, toks in self.lines:
            while len(ind) - 1 > d:
                ind.pop()
            while len(ind) - 1 < d:
                ind.append(ind[-1] + (4 if self.lay == 0 else r.choice([1, 2, 3, 4, 4, 4, 7])))
            out.append(self.between())
            lead = ""
            if r.random() < 0.03 * self.lay:
                lead = r.choice(["#* c *#", "#**#", "#* a\n  b *# ", "#* c *#  ", "\\\n", "\\\n   "])
            out.append(" " * ind[-1] + lead + self.toks(toks))
            last = toks[-1]
            if not (isinstance(last, Str) and last.cmd):
                out.append(r.choice(["", "", "", " ", "  # c", "#c", "  #* c *#", " # \" ( \\"]) if self.ch(0.3 * self.lay) else "")
            out.append("\n")
        t = "".join(out) + self.between()
        if r.random() < 0.15 * self.lay:
            t = t.rstrip("\n")
        elif r.random() < 0.1 * self.lay:
            t += r.choice(["\n\n", "   ", "# end", "\n    "])
        if r.random() < 0.05 * self.lay:
            t = t.replace("\n", "\r\n")
        return t


ALPHA = list(" \n\t()[]{}:,+-*/%<>=.@&\"\\#$!?;_0129aexT'|^~`") + [
    "    ", "\n    ", "==", ":=", "->", "not ", "and ", "if ", "else:", "elif ", "def ", "result ", "${", "\\\n", "#*", "*#",
    "/*", "*/", "pass", "True", "0x", "0b2", "99999999999", "\"a\"", "()", "x", "f0(", ",,", "while True:\n", "  ", "const ", "&",
    "=", "None", "self", "in", "import", "int", "2147483648", "a.b", "[0]", "{}", "\u00e9", "\r"]


def damage(r, t, k=1):
    """Change the text a little somewhere."""
    for _ in range(k):
        i = r.randrange(len(t) + 1)
        x = r.random()
        if x < 0.3:
            t = t[:i] + t[i + r.choice([1, 1, 1, 2, 4]):]
        elif x < 0.6:
            t = t[:i] + r.choice(ALPHA) + t[i:]
        elif x < 0.75:
            t = t[:i] + r.choice(ALPHA) + t[i + 1:]
        elif x < 0.85:
            toks = [m.span() for m in re.finditer(r"\w+|[^\w\s]+|\n *", t)]
            if len(toks) > 2:
                a, b = sorted(r.sample(range(len(toks)), 2))
                if r.random() < 0.6:
                    b = min(a + 1, len(toks) - 1)
                (s1, e1), (s2, e2) = toks[a], toks[b]
                y = r.random()
                if y < 0.35:
                    t = t[:s1] + t[e1:]
                elif y < 0.6:
                    t = t[:e1] + t[s1:e1] + t[e1:]
                elif a != b:
                    t = t[:s1] + t[s2:e2] + t[e1:s2] + t[s1:e1] + t[e2:]
        else:
            ls = t.split("\n")
            j = r.randrange(len(ls))
            y = r.random()
            if y < 0.35:
                ls[j] = " " * r.choice([1, 2, 4]) + ls[j]
            elif y < 0.7:
                ls[j] = ls[j][r.choice([1, 2, 4]):] if ls[j].startswith("  ") else ls[j]
            elif y < 0.85:
                ls.pop(j)
            else:
                ls.insert(j, r.choice(ls))
            t = "\n".join(ls)
    return t


class Text:
    def __init__(self, text, inputs, full=""):
        self.src, self.inputs = text, inputs

    def text(self):
        return self.src

    def case(self, cid):
        obs = ["%s obs" % p for p in PLAYERS[:8]]
        return {"id": cid, "src": [ord(c) for c in self.src], "builtin": BUILTIN, "players": PLAYERS,
                "obs": obs, "objs": ["obs", "inp"], "tagobs": [], "rnd": [[]], "worlds": [[]],
                "fns": {"_": 0}, "tpl": {"_": 0}, "entries": [],
                "inputs": [[{"key": k, "v": v, "z": 0} for k, v in sorted(i.items())] for i in self.inputs],
                "depth": 1, "more": 0, "fuel": 120, "maxsteps": 3000}


def inputs(r, n=2):
    out = []
    for _ in range(n):
        d = {p + " obs": r.choice([0, 1, 5, -7]) for p in PLAYERS[:8]}
        for p in "ab":
            d[p + " inp"] = r.choice([0, 1, 2, 3, 4, -1, -5, 10, 2147483647, r.randrange(-50, 50)])
        out.append(d)
    return out


def make(r, layout=1.0, depth=2, wrong=0.0, nst=6, bad=0.0):
    t = SrcGen(r, layout, depth, wrong).program(nst).render()
    if r.random() < bad:
        t = damage(r, t, r.choice([1, 1, 1, 2]))
    return Text(t, inputs(r))
