"""Random multi-file projects (raw, unresolved) for spec/ModRefine.tla."""

BUILTIN = ["print", "math", "schedule", "world"]


def I(v):
    return {"k": "int", "v": v}


class Project:
    def __init__(self, files):
        self.files = files          # [(path tuple, body)]
        self.inputs = [[{"key": "i0 obs", "v": 0, "z": 0}]]
        self.number()

    def number(self):
        for path, body in self.files:
            self._text = []
            self._block(body, 0)

    # ---------------------------------------------------------- printing
    def e(self, e):
        if e["k"] == "int":
            return str(e["v"])
        if e["k"] == "ref":
            return ".".join(e["p"])
        if e["k"] == "bin":
            return "(%s %s %s)" % (self.e(e["a"]), e["op"], self.e(e["b"]))
        return "%s(%s)" % (".".join(e["p"]), ", ".join(map(self.e, e["args"])))

    def meta(self, m):
        return "." * m["dots"] + ".".join(m["parts"])

    def _line(self, ind, text, st=None):
        self._text.append("    " * ind + text)
        if st is not None:
            st["ln"] = len(self._text)

    def _block(self, ss, ind):
        if not ss:
            self._line(ind, "pass")
        for s in ss:
            k = s["k"]
            if k == "say":
                self._line(ind, "/say " + s["t"], s)
            elif k == "pass":
                self._line(ind, "pass", s)
            elif k == "obs":
                self._line(ind, 'scb("p%d", "obs") = %s' % (s["i"], self.e(s["e"])), s)
            elif k == "var":
                self._line(ind, "%s := %s" % (s["n"], self.e(s["e"])), s)
            elif k == "const":
                self._line(ind, "const %s = %s" % (s["n"], self.e(s["e"])), s)
            elif k == "asg":
                self._line(ind, "%s %s= %s" % (".".join(s["p"]), s["op"], self.e(s["e"])), s)
            elif k == "result":
                self._line(ind, "result " + self.e(s["e"]), s)
            elif k == "call":
                self._line(ind, "%s(%s)" % (".".join(s["p"]), ", ".join(map(self.e, s["args"]))), s)
            elif k == "if":
                self._line(ind, "if %s %s %d:" % (self.e(s["a"]), s["op"], s["v"]), s)
                self._block(s["t"], ind + 1)
                if s["e"]:
                    self._line(ind, "else:")
                    self._block(s["e"], ind + 1)
            elif k == "def":
                self._line(ind, "def %s(%s)%s:" % (s["n"], ", ".join(p + ": int" for p in s["ps"]),
                                                   " -> int" if s["int"] else ""), s)
                self._block(s["b"], ind + 1)
            elif k == "inline":
                self._line(ind, "inline def %s(%s):" % (s["n"], ", ".join(p + ": int" for p in s["ps"])), s)
                self._block(s["b"], ind + 1)
            elif k == "iface":
                self._line(ind, "interface %s:" % s["path"], s)
                self._block(s["b"], ind + 1)
            elif k == "import":
                self._line(ind, "import %s%s" % (
                    self.meta(s["m"]), "" if s["as"] == s["m"]["parts"][-1] and not s.get("_as") else " as " + s["as"]), s)
            elif k == "from":
                ns = ", ".join(x["n"] if x["n"] == x["as"] and not s.get("_as") else "%s as %s" % (x["n"], x["as"])
                               for x in s["names"])
                self._line(ind, "from %s import %s" % (self.meta(s["m"]), "(%s)" % ns if s.get("_par") else ns), s)
            elif k == "star":
                self._line(ind, "from %s import *" % self.meta(s["m"]), s)
            else:
                raise ValueError(k)

    def sources(self):
        out = {}
        for i, (path, body) in enumerate(self.files):
            self._text = []
            self._block(body, 0)
            out["/".join(path) + ".aca"] = "\n".join(self._text) + "\n"
        return out

    def text(self, full=False):
        return "\n".join("# ---- %s\n%s" % kv for kv in self.sources().items())

    def case(self, cid):
        def clean(x):
            if isinstance(x, dict):
                return {k: clean(v) for k, v in x.items() if not k.startswith("_")}
            if isinstance(x, (list, tuple)):
                return [clean(v) for v in x]
            return x
        return {"id": cid, "obs": ["p%d obs" % i for i in range(6)] + ["i0 obs"], "objs": ["obs"], "tagobs": [], "rnd": [[]],
                "worlds": [[]], "inputs": self.inputs, "depth": 3, "more": 1, "fuel": 200, "maxsteps": 4000,
                "raw": {"dir": "src", "files": [{"path": list(p), "body": clean(b)} for p, b in self.files]}}


PATHS = [("a",), ("b",), ("c",), ("pk", "a"), ("pk", "b"), ("pk", "sub", "d"), ("..", "up"), ("..", "lib", "e"),
         ("math",), ("print",), ("main2",), ("..", "a")]


class ModGen:
    def __init__(self, rnd, err=0.02):
        self.r = rnd
        self.err = err
        self.nif = 0
        self.say = 0

    def meta_for(self, path):
        r = self.r
        if path[0] == "..":
            m = {"dots": 2, "parts": list(path[1:])}
        else:
            m = {"dots": r.choice([0, 1, 1, 2]), "parts": list(path)}
            if m["dots"] == 2:
                m["parts"] = ["src"] + m["parts"]
            if m["dots"] == 0 and len(path) == 1 and path[0] in BUILTIN:
                m["dots"] = 1
        if r.random() < self.err:
            m = {"dots": r.choice([0, 1, 1, 2]), "parts": list(r.choice(PATHS))}
            m["parts"] = [x for x in m["parts"] if x != ".."]
        return m

    def project(self, nfiles=None):
        r = self.r
        n = nfiles or r.choice([1, 2, 2, 3, 3, 4, 5])
        paths = r.sample(PATHS, n)
        self.exports = {}           # path -> {name: kind}
        self.paths = []
        files = []
        for p in paths:
            body, exp = self.file(p)
            files.append((p, body))
            self.exports[p] = exp
            self.paths.append(p)
        body, _ = self.file(("main",), main=True)
        if r.random() < self.err * 2:
            x = r.choice(files)     # a late import of the main file or a later one: often circular
            tgt = r.choice(paths + [("main",)])
            x[1].append({"k": "import", "m": self.meta_for(tgt), "as": "zz"})
        return Project([(("main",), body)] + files[::-1])

    def file(self, path, main=False):
        self.main = main
        env = [{}]                  # scopes: name -> kind; kinds: v c f0/f1.. F (int fn) i0.. m:<path>
        body = self.block(env, self.r.randint(5, 9) if main else self.r.randint(2, 6), top=True)
        exp = {n: k for n, k in env[0].items() if not n.startswith("_") and not isinstance(k, list)}
        return body, exp

    # --------------------------------------------------------------- names
    def vis(self, env):
        d = {}
        for s in env:
            d.update({n: (k[0] if isinstance(k, list) else k) for n, k in s.items()})
        return d

    def refs(self, env, want):
        """dotted paths of the wanted kind"""
        out = []
        for n, k in self.vis(env).items():
            if want(k):
                out.append([n])
            if k[0] == "m":
                for x, kk in self.exports[k[1]].items():
                    if want(kk):
                        out.append([n, x])
        return out

    def bad(self):
        r = self.r
        return [r.choice(["a", "b", "x", "_p", "K", "f", "g"]) for _ in range(r.choice([1, 1, 2, 2, 3]))]

    def path(self, env, want):
        if self.r.random() < self.err:
            return self.bad()
        c = self.refs(env, want)
        return self.r.choice(c) if c else None

    def new(self, env, base):
        r = self.r
        for _ in range(6):
            n = r.choice(base)
            if n not in env[-1] or r.random() < self.err:
                return n
        return None

    def expr(self, env, d=0):
        r = self.r
        c = r.random()
        if d < 2 and c < 0.2:
            return {"k": "bin", "op": r.choice("+-*"), "a": self.expr(env, d + 1), "b": self.expr(env, d + 1)}
        if d < 1 and c < 0.35 and self.calls:
            p = self.path(env, lambda k: k[0] == "F")
            if p:
                n = self.arity(env, p)
                return {"k": "call", "p": p, "args": [self.expr(env, d + 1) for _ in range(n)]}
        if c < 0.85:
            p = self.path(env, lambda k: k[0] in "vc")
            if p:
                return {"k": "ref", "p": p}
        return I(r.randint(-9, 99))

    def arity(self, env, p):
        k = self.vis(env).get(p[0])
        if len(p) == 2 and k and k[0] == "m":
            k = self.exports[k[1]].get(p[1])
        n = k[1] if k and k[0] in "Ffi" else 0
        return n + 1 if self.r.random() < self.err / 2 else n

    # ---------------------------------------------------------- statements
    calls = True

    def block(self, env, n, top=False, deep=0, kind="", noimp=False):
        out = []
        for _ in range(n):
            out += self.stmt(env, top, deep, kind)
        return out

    def stmt(self, env, top, deep, kind):
        r = self.r
        c = r.random()
        if self.paths and c < 0.22:
            return self.imp(env, deep)
        if c < 0.34:
            n = self.new(env, ["a", "b", "x", "y", "_p", "v%d" % r.randint(0, 9)])
            e = self.expr(env)
            if n:
                env[-1][n] = ("v",)
                return [{"k": "var", "n": n, "e": e}]
            return []
        if c < 0.38:
            n = self.new(env, ["K", "x", "_p", "k%d" % r.randint(0, 9)])
            if n:
                p = self.path(env, lambda k: k[0] == "c") if r.random() < 0.5 else None
                env[-1][n] = ("c",)
                return [{"k": "const", "n": n, "e": {"k": "ref", "p": p} if p else I(r.randint(-5, 50))}]
            return []
        if c < 0.5:
            p = self.path(env, lambda k: k[0] == "v")
            if p:
                return [{"k": "asg", "p": p, "op": r.choice(["", "", "+", "-", "*"]), "e": self.expr(env)}]
            return []
        if c < 0.58:
            self.say += 1
            return [{"k": "say", "t": "m%d" % self.say}]
        if c < 0.68:
            return [{"k": "obs", "i": r.randint(0, 5), "e": self.expr(env)}]
        if c < 0.78:
            p = self.path(env, lambda k: k[0] in ("F", "f", "i"))
            if p and self.calls:
                return [{"k": "call", "p": p, "args": [self.expr(env, 1) for _ in range(self.arity(env, p))]}]
            return []
        if c < 0.84 and deep < 2:
            s = {"k": "if", "a": self.expr(env), "op": r.choice(["<", ">", "==", "!="]), "v": r.randint(-3, 40)}
            s["t"] = self.block(env, r.randint(1, 3), False, deep + 1, kind)
            s["e"] = self.block(env, r.randint(0, 2), False, deep + 1, kind)
            return [s]
        if c < 0.93 and deep < 2 and kind != "fn":
            return self.func(env, deep)
        if top and c < 0.99 and deep == 0:
            self.nif += 1
            sc = env + [{}]
            path = "i%d" % self.nif if r.random() > self.err else "i1"
            return [{"k": "iface", "path": path, "b": self.block(sc, r.randint(1, 4), False, 1, "if")}]
        return []

    def func(self, env, deep):
        r = self.r
        inl = r.random() < 0.5
        n = self.new(env, ["f", "g", "h", "_f", "f%d" % r.randint(0, 9)])
        if not n:
            return []
        ps = r.sample(["a", "p", "q", "x"], r.choice([0, 1, 1, 2]))
        # inline bodies see the definer's names as they are at the call: let them
        # use some that come later
        later = {}
        if inl and r.random() < 0.3:
            later = {"v%d" % r.randint(0, 9): ("v",)}
        sc = env + [dict(later, **{p: ("v",) for p in ps})]
        b = self.block(sc, r.randint(1, 3), False, 1, "fn")
        if inl:
            env[-1][n] = ("i", len(ps))
            return [{"k": "inline", "n": n, "ps": ps, "b": b}]
        ret = r.random() < 0.6
        if ret:
            b.append({"k": "result", "e": self.expr(sc)})
        env[-1][n] = ("F" if ret else "f", len(ps))
        return [{"k": "def", "n": n, "ps": ps, "int": ret, "b": b}]

    def imp(self, env, deep):
        r = self.r
        if r.random() < self.err:
            m = {"dots": 0, "parts": [r.choice(BUILTIN)]}
            tgt = None
        else:
            tgt = r.choice(self.paths)
            m = self.meta_for(tgt)
        exp = self.exports.get(tgt, {})
        c = r.random()
        if c < 0.45:
            n = m["parts"][-1] if r.random() < 0.6 else r.choice(["M", "N", "a", "mm%d" % r.randint(0, 5)])
            if n in env[-1] and r.random() > self.err:
                return []
            if tgt is not None:
                env[-1][n] = [("m", tgt)]
            return [{"k": "import", "m": m, "as": n, "_as": r.random() < 0.3}]
        if c < 0.85:
            names = []
            for _ in range(r.choice([1, 1, 2, 3])):
                if exp and r.random() > self.err:
                    x = r.choice(sorted(exp))
                else:
                    x = r.choice(["a", "x", "_p", "K", "f"]) if r.random() < self.err * 3 else None
                if x is None:
                    continue
                al = x if r.random() < 0.5 else r.choice(["z1", "z2", "z3", "_z", "x", "f"])
                if (al in env[-1] or any(y["as"] == al for y in names)) and r.random() > self.err:
                    continue
                names.append({"n": x, "as": al})
            if not names:
                return []
            for y in names:
                if y["n"] in exp:
                    env[-1][y["as"]] = [exp[y["n"]]]
            return [{"k": "from", "m": m, "names": names, "_par": r.random() < 0.3, "_as": r.random() < 0.2}]
        if any(n in env[-1] for n in exp) and r.random() > self.err:
            return []
        for n in exp:
            env[-1][n] = [exp[n]]
        return [{"k": "star", "m": m}]
