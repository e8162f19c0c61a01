"""Abstract syntax of generated Acacia programs: constructors, the JSON form
read by spec/AcaciaSem.tla, and the pretty-printer to Acacia source text.

A node is a dict.  Keys starting with "_" are for the printer only and are
not given to the specification."""

IMIN, IMAX = -2 ** 31, 2 ** 31 - 1


# ------------------------------------------------------------ expressions
def Int(v, form=None):
    return {"k": "int", "v": v, "_form": form, "_t": "int"}


def Bool(v):
    return {"k": "bool", "v": bool(v), "_t": "bool"}


def S(v):
    return {"k": "str", "v": v, "_t": "str"}


def V(n, ty="int", l=False, pn=None):
    return {"k": "v", "n": n, "l": l, "ty": _k(ty), "_t": ty, "_pn": pn or n}


def _k(ty):
    """Storage kind of a type name."""
    if ty in ("int", "bool", "str", "none", "list", "map"):
        return ty
    if ty.startswith("grp:"):
        return "grp"
    if ty.startswith("ent:"):
        return "ent"
    return "struct"


def Ext(h, o):
    return {"k": "ext", "h": h, "o": o, "ty": "int", "_t": "int"}


def Fld(e, f, ty="int", ent=False):
    return {"k": "fld", "e": e, "f": f, "ent": ent, "ty": _k(ty), "_t": ty}


def RFld(e, f, ty="int"):
    return {"k": "rfld", "e": e, "f": f, "ty": _k(ty), "_t": ty}


def Un(op, e):
    return {"k": {"-": "neg", "+": "pos", "not": "not"}[op], "e": e,
            "_t": e["_t"]}


def Bin(op, a, b):
    return {"k": "bin", "op": op, "a": a, "b": b, "_t": "int"}


def Cat(a, b):
    return {"k": "cat", "a": a, "b": b, "_t": "str"}


def Cmp(a, *rest):
    """Cmp(a, '<', b, '<=', c)"""
    rs = [{"op": rest[i], "e": rest[i + 1]} for i in range(0, len(rest), 2)]
    return {"k": "cmp", "a": a, "r": rs, "_t": "bool"}


def And(*es):
    return {"k": "and", "es": list(es), "_t": "bool"}


def Or(*es):
    return {"k": "or", "es": list(es), "_t": "bool"}


def Not(e):
    return Un("not", e)


def Neg(e):
    return Un("-", e)


def ToInt(e):
    return {"k": "toint", "e": e, "_t": "int"}


def Call(f, args, kw=None, ty="int"):
    """args: list of (param, expr); kw: set of parameters passed by keyword."""
    return {"k": "call", "f": f, "args": [{"p": p, "e": e} for p, e in args],
            "_kw": set(kw or ()), "_t": ty}


def Sctor(t, fs):
    return {"k": "sctor", "t": t, "fs": [{"f": f, "e": e} for f, e in fs], "_t": t}


def List(es):
    return {"k": "list", "es": list(es), "_t": "list"}


def MapE(kvs):
    return {"k": "map", "es": [[a, b] for a, b in kvs], "_t": "map"}


def Idx(e, i, ty="int"):
    return {"k": "idx", "e": e, "i": i, "_t": ty}


def Get(e, i, ty="int"):
    return {"k": "get", "e": e, "i": i, "_t": ty}


def Rng(a, b):
    return {"k": "rng", "a": a, "b": b, "_t": "list"}


def Repeat(e, n, ref):
    return {"k": "repeat", "e": e, "n": n, "ref": ref, "_t": "list"}


# -------------------------------------------------------------- statements
def Set(x, e):
    return {"k": "set", "x": x, "e": e}


def Decl(n, e, l=False, typed=None, pn=None):
    """n := e, or n: T = e when typed is given."""
    ty = typed or e["_t"]
    return {"k": "set", "x": V(n, ty, l, pn), "e": e, "_decl": True, "_typed": typed}


def DeclT(n, ty, l=False, pn=None):
    return {"k": "decl", "n": n, "l": l, "ty": _k(ty), "_t": ty, "_pn": pn or n}


def Aug(x, op, e):
    return {"k": "aug", "x": x, "op": op, "e": e}


def ExprS(e):
    return {"k": "expr", "e": e}


def If(c, t, e=(), elif_=False):
    return {"k": "if", "c": c, "t": list(t), "e": list(e), "_elif": elif_}


def While(c, b):
    return {"k": "while", "c": c, "b": list(b)}


def For(n, it, b, l=False, pn=None):
    return {"k": "for", "n": n, "it": it, "b": list(b), "l": l, "_pn": pn or n}


def Ref(n, e, l=False, typed=None, pn=None):
    return {"k": "ref", "n": n, "e": e, "l": l, "_typed": typed, "_pn": pn or n}


def Const(n, e, l=False, typed=None, pn=None):
    return {"k": "const", "n": n, "e": e, "l": l, "_typed": typed, "_pn": pn or n}


def Result(e):
    return {"k": "result", "e": e}


def Say(*ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append({"k": "t", "t": p})
        else:
            out.append({"k": "e", "e": p, "ty": _k(p["_t"])})
    return {"k": "say", "ps": out}


def Swap(a, b):
    return {"k": "swap", "a": a, "b": b, "ty": _k(a["_t"])}


PASS = {"k": "pass"}


def Probe(i, e):
    """Make the value of e observable."""
    if e["_t"] == "bool":
        e = ToInt(e)
    return Set(Ext("p%d" % i, "obs"), e)


class Fn:
    """A source function."""
    def __init__(self, name, params, body, ret="none", kind="def", ports=None,
                 dflt=None, rp="val", ptypes=None, pn=None, anno=True):
        self.name, self.params, self.body = name, list(params), body
        self.ret, self.kind, self.rp = ret, kind, rp
        self.ports = {p: (ports or {}).get(p, "val") for p in self.params}
        if kind == "constdef":
            self.ports = {p: "val" for p in self.params}
        self.dflt = dflt or {}
        self.ptypes = ptypes or {p: "int" for p in self.params}
        self.pn = pn or name
        self.anno = anno
        self.shown = {}          # printed parameter names

    def json(self):
        return {"name": self.name, "kind": "inline" if self.kind == "constdef" else self.kind,
                "params": self.params, "ports": self.ports or {"_": "val"},
                "dflt": {k: js(v) for k, v in self.dflt.items()} or {"_": 0},
                "body": js(self.body), "ret": _k(self.ret), "rp": self.rp}


def js(x):
    """Strip printer-only keys and encode for the specification."""
    if isinstance(x, dict):
        d = {k: js(v) for k, v in x.items() if not k.startswith("_")}
        if d.get("k") == "int":
            d["z"] = 0
            if d["v"] == IMIN:
                d["v"], d["z"] = IMIN + 1, -1
        return d
    if isinstance(x, (list, tuple)):
        return [js(v) for v in x]
    return x


# --------------------------------------------------------------- printing
PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "+": 5, "-": 5, "*": 6, "/": 6,
        "%": 6, "unary": 7, "atom": 9}


class Printer:
    """full: parenthesise every compound operand; otherwise only as needed.
    fname: map of unique function name -> printed name."""
    def __init__(self, fns=None, full=False):
        self.fns = fns or {}
        self.full = full

    # -- expressions: returns (text, precedence)
    def e(self, x, need=0):
        t, p = self._e(x)
        if p < need or (self.full and p < 9 and need > 0):
            return "(" + t + ")"
        return t

    def _e(self, x):
        k = x["k"]
        if k == "int":
            v, form = x["v"], x.get("_form")
            if v == IMIN:
                return "int.MIN", 9
            if v == IMAX and form == "MAX":
                return "int.MAX", 9
            if v < 0:
                return "-" + self._lit(-v, form), 7
            return self._lit(v, form), 9
        if k == "bool":
            return ("True" if x["v"] else "False"), 9
        if k == "str":
            return '"' + x["v"].replace("\\", "\\\\").replace('"', '\\"') + '"', 9
        if k == "v":
            return x["_pn"], 9
        if k == "self":
            return "self", 9
        if k == "ext":
            return 'scb("%s", "%s")' % (x["h"], x["o"]), 9
        if k in ("fld", "rfld"):
            return self.e(x["e"], 9) + "." + x["f"], 9
        if k in ("neg", "pos"):
            t = self.e(x["e"], 7)
            return ("-" if k == "neg" else "+") + t, 7
        if k == "not":
            return "not " + self.e(x["e"], 3), 3
        if k in ("bin", "cat"):
            op = x.get("op", "+")
            if op in ("min", "max"):
                return "math.%s(%s, %s)" % (op, self.e(x["a"]), self.e(x["b"])), 9
            p = PREC[op]
            return "%s %s %s" % (self.e(x["a"], p), op, self.e(x["b"], p + 1)), p
        if k == "cmp":
            out = self.e(x["a"], 5)
            for r in x["r"]:
                out += " %s %s" % (r["op"], self.e(r["e"], 5))
            return out, 4
        if k in ("and", "or"):
            p = PREC[k]
            return (" %s " % k).join(self.e(y, p + 1) for y in x["es"]), p
        if k == "toint":
            return "int(%s)" % self.e(x["e"]), 9
        if k == "call":
            f = self.fns[x["f"]]
            args = []
            for a in x["args"]:
                t = self.e(a["e"])
                if a["p"] in x["_kw"]:
                    t = f.shown.get(a["p"], a["p"]) + "=" + t
                args.append(t)
            return "%s(%s)" % (f.pn, ", ".join(args)), 9
        if k == "sctor":
            return "%s(%s)" % (x["t"], ", ".join(
                "%s=%s" % (a["f"], self.e(a["e"])) for a in x["fs"])), 9
        if k == "list":
            return "{" + ", ".join(self.e(y) for y in x["es"]) + "}", 9
        if k == "map":
            if not x["es"]:
                return "{:}", 9
            return "{" + ", ".join("%s: %s" % (self.e(a), self.e(b))
                                   for a, b in x["es"]) + "}", 9
        if k in ("idx", "get"):
            return "%s[%s]" % (self.e(x["e"], 9), self.e(x["i"])), 9
        if k == "rng":
            return "list.range(%d, %d)" % (x["a"], x["b"]), 9
        if k == "repeat":
            return "list.repeat(%s, %d)" % (self.e(x["e"]), x["n"]), 9
        if "_src" in x:
            return x["_src"](self, x), 9
        raise ValueError(k)

    @staticmethod
    def _lit(v, form):
        if form == "hex":
            return hex(v)
        if form == "bin":
            return bin(v)
        if form == "oct":
            return "0o%o" % v
        return str(v)

    # -- statements
    def block(self, ss, ind):
        out = []
        for s in ss:
            out.extend(self.st(s, ind))
        if not out:
            out = [ind + "pass"]
        return out

    def st(self, s, ind=""):
        k = s["k"]
        if k == "set":
            if s.get("_decl"):
                if s.get("_typed"):
                    return ["%s%s: %s = %s" % (ind, s["x"]["_pn"], tyname(s["_typed"]),
                                               self.e(s["e"]))]
                return ["%s%s := %s" % (ind, s["x"]["_pn"], self.e(s["e"]))]
            return ["%s%s = %s" % (ind, self.e(s["x"]), self.e(s["e"]))]
        if k == "decl":
            return ["%s%s: %s" % (ind, s["_pn"], tyname(s["_t"]))]
        if k == "aug":
            return ["%s%s %s= %s" % (ind, self.e(s["x"]), s["op"], self.e(s["e"]))]
        if k == "expr":
            return [ind + self.e(s["e"])]
        if k == "if":
            out = ["%sif %s:" % (ind, self.e(s["c"]))] + self.block(s["t"], ind + "    ")
            e = s["e"]
            while len(e) == 1 and e[0]["k"] == "if" and s.get("_elif"):
                s = e[0]
                out += ["%selif %s:" % (ind, self.e(s["c"]))] + self.block(s["t"], ind + "    ")
                e = s["e"]
            if e:
                out += [ind + "else:"] + self.block(e, ind + "    ")
            return out
        if k == "while":
            return ["%swhile %s:" % (ind, self.e(s["c"]))] + self.block(s["b"], ind + "    ")
        if k in ("for", "forg"):
            return ["%sfor %s in %s:" % (ind, s["_pn"], self.e(s["it"]))] \
                + self.block(s["b"], ind + "    ")
        if k == "ref":
            ty = ": " + tyname(s["_typed"]) if s.get("_typed") else ""
            return ["%s&%s%s = %s" % (ind, s["_pn"], ty, self.e(s["e"]))]
        if k == "const":
            ty = ": " + tyname(s["_typed"]) if s.get("_typed") else ""
            return ["%sconst %s%s = %s" % (ind, s["_pn"], ty, self.e(s["e"]))]
        if k == "result":
            return ["%sresult %s" % (ind, self.e(s["e"]))]
        if k == "say":
            t = ""
            for p in s["ps"]:
                t += p["t"] if p["k"] == "t" else "${%s}" % self.e(p["e"])
            return ["%s/say %s" % (ind, t)]
        if k == "swap":
            return ["%sswap(%s, %s)" % (ind, self.e(s["a"]), self.e(s["b"]))]
        if k == "pass" and "_src" not in s:
            return [ind + "pass"]
        if "_src" in s:
            r = s["_src"](self, s)
            if isinstance(r, str):
                r = [r]
            return [ind + x for x in r]
        raise ValueError(k)

    def fn(self, f, ind="", head=None):
        ps = []
        for p in f.params:
            t = f.shown.get(p, p)
            port = f.ports[p]
            if f.kind == "inline":
                if port == "ref":
                    t = "&" + t
                elif port == "const":
                    t = "const " + t
            ty = f.ptypes.get(p)
            if ty and (f.anno or p not in f.dflt):
                t += ": " + tyname(ty)
            if p in f.dflt:
                t += " = " + self.e(f.dflt[p])
            ps.append(t)
        h = {"def": "def", "inline": "inline def", "constdef": "const def"}[f.kind] + " " + f.pn
        if head:
            h = head
        r = ""
        if f.ret != "none":
            r = " -> " + {"val": "", "ref": "&", "const": "const "}[
                f.rp if f.kind == "inline" else "val"] + tyname(f.ret)
        return ["%s%s(%s)%s:" % (ind, h, ", ".join(ps), r)] \
            + self.block(f.body, ind + "    ")


def tyname(t):
    if t.startswith("ent:"):
        return t[4:]
    if t.startswith("grp:"):
        return "Engroup[%s]" % t[4:]
    return t


class Program:
    """prelude: raw source lines (struct definitions, imports...);
    items: ordered list of Fn / statement dicts / raw text (str);
    ifaces: list of (path, body)."""
    def __init__(self):
        self.pre = []
        self.items = []
        self.fns = {}
        self.ifaces = []
        self.obs = []            # probe keys "pN obs"
        self.inputs = []         # list of dict name -> int  (scores of "inp")
        self.depth = 1
        self.ents = []
        self.worlds = []         # several initial entity lists (instead of ents)
        self.tpl = {}
        self.tagobs = []
        self.rnd = [[]]
        self.objs = ["obs", "inp"]
        self.fuel = 200
        self.more = 1
        self.maxsteps = 20000
        self.sources = {}        # extra module files
        self.ticks = []          # tasks and loops, in order
        self.tickruns = []       # entry points: so many game ticks in a row
        self.blks = []           # blocks the world is made of: {id, st}

    def add_fn(self, f):
        self.fns[f.name] = f
        self.items.append(f)
        return f

    def body(self):
        return [i for i in self.items if isinstance(i, dict)]

    def text(self, full=False):
        pr = Printer(self.fns, full)
        out = list(self.pre)
        for it in self.items:
            if isinstance(it, Fn):
                out += pr.fn(it)
            elif hasattr(it, "bases"):
                out += it.text(pr)
            elif isinstance(it, str):
                out.append(it)
            elif isinstance(it, tuple) and it[0] == "iface":
                out += ["interface %s:" % it[1]] + pr.block(it[2], "    ")
            else:
                out += pr.st(it)
        return "\n".join(out) + "\n"

    def case(self, cid):
        """JSON for the specification, without compiled artefacts."""
        entries = [{"body": js(self.body()), "_rel": []}]
        for it in self.items:
            if isinstance(it, tuple) and it[0] == "iface":
                entries.append({"body": js(it[2]), "_rel": [it[1]]})
        for n in self.tickruns:
            entries.append({"body": [{"k": "tick"}] * n, "_rel": ["%int/tick"] * n})
        tpl = {it.name: it.json() for it in self.items if hasattr(it, "bases")}
        if tpl or self.ents or self.worlds:
            from entlib import ROOT
            tpl.update(ROOT)
        inputs = []
        for vec in self.inputs or [{}]:
            inputs.append([{"key": k if " " in k else "%s inp" % k, "v": v if v != IMIN else IMIN + 1,
                            "z": 0 if v != IMIN else -1} for k, v in sorted(vec.items())])
        return {"id": cid, "obs": self.obs, "objs": self.objs,
                "fns": {n: f.json() for n, f in self.fns.items()} or {"_": 0},
                "tpl": tpl or {"_": 0}, "entries": entries, "inputs": inputs,
                "rnd": self.rnd, "depth": self.depth, "fuel": self.fuel, "more": self.more,
                "ticks": js(self.ticks), "maxsteps": self.maxsteps, "worlds": self.worlds or [self.ents], "tagobs": self.tagobs, "blks": self.blks}
