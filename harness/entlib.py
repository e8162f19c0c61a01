"""Entities, groups, filters, positions: abstract syntax and printing
(extends astlib)."""
from astlib import Fn, Printer, _k, js, tyname


def num(v):
    """thousandths -> float literal"""
    s = "%d.%03d" % (abs(v) // 1000, abs(v) % 1000)
    s = s.rstrip("0")
    if s.endswith("."):
        s += "0"
    return ("-" if v < 0 else "") + s


# ------------------------------------------------------------ positions
def PXYZ(x, y, z, ops=(), ints=False):
    """absolute position, thousandths; ints: write x and z as integers
    (block centre)"""
    return {"base": {"k": "xyz", "c": [x, y, z]}, "ops": list(ops), "_ints": ints}


def PEnt(e, ops=(), anchor=None):
    return {"base": {"k": "ent", "e": e}, "ops": list(ops), "_anchor": anchor}


def c1(r, v):
    return {"r": r, "v": v}


def Dim(d):
    return {"k": "dim", "d": d}


def To(c, how):
    """how: printed call, e.g. '.offset(x=1.0)'"""
    return {"k": "to", "c": c, "_how": how}


def AlignOp(a):
    return {"k": "align", "a": list(a)}


def LocalOp(rot, l, u, f):
    return {"k": "local", "rot": rot, "c": {"k": "l", "x": l, "y": u, "z": f}}


def onum(pr, x):
    """a number in an offset"""
    if x["n"]:
        return "None"
    if "o" in x:
        return "%s.%s" % (otext(pr, x["o"]), "xyz"[x["a"] - 1])
    return str(x["v"] // 1000) if x["i"] else num(x["v"])


def oargs(pr, c, how, suf=""):
    """how: number of positional arguments"""
    a = [onum(pr, x) for x in c[:how]]
    for x, n in zip(c[how:], "xyz"[how:]):
        if not x["n"]:
            a.append("%s%s=%s" % (n, suf, onum(pr, x)))
    return ", ".join(a)


def otext(pr, o):
    """an offset"""
    if o.get("_name"):
        return o["_name"]
    ops = o["ops"]
    if o["base"] == "local":
        return "Offset.local(%s)" % ", ".join(
            ([onum(pr, x) for x in o["c"][:o["_how"]]]
             + ["%s=%s" % (n, onum(pr, x)) for x, n in list(zip(o["c"], ("left", "up", "front")))[o["_how"]:]
                if x["i"] or x["v"] != 0 or "o" in x]))
    if o["base"] == "abs":
        t = "AbsPos(%s)" % ", ".join(onum(pr, x) for x in o["c"])
    elif o["_new"]:
        a = [oargs(pr, ops[0]["c"], ops[0]["_how"])]
        if o["_new"] == 2:
            a.append(oargs(pr, ops[1]["c"], 0, "_abs"))
        t = "Offset(%s)" % ", ".join(x for x in a if x)
        ops = ops[o["_new"]:]
    else:
        t = "Offset()"
    for p in ops:
        t += ".%s(%s)" % ("offset" if p["k"] == "off" else "abs", oargs(pr, p["c"], p["_how"]))
    return t


def ptext(pr, p):
    if p.get("_name"):
        t = p["_name"]
        return ptail(pr, t, p["ops"][p["_k"]:])
    b = p["base"]
    if b["k"] == "off":
        t = otext(pr, b["o"])
        if not p["_abs"]:
            t = "Pos" + t[6:]
    elif b["k"] == "ent":
        t = "Pos(%s%s)" % (pr.e(b["e"]), ', "%s"' % p["_anchor"] if p.get("_anchor") else "")
    elif p.get("_abs"):
        t = "AbsPos(%s, %s, %s)" % tuple(num(v) for v in b["c"])
    else:
        x, y, z = b["c"]

        def xz(v):
            if p.get("_ints") and (v - 500) % 1000 == 0:
                return str((v - 500) // 1000)
            return num(v)
        t = "Pos(%s, %s, %s)" % (xz(x), num(y), xz(z))
    return ptail(pr, t, p["ops"])


def ptail(pr, t, ops):
    for o in ops:
        if o["k"] == "dim":
            t += '.dim("%s")' % o["d"]
        elif o["k"] == "to":
            t += o["_how"]
        elif o["k"] == "ap":
            if o["_sugar"]:
                t += otext(pr, o["o"])[len("Offset()"):]
            else:
                t += ".apply(%s)" % otext(pr, o["o"])
        elif o["k"] == "align":
            a = "".join(o["a"])
            t += ".align()" if a == "xyz" and o.get("_short") else '.align("%s")' % a
        else:
            c = o["c"]
            t += ".local(%s, left=%s, up=%s, front=%s)" % (
                rtext(pr, o["rot"]), num(c["x"]), num(c["y"]), num(c["z"]))
    return t


def RAbs(v, h, ops=()):
    return {"base": {"k": "abs", "r": [v, h]}, "ops": list(ops)}


def REnt(e, ops=()):
    return {"base": {"k": "ent", "e": e}, "ops": list(ops)}


def RFace(e, ops=()):
    return {"base": {"k": "face", "e": e}, "ops": list(ops)}


def ROp(kind, v, h):
    """kind abs/offset; v, h thousandths or None"""
    r = "a" if kind == "abs" else "r"
    return {"v": c1("r", 0) if v is None else c1(r, v),
            "h": c1("r", 0) if h is None else c1(r, h), "_k": kind, "_v": v, "_h": h}


def rtext(pr, r):
    if r.get("_name"):
        return r["_name"]
    b = r["base"]
    if b["k"] == "abs":
        t = "Rot(%s, %s)" % (num(b["r"][0]), num(b["r"][1]))
    elif b["k"] == "ent":
        t = "Rot(%s)" % pr.e(b["e"])
    else:
        t = "Rot.face_entity(%s)" % pr.e(b["e"])
    for o in r["ops"]:
        a = []
        if o["_v"] is not None:
            a.append("vertical=" + num(o["_v"]))
        if o["_h"] is not None:
            a.append("horizontal=" + num(o["_h"]))
        t += ".%s(%s)" % (o["_k"], ", ".join(a))
    return t


# ---------------------------------------------------------- expressions
def Self(t):
    return {"k": "self", "_t": "ent:" + t}


def _args(pr, f, x):
    out = []
    for a in x["args"]:
        t = pr.e(a["e"])
        if "p" in a and a["p"] in x.get("_kw", ()):
            t = f.shown.get(a["p"], a["p"]) + "=" + t
        out.append(t)
    return out


def _mcall(pr, x):
    f = x["_f"]
    return "%s.%s(%s)" % (pr.e(x["o"], 9), x["m"], ", ".join(_args(pr, f, x)))


def MCall(o, st, m, f, args, kw=None, cast=False):
    """f: the Fn whose parameters are named (any implementation)"""
    return {"k": "mcall", "o": o, "st": st, "m": m, "cast": cast,
            "args": [{"p": p, "e": e} if p in (kw or ()) else
                     {"i": f.params.index(p) + 1, "e": e} for p, e in args],
            "_f": f, "_kw": set(kw or ()), "_t": f.ret, "_src": _mcall}


def _scall(pr, x):
    o = pr.e(x["_o"], 9) if x["_o"] is not None else x["t"]
    return "%s.%s(%s)" % (o, x["m"], ", ".join(_args(pr, x["_f"], x)))


def SCall(t, m, f, args, kw=None, obj=None):
    return {"k": "scall", "t": t, "m": m, "args": [{"p": p, "e": e} for p, e in args],
            "_f": f, "_kw": set(kw or ()), "_o": obj, "_t": f.ret, "_src": _scall}


def _upcast(pr, x):
    return "upcast(%s, %s)" % (pr.e(x["e"]), x["_to"])


def Upcast(e, t):
    return {"k": "upcast", "e": e, "_to": t, "_t": "ent:" + t, "_src": _upcast}


def summon(ty, pos, nm="", ev="", style=0):
    return {"ty": ty, "nm": nm, "ev": ev, "pos": pos, "_style": style}


def _dargs(pr, d):
    a = []
    kw = d["_style"] == 1
    if kw:
        a = ['type="%s"' % d["ty"], "pos=" + ptext(pr, d["pos"])]
        if d["_style"] == 1 and d["nm"]:
            a.append('name="%s"' % d["nm"])
        if d["ev"]:
            a.append('event="%s"' % d["ev"])
        return a
    a = ['"%s"' % d["ty"], ptext(pr, d["pos"])]
    if d["nm"] or d["ev"]:
        if d["nm"]:
            a.append('"%s"' % d["nm"])
        if d["ev"]:
            a.append(('"%s"' if d["nm"] else 'event="%s"') % d["ev"])
    return a


def _new(pr, x):
    if "d" in x:
        return "%s(%s)" % (x["t"], ", ".join(_dargs(pr, x["d"])))
    return "%s(%s)" % (x["t"], ", ".join(_args(pr, x["_f"], x)))


def New(t, f=None, args=(), d=None, kw=None):
    x = {"k": "new", "t": t, "args": [{"p": p, "e": e} for p, e in args], "_f": f,
         "_kw": set(kw or ()), "_t": "ent:" + t, "_src": _new}
    if d is not None:
        x["d"] = d
    return x


def _gnew(pr, x):
    return tyname(x["_t"]) + "()"


def GNew(t):
    return {"k": "gnew", "_t": "grp:" + t, "_src": _gnew}


_G = {"gcopy": ".copy()", "gsize": ".size()", "gempty": ".is_empty()", "gsingle": ".to_single()"}


def _gattr(pr, x):
    return pr.e(x["e"], 9) + _G[x["k"]]


def GAttr(k, g):
    t = {"gcopy": g["_t"], "gsize": "int", "gempty": "bool", "gsingle": "ent:" + g["_t"][4:]}[k]
    return {"k": k, "e": g, "_t": t, "_src": _gattr}


def _ghas(pr, x):
    return "%s.has(%s)" % (pr.e(x["e"], 9), pr.e(x["x"]))


def GHas(g, x):
    return {"k": "ghas", "e": g, "x": x, "_t": "bool", "_src": _ghas}


def _gch(pr, x):
    t = pr.e(x["x"], 9)
    for o in x["ops"]:
        k = o["k"]
        if k in ("select", "drop", "filter"):
            a = ftext(pr, o["f"])
        elif k in ("extend", "subtract", "intersect"):
            a = pr.e(o["e"])
        elif k in ("add", "remove"):
            a = ", ".join(pr.e(y) for y in o["es"])
        else:
            a = ""
        t += ".%s(%s)" % (k, a)
    return t


def GCh(g, *ops):
    return {"k": "gch", "x": g, "ops": list(ops), "_t": g["_t"], "_src": _gch}


def gop(k, a=None):
    if k in ("select", "drop", "filter"):
        return {"k": k, "f": a}
    if k in ("extend", "subtract", "intersect"):
        return {"k": k, "e": a}
    if k in ("add", "remove"):
        return {"k": k, "es": list(a)}
    return {"k": k}


def _escb(pr, x):
    return 'scb(%s, "%s")' % (pr.e(x["e"]), x["o"])


def EScb(e, o):
    return {"k": "escb", "e": e, "o": o, "ty": "int", "_t": "int", "_src": _escb}


# ------------------------------------------------------------- filters
U = {"u": True, "v": 0}


def b(v):
    return U if v is None else {"u": False, "v": v}


class Filt(list):
    """steps of which the first `k` were given a name"""
    name, k = None, 0


def _fdef(pr, s):
    return "%s%s = %s" % ("&" if s["_alias"] else "const ", s["_n"], ftext(pr, s["_f"]))


def FDef(n, steps, alias=False):
    """give a filter a name (means nothing by itself)"""
    return {"k": "pass", "_n": n, "_f": steps, "_alias": alias, "_src": _fdef}


def ftext(pr, steps):
    t = "Enfilter()"
    if isinstance(steps, Filt) and steps.name:
        t = steps.name
        steps = steps[steps.k:]
    for s in steps:
        a = s["_a"](pr, s) if callable(s["_a"]) else s["_a"]
        t += ".%s(%s)" % (s["k"], a)
    return t


def q(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def FVals(k, vs):
    return {"k": k, "vs": list(vs), "_a": ", ".join(q(v) for v in vs)}


def FPlayers():
    return {"k": "all_players", "_a": ""}


def FRandom(ty, n=None, shown=True):
    a = []
    if shown:
        a.append('"%s"' % ty)
    if n is not None:
        a.append("limit=%d" % n)
    return {"k": "random", "ty": ty, "n": 1 if n is None else n, "_a": ", ".join(a)}


def _near(pr, s):
    return ptext(pr, s["pos"]) + (", %d" % s["n"] if s["_shown"] else "")


def FNear(k, pos, n=None):
    return {"k": k, "pos": pos, "n": 1 if n is None else n, "_shown": n is not None, "_a": _near}


def _dist(pr, s):
    a = [ptext(pr, s["pos"])]
    if not s["lo"]["u"]:
        a.append("min=" + num(s["lo"]["v"]))
    if not s["hi"]["u"]:
        a.append("max=" + num(s["hi"]["v"]))
    return ", ".join(a)


def FDist(pos, lo=None, hi=None):
    return {"k": "distance_from", "pos": pos, "lo": b(lo), "hi": b(hi), "_a": _dist}


def _inside(pr, s):
    return "%s, dx=%s, dy=%s, dz=%s" % ((ptext(pr, s["pos"]),) + tuple(num(v) for v in s["box"]))


def FInside(pos, box):
    return {"k": "inside", "pos": pos, "box": list(box), "_a": _inside}


def FRot(k, lo, hi):
    a = []
    if lo is not None:
        a.append("min=" + num(lo))
    if hi is not None:
        a.append("max=" + num(hi))
    dl, dh = (-90000, 90000) if k == "rot_vertical" else (-180000, 180000)
    return {"k": k, "lo": b(dl if lo is None else lo), "hi": b(dh if hi is None else hi),
            "_a": ", ".join(a)}


def _rng(lo, hi, n=False):
    if lo is not None and lo == hi:
        return '"%s%d"' % ("!" if n else "", lo) if n else str(lo)
    return '"%s%s..%s"' % ("!" if n else "", "" if lo is None else lo, "" if hi is None else hi)


def FScores(o, lo, hi, n=False):
    return {"k": "scores", "o": o, "lo": b(lo), "hi": b(hi), "n": n,
            "_a": '"%s", %s' % (o, _rng(lo, hi, n))}


def FLevel(lo, hi):
    a = []
    if lo is not None:
        a.append("min=%d" % lo)
    if hi is not None:
        a.append("max=%d" % hi)
    return {"k": "level", "lo": b(lo), "hi": b(hi), "_a": ", ".join(a)}


def FItem(it, q=None, n=False, data=None, loc=None, slot=None):
    a = ['"%s"' % it]
    if q is not None:
        a.append("quantity=" + _rng(q[0], q[1], n))
    if data is not None:
        a.append("data=%d" % data)
    if loc is not None:
        a.append('slot_type="%s"' % loc)
        if slot is not None:
            a.append("slot_num=" + _rng(slot[0], slot[1]))
    lo, hi = q if q is not None else (1, None)
    sl, sh = slot if slot is not None else (None, None)
    return {"k": "has_item", "it": it, "lo": b(lo), "hi": b(hi), "n": n,
            "data": -1 if data is None else data, "loc": loc or "", "slo": b(sl), "shi": b(sh),
            "_a": ", ".join(a)}


# ---------------------------------------------------------- statements
def ForG(n, g, body, l=False):
    return {"k": "forg", "n": n, "l": l, "it": g, "b": list(body), "_pn": n}


def _newc(pr, s):
    head = "new" if s["_t"] == "Entity" and not s["_named"] else s["_t"] + ".new"
    if "d" in s:
        return "%s(%s)" % (head, ", ".join(_dargs(pr, s["d"])))
    return "%s(%s)" % (head, ", ".join(_args(pr, s["_f"], s)))


def NewC(t, f=None, args=(), d=None, kw=None, named=False):
    s = {"k": "newc", "t": t, "args": [{"p": p, "e": e} for p, e in args], "_f": f,
         "_kw": set(kw or ()), "_t": t, "_named": named, "_src": _newc}
    if d is not None:
        s["d"] = d
    return s


def _etag(pr, s):
    return "/tag ${%s} %s %s" % (pr.e(s["e"]), "add" if s["add"] else "remove", s["v"])


def ETag(e, v, add=True):
    return {"k": "etag", "e": e, "v": v, "add": add, "_src": _etag}


def _kill(pr, s):
    return "/kill ${%s}" % pr.e(s["e"])


def Kill(e):
    return {"k": "kill", "e": e, "_src": _kill}


def _esay(pr, s):
    return "/execute as ${%s} run say %s" % (pr.e(s["e"]), s["t"])


def ESay(e, t):
    return {"k": "esay", "e": e, "t": "@" + t, "_src": _esay}


# ------------------------------------------------------------ templates
class Tpl:
    def __init__(self, name, bases=(), fields=(), methods=(), new=None):
        """methods: list of (qualifier or "", Fn) with Fn.pn the method name;
        new: Fn or None"""
        self.name, self.bases = name, list(bases)
        self.fields, self.methods, self.new = list(fields), list(methods), new

    def json(self):
        ms = {}
        for q, f in self.methods:
            d = f.json()
            d["q"] = q or "none"
            ms[f.pn] = d
        n = {"k": "none"}
        if self.new is not None:
            n = {"k": "fn", "f": self.new.json()}
        return {"bases": self.bases or ["Entity"], "ms": ms or {"_": 0}, "new": n}

    def text(self, pr):
        out = ["entity %s%s:" % (self.name, " extends " + ", ".join(self.bases)
                                 if self.bases else "")]
        for f, t in self.fields:
            out.append("    %s: %s" % (f, tyname(t)))
        if self.new is not None:
            out += pr.fn(self.new, "    ",
                         head="inline new" if self.new.kind == "inline" else "new")
        for q, f in self.methods:
            t = pr.fn(f, "    ")
            if q:
                t[0] = "    " + q + " " + t[0].strip()
            out += t
        if len(out) == 1:
            out.append("    pass")
        return out


ROOT = {"Entity": {"bases": [], "ms": {"_": 0}, "new": {"k": "default"}}}


def player(pos=(0, 70000, 0), **kw):
    return ent("player", pos, **kw)


def ent(ty, pos=(0, 70000, 0), nm="", tags=(), fam=(), rot=(0, 0), dim="overworld", lvl=0,
        md="survival", inv=(), perms=(), scb=None):
    return {"ty": ty, "nm": nm, "tags": list(tags), "fam": list(fam), "pos": list(pos),
            "rot": list(rot), "dim": dim, "lvl": lvl, "md": md, "inv": list(inv),
            "perms": list(perms),
            "scb": [{"o": o, "v": v} for o, v in sorted((scb or {}).items())]}


def item(it, qty, data=0, loc="slot.hotbar", slot=0):
    return {"it": it, "qty": qty, "data": data, "loc": loc, "slot": slot}
