"""Programs that act on the world (world module, positions, offsets)."""
import json

from astlib import *        # noqa
from entlib import *        # noqa
from entlib import otext, ptext, rtext, ftext
from filtgen import NAMES, TAGS, TYPES
from gen import Bad, Sc
from textgen import TGen, q

DIMS = ["overworld", "nether", "the_end"]
BLOCKS = ["stone", "mod:b", "air"]
STATES = [("lit", True), ("lit", False), ("age", 3), ("age", -1), ("kind", "a b"), ("kind", "x")]
NONE = {"n": True, "v": 0, "i": False}
ITEMS = ["apple", "mod:it"]


def sval(v):
    return ("true" if v else "false") if isinstance(v, bool) else str(v) if isinstance(v, int) else '"%s"' % v


def aval(v):
    return ("True" if v else "False") if isinstance(v, bool) else str(v) if isinstance(v, int) else q(v)


def T(t):
    return {"k": "t", "t": t}


def PO(o):
    return {"k": "off", "o": o}


def HERE():
    return PO({"base": "rel", "c": [NONE] * 3, "ops": [], "_new": 0})


def mcs(s):
    """a name as it is written in commands"""
    if s == "":
        return '""'
    if any(c in s for c in ' \\"!,=@~[]{}^'):
        return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')
    return s


class WGen(TGen):
    def __init__(self, rnd, **feats):
        super().__init__(rnd, **feats)
        self.offs, self.poss, self.rots, self.blks, self.items = [], [], [], [], []
        self.ver = feats.get("ver") or (1, 20, 10)
        self.edu = feats.get("edu", False)
        if self.ver < (1, 19, 80):
            self.player = 0      # no filters about permissions
        self.nest = 0

    # ------------------------------------------------------------- offsets
    def n1(self, none=0.3, whole=0.4, d=1):
        if self.ch(none):
            return NONE
        c = [o for o in self.offs if o["base"] == "abs"]
        if d > 0 and self.ch(0.07):
            o = self.r.choice(c) if c and self.ch(0.7) else self.absp(1)
            return {"n": False, "o": o, "a": self.r.randint(1, 3), "i": False, "v": 0}
        if self.ch(whole):
            return {"n": False, "v": self.r.randint(-5, 5) * 1000, "i": True}
        return {"n": False, "v": self.r.randint(-50, 50) * self.r.choice([100, 100, 500, 1, 25]), "i": False}

    def c3(self, none=0.3, d=1):
        return [self.n1(none, d=d) for _ in range(3)]

    def how(self, c):
        """number of positional arguments"""
        return self.r.choice([0, 0, 3, self.r.randint(0, 3)])

    def op(self, k, none=0.4, d=1):
        c = self.c3(none, d)
        return {"k": k, "c": c, "_how": self.how(c)}

    def absp(self, d=1):
        if self.ch(0.05):       # tenths that cancel out, but not in floating point
            a = self.r.choice([100, 200, 700])
            num = lambda v: {"n": False, "v": v, "i": False}
            ops = [{"k": "off", "c": [num(-v), NONE, NONE], "_how": 0} for v in (a, 300 - a if a < 300 else 100)]
            return {"base": "abs", "c": [num(-sum(o["c"][0]["v"] for o in ops)), num(1000), num(2000)],
                    "_new": 0, "ops": ops}
        return {"base": "abs", "c": self.c3(0, d - 1), "_new": 0,
                "ops": [self.op(self.r.choice(["abs", "off", "off"]), d=d - 1) for _ in range(self.r.choice([0, 0, 1, 2]))]}

    def off(self, local=True):
        r = self.r
        c = [o for o in self.offs if local or o["base"] != "local"]
        if c and self.ch(0.25):
            return r.choice(c)
        w = r.random()
        if w < 0.2 and local:
            c = self.c3(0)
            for x in c:
                if self.ch(0.3):
                    x.update(v=0, i=False)
                    x.pop("o", None)
            return {"base": "local", "c": c, "ops": [], "_how": r.choice([0, 3, r.randint(0, 3)])}
        if w < 0.4:
            return self.absp()
        new = r.choice([0, 1, 1, 2])
        ops = []
        if new:
            ops.append(self.op("off"))
        if new == 2:
            a = self.op("xabs", 0.5)
            for i in range(3):      # an axis is given once
                if not ops[0]["c"][i]["n"]:
                    a["c"][i] = NONE
            ops.append(a)
        ops += [self.op(r.choice(["abs", "off"])) for _ in range(r.choice([0, 0, 1, 2]))]
        return {"base": "rel", "c": [NONE] * 3, "ops": ops, "_new": new}

    def sugar(self):
        """.offset(...) or .abs(...) of a position"""
        return {"k": "ap", "_sugar": True, "o": {"base": "rel", "c": [NONE] * 3, "_new": 0,
                                                 "ops": [self.op(self.r.choice(["abs", "off"]))]}}

    def wrot(self, face=True):
        r = self.r
        c = [x for x in self.rots if face or x["base"]["k"] != "face"]
        if c and self.ch(0.25):
            return r.choice(c)
        w = r.random()
        a = lambda: r.choice([0, 90, -90, 180, 45, r.randint(-90, 90)]) * 1000
        ops = [ROp(r.choice(["abs", "offset"]), *[a() if self.ch(0.6) else None for _ in range(2)])
               for _ in range(r.choice([0, 0, 1, 2]))]
        if w < 0.4:
            return RAbs(a(), a(), ops)
        return (REnt if w < 0.75 or not face else RFace)(dict(r.choice(self.ents)), ops)

    def pops(self, n):
        r, out = self.r, []
        for _ in range(n):
            w = r.random()
            if w < 0.35:
                out.append(self.sugar())
            elif w < 0.55:
                out.append({"k": "ap", "_sugar": False, "o": self.off(r.random() < 0.7)})
            elif w < 0.7:
                out.append(Dim(r.choice(DIMS)))
            elif w < 0.85:
                out.append(dict(AlignOp("".join(r.sample("xyz", r.randint(1, 3)))), _short=self.ch(0.5)))
            else:
                out.append(LocalOp(self.wrot(), *[r.randint(-6, 6) * 500 for _ in range(3)]))
        return out

    def wpos(self):
        r = self.r
        ops = self.pops(r.choice([0, 0, 1, 1, 2, 3]))
        if self.poss and self.ch(0.25):
            p = r.choice(self.poss)
            if p.get("_abs"):
                ops = []
            return dict(p, ops=p["ops"] + ops, _k=len(p["ops"]))
        w = r.random()
        if w < 0.15:
            c = [o for o in self.offs if o["base"] == "abs"]
            o = r.choice(c) if c and self.ch(0.5) else self.absp()
            return {"base": {"k": "off", "o": o}, "ops": [], "_abs": True}
        if w < 0.5:
            o = {"base": "abs", "c": self.c3(0), "ops": [], "_new": 0}
            return {"base": {"k": "off", "o": o}, "ops": ops, "_abs": False}
        # where the entity stands, with its rotation
        return PEnt(dict(r.choice(self.ents)), ops, r.choice([None, None, "feet"]))

    # ------------------------------------------------------ blocks and items
    def block(self):
        """(source, id, states)"""
        r = self.r
        if self.blks and self.ch(0.25):
            return r.choice(self.blks)
        b = r.choice(BLOCKS)
        st = dict(r.sample(STATES, r.choice([0, 0, 1, 2])))
        eq = "=" if self.ver >= (1, 20, 10) else ":"
        out = sorted('"%s"%s%s' % (k, eq, sval(v)) for k, v in st.items())
        src = "{%s}" % ", ".join("%s: %s" % (q(k), aval(v)) for k, v in st.items())
        if not st:
            return (r.choice([q(b), "world.Block(%s)" % q(b)]), b, out)
        return ("world.Block(%s, %s%s)" % (q(b), r.choice(["", "states="]), src), b, out)

    def bt(self, b):
        return T(" %s [%s]" % (b[1], ",".join(b[2])))

    def item(self):
        """(source, id, data, components)"""
        r = self.r
        if self.items and self.ch(0.25):
            return r.choice(self.items)
        i = r.choice(ITEMS)
        if self.ch(0.4):
            return (q(i), i, 0, "")
        a, comp = [q(i)], {}
        data = r.choice([0, 0, 1, 32767])
        if data or self.ch(0.3):
            a.append(r.choice(["", "data="]) + str(data))
        if self.ch(0.3):
            k = self.ch(0.7)
            a.append("keep_on_death=" + aval(k))
            if k:
                comp["minecraft:keep_on_death"] = {}
        for n in ("can_destroy", "can_place_on"):
            if self.ch(0.25):
                bs = r.sample(["stone", "dirt", "mod:x y"], r.choice([0, 1, 2]))
                a.append("%s={%s}" % (n, ", ".join(q(b) for b in bs)))
                if bs:
                    comp["minecraft:" + n] = {"blocks": bs}
        if self.ch(0.3):
            m = r.choice(["lock_in_slot", "lock_in_inventory"])
            a.append("lock=" + q(m))
            comp["minecraft:item_lock"] = {"mode": m}
        c = " " + json.dumps(comp, sort_keys=True, separators=(",", ":")) if comp else ""
        return ("world.Item(%s)" % ", ".join(a), i, data, c)

    # ----------------------------------------------------------- statements
    def who(self, player=False, single=False):
        """(source thunk, part, {e, g})"""
        r = self.r
        if single or self.ch(0.5):
            e = dict(r.choice(self.ents))
            g = False
        else:
            e = dict(r.choice(self.groups))
            g = True
        return (lambda pr: pr.e(e)), {"k": "who", "e": e, "g": g, "pl": player}, {"e": e, "g": g}

    def cmd(self, fx, name, args, **kw):
        """args: (name, source text or thunk, optional?) in order; an
        optional argument may be left out by giving None"""
        args = [a for a in args]
        kk = self.r.choice([0, len(args), len(args), self.r.randint(0, len(args))])
        txt = []
        poss = True
        for i, a in enumerate(args):
            n, s = a[0], a[1]
            if s is None:
                poss = False
                continue
            if i >= kk:
                poss = False
            txt.append((None if poss else n, s))
        if self.ch(0.2):
            named = [x for x in txt if x[0]]
            self.r.shuffle(named)
            txt = [x for x in txt if not x[0]] + named

        def src(pr, s):
            return "world.%s(%s)" % (name, ", ".join(
                ("" if n is None else n + "=") + (t(pr) if callable(t) else t) for n, t in txt))
        d = {"k": "wcmd", "fx": fx, "_src": src}
        d.update(kw)
        d.setdefault("ps", [])
        return d

    def opt(self, v, default, show=None):
        """source of an argument that has a default"""
        return None if v == default and self.ch(0.6) else (show or aval)(v)

    def wstmt(self):
        r = self.r
        k = r.choice(["clone", "clone_only", "fill", "fill_replace", "setblock", "damage", "effect_give", "effect_clear",
                      "enchant", "event_entity", "kill", "msg_me", "replaceitem_block", "replaceitem_entity",
                      "ride_start_tp_ride", "ride_start_tp_rider", "ride_stop", "ride_evict_riders", "summon_rider",
                      "summon_ride", "msg_say", "msg_say", "spread", "summon", "summon", "tag_add", "tag_remove", "msg_tell", "tp",
                      "tp", "rotate", "rotate", "move", "move_local", "clear_inventory", "clear", "spawnpoint_clear",
                      "gamemode", "give", "kick", "recipe", "spawnpoint_set", "xp_add_levels", "xp_add_points"]
                     + (["ability"] if self.edu else []))
        if k == "kill" and self.ch(0.8):
            k = "tp"
        return getattr(self, "w_" + k, None)() if hasattr(self, "w_" + k) else self.simple(k)

    def raw(self, n, name, args, ps, **kw):
        return self.cmd("raw", name, args, n=n, ps=ps, **kw)

    def p_(self, p):
        return lambda pr: ptext(pr, p)

    def o_(self, o):
        return lambda pr: otext(pr, o)

    def w_clone(self):
        p, o, d = self.wpos(), self.off(), self.off()
        m, na = self.r.choice([None, "move", "force"]), self.ch(0.5)
        return self.raw("clone", "clone", [
            ("origin", self.p_(p)), ("offset", self.o_(o)), ("dest", self.o_(d)),
            ("mode", self.opt(m, None, lambda v: "None" if v is None else q(v))), ("no_air", self.opt(na, False))],
            [T(" "), HERE(), T(" "), PO(o), T(" "), PO(d), T(" %s %s" % ("masked" if na else "replace", m or "normal"))], pos=p)

    def w_clone_only(self):
        p, o, d, b = self.wpos(), self.off(), self.off(), self.block()
        m = self.r.choice([None, "move", "force"])
        return self.raw("clone", "clone_only", [
            ("origin", self.p_(p)), ("offset", self.o_(o)), ("dest", self.o_(d)), ("block", b[0]),
            ("mode", self.opt(m, None, lambda v: "None" if v is None else q(v)))],
            [T(" "), HERE(), T(" "), PO(o), T(" "), PO(d), T(" filtered " + (m or "normal")), self.bt(b)], pos=p)

    def repl(self, ms):
        m = self.r.choice(ms)
        return self.opt(m, "all"), {"aironly": "keep", "all": "replace"}.get(m, m)

    def w_fill(self):
        p, o, b = self.wpos(), self.off(), self.block()
        s, m = self.repl(["destroy", "hollow", "outline", "aironly", "all"])
        return self.raw("fill", "fill", [("origin", self.p_(p)), ("offset", self.o_(o)), ("block", b[0]), ("replacement", s)],
                        [T(" "), HERE(), T(" "), PO(o), self.bt(b), T(" " + m)], pos=p)

    def w_fill_replace(self):
        p, o, b, b2 = self.wpos(), self.off(), self.block(), self.block()
        return self.raw("fill", "fill_replace", [("origin", self.p_(p)), ("offset", self.o_(o)), ("block", b[0]), ("replaces", b2[0])],
                        [T(" "), HERE(), T(" "), PO(o), self.bt(b), T(" replace"), self.bt(b2)], pos=p)

    def w_setblock(self):
        p, b = self.wpos(), self.block()
        s, m = self.repl(["destroy", "aironly", "all"])
        return self.raw("setblock", "setblock", [("pos", self.p_(p)), ("block", b[0]), ("replacement", s)],
                        [T(" "), HERE(), self.bt(b), T(" " + m)], pos=p)

    def w_damage(self):
        s, w, _ = self.who()
        n = self.r.choice([0, 3, 20])
        c = self.r.choice([None, "fire", "entity_attack"])
        ps = [T(" "), w, T(" %d" % n)]
        by = None
        if c:
            ps.append(T(" " + c))
            if self.ch(0.5):
                by, w2, _ = self.who(single=True)
                ps += [T(" entity "), w2]
        return self.raw("damage", "damage", [("target", s), ("amount", str(n)), ("cause", q(c) if c else self.opt(None, None, str)),
                                             ("damager", by or self.opt(None, None, str))], ps)

    def w_effect_give(self):
        s, w, _ = self.who()
        d, a, p = self.r.choice([0, 30, 1000000]), self.r.choice([0, 0, 3, 255]), self.ch(0.6)
        return self.raw("effect", "effect_give", [("target", s), ("effect", q("speed")), ("duration", str(d)),
                                                  ("amplifier", self.opt(a, 0)), ("particle", self.opt(p, True))],
                        [T(" "), w, T(" speed %d %d %s" % (d, a, sval(not p)))])

    def w_enchant(self):
        s, w, _ = self.who()
        n = self.r.choice([1, 1, 5])
        return self.raw("enchant", "enchant", [("target", s), ("enchantment", q("sharpness")), ("level", self.opt(n, 1))],
                        [T(" "), w, T(" sharpness %d" % n)])

    def w_event_entity(self):
        s, w, _ = self.who()
        return self.raw("event", "event_entity", [("target", s), ("event", q("mod:ev"))], [T(" entity "), w, T(" mod:ev")])

    def w_kill(self):
        s, _, on = self.who()
        return self.cmd("kill", "kill", [("target", s)], on=on)

    def word(self):
        return self.r.choice(["hi", "a b", "%d x" % self.r.randint(0, 9)])

    def w_msg_me(self):
        s, w, _ = self.who(single=True)
        m = self.word()
        r = self.raw("me", "msg_me", [("sender", s), ("message", q(m))], [T(" " + m)])
        r["as"] = w["e"]
        return r

    def w_msg_tell(self):
        s, w, _ = self.who(single=True)
        s2, w2, _ = self.who()
        m = self.word()
        r = self.raw("tell", "msg_tell", [("sender", s), ("receiver", s2), ("message", q(m))], [T(" "), w2, T(" " + m)])
        r["as"] = w["e"]
        return r

    def w_msg_say(self):
        s, w, _ = self.who(single=True)
        m = "@" + self.word()
        r = self.cmd("say", "msg_say", [("sender", s), ("message", q(m))], t=m)
        r["as"] = w["e"]
        return r

    def w_replaceitem_block(self):
        p, i = self.wpos(), self.item()
        sl, n, k = self.r.randint(0, 26), self.r.choice([1, 1, 5]), self.ch(0.4)
        return self.raw("replaceitem", "replaceitem_block", [
            ("pos", self.p_(p)), ("slot", str(sl)), ("item", i[0]), ("amount", self.opt(n, 1)), ("keep_old", self.opt(k, False))],
            [T(" block "), HERE(), T(" slot.container %d %s %s %d %d%s" % (sl, "keep" if k else "destroy", i[1], n, i[2], i[3]))], pos=p)

    def w_replaceitem_entity(self):
        (s, w, _), i = self.who(), self.item()
        sl, n, k = self.r.randint(0, 8), self.r.choice([1, 1, 5]), self.ch(0.4)
        return self.raw("replaceitem", "replaceitem_entity", [
            ("target", s), ("location", q("slot.hotbar")), ("slot", str(sl)), ("item", i[0]), ("amount", self.opt(n, 1)),
            ("keep_old", self.opt(k, False))],
            [T(" entity "), w, T(" slot.hotbar %d %s %s %d %d%s" % (sl, "keep" if k else "destroy", i[1], n, i[2], i[3]))])

    def w_ride_start_tp_ride(self):
        s, w, _ = self.who(single=True)
        s2, w2, _ = self.who(single=True)
        return self.raw("ride", "ride_start_tp_ride", [("rider", s), ("ride", s2)],
                        [T(" "), w, T(" start_riding "), w2, T(" teleport_ride")])

    def w_ride_start_tp_rider(self):
        s, w, _ = self.who()
        s2, w2, _ = self.who(single=True)
        f = self.r.choice(["if_group_fits", "until_full"])
        return self.raw("ride", "ride_start_tp_rider", [("rider", s), ("ride", s2), ("fill", self.opt(f, "until_full"))],
                        [T(" "), w, T(" start_riding "), w2, T(" teleport_rider " + f)])

    def evnm(self):
        ev, nm = self.r.choice([None, None, "mod:ev"]), self.r.choice([None, "bob", "al ice"])
        o = lambda v: "None" if v is None else q(v)
        return ([("event", self.opt(ev, None, o)), ("name", self.opt(nm, None, o))],
                " %s%s" % (ev or "*", "" if nm is None else " " + mcs(nm)), ev or "", nm or "")

    def w_summon_rider(self):
        s, w, _ = self.who()
        a, t, _, _ = self.evnm()
        return self.raw("ride", "summon_rider", [("ride", s), ("type", q("pig"))] + a, [T(" "), w, T(" summon_rider pig" + t)])

    def w_summon_ride(self):
        s, w, _ = self.who()
        a, t, _, _ = self.evnm()
        m = self.r.choice(["skip_riders", "no_ride_change", "reassign_rides"])
        return self.raw("ride", "summon_ride", [("rider", s), ("type", q("pig"))] + a + [("mode", self.opt(m, "reassign_rides"))],
                        [T(" "), w, T(" summon_ride pig %s%s" % (m, t))])

    def w_spread(self):
        s, w, _ = self.who()
        p = self.wpos()
        n, f = self.r.choice([1000, 2500, 10000]), self.r.choice([0, 0, 500])
        if f + 1000 > n:
            f = 0
        return self.raw("spreadplayers", "spread", [("target", s), ("center", self.p_(p)), ("range", num(n)),
                                                    ("interval", self.opt(f, 0, num))],
                        [T(" "), HERE(), T(" %s %s " % (self.dec(f), self.dec(n))), w], pos=p)

    def dec(self, v):
        s = num(v)
        return s[:-2] if s.endswith(".0") else s

    def w_summon(self):
        p = self.wpos()
        a, _, ev, nm = self.evnm()
        ty = self.r.choice(TYPES[:2])
        kw = {}
        rs = None
        if self.ver >= (1, 19, 70) and self.ch(0.5):
            ro = self.wrot()
            kw["rot"] = ro
            rs = lambda pr: rtext(pr, ro)
        return self.cmd("summon", "summon", [("type", q(ty)), ("pos", self.p_(p))] + a + [("rot", rs)],
                        pos=p, ty=ty, nm=nm, ev=ev, **kw)

    def w_tag_add(self):
        return self.tagc("tag_add", "tagadd")

    def w_tag_remove(self):
        return self.tagc("tag_remove", "tagdel")

    def tagc(self, name, fx):
        s, _, on = self.who()
        t = self.r.choice(TAGS)
        return self.cmd(fx, name, [("target", s), ("tag", q(t))], on=on, t=t)

    def w_tp(self):
        s, _, on = self.who()
        p = self.wpos()
        return self.cmd("tp", "tp", [("target", s), ("dest", self.p_(p)), ("check_for_blocks", self.opt(self.ch(0.3), False))],
                        on=on, pos=p)

    def w_rotate(self):
        s, _, on = self.who()
        ro = self.wrot()
        return self.cmd("rotate", "rotate", [("target", s), ("rot", lambda pr: rtext(pr, ro))], on=on, rot=ro)

    def mv(self, name, names, o, c):
        s, _, on = self.who()
        return self.cmd("move", name, [("target", s)] + [
            (n, self.opt(x["v"], 0, lambda v, x=x: onum_(x))) for n, x in zip(names, c)]
            + [("check_for_blocks", self.opt(self.ch(0.3), False))], on=on, o=o)

    def w_move(self):
        c = [dict(self.n1(0, d=0)) for _ in range(3)]
        return self.mv("move", "xyz", {"base": "rel", "c": [NONE] * 3, "ops": [{"k": "off", "c": c}]}, c)

    def w_move_local(self):
        c = [dict(self.n1(0, d=0)) for _ in range(3)]
        return self.mv("move_local", ("left", "up", "front"), {"base": "local", "c": c, "ops": []}, c)

    # commands about players
    def plc(self, n, name, args, f):
        s, w, _ = self.who(True)
        return self.raw(n, name, [("player", s)] + args, f(w))

    def simple(self, k):
        r = self.r
        if k in ("effect_clear", "ride_stop", "ride_evict_riders"):
            s, w, _ = self.who()
            n, a, t = {"effect_clear": ("effect", "target", " clear"), "ride_stop": ("ride", "rider", " stop_riding"),
                       "ride_evict_riders": ("ride", "ride", " evict_riders")}[k]
            return self.raw(n, k, [(a, s)], [T(" "), w, T(t)])
        if k == "clear_inventory":
            return self.plc("clear", k, [], lambda w: [T(" "), w])
        if k == "clear":
            d, m = r.choice([-1, -1, 0, 3]), r.choice([-1, -1, 0, 64])
            return self.plc("clear", k, [("item_id", q("apple")), ("item_data", self.opt(d, -1)), ("max_count", self.opt(m, -1))],
                           lambda w: [T(" "), w, T(" apple %d %d" % (d, m))])
        if k == "spawnpoint_clear":
            return self.plc("clearspawnpoint", k, [], lambda w: [T(" "), w])
        if k == "gamemode":
            m = r.choice(["survival", "creative", "adventure", "spectator", "default"])
            return self.plc("gamemode", k, [("gamemode", q(m))], lambda w: [T(" %s " % m), w])
        if k == "give":
            i, n = self.item(), r.choice([1, 1, 64, 32767])
            return self.plc("give", k, [("item", i[0]), ("amount", self.opt(n, 1))],
                           lambda w: [T(" "), w, T(" %s %d %d%s" % (i[1], n, i[2], i[3]))])
        if k == "kick":
            n, m = r.choice(["bob", "al ice"]), r.choice([None, "bye", "go away"])
            return self.raw("kick", k, [("player_name", q(n)), ("reason", q(m) if m else self.opt(None, None, str))],
                            [T(" " + mcs(n) + (" " + m if m else ""))])
        if k == "recipe":
            c, u = r.choice(["*", "mod:r", "two words"]), self.ch(0.5)
            return self.plc("recipe", k, [("recipe", q(c)), ("unlock", aval(u))],
                           lambda w: [T(" %s " % ("give" if u else "take")), w, T(" " + (c if c == "*" else mcs(c)))])
        if k == "spawnpoint_set":
            p = self.wpos()
            d = self.plc("spawnpoint", k, [("pos", self.p_(p))], lambda w: [T(" "), w, T(" "), HERE()])
            d["pos"] = p
            return d
        if k == "ability":
            v = self.ch(0.5)
            return self.plc("ability", k, [("ability", q("mayfly")), ("value", aval(v))],
                           lambda w: [T(" "), w, T(" mayfly " + sval(v))])
        n = r.choice([0, 1, 300]) if k == "xp_add_points" else r.choice([0, 5, -5])
        return self.plc("xp", k, [("amount", str(n))], lambda w: [T(" %d%s " % (n, "L" if k == "xp_add_levels" else "")), w])

    # ----------------------------------------------------------- conditions
    def wcond(self):
        r = self.r
        w = r.random()
        if w < 0.4:
            p, b = self.wpos(), self.block()
            return {"k": "isblk", "pos": p, "id": b[1], "st": b[2], "_t": "bool", "_src": lambda pr, x:
                    "world.is_block(%s, %s)" % (ptext(pr, x["pos"]), b[0])}
        if w < 0.65:
            m = self.ch(0.5)
            a = ", %s%s" % (r.choice(["", "ignore_air="]), aval(m)) if m or self.ch(0.3) else ""
            return {"k": "isarea", "pos": self.wpos(), "o": self.off(), "to": self.off(), "m": "masked" if m else "all", "_t": "bool",
                    "_src": lambda pr, x: "world.is_same_area(%s, %s, %s%s)" % (
                        ptext(pr, x["pos"]), otext(pr, x["o"]), otext(pr, x["to"]), a)}
        self.used, self.last, st = set(), None, {}
        lim, self.lim = self.lim, 0
        try:
            f = [self.step(st) for _ in range(r.choice([1, 1, 2]))]
        finally:
            self.lim = lim
        return {"k": "isent", "e": dict(r.choice(self.ents)), "f": f, "_t": "bool",
                "_src": lambda pr, x: "world.is_entity(%s, %s)" % (pr.e(x["e"]), ftext(pr, x["f"]))}

    def bool_e(self, sc, d):
        if not self.nest and self.ch(0.3):
            self.nest = 1
            try:
                return self.wcond()
            finally:
                self.nest = 0
        return super().bool_e(sc, d)

    def stmt(self, sc, depth, pure):
        if not pure and self.ch(0.5):
            return [self.wstmt()]
        if self.ch(0.1) and not self.in_fn:
            return [self.named_thing()]
        return super(TGen, self).stmt(sc, depth, pure)

    def named_thing(self):
        """give an offset, a position, a rotation, a block or an item a name"""
        k = self.r.randrange(5)
        n = self.name("N")
        if k == 0:
            o = self.off()
            self.later.append((self.offs, dict(o, _name=n)))
            src = lambda pr: otext(pr, o)
        elif k == 1:
            p = self.wpos()
            self.later.append((self.poss, dict(p, _name=n, _k=len(p["ops"]))))
            src = lambda pr: ptext(pr, p)
        elif k == 2:
            ro = self.wrot()
            self.later.append((self.rots, dict(ro, _name=n)))
            src = lambda pr: rtext(pr, ro)
        elif k == 3:
            b = self.block()
            if b[0].startswith('"'):
                b = ("world.Block(%s)" % b[0],) + b[1:]
            self.later.append((self.blks, (n,) + b[1:]))
            src = lambda pr: b[0]
        else:
            b = self.item()
            if b[0].startswith('"'):
                b = ("world.Item(%s)" % b[0],) + b[1:]
            self.later.append((self.items, (n,) + b[1:]))
            src = lambda pr: b[0]
        alias = self.r.choice(["const %s = %s", "&%s = %s"]) if k < 0 else "const %s = %s"
        return {"k": "pass", "_src": lambda pr, s: alias % (n, src(pr))}

    def program(self, nst=12, nfn=1, ninp=2, nent=4):
        p, r = self.p, self.r
        p.opts = ["-v", ".".join(map(str, self.ver))] + (["-e"] if self.edu else [])
        self.later = []
        self.groups = [V("g%d" % i, "grp:Entity") for i in range(2)]
        self.ents = [V("e%d" % i, "ent:Entity") for i in range(2)]
        p.pre.append("import world")
        for g in self.groups:
            p.items.append(Decl(g["n"], GNew("Entity")))
        for i, e in enumerate(self.ents):
            g = lambda: dict(self.groups[0])
            p.items.append(ExprS(GCh(g(), gop("clear"), gop("select", Filt([FVals("has_tag", ["mark%d" % i])])))))
            p.items.append(Decl(e["n"], GAttr("gsingle", g())))
        for g in self.groups:
            p.items.append(ExprS(GCh(dict(g), gop("select", self.filt(p.items)))))
        sc = Sc()
        for nm in ("a", "b", "c")[:r.choice([1, 2])]:
            p.items.append(self.declare(sc, "int", Ext(nm, "inp")))
        p.items.append(self.declare(sc, "bool", d=1))
        for i in range(nst):
            if nfn and self.ch(0.2):
                nfn -= 1
                try:
                    self.add_fn(sc, r.choice(["def", "inline"]), len(self.fns) + 1)
                except Bad:
                    self.incall, self.in_fn = 0, None
            k = len(sc.vs)
            try:
                p.items += self.stmt(sc, 2, False)
                # names given at the top level may be used from here on
                for lst, x in self.later:
                    if any(it.get("k") == "pass" for it in p.items[-1:] if isinstance(it, dict)):
                        lst.append(x)
            except Bad:
                self.incall = 0
                del sc.vs[k:]
            self.later = []
        p.items += self.final_probes(sc)
        for i, g in enumerate(self.groups):
            p.items.append(self.show(dict(g), "fin%d" % i))
        p.items += [self.where(e, "end") for e in self.ents]
        p.tagobs = list(TAGS)
        self.finish(ninp)
        p.objs += ["so", "obj two"]
        p.rnd = [[r.randint(0, 9) for _ in range(40)]]
        eq = "=" if self.ver >= (1, 20, 10) else ":"
        p.blks = [{"id": r.choice(BLOCKS), "st": ['"%s"%s%s' % (k, eq, sval(v)) for k, v in r.sample(STATES, r.randint(0, 3))]}
                  for _ in range(4)]
        for _ in range(2):
            w = self.world(nent)
            for i in range(2):
                w[i][2]["tags"] = w[i][2]["tags"] + ["mark%d" % i]
                w[i][2]["rot"] = (r.choice([0, 0, 90000, -90000]), r.choice([0, 90000, -90000, 180000]))
            w.append(("player", self.coord(), dict(nm="p1", tags=["t1"])))
            p.worlds.append([ent(ty, pos, **kw) for ty, pos, kw in w])
        return p

    def where(self, e, t):
        """a command that shows where the entity is and where it looks"""
        d = self.raw("setblock", "setblock", [], [T(" "), HERE(), T(" glass [] replace")], pos=PEnt(dict(e)))
        d["_src"] = lambda pr, s: 'world.setblock(%s, "glass")' % ptext(pr, s["pos"])
        return d


def onum_(x):
    return str(x["v"] // 1000) if x["i"] else num(x["v"])
