"""Translate generated .mcfunction text into the command records that
spec/McMachine.tla interprets.  Anything not understood becomes a "bad"
record (the machine gives it a verdict), never an exception."""
import json
import re

INT_RE = re.compile(r"[+-]?\d+\Z")
IMIN, IMAX = -2 ** 31, 2 ** 31 - 1


class BadCmd(Exception):
    pass


def split_tokens(s):
    """Split at spaces, keeping quoted strings and bracketed groups whole."""
    toks, cur, depth, q = [], "", 0, False
    i = 0
    while i < len(s):
        ch = s[i]
        if q:
            cur += ch
            if ch == "\\" and i + 1 < len(s):
                i += 1
                cur += s[i]
            elif ch == '"':
                q = False
        elif ch == '"':
            cur += ch
            q = True
        elif ch in "[{":
            depth += 1
            cur += ch
        elif ch in "]}":
            depth -= 1
            cur += ch
        elif ch == " " and depth <= 0:
            if cur:
                toks.append(cur)
                if cur == "run" and s.startswith(" say ", i):
                    return toks + ["say", s[i + 5:]]        # a message takes the rest
            cur = ""
        else:
            cur += ch
        i += 1
    if q or depth != 0:
        raise BadCmd("unbalanced")
    if cur:
        toks.append(cur)
    return toks


def unquote(t):
    if len(t) >= 2 and t[0] == '"' and t[-1] == '"':
        out, i = "", 1
        while i < len(t) - 1:
            if t[i] == "\\" and i + 1 < len(t) - 1:
                i += 1
            out += t[i]
            i += 1
        return out
    if any(c in ' ,@~^/$&"\'!#%+*=[{]}\\|<>`\n' for c in t) or not t:
        raise BadCmd("unquoted special character in %r" % t)
    return t


def int32(t):
    if not INT_RE.match(t):
        raise BadCmd("not an integer: %r" % t)
    v = int(t)
    if not IMIN <= v <= IMAX:
        raise BadCmd("integer out of range: %s" % t)
    return v


def milli(t):
    if not re.match(r"[+-]?(\d+(\.\d*)?|\.\d+)\Z", t):
        raise BadCmd("not a number: %r" % t)
    v = round(float(t) * 1000)
    if abs(v) > IMAX:
        raise BadCmd("number too large: %r" % t)
    return v


def rng(t):
    """-> dict(lo, hi, n)"""
    neg = t.startswith("!")
    if neg:
        t = t[1:]
    if ".." in t:
        a, b = t.split("..", 1)
        if not a and not b:
            raise BadCmd("empty range")
    else:
        a = b = t
    a = int32(a) if a else None
    b = int32(b) if b else None
    if a == IMIN:
        a = None
    if b == IMIN:           # (TLC cannot write this number down)
        if a is None:
            a, b, neg = IMIN + 1, None, not neg
        else:
            a, b = 1, 0
    lo = {"u": True, "v": 0} if a is None else {"u": False, "v": a}
    hi = {"u": True, "v": 0} if b is None else {"u": False, "v": b}
    return {"lo": lo, "hi": hi, "n": neg}


def vz(v):
    """TLC's JSON reader cannot read -2^31: it is given as v + z."""
    return (v + 1, -1) if v == IMIN else (v, 0)


def split_args(s):
    """Split 'a=b,c={...}' at top-level commas."""
    out, cur, depth, q = [], "", 0, False
    i = 0
    while i < len(s):
        ch = s[i]
        if q:
            cur += ch
            if ch == "\\" and i + 1 < len(s):
                i += 1
                cur += s[i]
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
            cur += ch
        elif ch in "{[":
            depth += 1
            cur += ch
        elif ch in "}]":
            depth -= 1
            cur += ch
        elif ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
        i += 1
    if cur or out:
        out.append(cur)
    return out


def coord1(t, center=False):
    """One ~/absolute coordinate in fixed point."""
    if t.startswith("~"):
        return {"r": "r", "v": milli(t[1:]) if len(t) > 1 else 0}
    v = milli(t)
    if center and re.match(r"[+-]?\d+\Z", t):
        v += 500
    return {"r": "a", "v": v}


def coords(ts):
    if len(ts) < 3:
        raise BadCmd("missing coordinates")
    if ts[0].startswith("^"):
        if not all(t.startswith("^") for t in ts[:3]):
            raise BadCmd("mixed local coordinates")
        v = [milli(t[1:]) if len(t) > 1 else 0 for t in ts[:3]]
        return {"k": "l", "x": v[0] // 1000 * 1000 if False else v[0],
                "y": v[1], "z": v[2]}
    return {"k": "w", "x": coord1(ts[0], True), "y": coord1(ts[1]),
            "z": coord1(ts[2], True)}


def split_coords(ts):
    """Coordinates may be glued together (~~~ , ~1~-2~); normalise."""
    out = []
    for t in ts:
        parts = re.findall(r"[~^][^~^]*", t) if t[:1] in "~^" else [t]
        out.extend(parts)
    return out


def selector(t):
    m = re.match(r"@(initiator|[aeprs])(\[(.*)\])?\Z", t, re.S)
    if not m:
        raise BadCmd("not a selector: %r" % t)
    var, body = m.group(1), m.group(3)
    args = []
    for a in (split_args(body) if body else []):
        a = a.strip()
        if not a:
            raise BadCmd("empty selector argument in %r" % t)
        if "=" not in a:
            raise BadCmd("selector argument %r" % a)
        k, v = a.split("=", 1)
        neg = v.startswith("!")
        if k in ("tag", "type", "name", "family", "m"):
            if neg:
                v = v[1:]
            v = unquote(v) if v else ""
            if k == "type" and v.startswith("minecraft:"):
                v = v[10:]
            if k == "m":
                v = {"0": "survival", "s": "survival", "1": "creative",
                     "c": "creative", "2": "adventure", "a": "adventure",
                     "d": "default"}.get(v, v)
            args.append({"k": k, "v": v, "n": neg})
        elif k in ("c", "l", "lm"):
            n = int32(v)
            if k == "c" and n == 0:
                raise BadCmd("c=0")
            args.append({"k": k, "v": n})
        elif k in ("r", "rm", "rx", "rxm", "ry", "rym", "dx", "dy", "dz"):
            args.append({"k": k, "v": milli(v)})
        elif k in ("x", "y", "z"):
            args.append({"k": k, "c": coord1(v)})
        elif k == "scores":
            if not (v.startswith("{") and v.endswith("}")):
                raise BadCmd("scores")
            for s in split_args(v[1:-1]):
                o, r = s.split("=", 1)
                args.append(dict(k="sc", o=unquote(o), **rng(r)))
        elif k == "hasitem":
            for x in (split_args(v[1:-1]) if v.startswith("[") and v.endswith("]") else [v]):
                args.append(hasitem(x.strip()))
        elif k == "haspermission":
            if not (v.startswith("{") and v.endswith("}")):
                raise BadCmd("haspermission")
            for x in split_args(v[1:-1]):
                o, r = x.split("=", 1)
                if r not in ("enabled", "disabled"):
                    raise BadCmd("haspermission state")
                args.append({"k": "perm", "v": o, "on": r == "enabled"})
        else:
            raise BadCmd("unknown selector argument %r" % a)
    for k in ("type", "name", "c", "r", "rm", "m"):
        pos = [a for a in args if a["k"] == k and not a.get("n")]
        if len(pos) > 1:
            raise BadCmd("repeated selector argument %s" % k)
    return {"v": var, "a": args}


def hasitem(x):
    if not (x.startswith("{") and x.endswith("}")):
        raise BadCmd("hasitem")
    d = {}
    for y in split_args(x[1:-1]):
        k, v = y.split("=", 1)
        if k in d or k not in ("item", "quantity", "data", "location", "slot"):
            raise BadCmd("hasitem argument " + k)
        d[k] = v
    if "slot" in d and "location" not in d:
        raise BadCmd("hasitem slot without location")
    return dict(k="item", it=unquote(d["item"]), data=int32(d.get("data", "-1")),
                loc=d.get("location", ""), slot=rng(d.get("slot", "0..")),
                **rng(d.get("quantity", "1..")))


def holder(t, obj):
    o = unquote(obj)
    if t.startswith("@"):
        return {"sel": selector(t), "o": o}
    if t == "*":
        raise BadCmd("wildcard holder")
    return {"n": unquote(t) + " " + o, "o": o}


def rawparts(j):
    if not isinstance(j, dict) or not isinstance(j.get("rawtext"), list):
        raise BadCmd("rawtext shape")
    out = []
    for c in j["rawtext"]:
        if "text" in c:
            if not isinstance(c["text"], str) or set(c) != {"text"}:
                raise BadCmd("text component")
            # the section sign and the character after it set the font
            first, *more = c["text"].split("\xa7")
            out.append({"k": "t", "t": first})
            for m in more:
                out.append({"k": "f", "c": m[:1]})
                out.append({"k": "t", "t": m[1:]})
        elif "score" in c:
            n, o = c["score"]["name"], c["score"]["objective"]
            if n.startswith("@"):
                out.append({"k": "s", "h": {"sel": selector(n), "o": o}})
            else:
                out.append({"k": "s", "h": {"n": n + " " + o, "o": o}})
        elif "selector" in c:
            out.append({"k": "e", "sel": selector(c["selector"])})
        elif "translate" in c:
            w = c.get("with", [])
            if isinstance(w, dict):
                ps = []
                for i, p in enumerate(rawparts(w)):
                    if i:
                        ps.append({"k": "sep"})
                    ps.append(p)
            else:
                ps = []
                for i, p in enumerate(w):
                    if i:
                        ps.append({"k": "sep"})
                    ps.append({"k": "t", "t": p})
            out.append({"k": "tr", "t": c["translate"], "w": ps})
        else:
            raise BadCmd("rawtext component")
    return out


def execute(ts):
    subs = []
    i = 0
    n = len(ts)

    def need(k):
        if i + k >= n:
            raise BadCmd("execute: truncated")
    while True:
        if i >= n:
            raise BadCmd("execute without run")
        t = ts[i]
        if t == "run":
            if i + 1 >= n:
                raise BadCmd("execute run: nothing to run")
            break
        if t == "as":
            need(1)
            subs.append({"k": "as", "sel": selector(ts[i + 1])})
            i += 2
        elif t == "at":
            need(1)
            subs.append({"k": "at", "sel": selector(ts[i + 1])})
            i += 2
        elif t == "positioned":
            need(1)
            if ts[i + 1] == "as":
                need(2)
                subs.append({"k": "posas", "sel": selector(ts[i + 2])})
                i += 3
            else:
                k = _coord_len(ts, i + 1)
                subs.append({"k": "pos", "p": coords(split_coords(ts[i + 1:i + 1 + k]))})
                i += 1 + k
        elif t == "rotated":
            need(2)
            if ts[i + 1] == "as":
                subs.append({"k": "rotas", "sel": selector(ts[i + 2])})
            else:
                subs.append({"k": "rot", "x": coord1(ts[i + 1]),
                             "y": coord1(ts[i + 2])})
                # /execute rotated takes yaw then pitch
                subs[-1]["x"], subs[-1]["y"] = subs[-1]["y"], subs[-1]["x"]
            i += 3
        elif t == "facing":
            need(1)
            if ts[i + 1] == "entity":
                need(3)
                subs.append({"k": "faceent", "sel": selector(ts[i + 2]),
                             "a": ts[i + 3]})
                if ts[i + 3] not in ("feet", "eyes"):
                    raise BadCmd("anchor")
                i += 4
            else:
                k = _coord_len(ts, i + 1)
                subs.append({"k": "face", "p": coords(split_coords(ts[i + 1:i + 1 + k]))})
                i += 1 + k
        elif t == "in":
            need(1)
            subs.append({"k": "in", "d": ts[i + 1]})
            i += 2
        elif t == "align":
            need(1)
            if not ts[i + 1] or set(ts[i + 1]) - set("xyz"):
                raise BadCmd("align")
            subs.append({"k": "align", "a": sorted(set(ts[i + 1]))})
            i += 2
        elif t == "anchored":
            need(1)
            if ts[i + 1] not in ("feet", "eyes"):
                raise BadCmd("anchor")
            subs.append({"k": "anch", "a": ts[i + 1]})
            i += 2
        elif t in ("if", "unless"):
            u = t == "unless"
            need(1)
            w = ts[i + 1]
            if w == "score":
                need(5)
                h = holder(ts[i + 2], ts[i + 3])
                if ts[i + 4] == "matches":
                    subs.append(dict(k="ifm", h=h, u=u, **rng(ts[i + 5])))
                    i += 6
                else:
                    need(6)
                    if ts[i + 4] not in ("=", "<", ">", "<=", ">="):
                        raise BadCmd("score comparison")
                    subs.append({"k": "ifs", "h": h, "op": ts[i + 4], "u": u,
                                 "h2": holder(ts[i + 5], ts[i + 6])})
                    i += 7
            elif w == "entity":
                need(2)
                subs.append({"k": "ife", "sel": selector(ts[i + 2]), "u": u})
                i += 3
            elif w == "block":
                need(3)
                k = _coord_len(ts, i + 2)
                j = i + 2 + k
                txt = []
                while j < n and not (ts[j] in ("run", "if", "unless", "as", "at", "positioned")):
                    txt.append(ts[j])
                    j += 1
                if not 1 <= len(txt) <= 2:
                    raise BadCmd("if block")
                subs.append({"k": "ifb", "p": coords(split_coords(ts[i + 2:i + 2 + k])), "id": txt[0],
                             "st": block_states(txt[1]) if len(txt) > 1 else [], "u": u})
                i = j
            elif w == "blocks":
                j, cs = i + 2, []
                for _ in range(3):
                    k = _coord_len(ts, j)
                    cs.append(coords(split_coords(ts[j:j + k])))
                    j += k
                if j >= n or ts[j] not in ("all", "masked"):
                    raise BadCmd("if blocks")
                subs.append({"k": "ifbs", "p": cs[0], "q": cs[1], "to": cs[2], "m": ts[j], "u": u})
                i = j + 1
            else:
                raise BadCmd("execute if %s" % w)
        else:
            raise BadCmd("execute subcommand %r" % t)
    return subs, i + 1


def block_states(t):
    """["a"=1,"b"="x"] -> sorted list of its parts"""
    if not (t.startswith("[") and t.endswith("]")):
        raise BadCmd("block states")
    out = []
    rest = t[1:-1]
    while rest:
        m = re.match(r'"([^"]*)"\s*([=:])\s*("[^"]*"|true|false|-?\d+)\s*(,|\Z)', rest)
        if not m or (m.end() == len(rest)) != (m.group(4) == ""):
            raise BadCmd("block states")
        out.append('"%s"%s%s' % m.group(1, 2, 3))
        rest = rest[m.end():].strip()
    return sorted(out)


def _coord_len(ts, i):
    """How many tokens make up the next coordinate triple."""
    n = 0
    k = i
    while n < 3:
        if k >= len(ts):
            raise BadCmd("missing coordinates")
        n += len(re.findall(r"[~^][^~^]*", ts[k])) if ts[k][:1] in "~^" else 1
        k += 1
    if n != 3:
        raise BadCmd("coordinates")
    return k - i


def command(line):
    """One command (no comment, not blank) -> record."""
    try:
        return _command(line)
    except BadCmd as e:
        return {"k": "bad", "t": "%s [%s]" % (line[:120], e)}
    except (ValueError, KeyError, IndexError, TypeError) as e:
        return {"k": "bad", "t": "%s [%s]" % (line[:120], type(e).__name__)}


def _command(line):
    s = line.strip()
    if s.startswith("/"):
        s = s[1:]
    name = re.match(r"[a-z_]*", s).group(0)
    rest = s[len(name):]
    if rest and not rest.startswith(" "):
        raise BadCmd("command name")
    rest = rest.strip()
    if name == "say":
        return {"k": "say", "t": rest, "w": rest.startswith("@")}
    if name in ("tellraw", "titleraw"):
        sel, body = rest.split(" ", 1) if not rest.startswith("@") else _first(rest)
        sel = selector(sel)
        if name == "titleraw":
            sub = body.split(" ", 1)[0]
            if sub == "times":
                a = body.split()
                if len(a) != 4:
                    raise BadCmd("titleraw times")
                [int32(x) for x in a[1:]]
                return {"k": "tellraw", "n": "titletimes", "sel": sel,
                        "ps": [{"k": "t", "t": " ".join(a[1:])}]}
            if sub in ("clear", "reset"):
                if body.strip() != sub:
                    raise BadCmd("titleraw " + sub)
                return {"k": "tellraw", "n": "title" + sub, "sel": sel, "ps": []}
            if sub not in ("title", "subtitle", "actionbar"):
                raise BadCmd("titleraw kind")
            return {"k": "tellraw", "n": sub, "sel": sel,
                    "ps": rawparts(json.loads(body.split(" ", 1)[1]))}
        return {"k": "tellraw", "n": "tell", "sel": sel,
                "ps": rawparts(json.loads(body))}
    ts = split_tokens(rest)
    if name == "scoreboard":
        if ts[0] == "objectives":
            if ts[1] == "add":
                if ts[3] != "dummy":
                    raise BadCmd("objective type")
                return {"k": "objadd", "o": unquote(ts[2])}
            if ts[1] == "remove":
                return {"k": "objdel", "o": unquote(ts[2])}
            return opaque(line, ts, name)
        if ts[0] != "players":
            raise BadCmd("scoreboard")
        op = ts[1]
        if op in ("set", "add", "remove"):
            if len(ts) != 5:
                raise BadCmd("arity")
            v, z = vz(int32(ts[4]))
            return {"k": {"set": "set", "add": "add", "remove": "rem"}[op],
                    "h": holder(ts[2], ts[3]), "v": v, "z": z}
        if op == "operation":
            if len(ts) != 7:
                raise BadCmd("arity")
            if ts[4] not in ("=", "+=", "-=", "*=", "/=", "%=", "<", ">", "><"):
                raise BadCmd("operator")
            return {"k": "op", "h": holder(ts[2], ts[3]), "op": ts[4],
                    "h2": holder(ts[5], ts[6])}
        if op == "random":
            if len(ts) != 6:
                raise BadCmd("arity")
            lo, hi = int32(ts[4]), int32(ts[5])
            if lo > hi:
                raise BadCmd("empty random range")
            lo, lz = vz(lo)
            hi, hz = vz(hi)
            return {"k": "rand", "h": holder(ts[2], ts[3]), "lo": lo, "lz": lz,
                    "hi": hi, "hz": hz}
        if op == "reset":
            return {"k": "reset", "h": holder(ts[2], ts[3])}
        raise BadCmd("scoreboard players " + op)
    if name == "function":
        if len(ts) != 1:
            raise BadCmd("function arity")
        return {"k": "fn", "f": ts[0]}
    if name == "execute":
        subs, i = execute(ts)
        # re-tokenise the run part from the raw text (keeps /say text intact)
        run = _after_run(rest)
        inner = _command(run)
        if inner["k"] == "exec":
            return {"k": "exec", "sub": subs + inner["sub"], "run": inner["run"]}
        return {"k": "exec", "sub": subs, "run": inner}
    if name == "tag":
        if len(ts) != 3 or ts[1] not in ("add", "remove"):
            raise BadCmd("tag")
        return {"k": "tag", "sel": selector_or_name(ts[0]), "op": ts[1],
                "v": unquote(ts[2])}
    if name == "kill":
        return {"k": "kill", "sel": selector(ts[0]) if ts else selector("@s")}
    if name == "summon":
        return summon(ts)
    if name in ("tp", "teleport"):
        r = tp(ts)
        if r is not None:
            return r
        return opaque(line, ts, name)
    if name == "schedule":
        if ts[0] == "delay" and ts[1] == "add" and len(ts) == 5:
            m = re.match(r"(\d+)([tsd]?)\Z", ts[3])
            if not m or ts[4] not in ("append", "replace"):
                raise BadCmd("schedule")
            d = int(m.group(1)) * {"": 1, "t": 1, "s": 20, "d": 24000}[m.group(2)]
            if d < 1:
                raise BadCmd("schedule delay")
            return {"k": "sched", "f": ts[2], "d": d, "m": ts[4]}
        if ts[0] == "delay" and ts[1] == "clear" and len(ts) == 3:
            return {"k": "unsched", "f": ts[2]}
        return opaque(line, ts, name)
    if not name:
        raise BadCmd("no command name")
    return opaque(line, ts, name)


def _first(s):
    """Split off the first (selector) token."""
    depth, q, i = 0, False, 0
    while i < len(s):
        ch = s[i]
        if q:
            if ch == "\\":
                i += 1
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
        elif ch in "[{":
            depth += 1
        elif ch in "]}":
            depth -= 1
        elif ch == " " and depth == 0:
            return s[:i], s[i + 1:].strip()
        i += 1
    return s, ""


def _after_run(rest):
    depth, q, i = 0, False, 0
    while i < len(rest):
        ch = rest[i]
        if q:
            if ch == "\\":
                i += 1
            elif ch == '"':
                q = False
        elif ch == '"':
            q = True
        elif ch in "[{":
            depth += 1
        elif ch in "]}":
            depth -= 1
        elif depth == 0 and rest.startswith(" run ", i):
            return rest[i + 5:]
        i += 1
    if rest.startswith("run "):
        return rest[4:]
    raise BadCmd("execute without run")


def selector_or_name(t):
    return selector(t)


def summon(ts):
    # summon TYPE x y z [yRot xRot|facing ..] [event] [name]
    ty = ts[0]
    if ty.startswith("minecraft:"):
        ty = ty[10:]
    k = _coord_len(ts, 1)
    p = coords(split_coords(ts[1:1 + k]))
    rest = ts[1 + k:]
    ev = nm = ""
    rot = []
    if rest:
        if len(rest) >= 2 and re.match(r"[~\d+-]", rest[0]) and re.match(r"[~\d+-]", rest[1]):
            rot = [coord1(rest[1]), coord1(rest[0])]    # pitch, yaw
            rest = rest[2:]
        if rest:
            ev = "" if rest[0] == "*" else unquote(rest[0])
        if len(rest) > 1:
            nm = unquote(rest[1])
            if len(rest) > 2:
                raise BadCmd("summon")
    return {"k": "summon", "ty": ty, "p": p, "ev": ev, "nm": nm, "rot": rot}


def tp(ts):
    sel = selector("@s")
    if ts and ts[0].startswith("@"):
        sel = selector(ts[0])
        ts = ts[1:]
    if not ts or ts[0].startswith("@"):
        return None
    k = _coord_len(ts, 0)
    p = coords(split_coords(ts[:k]))
    rest = ts[k:]
    rot = []
    if rest and rest[0] in ("true", "false"):
        rest = rest[1:]
    if rest:
        if rest[0] == "facing":
            return None
        if len(rest) >= 2 and re.match(r"[~\d+-]", rest[0]):
            rot = [coord1(rest[1]), coord1(rest[0])]   # pitch, yaw
            rest = rest[2:]
            if rest and rest[0] in ("true", "false"):
                rest = rest[1:]
        if rest:
            return None
    return {"k": "tp", "sel": sel, "p": p, "rot": rot}


# commands that have several numbers in a row which are no position
NOPOS = ("me", "tell", "w", "msg", "effect", "clear", "give", "spreadplayers", "enchant", "damage", "xp")


def opaque(line, ts, name):
    """Any other command: its text with selectors and relative coordinates
    resolved at run time."""
    ps = [{"k": "t", "t": name}]
    if name in ("me", "tell", "w", "msg"):      # said by whoever runs it
        ps += [{"k": "t", "t": " by "}, {"k": "who"}]
    i = 0
    while i < len(ts):
        t = ts[i]
        ps.append({"k": "t", "t": " "})
        if t.startswith("@"):
            ps.append({"k": "e", "sel": selector(t)})
            i += 1
        elif name == "spreadplayers" and i == 0 and len(ts) > 1:
            c = coords([t, "~", ts[1]])
            ps.append({"k": "pos", "c": c})
            i += 2
        elif re.match(r"-?\d+\.\d+\Z", t) and not (i + 2 < len(ts) and name not in NOPOS and all(
                re.match(r"([~^][-+]?[\d.]*|[-+]?\d+(\.\d+)?)\Z", x) for x in ts[i:i + 3])):
            ps.append({"k": "t", "t": t.rstrip("0").rstrip(".")})
            i += 1
        elif t.startswith("{"):
            ps.append({"k": "t", "t": json.dumps(json.loads(t), sort_keys=True, separators=(",", ":"))})
            i += 1
        elif t.startswith("[") and name in ("setblock", "fill", "clone"):
            ps.append({"k": "t", "t": "[%s]" % ",".join(block_states(t))})
            i += 1
        elif t[:1] in "~^" or (name not in NOPOS and i + 2 < len(ts) and all(
                re.match(r"([~^][-+]?[\d.]*|[-+]?\d+(\.\d+)?)\Z", x) for x in ts[i:i + 3])):
            try:
                k = _coord_len(ts, i)
                c = coords(split_coords(ts[i:i + k]))
                ps.append({"k": "pos", "c": c})
                i += k
            except BadCmd:
                ps.append({"k": "t", "t": t})
                i += 1
        else:
            ps.append({"k": "t", "t": t})
            i += 1
    return {"k": "raw", "ps": ps}


def parse_file(text):
    out = []
    for line in text.split("\n"):
        s = line.strip()
        if not s or s.startswith("#"):
            continue
        out.append(command(line))
    return out
