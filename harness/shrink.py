"""Reduce a failing program (delta debugging over the syntax tree): all
single reductions are tried in one batch, the smallest that still fails is
kept, until none does."""
import copy
import sys

import conform
from astlib import Int, Bool, Fn

BLOCKS = ("t", "e", "b", "body")


def blocks(p):
    """every statement list of the program (as accessors)"""
    out = [p.items]
    for it in p.items:
        if isinstance(it, Fn):
            rec(it.body, out)
        elif isinstance(it, tuple):
            rec(it[2], out)
        elif hasattr(it, "bases"):
            for f in fns_of(it):
                rec(f.body, out)
        elif isinstance(it, dict):
            rec_st(it, out)
    return out


def fns_of(t):
    return ([t.new] if t.new is not None else []) + [f for _, f in t.methods]


def root_of(it):
    if isinstance(it, Fn):
        return it.body
    if hasattr(it, "bases"):
        return [f.body for f in fns_of(it)]
    return it[2] if isinstance(it, tuple) else it


def rec(ss, out):
    out.append(ss)
    for s in ss:
        rec_st(s, out)


def rec_st(s, out):
    for k in BLOCKS:
        if k in s and isinstance(s[k], list) and (not s[k] or (
                isinstance(s[k][0], dict) and s["k"] in ("if", "while", "for", "forg", "with"))):
            rec(s[k], out)


def exprs(x, out, path=()):
    """(container, key) of every expression"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k.startswith("_") or k in ("x",):
                continue
            if isinstance(v, dict) and "_t" in v:
                out.append((x, k))
            exprs(v, out)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            if isinstance(v, dict) and "_t" in v:
                out.append((x, i))
            exprs(v, out)


def candidates(p):
    n = 0
    for bi in range(len(blocks(p))):
        for i in range(len(blocks(p)[bi])):
            q = copy.deepcopy(p)
            b = blocks(q)[bi]
            s = b[i]
            del b[i]
            if isinstance(s, Fn):
                q.fns.pop(s.name, None)
            yield q
            if isinstance(s, dict) and s["k"] == "if":
                for kk in ("t", "e"):
                    q = copy.deepcopy(p)
                    b = blocks(q)[bi]
                    b[i:i + 1] = b[i][kk]
                    yield q
    for i, it in enumerate(p.items):
        if hasattr(it, "bases"):
            for j in range(len(it.methods)):
                q = copy.deepcopy(p)
                del q.items[i].methods[j]
                yield q
            if it.new is not None:
                q = copy.deepcopy(p)
                q.items[i].new = None
                yield q
    roots = [root_of(it) for it in p.items]
    for ri, r in enumerate(roots):
        ex = []
        exprs(r, ex)
        for ei in range(len(ex)):
            c, k = ex[ei]
            e = c[k]
            reps = []
            if e["_t"] == "int" and e["k"] not in ("int", "v"):
                reps.append(Int(3))
            if e["_t"] == "bool" and e["k"] not in ("bool", "v"):
                reps += [Bool(True), Bool(False)]
            sub = []
            exprs(e, sub)
            for cc, kk in sub:
                if cc[kk].get("_t") == e["_t"] and not (e["k"] == "fld"):
                    reps.append(cc[kk])
            for rep in reps[:4]:
                q = copy.deepcopy(p)
                it = q.items[ri]
                rt = root_of(it)
                qx = []
                exprs(rt, qx)
                cc, kk = qx[ei]
                cc[kk] = copy.deepcopy(rep)
                yield q


def deletions(p):
    """identifiers of single statement deletions"""
    return [(bi, i) for bi, b in enumerate(blocks(p)) for i in range(len(b))]


def delete(p, ids):
    q = copy.deepcopy(p)
    bs = blocks(q)
    for bi, i in sorted(ids, reverse=True):
        s = bs[bi][i]
        del bs[bi][i]
        if isinstance(s, Fn):
            q.fns.pop(s.name, None)
    return q


def failing(qs, variant, key):
    """those of the programs that still fail, by index"""
    part = []
    for j, q in enumerate(qs):
        try:
            q.text()
            q.case("x")
        except Exception:
            continue
        part.append(("s%d" % j, q))
    out = {}
    for i in range(0, len(part), 400):
        for f in conform.check(part[i:i + 400], (variant,)).failures:
            if key(f):
                out[int(f.cid[1:])] = f.program
    return out


def shrink(p, variant, key, inputs=None, rounds=40, log=sys.stderr):
    """key(failure) -> bool: is it the same problem?"""
    p = copy.deepcopy(p)
    if inputs is not None:
        p.inputs = inputs
    while True:         # statements, many at a time
        ids = deletions(p)
        ok = sorted(failing([delete(p, [d]) for d in ids], variant, key))
        ok = [ids[j] for j in ok]
        if not ok:
            break
        n, best = 1, None
        while best is None and n <= len(ok):
            size = -(-len(ok) // n)
            groups = [ok[k:k + size] for k in range(0, len(ok), size)]
            qs = [delete(p, g) for g in groups]
            good = failing(qs, variant, key)
            if good:
                best = min(good.values(), key=lambda q: len(q.text()))
            n *= 2
        if best is None:
            break
        p = best
        log.write("%d chars\n" % len(p.text()))
    for r in range(rounds):
        good = failing(list(candidates(p)), variant, key)
        if not good:
            return p
        best = min(good.values(), key=lambda q: len(q.text()))
        if len(best.text()) >= len(p.text()):
            return p
        p = best
        log.write("round %d: %d chars\n" % (r, len(p.text())))
    return p


def main():
    """shrink.py PLAN-CASE: re-create via pickle written by check (see save)"""


if __name__ == "__main__":
    main()
