----------------------------- MODULE AcaciaSem -----------------------------
(***************************************************************************)
(* The source language: what an Acacia program means, stated over its      *)
(* abstract syntax, with no reference to scoreboards slots, temporaries,   *)
(* generated functions or tags.                                            *)
(*                                                                         *)
(* A source state S is a record                                            *)
(*   m    : store, location -> value; a location is "<instance>.<name>"    *)
(*          (instance 0 = statically allocated: globals, locals and        *)
(*          parameters of runtime functions), or "#<entity id>.<field>"    *)
(*   al   : compile-time bindings, location -> [k |-> "val", v] (constant)  *)
(*          or [k |-> "lv", lv] (another name of a location)               *)
(*   w    : the world (external scores, entities, output log)              *)
(*   ni   : number of inline expansions so far (fresh instances)           *)
(*   fuel : bound on loop iterations and calls                             *)
(*   ub   : "" or why the program has no defined meaning here (division by *)
(*          zero, read of an unset variable, fuel exhausted)               *)
(* Values: integers, booleans, strings, struct values (functions from      *)
(* field name), lists (sequences), maps (sequences of [key, val] records),  *)
(* entity ids, and sets of entity ids (groups).                            *)
(* A context c is a record [i, rk, rp, self, nt]: instance, result         *)
(* location, result port, value of `self`, and - in a `new` method - the   *)
(* template being instantiated.                                            *)
(***************************************************************************)
EXTENDS World

Empty == [x \in {} |-> 0]
Ub(S, why) == IF S.ub = "" THEN [S EXCEPT !.ub = why] ELSE S

Loc(c, n, l) == (IF l THEN ToString(c.i) ELSE "0") \o "." \o n
Lv(b) == [k |-> "loc", b |-> b, p |-> <<>>]

RECURSIVE GetPath(_, _), HasPath(_, _), PutPath(_, _, _)
HasPath(v, p) == p = <<>> \/ (Head(p) \in DOMAIN v /\ HasPath(v[Head(p)], Tail(p)))
GetPath(v, p) == IF p = <<>> THEN v ELSE GetPath(v[Head(p)], Tail(p))
PutPath(v, p, x) ==
  IF p = <<>> THEN x
  ELSE (Head(p) :> PutPath(IF Head(p) \in DOMAIN v THEN v[Head(p)] ELSE Empty, Tail(p), x)) @@ v

Dflt(ty) == CASE ty = "int" -> 0 [] ty = "bool" -> FALSE [] ty = "ent" -> 0
              [] ty = "grp" -> {} [] ty = "str" -> "" [] OTHER -> Empty

\* reading and writing through an lvalue
ReadLv(S, lv, ty) ==
  IF lv.k = "ext"
  THEN IF lv.b \in DOMAIN S.w.sc THEN [v |-> S.w.sc[lv.b], s |-> S]
       ELSE [v |-> 0, s |-> Ub(S, "unset external score")]
  ELSE IF lv.b \in DOMAIN S.m
  THEN IF lv.p = <<>> THEN [v |-> S.m[lv.b], s |-> S]
       ELSE IF HasPath(S.m[lv.b], lv.p) THEN [v |-> GetPath(S.m[lv.b], lv.p), s |-> S]
       ELSE IF ty = "struct" THEN [v |-> Empty, s |-> S]
       ELSE [v |-> Dflt(ty), s |-> Ub(S, "unset field")]
  ELSE IF ty = "struct" THEN [v |-> Empty, s |-> S]
  ELSE [v |-> Dflt(ty), s |-> Ub(S, "unset variable " \o lv.b)]

\* struct assignment copies the fields the value has; absent ones stay absent
WriteLv(S, lv, v) ==
  IF lv.k = "ext" THEN [S EXCEPT !.w = SetK(S.w, lv.b, v)]
  ELSE LET old == IF lv.b \in DOMAIN S.m THEN S.m[lv.b] ELSE Empty
           new == IF lv.p = <<>> THEN v ELSE PutPath(old, lv.p, v)
       IN IF lv.b \in DOMAIN S.m THEN [S EXCEPT !.m[lv.b] = new]
          ELSE [S EXCEPT !.m = (lv.b :> new) @@ S.m]
Bind(S, loc, b) == [S EXCEPT !.al = (loc :> b) @@ S.al]
Forget(S, loc) == [S EXCEPT !.m = [x \in (DOMAIN S.m) \ {loc} |-> S.m[x]]]
Burn(S) == IF S.fuel = 0 THEN Ub(S, "fuel") ELSE [S EXCEPT !.fuel = @ - 1]

Str(v, ty) == IF ty = "bool" THEN (IF v THEN "true" ELSE "false")
              ELSE IF ty = "str" THEN v ELSE ToString(v)

Arith(S, op, a, b) ==
  CASE op = "+" -> [v |-> Add32(a, b), s |-> S]
    [] op = "-" -> [v |-> Sub32(a, b), s |-> S]
    [] op = "*" -> [v |-> Mul32(a, b), s |-> S]
    [] op \in {"/", "%"} ->
         IF b = 0 \/ (a = MinInt /\ b = -1) THEN [v |-> 0, s |-> Ub(S, "division")]
         ELSE [v |-> IF op = "/" THEN Div32(a, b) ELSE Mod32(a, b), s |-> S]
    [] op = "min" -> [v |-> Min32(a, b), s |-> S]
    [] op = "max" -> [v |-> Max32(a, b), s |-> S]

(* Functions of the math module *)
RECURSIVE Pow32(_, _), MathFold(_, _, _)
Pow32(a, n) == IF n = 0 THEN 1 ELSE Mul32(a, Pow32(a, n - 1))
MathFold(op, vs, acc) ==
  IF vs = <<>> THEN acc
  ELSE MathFold(op, Tail(vs), IF op = "min" THEN Min32(acc, Head(vs)) ELSE Max32(acc, Head(vs)))
MathFn(S, op, vs) ==
  CASE op \in {"min", "max"} -> [v |-> MathFold(op, Tail(vs), Head(vs)), s |-> S]
    [] op = "pow" -> IF vs[2] < 0 \/ vs[2] > 100 THEN [v |-> 0, s |-> Ub(S, "exponent")]
                     ELSE [v |-> Pow32(vs[1], vs[2]), s |-> S]
    [] OTHER -> LET a == vs[1] b == vs[2] IN
         IF b = 0 \/ (a = MinInt /\ b = -1) THEN [v |-> 0, s |-> Ub(S, "division")]
         ELSE LET r == Mod32(a, b)      \* sign of a
                  off == r # 0 /\ (r < 0) # (b < 0)
              IN [v |-> IF op = "mod" THEN IF off THEN r + b ELSE r
                        ELSE IF off THEN Div32(a, b) - 1 ELSE Div32(a, b), s |-> S]

CmpOp(op, a, b) ==
  CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
    [] op = ">" -> a > b [] op = "<=" -> a <= b [] op = ">=" -> a >= b

---------------------------------------------------------------------------
(* Classes: method resolution by C3 linearisation over the declared bases.  *)
RECURSIVE C3Merge(_), C3(_, _), C3Map(_, _)
GoodHead(seqs, h) == \A i \in 1..Len(seqs) :
                        \A j \in 2..Len(seqs[i]) : seqs[i][j] # h
DropHead(s, h) == IF s # <<>> /\ Head(s) = h THEN Tail(s) ELSE s
C3Merge(seqs) ==
  LET ne == SelectSeq(seqs, LAMBDA s : s # <<>>)
  IN IF ne = <<>> THEN <<>>
     ELSE LET good == {i \in 1..Len(ne) : GoodHead(ne, Head(ne[i]))}
          IN IF good = {} THEN <<"!inconsistent">>
             ELSE LET i == CHOOSE i \in good : \A j \in good : i <= j
                      h == Head(ne[i])
                  IN <<h>> \o C3Merge([j \in 1..Len(ne) |-> DropHead(ne[j], h)])
C3Map(T, bs) == [i \in 1..Len(bs) |-> C3(T, bs[i])]
C3(T, t) == <<t>> \o C3Merge(C3Map(T, T[t].bases) \o <<T[t].bases>>)

\* template that provides method f for an entity of template t
Provider(T, t, f) ==
  LET l == C3(T, t)
      i == CHOOSE i \in 1..Len(l) : f \in DOMAIN T[l[i]].ms
             /\ \A j \in 1..(i - 1) : f \notin DOMAIN T[l[j]].ms
  IN l[i]
\* template whose `new` creates an entity of template t
NewOwner(T, t) ==
  LET l == C3(T, t)
      i == CHOOSE i \in 1..Len(l) : T[l[i]].new.k # "none"
             /\ \A j \in 1..(i - 1) : T[l[j]].new.k = "none"
  IN l[i]
TypeKey(id) == "#" \o ToString(id) \o ".!t"
Alive(w, id) == id \in 1..Len(w.ent) /\ w.ent[id].al
Live(w, ids) == {i \in ids : Alive(w, i)}

---------------------------------------------------------------------------
RECURSIVE Ev(_, _, _, _), EvAll(_, _, _, _, _), LvOf(_, _, _, _), Ex(_, _, _, _),
          ExSeq(_, _, _, _), CallFn(_, _, _, _, _, _), BindArgs(_, _, _, _, _, _, _),
          Chain(_, _, _, _, _, _), BoolFold(_, _, _, _, _, _), Loop(_, _, _, _),
          ForItems(_, _, _, _, _), ForIds(_, _, _, _, _), Items(_, _, _, _),
          SctorFields(_, _, _, _, _), SayText(_, _, _, _, _), MapLit(_, _, _, _, _),
          MCall(_, _, _, _), CallFnX(_, _, _, _, _, _, _), CallNew(_, _, _, _, _, _),
          GOps(_, _, _, _, _, _), FiltAll(_, _, _, _, _), CxOf(_, _, _, _),
          CxOps(_, _, _, _, _), RotOf(_, _, _, _, _), RotOps(_, _, _),
          OffOf(_), OffOps(_, _, _), NumV(_), WParts(_, _, _, _, _), RotEach(_, _, _, _, _),
          FText(_, _, _, _), FPat(_, _, _, _, _, _), CallFnV(_, _, _, _, _, _), Turns(_, _, _, _), Turn(_, _, _, _)

\* P = the case: P.fns (functions), P.tpl (entity templates), P.obs (probes)

Ev(P, e, c, S) ==
  CASE e.k = "int" -> [v |-> e.v + e.z, s |-> S]
    [] e.k = "bool" -> [v |-> e.v, s |-> S]
    [] e.k = "str" -> [v |-> e.v, s |-> S]
    [] e.k = "v" ->
         LET l == Loc(c, e.n, e.l) IN
         IF l \in DOMAIN S.al /\ S.al[l].k = "val" THEN [v |-> S.al[l].v, s |-> S]
         ELSE LET r == LvOf(P, e, c, S) IN ReadLv(r.s, r.lv, e.ty)
    [] e.k \in {"fld", "ext", "escb"} ->
         LET r == LvOf(P, e, c, S) IN ReadLv(r.s, r.lv, e.ty)
    [] e.k = "rfld" ->          \* field of an rvalue struct
         LET r == Ev(P, e.e, c, S) IN
         IF e.f \in DOMAIN r.v THEN [v |-> r.v[e.f], s |-> r.s]
         ELSE [v |-> Dflt(e.ty), s |-> Ub(r.s, "unset field")]
    [] e.k = "neg" -> LET r == Ev(P, e.e, c, S) IN [v |-> Neg32(r.v), s |-> r.s]
    [] e.k = "pos" -> Ev(P, e.e, c, S)
    [] e.k = "not" -> LET r == Ev(P, e.e, c, S) IN [v |-> ~r.v, s |-> r.s]
    [] e.k = "bin" ->
         LET a == Ev(P, e.a, c, S) b == Ev(P, e.b, c, a.s)
         IN Arith(b.s, e.op, a.v, b.v)
    [] e.k = "mfn" -> LET r == EvAll(P, e.es, <<>>, c, S) IN MathFn(r.s, e.op, r.v)
    [] e.k = "cat" ->           \* string concatenation
         LET a == Ev(P, e.a, c, S) b == Ev(P, e.b, c, a.s)
         IN [v |-> a.v \o b.v, s |-> b.s]
    [] e.k = "cmp" ->
         LET a == Ev(P, e.a, c, S) IN Chain(P, e.r, 1, a.v, c, a.s)
    [] e.k = "and" -> BoolFold(P, e.es, 1, TRUE, c, S)
    [] e.k = "or" -> BoolFold(P, e.es, 1, FALSE, c, S)
    [] e.k = "toint" -> LET r == Ev(P, e.e, c, S)
                        IN [v |-> IF r.v THEN 1 ELSE 0, s |-> r.s]
    [] e.k = "call" ->
         LET f == P.fns[e.f]
             r == CallFn(P, f, e.args, c, S, 0)
         IN IF f.rp = "ref" /\ f.ret # "none" THEN ReadLv(r.s, r.v, f.ret) ELSE r
    [] e.k = "sctor" -> SctorFields(P, e.fs, Empty, c, S)
    [] e.k = "list" -> EvAll(P, e.es, <<>>, c, S)
    [] e.k = "map" -> MapLit(P, e.es, <<>>, c, S)
    [] e.k = "idx" ->
         LET l == Ev(P, e.e, c, S) i == Ev(P, e.i, c, l.s)
             j == IF i.v < 0 THEN Len(l.v) + i.v + 1 ELSE i.v + 1
         IN [v |-> l.v[j], s |-> i.s]
    [] e.k = "get" ->           \* map subscript
         LET l == Ev(P, e.e, c, S) i == Ev(P, e.i, c, l.s)
             hit == CHOOSE j \in 1..Len(l.v) : l.v[j].key = i.v
         IN [v |-> l.v[hit].val, s |-> i.s]
    [] e.k = "len" -> LET l == Ev(P, e.e, c, S) IN [v |-> Len(l.v), s |-> l.s]
    [] e.k = "keys" -> LET l == Ev(P, e.e, c, S)
                       IN [v |-> [j \in 1..Len(l.v) |-> l.v[j].key], s |-> l.s]
    [] e.k = "rng" -> [v |-> [j \in 1..(e.b - e.a) |-> e.a + j - 1], s |-> S]
    [] e.k = "rand" ->
         LET lo == Ev(P, e.a, c, S) hi == Ev(P, e.b, c, lo.s)
         IN [v |-> RandPick(hi.s.w, lo.v, hi.v), s |-> [hi.s EXCEPT !.w = PopR(@)]]
    [] e.k = "self" -> LET k == c.rk \o "s" IN
                       [v |-> IF k \in DOMAIN S.m THEN S.m[k] ELSE c.self, s |-> S]
    [] e.k = "mcall" -> MCall(P, e, c, S)
    [] e.k = "scall" ->         \* static method
         CallFn(P, P.tpl[Provider(P.tpl, e.t, e.m)].ms[e.m], e.args, c, S, 0)
    [] e.k = "upcast" -> Ev(P, e.e, c, S)
    [] e.k = "new" -> CallNew(P, e.t, e, c, S, e.t)
    [] e.k = "isblk" -> LET at == CxOf(P, e.pos, c, S) IN
                        [v |-> IsBlock(at.s.w, e.id, e.st, at.v.p, at.v.d), s |-> at.s]
    [] e.k = "isarea" -> LET at == CxOf(P, e.pos, c, S) IN
                         [v |-> SameArea(at.v.p, Resolve(OffOf(e.o), at.v), Resolve(OffOf(e.to), at.v), e.m, at.v.d),
                          s |-> at.s]
    [] e.k = "isent" ->         \* does the entity meet the filter
         LET r == Ev(P, e.e, c, S) f == FiltAll(P, e.f, Live(r.s.w, 1..Len(r.s.w.ent)), c, r.s)
         IN [v |-> r.v \in f.v, s |-> f.s]
    [] e.k = "thas" -> [v |-> S.m["%left " \o e.n] >= 0, s |-> S]
    [] e.k = "gnew" -> [v |-> {}, s |-> S]
    [] e.k = "gcopy" -> LET r == Ev(P, e.e, c, S) IN [v |-> Live(r.s.w, r.v), s |-> r.s]
    [] e.k = "gsize" -> LET r == Ev(P, e.e, c, S)
                        IN [v |-> Cardinality(Live(r.s.w, r.v)), s |-> r.s]
    [] e.k = "gempty" -> LET r == Ev(P, e.e, c, S) IN [v |-> Live(r.s.w, r.v) = {}, s |-> r.s]
    [] e.k = "ghas" -> LET r == Ev(P, e.e, c, S) x == Ev(P, e.x, c, r.s)
                       IN [v |-> x.v \in Live(x.s.w, r.v), s |-> x.s]
    [] e.k = "gsingle" ->       \* the only member; meaningless otherwise
         LET r == Ev(P, e.e, c, S) ids == Live(r.s.w, r.v)
         IN IF Cardinality(ids) = 1 THEN [v |-> CHOOSE x \in ids : TRUE, s |-> r.s]
            ELSE [v |-> 0, s |-> Ub(r.s, "not a single entity")]
    [] e.k = "gch" ->           \* group methods that change the group and return it
         LET l == LvOf(P, e.x, c, S)
             r == ReadLv(l.s, l.lv, "grp")
         IN GOps(P, e.ops, l.lv, r.v, c, r.s)

EvAll(P, es, acc, c, S) ==
  IF es = <<>> THEN [v |-> acc, s |-> S]
  ELSE LET r == Ev(P, Head(es), c, S) IN EvAll(P, Tail(es), Append(acc, r.v), c, r.s)

MapLit(P, es, acc, c, S) ==     \* later occurrences of a key overwrite
  IF es = <<>> THEN [v |-> acc, s |-> S]
  ELSE LET k == Ev(P, Head(es)[1], c, S) x == Ev(P, Head(es)[2], c, k.s)
           hit == {j \in 1..Len(acc) : acc[j].key = k.v}
           new == IF hit = {} THEN Append(acc, [key |-> k.v, val |-> x.v])
                  ELSE [acc EXCEPT ![CHOOSE j \in hit : TRUE].val = x.v]
       IN MapLit(P, Tail(es), new, c, x.s)

\* comparison chain: a op1 b op2 c  ==  (a op1 b) and (b op2 c)
Chain(P, rs, i, left, c, S) ==
  IF i > Len(rs) THEN [v |-> TRUE, s |-> S]
  ELSE LET b == Ev(P, rs[i].e, c, S)
           t == Chain(P, rs, i + 1, b.v, c, b.s)
       IN [v |-> CmpOp(rs[i].op, left, b.v) /\ t.v, s |-> t.s]

\* `and` / `or` over all operands (operands have no side effects)
BoolFold(P, es, i, unit, c, S) ==
  IF i > Len(es) THEN [v |-> unit, s |-> S]
  ELSE LET r == Ev(P, es[i], c, S)
           t == BoolFold(P, es, i + 1, unit, c, r.s)
       IN [v |-> IF unit THEN r.v /\ t.v ELSE r.v \/ t.v, s |-> t.s]

SctorFields(P, fs, acc, c, S) ==
  IF fs = <<>> THEN [v |-> acc, s |-> S]
  ELSE LET r == Ev(P, Head(fs).e, c, S)
       IN SctorFields(P, Tail(fs), (Head(fs).f :> r.v) @@ acc, c, r.s)

LvOf(P, e, c, S) ==
  CASE e.k = "v" ->
         LET l == Loc(c, e.n, e.l) IN
         IF l \in DOMAIN S.al /\ S.al[l].k = "lv" THEN [lv |-> S.al[l].lv, s |-> S]
         ELSE [lv |-> Lv(l), s |-> S]
    [] e.k = "ext" -> [lv |-> [k |-> "ext", b |-> Key(e.h, e.o), p |-> <<>>], s |-> S]
    [] e.k = "fld" ->
         IF e.ent THEN LET r == Ev(P, e.e, c, S)
                       IN [lv |-> Lv("#" \o ToString(r.v) \o "." \o e.f),
                           s |-> IF Alive(r.s.w, r.v) THEN r.s ELSE Ub(r.s, "field of no entity")]
         ELSE LET r == LvOf(P, e.e, c, S)
              IN [lv |-> [r.lv EXCEPT !.p = Append(@, e.f)], s |-> r.s]
    [] e.k = "escb" ->          \* a score of an entity
         LET r == Ev(P, e.e, c, S)
         IN [lv |-> [k |-> "ext", b |-> EKey(r.v, e.o), p |-> <<>>],
             s |-> IF Alive(r.s.w, r.v) THEN r.s ELSE Ub(r.s, "score of no entity")]
    [] e.k = "gch" ->
         LET l == LvOf(P, e.x, c, S)
         IN [lv |-> l.lv, s |-> Ev(P, e, c, S).s]
    [] e.k = "call" ->          \* inline function with a reference result
         LET r == CallFn(P, P.fns[e.f], e.args, c, S, 0)
         IN [lv |-> r.v, s |-> r.s]

---------------------------------------------------------------------------
(* Calls.  args: sequence of [p |-> parameter, e |-> expression] (or [i,e]: *)
(* the i-th parameter, for methods with several implementations), evaluated *)
(* in the order written, all before any parameter is assigned.             *)
BindArgs(P, f, args, i, c, S, acc) ==
  IF i > Len(args) THEN [v |-> acc, s |-> S]
  ELSE LET a == args[i]
           p == IF "i" \in DOMAIN a THEN f.params[a.i] ELSE a.p
           port == f.ports[p]
       IN IF port = "ref"
          THEN LET r == LvOf(P, a.e, c, S)
               IN BindArgs(P, f, args, i + 1, c, r.s, (p :> r.lv) @@ acc)
          ELSE LET r == Ev(P, a.e, c, S)
               IN BindArgs(P, f, args, i + 1, c, r.s, (p :> r.v) @@ acc)

RECURSIVE Enter(_, _, _, _, _), Defaults(_, _, _, _, _)
Defaults(P, f, ps, S, acc) ==   \* fill in default values (constants)
  IF ps = <<>> THEN [v |-> acc, s |-> S]
  ELSE LET p == Head(ps) IN
       IF p \in DOMAIN acc THEN Defaults(P, f, Tail(ps), S, acc)
       ELSE LET r == Ev(P, f.dflt[p], [i |-> 0, rk |-> "", rp |-> "none", self |-> 0, nt |-> ""], S)
            IN Defaults(P, f, Tail(ps), r.s, (p :> r.v) @@ acc)

Enter(f, ps, vals, i, S) ==     \* give the parameters their values
  IF ps = <<>> THEN S
  ELSE LET p == Head(ps)
           l == (IF f.kind = "inline" THEN ToString(i) ELSE "0") \o "." \o p
           port == f.ports[p]
       IN Enter(f, Tail(ps), vals, i,
            IF port = "val" THEN WriteLv(S, Lv(l), vals[p])
            ELSE IF port = "ref" THEN Bind(S, l, [k |-> "lv", lv |-> vals[p]])
            ELSE Bind(S, l, [k |-> "val", v |-> vals[p]]))

CallFn(P, f, args, c, S, self) == CallFnX(P, f, args, c, S, self, "")

\* nt # "": a `new` method making an entity of template nt; gives the entity
CallFnX(P, f, args, c, S, self, nt) ==
  LET b == BindArgs(P, f, args, 1, c, S, Empty) IN CallFnV(P, f, b.v, b.s, self, nt)

\* vals: the values (or lvalues) of the arguments given
CallFnV(P, f, vals, S, self, nt) ==
  LET d == Defaults(P, f, f.params, S, vals)
      S0 == Burn(d.s)
      i == IF f.kind = "inline" THEN S0.ni + 1 ELSE 0
      S1 == Enter(f, f.params, d.v, i, [S0 EXCEPT !.ni = @ + 1])
      rk == IF f.kind = "inline" THEN ToString(i) \o ".#r" ELSE "0." \o f.name \o "#r"
      S2 == Forget(Forget(S1, rk), rk \o "s")
      S3 == IF S0.ub # "" THEN S0
            ELSE ExSeq(P, f.body, [i |-> i, rk |-> rk, rp |-> f.rp, self |-> self, nt |-> nt], S2)
  IN IF nt # "" THEN ReadLv(S3, Lv(rk \o "s"), "ent")
     ELSE IF f.ret = "none" THEN [v |-> 0, s |-> S3]
     ELSE IF f.rp = "ref"
     THEN [v |-> IF rk \in DOMAIN S3.al THEN S3.al[rk].lv ELSE Lv(rk), s |-> S3]
     ELSE IF f.rp = "const"
     THEN [v |-> IF rk \in DOMAIN S3.al THEN S3.al[rk].v ELSE Dflt(f.ret), s |-> S3]
     ELSE ReadLv(S3, Lv(rk), f.ret)

---------------------------------------------------------------------------
(* Entities *)

\* o.m(args): st is the declared template of o, cast its explicit upcast
MCall(P, e, c, S) ==
  LET o == Ev(P, e.o, c, S)
      stat == Provider(P.tpl, e.st, e.m)
      dyn == P.tpl[stat].ms[e.m].q \in {"virtual", "override"} /\ ~e.cast
  IN IF ~Alive(o.s.w, o.v) THEN [v |-> Dflt(P.tpl[stat].ms[e.m].ret), s |-> Ub(o.s, "method of no entity")]
     ELSE IF dyn /\ TypeKey(o.v) \notin DOMAIN o.s.m
     THEN [v |-> Dflt(P.tpl[stat].ms[e.m].ret), s |-> Ub(o.s, "entity without template")]
     ELSE LET t == IF dyn THEN Provider(P.tpl, o.s.m[TypeKey(o.v)], e.m) ELSE stat
          IN CallFn(P, P.tpl[t].ms[e.m], e.args, c, o.s, o.v)

\* make an entity by the `new` of template t; its own template is nt
CallNew(P, t, e, c, S, nt) ==
  LET ow == NewOwner(P.tpl, t)
      n == P.tpl[ow].new
  IN IF n.k = "fn" THEN CallFnX(P, n.f, e.args, c, S, 0, nt)
     ELSE LET at == CxOf(P, e.d.pos, c, S)
              w1 == Log(at.s.w, P.obs, "summon", "", e.d.ty \o " " \o e.d.nm \o " " \o e.d.ev)
              w2 == NewEnt(w1, e.d.ty, e.d.nm, at.v.p, at.v.d)
              id == Len(w2.ent)
          IN [v |-> id, s |-> [at.s EXCEPT !.w = w2, !.m = (TypeKey(id) :> nt) @@ @]]

(* Offsets: three coordinates, each absolute or relative, made by a sequence *)
(* of changes; local offsets are left, up and front.  Whole x and z numbers  *)
(* mean the middle of the block where blocks are meant (op "abs").           *)
\* a number: [v, i] (i: written without a point) or coordinate a of offset o
NumV(x) == IF "o" \in DOMAIN x THEN LET c == OffOf(x.o) IN (IF x.a = 1 THEN c.x ELSE IF x.a = 2 THEN c.y ELSE c.z).v
           ELSE x.v
Centre(x, ax) == IF ax # 2 /\ x.i THEN NumV(x) + 500 ELSE NumV(x)
OffOf(o) ==
  IF o.base = "local" THEN [k |-> "l", x |-> NumV(o.c[1]), y |-> NumV(o.c[2]), z |-> NumV(o.c[3])]
  ELSE LET start == [a \in 1..3 |-> IF o.base = "abs" THEN [r |-> "a", v |-> Centre(o.c[a], a)] ELSE [r |-> "r", v |-> 0]]
           f == OffOps(o.ops, o.base = "abs", start)
       IN [k |-> "w", x |-> f[1], y |-> f[2], z |-> f[3]]
OffOps(ops, fixed, f) ==
  IF ops = <<>> THEN f
  ELSE LET o == Head(ops) IN
       OffOps(Tail(ops), fixed, [a \in 1..3 |->
         IF o.c[a].n THEN f[a]
         ELSE CASE o.k = "abs" -> [r |-> "a", v |-> Centre(o.c[a], a)]
                [] o.k = "xabs" -> [r |-> "a", v |-> NumV(o.c[a])]
                [] fixed -> [r |-> "a", v |-> f[a].v + NumV(o.c[a])]
                [] OTHER -> [r |-> "r", v |-> NumV(o.c[a])]])

(* The text of a game command: [k: t / who / off]                            *)
WParts(P, ps, cx, c, S) ==
  IF ps = <<>> THEN [v |-> "", s |-> S]
  ELSE LET p == Head(ps)
           r == CASE p.k = "t" -> [v |-> p.t, s |-> S]
                  [] p.k = "off" -> [v |-> P3(Resolve(OffOf(p.o), cx)) \o "@" \o cx.d, s |-> S]
                  [] p.k = "who" -> LET x == Ev(P, p.e, c, S)
                                        ids == Live(x.s.w, IF p.g THEN x.v ELSE {x.v})
                                    IN [v |-> IdsStr(SeqOfSet({i \in ids : p.pl => IsPlayer(x.s.w.ent[i])})), s |-> x.s]
           t == WParts(P, Tail(ps), cx, c, r.s)
       IN [v |-> r.v \o t.v, s |-> t.s]
\* the rotation re gives for each of the entities, from where they are
RotEach(P, re, ids, c, S) ==
  IF ids = <<>> THEN [v |-> <<>>, s |-> S]
  ELSE LET en == S.w.ent[Head(ids)]
           r == RotOf(P, re, [NoCx EXCEPT !.p = en.pos, !.r = en.rot, !.d = en.dim], c, S)
           t == RotEach(P, re, Tail(ids), c, r.s)
       IN [v |-> <<r.v>> \o t.v, s |-> t.s]
RECURSIVE RotSeq(_, _, _), MoveSeq(_, _, _)
RotSeq(w, ids, rs) == IF ids = <<>> THEN w ELSE RotSeq(RotTo(w, {Head(ids)}, Head(rs)), Tail(ids), Tail(rs))
MoveSeq(w, ids, o) ==
  IF ids = <<>> THEN w
  ELSE LET en == w.ent[Head(ids)]
           p == Resolve(o, [NoCx EXCEPT !.p = en.pos, !.r = en.rot])
       IN MoveSeq(MoveTo(w, {Head(ids)}, p, en.dim), Tail(ids), o)

\* the context a position stands for: [base, ops]
CxOf(P, pe, c, S) ==
  IF pe.base.k = "ent"
  THEN LET r == Ev(P, pe.base.e, c, S) IN
       IF ~Alive(r.s.w, r.v) THEN [v |-> NoCx, s |-> Ub(r.s, "position of no entity")]
       ELSE LET x == r.s.w.ent[r.v]
            IN CxOps(P, pe.ops, [NoCx EXCEPT !.p = x.pos, !.r = x.rot, !.d = x.dim], c, r.s)
  ELSE IF pe.base.k = "off"
  THEN CxOps(P, pe.ops, [NoCx EXCEPT !.p = Resolve(OffOf(pe.base.o), NoCx)], c, S)
  ELSE CxOps(P, pe.ops, [NoCx EXCEPT !.p = pe.base.c], c, S)
CxOps(P, ops, cx, c, S) ==
  IF ops = <<>> THEN [v |-> cx, s |-> S]
  ELSE LET o == Head(ops) IN
       CASE o.k = "dim" -> CxOps(P, Tail(ops), [cx EXCEPT !.d = o.d], c, S)
         [] o.k = "to" -> CxOps(P, Tail(ops), [cx EXCEPT !.p = Resolve(o.c, cx)], c, S)
         [] o.k = "ap" -> CxOps(P, Tail(ops), [cx EXCEPT !.p = Resolve(OffOf(o.o), cx)], c, S)
         [] o.k = "align" -> CxOps(P, Tail(ops), [cx EXCEPT !.p = Align(cx.p, Range(o.a))], c, S)
         [] o.k = "local" -> \* o.c in the frame of rotation o.rot
              LET r == RotOf(P, o.rot, cx, c, S)
                  cx1 == [cx EXCEPT !.r = r.v]
              IN CxOps(P, Tail(ops), [cx1 EXCEPT !.p = Resolve(o.c, cx1)], c, r.s)
RotOf(P, re, cx, c, S) ==
  CASE re.base.k = "abs" -> [v |-> RotOps(re.ops, 1, re.base.r), s |-> S]
    [] re.base.k = "ent" ->
         LET r == Ev(P, re.base.e, c, S) IN
         IF ~Alive(r.s.w, r.v) THEN [v |-> <<0, 0>>, s |-> Ub(r.s, "rotation of no entity")]
         ELSE [v |-> RotOps(re.ops, 1, r.s.w.ent[r.v].rot), s |-> r.s]
    [] re.base.k = "face" ->
         LET r == Ev(P, re.base.e, c, S) IN
         IF ~Alive(r.s.w, r.v) THEN [v |-> <<0, 0>>, s |-> Ub(r.s, "facing no entity")]
         ELSE [v |-> RotOps(re.ops, 1, FacingOf(cx.p, r.s.w.ent[r.v].pos)), s |-> r.s]
RotOps(ops, i, r) ==
  IF i > Len(ops) THEN r
  ELSE RotOps(ops, i + 1, <<Coord1(ops[i].v, r[1]), Coord1(ops[i].h, r[2])>>)

---------------------------------------------------------------------------
(* Filters: each step narrows the set of entities the step before left.     *)
Between(v, lo, hi) == (lo.u \/ v >= lo.v) /\ (hi.u \/ v <= hi.v)
RECURSIVE ItemQty(_, _)
ItemQty(inv, st) ==
  IF inv = <<>> THEN 0
  ELSE LET x == Head(inv)
           hit == x.it = st.it /\ (st.data < 0 \/ x.data = st.data)
                  /\ (st.loc = "" \/ (x.loc = st.loc /\ Between(x.slot, st.slo, st.shi)))
       IN (IF hit THEN x.qty ELSE 0) + ItemQty(Tail(inv), st)

Keeps(w, en, st, cx) ==
  CASE st.k = "has_tag" -> Range(st.vs) \subseteq en.tags
    [] st.k = "has_no_tag" -> Range(st.vs) \intersect en.tags = {}
    [] st.k = "is_type" -> en.ty = st.vs[1]
    [] st.k = "is_not_type" -> en.ty \notin Range(st.vs)
    [] st.k = "is_name" -> en.nm = st.vs[1]
    [] st.k = "is_not_name" -> en.nm \notin Range(st.vs)
    [] st.k = "is_game_mode" -> en.md = st.vs[1]
    [] st.k = "is_not_game_mode" -> en.md \notin Range(st.vs)
    [] st.k = "has_permission" -> Range(st.vs) \subseteq en.perms
    [] st.k = "has_no_permission" -> Range(st.vs) \intersect en.perms = {}
    [] st.k = "all_players" -> en.ty = "player"
    [] st.k = "scores" -> LET k == EKey(en.id, st.o)
                          IN k \in DOMAIN w.sc /\ (Between(w.sc[k], st.lo, st.hi) # st.n)
    [] st.k = "level" -> Between(en.lvl, st.lo, st.hi)
    [] st.k = "rot_vertical" -> Between(en.rot[1], st.lo, st.hi)
    [] st.k = "rot_horizontal" -> Between(en.rot[2], st.lo, st.hi)
    [] st.k = "has_item" -> Between(ItemQty(en.inv, st), st.lo, st.hi) # st.n
    [] st.k = "distance_from" ->
         en.dim = cx.d /\ LET d == DSq(en.pos, cx.p)
                          IN /\ st.lo.u \/ d >= (st.lo.v \div 100) * (st.lo.v \div 100)
                             /\ st.hi.u \/ d <= (st.hi.v \div 100) * (st.hi.v \div 100)
    [] st.k = "inside" ->
         en.dim = cx.d /\ \A a \in 1..3 :
            /\ en.pos[a] >= cx.p[a] + Min32(st.box[a], 0)
            /\ en.pos[a] < cx.p[a] + Max32(st.box[a], 0) + 1000

FiltAll(P, steps, ids, c, S) ==
  IF steps = <<>> THEN [v |-> ids, s |-> S]
  ELSE LET st == Head(steps)
           at == IF "pos" \in DOMAIN st THEN CxOf(P, st.pos, c, S) ELSE [v |-> NoCx, s |-> S]
           keep == CASE st.k = "random" ->
                          Range(RandTake(S.w, SeqOfSet({i \in ids : S.w.ent[i].ty = st.ty}), st.n))
                     [] st.k = "nearest_from" -> Range(Take(ByDist(S.w, ids, at.v.p), st.n))
                     [] st.k = "farthest_from" -> Range(Take(Rev(ByDist(S.w, ids, at.v.p)), st.n))
                     [] OTHER -> {i \in ids : Keeps(S.w, S.w.ent[i], st, at.v)}
       IN FiltAll(P, Tail(steps), keep, c, at.s)

\* group operations; g is the value the group has now
GOps(P, ops, lv, g, c, S) ==
  IF ops = <<>> THEN [v |-> Live(S.w, g), s |-> WriteLv(S, lv, Live(S.w, g))]
  ELSE LET o == Head(ops)
           now == Live(S.w, g)
           r == CASE o.k = "select" -> FiltAll(P, o.f, Live(S.w, 1..Len(S.w.ent)), c, S)
                  [] o.k \in {"drop", "filter"} -> FiltAll(P, o.f, now, c, S)
                  [] o.k \in {"extend", "subtract", "intersect"} -> Ev(P, o.e, c, S)
                  [] o.k \in {"add", "remove"} -> EvAll(P, o.es, <<>>, c, S)
                  [] o.k = "clear" -> [v |-> {}, s |-> S]
           new == CASE o.k \in {"select", "extend"} -> now \union Live(r.s.w, r.v)
                    [] o.k \in {"drop", "subtract"} -> now \ r.v
                    [] o.k \in {"filter", "intersect"} -> now \intersect r.v
                    [] o.k = "add" -> now \union Live(r.s.w, Range(r.v))
                    [] o.k = "remove" -> now \ Range(r.v)
                    [] o.k = "clear" -> {}
       IN GOps(P, Tail(ops), lv, new, c, WriteLv(r.s, lv, new))

---------------------------------------------------------------------------
(* Statements *)
ExSeq(P, ss, c, S) ==
  IF ss = <<>> \/ S.ub # "" THEN S
  ELSE ExSeq(P, Tail(ss), c, Ex(P, Head(ss), c, S))

SayText(P, ps, acc, c, S) ==
  IF ps = <<>> THEN [v |-> acc, s |-> S]
  ELSE LET p == Head(ps) IN
       IF p.k = "t" THEN SayText(P, Tail(ps), acc \o p.t, c, S)
       ELSE LET r == Ev(P, p.e, c, S)
            IN SayText(P, Tail(ps), acc \o Str(r.v, p.ty), c, r.s)

(* Texts.  The expressions in a text are evaluated when the text is shown.   *)
(* In a pattern, %% is a percent sign, %d and %{n} the d-th or n-th argument, *)
(* %{name} the argument of that name; any other use of % is plain text.      *)
Chars(s) == JoinS(s, "")
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitOf(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4
                 [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9
RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE NumOf(SubSeq(s, 1, Len(s) - 1)) * 10 + DigitOf(s[Len(s)])
ColorCode(n) ==
  CASE n = "black" -> "0" [] n = "dark_blue" -> "1" [] n = "dark_green" -> "2" [] n = "dark_aqua" -> "3"
    [] n = "dark_red" -> "4" [] n = "dark_purple" -> "5" [] n = "gold" -> "6" [] n = "gray" -> "7"
    [] n = "dark_gray" -> "8" [] n = "blue" -> "9" [] n = "green" -> "a" [] n = "aqua" -> "b"
    [] n = "red" -> "c" [] n = "light_purple" -> "d" [] n = "yellow" -> "e" [] n = "white" -> "f"
    [] n = "minecoin_gold" -> "g" [] n = "material_quartz" -> "h" [] n = "material_iron" -> "i"
    [] n = "material_netherite" -> "j" [] n = "material_redstone" -> "m" [] n = "material_copper" -> "n"
    [] n = "material_gold" -> "p" [] n = "material_emerald" -> "q" [] n = "material_diamond" -> "s"
    [] n = "material_lapis" -> "t" [] n = "material_amethyst" -> "u" [] OTHER -> ""
\* the font of the inner text has priority
InFont(f, x) == [c |-> IF x.c = "" THEN f.c ELSE x.c, b |-> f.b \/ x.b, i |-> f.i \/ x.i, o |-> f.o \/ x.o]
Plain(t) == << [f |-> PlainFont, t |-> t] >>

FText(P, t, c, S) ==
  CASE t.k = "xs" -> [v |-> Plain(t.t), s |-> S]
    [] t.k = "xt" -> [v |-> Plain(TrText(t.t, "")), s |-> S]
    [] t.k = "xe" -> LET r == Ev(P, t.e, c, S) IN
         [v |-> Plain(CASE t.ty = "bool" -> IF r.v THEN "1" ELSE "0"
                        [] t.ty = "str" -> r.v [] OTHER -> ToString(r.v)), s |-> r.s]
    [] t.k = "xc" -> LET a == FText(P, t.a, c, S) b == FText(P, t.b, c, a.s) IN [v |-> a.v \o b.v, s |-> b.s]
    [] t.k = "xf" -> LET x == FText(P, t.x, c, S)
                         f == [c |-> ColorCode(t.c), b |-> t.b, i |-> t.i, o |-> t.o]
                     IN [v |-> [j \in 1..Len(x.v) |-> [x.v[j] EXCEPT !.f = InFont(f, @)]], s |-> x.s]
    [] t.k = "xp" -> FPat(P, t, 1, <<>>, c, S)
FPat(P, t, i, acc, c, S) ==
  IF i > Len(t.cs) THEN [v |-> acc, s |-> S]
  ELSE LET ch == t.cs[i]
           nx == IF i < Len(t.cs) THEN t.cs[i + 1] ELSE ""
           close == IF nx # "{" THEN 0
                    ELSE CHOOSE j \in (i + 2)..Len(t.cs) : t.cs[j] = "}" /\ \A k \in (i + 2)..(j - 1) : t.cs[k] # "}"
           id == IF nx = "{" THEN SubSeq(t.cs, i + 2, close - 1) ELSE <<nx>>
       IN IF ch # "%" THEN FPat(P, t, i + 1, acc \o Plain(ch), c, S)
          ELSE IF nx \in {"%", ""} THEN FPat(P, t, i + 2, acc \o Plain("%"), c, S)
          ELSE IF nx # "{" /\ nx \notin Digits THEN FPat(P, t, i + 2, acc \o Plain("%" \o nx), c, S)
          ELSE LET r == FText(P, IF \A k \in 1..Len(id) : id[k] \in Digits THEN t.as[NumOf(id) + 1]
                                 ELSE t.kw[Chars(id)], c, S)
               IN FPat(P, t, IF nx = "{" THEN close + 1 ELSE i + 2, acc \o r.v, c, r.s)

Ex(P, st, c, S) ==
  CASE st.k = "set" ->
         LET r == Ev(P, st.e, c, S) l == LvOf(P, st.x, c, r.s)
         IN WriteLv(l.s, l.lv, r.v)
    [] st.k = "decl" -> \* declaration without a value
         IF st.ty = "struct" THEN WriteLv(S, Lv(Loc(c, st.n, st.l)), Empty)
         ELSE Forget(S, Loc(c, st.n, st.l))
    [] st.k = "aug" ->
         LET r == Ev(P, st.e, c, S) l == LvOf(P, st.x, c, r.s)
             old == ReadLv(l.s, l.lv, "int")
             new == Arith(old.s, st.op, old.v, r.v)
         IN WriteLv(new.s, l.lv, new.v)
    [] st.k = "expr" -> IF st.e.k = "call" THEN CallFn(P, P.fns[st.e.f], st.e.args, c, S, 0).s
                        ELSE Ev(P, st.e, c, S).s
    [] st.k = "if" ->
         LET r == Ev(P, st.c, c, S) IN ExSeq(P, IF r.v THEN st.t ELSE st.e, c, r.s)
    [] st.k = "while" -> Loop(P, st, c, S)
    [] st.k = "for" ->
         LET r == Items(P, st.it, c, S)
         IN ForItems(P, st, r.v, c, r.s)
    [] st.k = "ref" ->
         LET l == LvOf(P, st.e, c, S)
         IN Bind(l.s, Loc(c, st.n, st.l), [k |-> "lv", lv |-> l.lv])
    [] st.k = "const" ->
         LET r == Ev(P, st.e, c, S)
         IN Bind(r.s, Loc(c, st.n, st.l), [k |-> "val", v |-> r.v])
    [] st.k = "result" ->
         IF c.rp = "ref"
         THEN LET l == LvOf(P, st.e, c, S) IN Bind(l.s, c.rk, [k |-> "lv", lv |-> l.lv])
         ELSE LET r == Ev(P, st.e, c, S) IN
              IF c.rp = "const" THEN Bind(r.s, c.rk, [k |-> "val", v |-> r.v])
              ELSE WriteLv(r.s, Lv(c.rk), r.v)
    [] st.k = "say" ->
         LET r == SayText(P, st.ps, "", c, S)
         IN [r.s EXCEPT !.w = Log(@, P.obs, "say", "0", r.v)]
    [] st.k = "tell" ->         \* a text shown to all players, or those in a group
         LET r == FText(P, st.x, c, S)
             all == {i \in 1..Len(S.w.ent) : S.w.ent[i].al /\ IsPlayer(S.w.ent[i])}
             to == CASE st.to.k = "all" -> [v |-> all, s |-> r.s]
                     [] OTHER -> LET g == Ev(P, st.to.e, c, r.s)
                                 IN [g EXCEPT !.v = (IF st.to.k = "ent" THEN {@} ELSE @) \intersect all]
             who == IdsStr(SeqOfSet(to.v))
             w1 == IF st.times = <<>> THEN to.s.w ELSE Log(to.s.w, P.obs, "titletimes", who,
                     ToString(st.times[1]) \o " " \o ToString(st.times[2]) \o " " \o ToString(st.times[3]))
             w2 == IF st.md = "clear" THEN Log(w1, P.obs, "titleclear", who, "")
                   ELSE Log(w1, P.obs, st.md, who, RunText(r.v))
         IN [to.s EXCEPT !.w = IF st.times = <<>> THEN w2 ELSE Log(w2, P.obs, "titlereset", who, "")]
    [] st.k = "swap" ->
         LET a == LvOf(P, st.a, c, S) b == LvOf(P, st.b, c, a.s)
             x == ReadLv(b.s, a.lv, st.ty) y == ReadLv(x.s, b.lv, st.ty)
         IN WriteLv(WriteLv(y.s, a.lv, y.v), b.lv, x.v)
    [] st.k = "pass" -> S
    [] st.k = "import" ->       \* the body of a file runs once, when first reached
         LET k == "%mod " \o st.m IN
         IF k \in DOMAIN S.al THEN S
         ELSE ExSeq(P, P.mods[st.m], [i |-> 0, rk |-> "", rp |-> "none", self |-> 0, nt |-> ""],
                    Bind(S, k, [k |-> "val", v |-> TRUE]))
    [] st.k \in {"task", "loopreg"} ->     \* the arguments are evaluated now
         LET a == BindArgs(P, P.fns[st.f], st.args, 1, c, S, Empty)
         IN [a.s EXCEPT !.m = ("%left " \o st.n :> IF st.k = "task" THEN -1 ELSE 0)
                              @@ ("%args " \o st.n :> a.v) @@ @]
    [] st.k = "after" -> LET r == Ev(P, st.e, c, S) IN WriteLv(r.s, Lv("%left " \o st.n), r.v)
    [] st.k = "cancel" -> WriteLv(S, Lv("%left " \o st.n), -1)
    [] st.k = "tick" -> Turns(P, 1, c, S)
    [] st.k = "forg" ->         \* once for every member, each in turn
         LET r == Ev(P, st.it, c, S) IN ForIds(P, st, SeqOfSet(Live(r.s.w, r.v)), c, r.s)
    [] st.k = "newc" ->         \* new(...) inside a `new` method
         LET r == CallNew(P, st.t, st, c, S, c.nt) IN WriteLv(r.s, Lv(c.rk \o "s"), r.v)
    [] st.k = "etag" ->
         LET r == Ev(P, st.e, c, S) ids == Live(r.s.w, {r.v})
         IN [r.s EXCEPT !.w = IF st.add THEN TagAdd(@, ids, st.v) ELSE TagDel(@, ids, st.v)]
    [] st.k = "kill" ->
         LET r == Ev(P, st.e, c, S) IN [r.s EXCEPT !.w = KillAll(@, Live(@, {r.v}))]
    [] st.k = "wcmd" ->         \* a function of the world module
         LET at == IF "pos" \in DOMAIN st THEN CxOf(P, st.pos, c, S) ELSE [v |-> NoCx, s |-> S]
             as == IF "as" \in DOMAIN st THEN Ev(P, st.as, c, at.s) ELSE [v |-> 0, s |-> at.s]
             on == IF "on" \in DOMAIN st THEN Ev(P, st.on.e, c, as.s) ELSE [v |-> {}, s |-> as.s]
             ids == SeqOfSet(Live(on.s.w, IF "on" \in DOMAIN st THEN IF st.on.g THEN on.v ELSE {on.v} ELSE {}))
             S1 == on.s
             up(w) == [S1 EXCEPT !.w = w]
         IN IF "as" \in DOMAIN st /\ ~Alive(S1.w, as.v) THEN S1
            ELSE (CASE st.fx = "raw" ->
                   LET r == WParts(P, st.ps, at.v, c, S1)
                   IN [r.s EXCEPT !.w = Log(@, P.obs, "raw", "",
                         st.n \o (IF "as" \in DOMAIN st THEN " by " \o ToString(as.v) ELSE "") \o r.v)]
                 [] st.fx = "say" -> up(Log(S1.w, P.obs, "say", ToString(as.v), st.t))
                 [] st.fx = "kill" -> up(KillAll(S1.w, Range(ids)))
                 [] st.fx = "tagadd" -> up(TagAdd(S1.w, Range(ids), st.t))
                 [] st.fx = "tagdel" -> up(TagDel(S1.w, Range(ids), st.t))
                 [] st.fx = "tp" -> up(MoveTo(S1.w, Range(ids), at.v.p, at.v.d))
                 [] st.fx = "move" -> up(MoveSeq(S1.w, ids, OffOf(st.o)))
                 [] st.fx = "rotate" -> LET r == RotEach(P, st.rot, ids, c, S1)
                                        IN [r.s EXCEPT !.w = RotSeq(@, ids, r.v)]
                 [] st.fx = "summon" ->
                   LET r == IF "rot" \in DOMAIN st THEN RotOf(P, st.rot, at.v, c, S1) ELSE [v |-> <<0, 0>>, s |-> S1]
                       w1 == NewEnt(Log(r.s.w, P.obs, "summon", "", st.ty \o " " \o st.nm \o " " \o st.ev),
                                    st.ty, st.nm, at.v.p, at.v.d)
                   IN [r.s EXCEPT !.w = RotTo(w1, {Len(w1.ent)}, r.v)])
    [] st.k = "esay" ->         \* /execute as ${e} run say @t
         LET r == Ev(P, st.e, c, S) IN
         IF ~Alive(r.s.w, r.v) THEN Ub(r.s, "speech of no entity")
         ELSE [r.s EXCEPT !.w = Log(@, P.obs, "say", ToString(r.v), st.t)]

(* A game tick: every task and every loop has its turn, in the order in which *)
(* the program makes them.  A task with a request whose time has come runs     *)
(* its target and has no request any more; otherwise the time goes by.        *)
Turns(P, i, c, S) ==
  IF i > Len(P.ticks) \/ S.ub # "" THEN S ELSE Turns(P, i + 1, c, Turn(P, P.ticks[i], c, S))
Turn(P, t, c, S) ==
  LET l == "%left " \o t.n
      left == S.m[l]
  IN IF t.k = "task"
     THEN IF left < 0 THEN S
          ELSE IF left > 0 THEN WriteLv(S, Lv(l), left - 1)
          ELSE LET r == CallFnV(P, P.fns[t.f], S.m["%args " \o t.n], S, 0, "")
               IN WriteLv(r.s, Lv(l), -1)
     ELSE IF left > 0 THEN WriteLv(S, Lv(l), left - 1)
          ELSE LET r == CallFnV(P, P.fns[t.f], S.m["%args " \o t.n], S, 0, "")
                   iv == Ev(P, t.iv, c, r.s)
               IN WriteLv(iv.s, Lv(l), iv.v - 1)

Loop(P, st, c, S) ==
  LET r == Ev(P, st.c, c, S)
      S1 == Burn(r.s)
  IN IF ~r.v \/ S1.ub # "" THEN IF r.v THEN S1 ELSE r.s
     ELSE LET S2 == ExSeq(P, st.b, c, S1)
          IN IF S2.ub # "" THEN S2 ELSE Loop(P, st, c, S2)

\* compile-time iteration: the loop name is bound to each item in turn
Items(P, it, c, S) ==
  IF it.k = "repeat"            \* list.repeat(x, n): n times the same thing
  THEN IF it.ref THEN LET l == LvOf(P, it.e, c, S)
                      IN [v |-> [j \in 1..it.n |-> [k |-> "lv", lv |-> l.lv]], s |-> l.s]
       ELSE LET r == Ev(P, it.e, c, S)
            IN [v |-> [j \in 1..it.n |-> [k |-> "val", v |-> r.v]], s |-> r.s]
  ELSE LET r == Ev(P, it, c, S)
       IN [v |-> [j \in 1..Len(r.v) |-> [k |-> "val", v |-> r.v[j]]], s |-> r.s]
ForItems(P, st, items, c, S) ==
  IF items = <<>> \/ S.ub # "" THEN S
  ELSE ForItems(P, st, Tail(items), c,
         ExSeq(P, st.b, c, Bind(S, Loc(c, st.n, st.l), Head(items))))
ForIds(P, st, ids, c, S) ==
  IF ids = <<>> \/ S.ub # "" THEN S
  ELSE IF ~Alive(S.w, Head(ids)) THEN Ub(S, "member killed before its turn")
  ELSE ForIds(P, st, Tail(ids), c,
         ExSeq(P, st.b, c, WriteLv(S, Lv(Loc(c, st.n, st.l)), Head(ids))))
=============================================================================
