------------------------------- MODULE CtSem -------------------------------
(***************************************************************************)
(* Compile-time evaluation: constants, const functions, lists, maps,        *)
(* strings, compile-time conditions and loops, and the text a program       *)
(* prints from them.                                                        *)
(*                                                                          *)
(* A value is [t, v]: int/bool/str/float (in eighths)/none, or obj with v   *)
(* an index into the heap of lists and maps.  Cells hold values; a variable *)
(* of a const function, a list element and a map entry are cells.           *)
(* Evaluator state: [o: objects, c: cells, out: printed lines, err].        *)
(* err = "" | "error: ..." (the program must be rejected) | "void: ..."     *)
(*                                                                          *)
(* The recorded behaviour is the sequence of /say commands the compiler     *)
(* produced, or the fact that it reported an error.  The machine evaluates  *)
(* one top-level statement per step and checks the record along the way.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Int32, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

IntV(n) == [t |-> "int", v |-> n]
BoolV(b) == [t |-> "bool", v |-> b]
StrV(x) == [t |-> "str", v |-> x]
FloatV(n) == [t |-> "float", v |-> n]
NoneV == [t |-> "none", v |-> 0]
ObjV(i) == [t |-> "obj", v |-> i]

Err(s, m) == IF s.err = "" THEN [s EXCEPT !.err = "error: " \o m] ELSE s
Void(s, m) == IF s.err = "" THEN [s EXCEPT !.err = "void: " \o m] ELSE s
R(v, s) == [v |-> v, c |-> 0, s |-> s]
RC(c, s) == [v |-> s.c[c], c |-> c, s |-> s]
RE(s, m) == R(NoneV, Err(s, m))
RV(s, m) == R(NoneV, Void(s, m))

NewCell(s, v) == [s EXCEPT !.c = Append(@, v)]
RECURSIVE NewCells(_, _)
NewCells(s, vs) == [s EXCEPT !.c = @ \o vs]
\* ids of the cells NewCells(s, vs) makes
CellIds(s, n) == [i \in 1..n |-> Len(s.c) + i]
NewObj(s, x) == [s EXCEPT !.o = Append(@, x)]
LastObj(s) == ObjV(Len(s.o))
MkList(s, vs, m) ==
  LET s1 == NewObj(NewCells(s, vs), [k |-> "list", m |-> m, ks |-> <<>>, es |-> CellIds(s, Len(vs))])
  IN R(LastObj(s1), s1)
IsObj(s, v, k) == IF v.t = "obj" THEN s.o[v.v].k = k ELSE FALSE
Vals(s, v) == [i \in 1..Len(s.o[v.v].es) |-> s.c[s.o[v.v].es[i]]]

RECURSIVE KeyEq(_, _, _)
KeyEq(s, a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE IF a.t # "obj" THEN a.v = b.v
  ELSE LET x == Vals(s, a) y == Vals(s, b)
       IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : KeyEq(s, x[i], y[i])
RECURSIVE Hashable(_, _)
Hashable(s, v) == \/ v.t \in {"int", "bool", "str", "float"}
                  \/ IsObj(s, v, "list") /\ \A i \in 1..Len(Vals(s, v)) : Hashable(s, Vals(s, v)[i])
\* position of key k in map object id, 0 if absent
KeyPos(s, id, k) ==
  LET ks == s.o[id].ks
      hit == {i \in 1..Len(ks) : KeyEq(s, ks[i], k)}
  IN IF hit = {} THEN 0 ELSE CHOOSE i \in hit : TRUE
PutKey(s, id, k, v) ==
  LET p == KeyPos(s, id, k) IN
  IF ~Hashable(s, k) THEN Err(s, "invalid key")
  ELSE IF p # 0 THEN [s EXCEPT !.c[s.o[id].es[p]] = v]
  ELSE LET s1 == NewCell(s, v)
       IN [s1 EXCEPT !.o[id].ks = Append(@, k), !.o[id].es = Append(@, Len(s1.c))]
RECURSIVE PutKeys(_, _, _, _)
PutKeys(s, id, ks, vs) ==
  IF ks = <<>> \/ vs = <<>> THEN s
  ELSE PutKeys(PutKey(s, id, Head(ks), Head(vs)), id, Tail(ks), Tail(vs))
MkMap(s, ks, vs, m) ==
  LET s1 == NewObj(s, [k |-> "map", m |-> m, ks |-> <<>>, es |-> <<>>])
      s2 == PutKeys(s1, Len(s1.o), ks, vs)
  IN R(ObjV(Len(s1.o)), s2)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

(* An immutable deep copy: what a const function's result is outside *)
RECURSIVE Freeze(_, _, _)
Freeze(s, v, m) ==
  IF v.t # "obj" THEN R(v, s)
  ELSE LET
    RECURSIVE Go(_, _, _)
    Go(st, vs, acc) == IF vs = <<>> THEN [s |-> st, a |-> acc]
                       ELSE LET r == Freeze(st, Head(vs), m)
                            IN Go(r.s, Tail(vs), Append(acc, r.v))
    g == Go(s, Vals(s, v), <<>>)
    IN IF s.o[v.v].k = "list" THEN MkList(g.s, g.a, m)
       ELSE MkMap(g.s, s.o[v.v].ks, g.a, m)

---------------------------------------------------------------------------
(* Text *)
Frac == <<"0", "125", "25", "375", "5", "625", "75", "875">>
FloatStr(n) == LET a == IF n < 0 THEN -n ELSE n
               IN (IF n < 0 THEN "-" ELSE "") \o ToString(a \div 8) \o "." \o Frac[(a % 8) + 1]
HasText(v) == v.t \in {"int", "bool", "str", "float", "none"}
Text(v) == CASE v.t = "int" -> ToString(v.v)
             [] v.t = "bool" -> IF v.v THEN "true" ELSE "false"
             [] v.t = "str" -> v.v
             [] v.t = "none" -> "None"
             [] OTHER -> FloatStr(v.v)

---------------------------------------------------------------------------
(* Operators *)
ArithI(s, op, a, b) ==
  CASE op = "+" -> IF AddOv(a, b) THEN RE(s, "overflow") ELSE R(IntV(a + b), s)
    [] op = "-" -> IF SubOv(a, b) THEN RE(s, "overflow") ELSE R(IntV(Sub32(a, b)), s)
    [] op = "*" -> IF MulOv(a, b) THEN RE(s, "overflow") ELSE R(IntV(Mul32(a, b)), s)
    [] op = "/" -> IF b = 0 THEN RE(s, "division by zero")
                   ELSE IF a = MinInt /\ b = -1 THEN RE(s, "overflow")
                   ELSE R(IntV(Div32(a, b)), s)
    [] OTHER -> IF b = 0 THEN RE(s, "division by zero") ELSE R(IntV(Mod32(a, b)), s)
FLim == 80000
InF(n) == n >= -FLim /\ n <= FLim
ArithF(s, op, a, b) ==
  IF ~InF(a) \/ ~InF(b) THEN RV(s, "float range")
  ELSE CASE op = "+" -> R(FloatV(a + b), s)
         [] op = "-" -> R(FloatV(a - b), s)
         [] op = "*" -> IF a = 0 \/ b = 0 \/ (Small(a) /\ Small(b) /\ (a * b) % 8 # 0) \/ ~Small(a) \/ ~Small(b)
                        THEN RV(s, "float precision") ELSE R(FloatV((a * b) \div 8), s)
         [] op = "/" -> IF b = 0 THEN RE(s, "division by zero")
                        ELSE IF a = 0 \/ Abs32(a * 8) % Abs32(b) # 0 THEN RV(s, "float precision")
                        ELSE R(FloatV(Div32(a * 8, b)), s)
         [] OTHER -> IF b = 0 THEN RE(s, "division by zero") ELSE RV(s, "float remainder")
ToF(v) == IF v.t = "float" THEN v.v ELSE IF v.v > 10000 \/ v.v < -10000 THEN FLim + 1 ELSE v.v * 8

RECURSIVE Times(_, _)
Times(q, n) == IF n <= 0 THEN <<>> ELSE q \o Times(q, n - 1)

\* ct: inside a const function
Bin(s, op, a, b, ct) ==
  IF s.err # "" THEN R(NoneV, s)
  ELSE IF a.t = "int" /\ b.t = "int" THEN ArithI(s, op, a.v, b.v)
  ELSE IF a.t \in {"int", "float"} /\ b.t \in {"int", "float"} THEN ArithF(s, op, ToF(a), ToF(b))
  ELSE IF a.t = "str" /\ b.t = "str" /\ op = "+" THEN R(StrV(a.v \o b.v), s)
  ELSE IF ~ct /\ op = "+" /\ IsObj(s, a, "list") /\ IsObj(s, b, "list")
       THEN MkList(s, Vals(s, a) \o Vals(s, b), FALSE)
  ELSE IF ~ct /\ op = "*" /\ IsObj(s, a, "list") /\ b.t = "int"
       THEN IF b.v > 300 THEN RV(s, "large list") ELSE MkList(s, Times(Vals(s, a), b.v), FALSE)
  ELSE RE(s, "operands of " \o op)

CmpI(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
                    [] op = ">" -> a > b [] op = "<=" -> a <= b [] OTHER -> a >= b

---------------------------------------------------------------------------
(* Python-style slices: indices of the elements, in order (1-based) *)
RECURSIVE SliceIx(_, _, _)
SliceIx(i, stop, step) ==
  IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
  ELSE <<i + 1>> \o SliceIx(i + step, stop, step)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* an/bn: whether start/stop are None
Slice(n, an, a, bn, b, step) ==
  LET lo == IF step > 0 THEN 0 ELSE -1
      hi == IF step > 0 THEN n ELSE n - 1
      Fix(x) == Clip(IF x < 0 THEN x + n ELSE x, lo, hi)
      st == IF an THEN (IF step > 0 THEN lo ELSE hi) ELSE Fix(a)
      en == IF bn THEN (IF step > 0 THEN hi ELSE lo) ELSE Fix(b)
  IN SliceIx(st, en, step)

RECURSIVE RangeSeq(_, _, _)
RangeSeq(i, stop, step) ==
  IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
  ELSE <<IntV(i)>> \o RangeSeq(i + step, stop, step)

---------------------------------------------------------------------------
(* Evaluation.  D: the program; e: expression; env: name -> binding         *)
(* ([k |-> "c", i |-> cell] or [k |-> "v", v |-> value]); ct: in a const    *)
(* function.                                                                *)
AllInt(q) == \A i \in 1..Len(q) : q[i].t = "int"
IntOrNone(v) == v.t \in {"int", "none"}
Lookup(env, n) == env[n]

\* methods that both kinds of lists/maps have, and those of mutable ones
Method(s, o, m, as, ct) ==
  LET id == o.v
      x == s.o[id]
      vs == Vals(s, o)
      n == Len(vs)
      na == Len(as)
      Idx(i) == i >= -n /\ i < n
      At0(i) == IF i < 0 THEN i + n + 1 ELSE i + 1
      mut == x.m
  IN IF x.k = "list" THEN
     CASE m = "copy" /\ na = 0 -> MkList(s, vs, ct)
       [] m = "size" /\ na = 0 -> R(IntV(n), s)
       [] m = "cycle" /\ na = 1 /\ AllInt(as) ->
            IF as[1].v < 0 THEN RE(s, "cycle") ELSE IF as[1].v > 300 THEN RV(s, "large list") ELSE MkList(s, Times(vs, as[1].v), ct)
       [] m = "slice" /\ na = 1 /\ AllInt(as) ->
            MkList(s, [i \in 1..Len(Slice(n, TRUE, 0, FALSE, as[1].v, 1)) |->
                       vs[Slice(n, TRUE, 0, FALSE, as[1].v, 1)[i]]], ct)
       [] m = "slice" /\ na \in {2, 3} /\ IntOrNone(as[1]) /\ IntOrNone(as[2])
             /\ (na = 3 => as[3].t = "int") ->
            IF na = 3 /\ as[3].v = 0 THEN RE(s, "slice step")
            ELSE LET ix == Slice(n, as[1].t = "none", as[1].v, as[2].t = "none", as[2].v,
                                 IF na = 3 THEN as[3].v ELSE 1)
                 IN MkList(s, [i \in 1..Len(ix) |-> vs[ix[i]]], ct)
       [] m = "extend" /\ na = 1 /\ mut /\ as[1].t = "obj" ->
            LET add == IF s.o[as[1].v].k = "list" THEN Vals(s, as[1]) ELSE s.o[as[1].v].ks
                s1 == NewCells(s, add)
            IN R(NoneV, [s1 EXCEPT !.o[id].es = @ \o CellIds(s, Len(add))])
       [] m = "append" /\ na = 1 /\ mut ->
            LET s1 == NewCell(s, as[1]) IN R(NoneV, [s1 EXCEPT !.o[id].es = Append(@, Len(s1.c))])
       [] m = "insert" /\ na = 2 /\ mut /\ as[1].t = "int" ->
            IF ~Idx(as[1].v) THEN RE(s, "index")
            ELSE LET s1 == NewCell(s, as[2])
                     p == At0(as[1].v)
                 IN R(NoneV, [s1 EXCEPT !.o[id].es = SubSeq(@, 1, p - 1) \o <<Len(s1.c)>>
                                                       \o SubSeq(@, p, Len(@))])
       [] m = "reverse" /\ na = 0 /\ mut ->
            R(NoneV, [s EXCEPT !.o[id].es = [i \in 1..n |-> x.es[n + 1 - i]]])
       [] m = "pop" /\ na = 1 /\ mut /\ AllInt(as) ->
            IF ~Idx(as[1].v) THEN RE(s, "index")
            ELSE R(vs[At0(as[1].v)], [s EXCEPT !.o[id].es = Without(@, At0(as[1].v))])
       [] OTHER -> RE(s, "no method " \o m)
     ELSE
     CASE m = "copy" /\ na = 0 -> MkMap(s, x.ks, vs, ct)
       [] m = "keys" /\ na = 0 -> MkList(s, x.ks, ct)
       [] m = "values" /\ na = 0 -> MkList(s, vs, ct)
       [] m = "size" /\ na = 0 -> R(IntV(n), s)
       [] m = "has" /\ na = 1 -> IF ~Hashable(s, as[1]) THEN RE(s, "invalid key")
                                 ELSE R(BoolV(KeyPos(s, id, as[1]) # 0), s)
       [] m = "get" /\ na \in {1, 2} ->
            IF ~Hashable(s, as[1]) THEN RE(s, "invalid key")
            ELSE LET p == KeyPos(s, id, as[1]) IN
                 IF p # 0 THEN R(vs[p], s) ELSE R(IF na = 2 THEN as[2] ELSE NoneV, s)
       [] m = "update" /\ na = 1 /\ mut /\ IsObj(s, as[1], "map") ->
            R(NoneV, PutKeys(s, id, s.o[as[1].v].ks, Vals(s, as[1])))
       [] m = "pop" /\ na \in {1, 2} /\ mut ->
            IF ~Hashable(s, as[1]) THEN RE(s, "invalid key")
            ELSE LET p == KeyPos(s, id, as[1]) IN
                 IF p # 0 THEN R(vs[p], [s EXCEPT !.o[id].ks = Without(@, p), !.o[id].es = Without(@, p)])
                 ELSE IF na = 2 THEN R(as[2], s) ELSE RE(s, "key")
       [] m = "set_default" /\ na \in {1, 2} /\ mut ->
            IF ~Hashable(s, as[1]) THEN RE(s, "invalid key")
            ELSE LET p == KeyPos(s, id, as[1])
                     d == IF na = 2 THEN as[2] ELSE NoneV
                 IN IF p # 0 THEN R(vs[p], s) ELSE R(d, PutKey(s, id, as[1], d))
       [] m = "clear" /\ na = 0 /\ mut ->
            R(NoneV, [s EXCEPT !.o[id].ks = <<>>, !.o[id].es = <<>>])
       [] OTHER -> RE(s, "no method " \o m)

RECURSIVE Geo(_, _, _, _)
Geo(s, cur, ratio, n) ==
  IF n <= 0 THEN [ov |-> FALSE, q |-> <<>>]
  ELSE IF n > 1 /\ MulOv(cur, ratio) THEN [ov |-> TRUE, q |-> <<>>]
  ELSE LET r == Geo(s, IF n > 1 THEN Mul32(cur, ratio) ELSE 0, ratio, n - 1)
       IN [ov |-> r.ov, q |-> <<IntV(cur)>> \o r.q]

Iter(s, v) == IF s.o[v.v].k = "list" THEN Vals(s, v) ELSE s.o[v.v].ks
Static(s, m, as, ct) ==
  LET na == Len(as) IN
  CASE m = "range" /\ na \in 1..3 /\ AllInt(as) ->
         IF na = 3 /\ as[3].v = 0 THEN RE(s, "range step")
         ELSE IF \E i \in 1..na : as[i].v > 300 \/ as[i].v < -300 THEN RV(s, "large list")
         ELSE MkList(s, RangeSeq(IF na = 1 THEN 0 ELSE as[1].v, IF na = 1 THEN as[1].v ELSE as[2].v,
                                 IF na = 3 THEN as[3].v ELSE 1), FALSE)
    [] m = "repeat" /\ na = 2 /\ as[2].t = "int" ->
         IF as[2].v > 300 THEN RV(s, "large list") ELSE MkList(s, Times(<<as[1]>>, as[2].v), ct)
    [] m = "geometric" /\ na = 3 /\ AllInt(as) ->
         IF as[3].v > 300 THEN RV(s, "large list") ELSE LET g == Geo(s, as[1].v, as[2].v, as[3].v)
         IN IF g.ov THEN RE(s, "overflow") ELSE MkList(s, g.q, FALSE)
    [] m = "list" /\ na = 1 /\ as[1].t = "obj" -> LET r == MkList(s, Iter(s, as[1]), FALSE)
         IN Freeze(r.s, r.v, FALSE)
    [] m = "map" /\ na = 2 /\ as[1].t = "obj" /\ as[2].t = "obj" ->
         MkMap(s, Iter(s, as[1]), Iter(s, as[2]), ct)
    [] m = "from_keys" /\ na \in {1, 2} /\ as[1].t = "obj" ->
         MkMap(s, Iter(s, as[1]), [i \in 1..Len(Iter(s, as[1])) |-> IF na = 2 THEN as[2] ELSE NoneV], ct)
    [] m = "float" /\ na = 1 /\ AllInt(as) ->
         IF as[1].v > 10000 \/ as[1].v < -10000 THEN RV(s, "float range") ELSE R(FloatV(as[1].v * 8), s)
    [] m = "int" /\ na = 1 /\ as[1].t = "bool" -> R(IntV(IF as[1].v THEN 1 ELSE 0), s)
    [] OTHER -> RE(s, "call of " \o m)

TypeOk(s, v, ty) ==
  CASE ty = "Any" -> TRUE
    [] ty = "None" -> v.t = "none"
    [] ty \in {"list", "map"} -> IsObj(s, v, ty)
    [] OTHER -> v.t = ty

\* a bound on calls and iterations; programs beyond it are skipped
Fuel == 1500
RECURSIVE Ev(_, _, _, _, _), EvSeq(_, _, _, _, _, _), Ex(_, _, _, _, _), ExAll(_, _, _, _, _),
          Chain(_, _, _, _, _, _, _), Call(_, _, _, _, _), ForEach(_, _, _, _, _, _, _), Loop(_, _, _, _, _, _)

\* a list of expressions, left to right: [s, q (results)]
EvSeq(D, es, env, s, ct, acc) ==
  IF es = <<>> \/ s.err # "" THEN [s |-> s, q |-> acc]
  ELSE LET r == Ev(D, Head(es), env, s, ct)
       IN EvSeq(D, Tail(es), env, r.s, ct, Append(acc, r))
QV(q) == [i \in 1..Len(q) |-> q[i].v]

\* comparison chain: every operand is evaluated
Chain(D, l, ops, env, s, ct, acc) ==
  IF ops = <<>> \/ s.err # "" THEN R(BoolV(acc), s)
  ELSE LET o == Head(ops)
           r == Ev(D, o.e, env, s, ct)
       IN IF r.s.err # "" THEN R(NoneV, r.s)
          ELSE IF l.t = "int" /\ r.v.t = "int"
               THEN Chain(D, r.v, Tail(ops), env, r.s, ct, acc /\ CmpI(o.op, l.v, r.v.v))
          ELSE IF l.t = "bool" /\ r.v.t = "bool" /\ o.op \in {"==", "!="}
               THEN Chain(D, r.v, Tail(ops), env, r.s, ct, acc /\ ((l.v = r.v.v) = (o.op = "==")))
          ELSE RE(r.s, "comparison")

Ev(D, e, env, s, ct) ==
  IF s.err # "" THEN R(NoneV, s)
  ELSE
  CASE e.k = "lit" -> R([t |-> e.t, v |-> e.v], s)
    [] e.k = "n" -> IF e.n \notin DOMAIN env \/ e.n = "$" THEN RE(s, "undefined name")
                    ELSE LET b == env[e.n] IN IF b.k = "c" THEN RC(b.i, s)
                    ELSE R(b.v, s)
    [] e.k = "un" -> LET r == Ev(D, e.e, env, s, ct) IN
         IF r.s.err # "" THEN r
         ELSE IF e.op = "not" THEN (IF r.v.t = "bool" THEN R(BoolV(~r.v.v), r.s) ELSE RE(r.s, "not"))
         ELSE IF r.v.t = "int" THEN (IF e.op = "+" THEN R(r.v, r.s)
                                     ELSE IF r.v.v = MinInt THEN RE(r.s, "overflow")
                                     ELSE R(IntV(-r.v.v), r.s))
         ELSE IF r.v.t = "float" THEN (IF e.op = "+" THEN R(r.v, r.s)
                                       ELSE IF r.v.v = 0 THEN RV(r.s, "negative zero")
                                       ELSE R(FloatV(-r.v.v), r.s))
         ELSE RE(r.s, "unary operand")
    [] e.k = "bin" -> LET a == Ev(D, e.l, env, s, ct)
                          b == Ev(D, e.r, env, a.s, ct)
                      IN Bin(b.s, e.op, a.v, b.v, ct)
    [] e.k = "cmp" -> LET a == Ev(D, e.l, env, s, ct) IN Chain(D, a.v, e.ops, env, a.s, ct, TRUE)
    [] e.k = "bl" -> LET g == EvSeq(D, e.es, env, s, ct, <<>>) IN
         IF g.s.err # "" THEN R(NoneV, g.s)
         ELSE IF \E i \in 1..Len(g.q) : g.q[i].v.t # "bool" THEN RE(g.s, "boolean operand")
         ELSE R(BoolV(IF e.op = "and" THEN \A i \in 1..Len(g.q) : g.q[i].v.v
                      ELSE \E i \in 1..Len(g.q) : g.q[i].v.v), g.s)
    [] e.k = "list" -> LET g == EvSeq(D, e.es, env, s, ct, <<>>) IN
         IF g.s.err # "" THEN R(NoneV, g.s) ELSE MkList(g.s, QV(g.q), ct)
    [] e.k = "map" -> LET g == EvSeq(D, e.ks, env, s, ct, <<>>)
                          h == EvSeq(D, e.vs, env, g.s, ct, <<>>)
         IN IF h.s.err # "" THEN R(NoneV, h.s) ELSE MkMap(h.s, QV(g.q), QV(h.q), ct)
    [] e.k = "sub" -> LET o == Ev(D, e.o, env, s, ct)
                          i == Ev(D, e.i, env, o.s, ct)
         IN IF i.s.err # "" THEN R(NoneV, i.s)
            ELSE IF o.v.t # "obj" THEN RE(i.s, "subscript")
            ELSE LET x == i.s.o[o.v.v]
                     n == Len(x.es)
                     p == IF x.k = "map" THEN (IF Hashable(i.s, i.v) THEN KeyPos(i.s, o.v.v, i.v) ELSE 0)
                          ELSE IF i.v.t # "int" THEN 0
                          ELSE IF i.v.v >= 0 THEN (IF i.v.v < n THEN i.v.v + 1 ELSE 0)
                          ELSE IF i.v.v >= -n THEN i.v.v + n + 1 ELSE 0
                 IN IF p = 0 THEN RE(i.s, "subscript value")
                    ELSE IF x.m THEN RC(x.es[p], i.s) ELSE R(i.s.c[x.es[p]], i.s)
    [] e.k = "meth" -> LET o == Ev(D, e.o, env, s, ct)
                           g == EvSeq(D, e.as, env, o.s, ct, <<>>)
         IN IF g.s.err # "" THEN R(NoneV, g.s)
            ELSE IF o.v.t # "obj" THEN RE(g.s, "method of a plain value")
            ELSE Method(g.s, o.v, e.m, QV(g.q), ct)
    [] e.k = "stat" -> LET g == EvSeq(D, e.as, env, s, ct, <<>>)
         IN IF g.s.err # "" THEN R(NoneV, g.s) ELSE Static(g.s, e.m, QV(g.q), ct)
    [] e.k = "fs" -> LET g == EvSeq(D, [i \in 1..Len(e.ps) |-> e.ps[i].e], env, s, ct, <<>>)
         IN IF g.s.err # "" THEN R(NoneV, g.s)
            ELSE IF \E i \in 1..Len(g.q) : ~HasText(g.q[i].v) THEN RE(g.s, "text of a value")
            ELSE LET RECURSIVE J(_)
                     J(i) == IF i > Len(g.q) THEN "" ELSE Text(g.q[i].v) \o J(i + 1)
                 IN R(StrV(J(1)), g.s)
    [] e.k = "call" ->
         LET f == D.fns[e.f]
             g == EvSeq(D, [i \in 1..Len(e.as) |-> e.as[i].e], env, s, ct, <<>>)
         IN IF g.s.err # "" THEN R(NoneV, g.s)
            ELSE Call(D, f, [i \in 1..Len(e.as) |-> [p |-> e.as[i].p, r |-> g.q[i]]], g.s, ct)

\* bind the arguments, run the body
Call(D, f, as, s, ct) ==
  LET RECURSIVE Bind(_, _, _)
      Bind(i, env, st) ==
        IF i > Len(f.ps) \/ st.err # "" THEN [e |-> env, s |-> st]
        ELSE LET p == f.ps[i].n
                 hit == {j \in 1..Len(as) : as[j].p = p}
             IN IF hit = {}
                THEN (IF f.ps[i].d.k = "none" THEN [e |-> env, s |-> Err(st, "missing argument")]
                      ELSE LET r == Ev(D, f.ps[i].d.e, D.genv, st, FALSE)
                               s1 == NewCell(r.s, r.v)
                           IN Bind(i + 1, (p :> [k |-> "c", i |-> Len(s1.c)]) @@ env, s1))
                ELSE LET j == CHOOSE j \in hit : TRUE
                         v == as[j].r.v
                         s1 == NewCell(st, v)
                     IN IF Cardinality(hit) > 1 THEN [e |-> env, s |-> Err(st, "argument twice")]
                        ELSE IF ~TypeOk(st, v, f.ps[i].ty) THEN [e |-> env, s |-> Err(st, "argument type")]
                        ELSE Bind(i + 1, (p :> [k |-> "c", i |-> Len(s1.c)]) @@ env, s1)
      b == Bind(1, ("$" :> {f.ps[i].n : i \in 1..Len(f.ps)}) @@ D.genv, s)
      r == ExAll(D, f.b, b.e, [b.s EXCEPT !.depth = @ + 1, !.res = NoneV, !.fuel = @ + 1], TRUE)
  IN IF \E j \in 1..Len(as) : \A i \in 1..Len(f.ps) : f.ps[i].n # as[j].p
     THEN RE(s, "unexpected argument")
     ELSE IF b.s.err # "" THEN R(NoneV, b.s)
     ELSE IF s.depth > 60 THEN RV(s, "recursion too deep")
     ELSE IF s.fuel > Fuel THEN RV(s, "long computation")
     ELSE IF r.s.err # "" THEN R(NoneV, r.s)
     ELSE IF ~TypeOk(r.s, r.s.res, f.ret) THEN RE(r.s, "result type")
     ELSE LET s2 == [r.s EXCEPT !.depth = s.depth, !.res = s.res]
          IN IF ct THEN R(r.s.res, s2) ELSE Freeze(s2, r.s.res, FALSE)

\* statements: [e (environment), s]
Ex(D, t, env, s, ct) ==
  LET B(e1, s1) == [e |-> e1, s |-> s1]
      \* "$" holds the names defined in the current scope
      Bd(n, b, s1) == IF n \in env["$"] THEN B(env, Err(s1, "name defined twice"))
                      ELSE B((n :> b) @@ ("$" :> (env["$"] \cup {n})) @@ env, s1)
  IN
  IF s.err # "" THEN B(env, s)
  ELSE
  CASE t.k = "pass" -> B(env, s)
    [] t.k = "def" -> LET r == Ev(D, t.e, env, s, ct) IN
         IF r.s.err # "" THEN B(env, r.s)
         ELSE IF t.ty # "" /\ ~TypeOk(r.s, r.v, t.ty) THEN B(env, Err(r.s, "declared type"))
         ELSE IF ct THEN LET s1 == NewCell(r.s, r.v) IN Bd(t.n, [k |-> "c", i |-> Len(s1.c)], s1)
         ELSE Bd(t.n, [k |-> "v", v |-> r.v], r.s)
    [] t.k = "ref" -> LET r == Ev(D, t.e, env, s, ct) IN
         IF r.s.err # "" THEN B(env, r.s)
         ELSE IF r.c = 0 THEN B(env, Err(r.s, "reference to a value"))
         ELSE Bd(t.n, [k |-> "c", i |-> r.c], r.s)
    [] t.k = "asg" -> LET l == Ev(D, t.l, env, s, ct)
                          r == Ev(D, t.e, env, l.s, ct)
         IN IF r.s.err # "" THEN B(env, r.s)
            ELSE IF l.c = 0 THEN B(env, Err(r.s, "assignment to a value"))
            ELSE B(env, [r.s EXCEPT !.c[l.c] = r.v])
    [] t.k = "aug" -> LET l == Ev(D, t.l, env, s, ct)
                          r == Ev(D, t.e, env, l.s, ct)
                          x == Bin(r.s, t.op, r.s.c[l.c], r.v, ct)
         IN IF r.s.err # "" THEN B(env, r.s)
            ELSE IF l.c = 0 THEN B(env, Err(r.s, "assignment to a value"))
            ELSE IF x.s.err # "" THEN B(env, x.s)
            ELSE B(env, [x.s EXCEPT !.c[l.c] = x.v])
    [] t.k = "expr" -> LET r == Ev(D, t.e, env, s, ct)
                       IN B(env, IF \E i \in 1..Len(r.s.o) : Len(r.s.o[i].es) > 300
                                 THEN Void(r.s, "large list") ELSE r.s)
    [] t.k = "res" -> LET r == Ev(D, t.e, env, s, ct)
                      IN B(env, IF r.s.err = "" THEN [r.s EXCEPT !.res = r.v] ELSE r.s)
    [] t.k = "if" -> LET r == Ev(D, t.c, env, s, ct) IN
         IF r.s.err # "" THEN B(env, r.s)
         ELSE IF r.v.t # "bool" THEN B(env, Err(r.s, "condition"))
         ELSE IF ct THEN ExAll(D, IF r.v.v THEN t.b ELSE t.el, env, r.s, ct)
         ELSE \* outside const functions the code that is not run is checked, too
           LET a == ExAll(D, t.b, env, r.s, ct)
               b == ExAll(D, t.el, a.e, [a.s EXCEPT !.out = IF r.v.v THEN @ ELSE r.s.out], ct)
           IN B(b.e, [b.s EXCEPT !.out = IF r.v.v THEN a.s.out ELSE @])
    [] t.k = "while" -> Loop(D, t, env, s, ct, 0)
    [] t.k = "for" -> LET r == Ev(D, t.e, env, s, ct) IN
         IF r.s.err # "" THEN B(env, r.s)
         ELSE IF r.v.t # "obj" THEN B(env, Err(r.s, "not iterable"))
         ELSE B(env, ForEach(D, t, Iter(r.s, r.v), env, r.s, ct, 1))
    [] OTHER -> LET r == Ev(D, t.e, env, s, ct) \* say
                IN B(env, IF r.s.err = "" THEN [r.s EXCEPT !.out = Append(@, r.v.v)] ELSE r.s)

ExAll(D, ts, env, s, ct) ==
  IF ts = <<>> \/ s.err # "" THEN [e |-> env, s |-> s]
  ELSE LET r == Ex(D, Head(ts), env, s, ct) IN ExAll(D, Tail(ts), r.e, r.s, ct)

\* each iteration has a scope of its own
ForEach(D, t, vs, env, s, ct, i) ==
  IF i > Len(vs) \/ s.err # "" THEN s
  ELSE IF s.fuel > Fuel THEN Void(s, "long computation")
  ELSE ForEach(D, t, vs, env,
         ExAll(D, t.b, ("$" :> {t.n}) @@ (t.n :> [k |-> "v", v |-> vs[i]]) @@ env,
               [s EXCEPT !.fuel = @ + 1], ct).s, ct, i + 1)

Loop(D, t, env, s, ct, n) ==
  LET r == Ev(D, t.c, env, s, ct) IN
  IF r.s.err # "" THEN [e |-> env, s |-> r.s]
  ELSE IF r.v.t # "bool" THEN [e |-> env, s |-> Err(r.s, "condition")]
  ELSE IF ~r.v.v THEN [e |-> env, s |-> r.s]
  ELSE IF n > 60 \/ s.fuel > Fuel THEN [e |-> env, s |-> Void(r.s, "long loop")]
  ELSE LET x == ExAll(D, t.b, env, [r.s EXCEPT !.fuel = @ + 1], ct) IN Loop(D, t, x.e, x.s, ct, n + 1)

---------------------------------------------------------------------------
(* Trace checking *)
\* A case with mode = "repair" is a program being generated: statements that
\* have no defined meaning are dropped and reported (bad), and nothing is
\* compared.
VARIABLES ci, pc, env, sem, ver, bad
vars == <<ci, pc, env, sem, ver, bad>>

S0 == [o |-> <<>>, c |-> <<>>, out |-> <<>>, err |-> "", res |-> NoneV, depth |-> 0, fuel |-> 0]
C == Cases[ci]

Init == /\ ci \in 1..Len(Cases)
        /\ pc = 1 /\ ver = "ok" /\ sem = S0 /\ bad = <<>>
        /\ env = ("$" :> {})

Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
WrongAt(a, b) == LET i == CHOOSE i \in 1..Len(a) : (i > Len(b) \/ a[i] # b[i])
                                                   /\ \A j \in 1..(i - 1) : a[j] = b[j]
                 IN "line " \o ToString(i) \o ": expected '" \o a[i] \o "' got "
                    \o (IF i > Len(b) THEN "nothing" ELSE "'" \o b[i] \o "'")

IsVoid(e) == e # "" /\ SubSeq(e, 1, 4) = "void"
Repair ==
  /\ C.mode = "repair" /\ pc <= Len(C.body)
  /\ LET r == Ex([fns |-> C.fns, genv |-> env], C.body[pc], env, sem, FALSE)
     IN IF r.s.err = "" THEN sem' = r.s /\ env' = r.e /\ bad' = bad
        ELSE sem' = sem /\ env' = env /\ bad' = Append(bad, pc)
  /\ pc' = pc + 1
  /\ UNCHANGED <<ci, ver>>
Step ==
  /\ C.mode = "check"
  /\ ver = "ok" /\ pc <= Len(C.body) /\ sem.err = ""
  /\ LET D == [fns |-> C.fns, genv |-> env]
         r == Ex(D, C.body[pc], env, sem, FALSE)
     IN /\ sem' = r.s
        /\ env' = r.e
        /\ ver' = IF r.s.err # ""
                  THEN (IF IsVoid(r.s.err) \/ C.kind = "error" THEN "ok"
                        ELSE IF C.kind = "ok" THEN "invalid program accepted (" \o r.s.err \o ")"
                        ELSE "compiler failed: " \o C.kind)
                  ELSE IF C.kind = "ok" /\ ~Prefix(r.s.out, C.out) THEN WrongAt(r.s.out, C.out)
                  ELSE "ok"
  /\ pc' = pc + 1
  /\ UNCHANGED <<ci, bad>>

End ==
  /\ C.mode = "check"
  /\ ver = "ok" /\ pc = Len(C.body) + 1 /\ sem.err = ""
  /\ ver' = IF C.kind # "ok" THEN "valid program rejected: " \o C.msg
            ELSE IF Len(C.out) > Len(sem.out) THEN "extra output: '" \o C.out[Len(sem.out) + 1] \o "'"
            ELSE "ok"
  /\ pc' = pc + 1
  /\ UNCHANGED <<ci, env, sem, bad>>

Next == Step \/ End \/ Repair
Spec == Init /\ [][Next]_vars

Conforms == \/ ver = "ok"
            \/ PrintT("VERDICT|" \o C.id \o "|ct||" \o ver) /\ FALSE
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o "," \o Join(Tail(q))
Stat == /\ ((C.mode = "repair" /\ pc = Len(C.body) + 1) => PrintT("GEN|" \o C.id \o "|" \o Join(bad)))
        /\ (IsVoid(sem.err) => PrintT("VOID|" \o C.id \o "|" \o sem.err))
        /\ ((ver = "ok" /\ pc = Len(C.body) + 2) => PrintT("DONE|" \o C.id \o "|ok|" \o ToString(Len(sem.out))))
        /\ ((ver = "ok" /\ sem.err # "" /\ ~IsVoid(sem.err)) => PrintT("DONE|" \o C.id \o "|rejected|" \o sem.err))
=============================================================================
