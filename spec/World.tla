------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* The Minecraft world as both the target machine and the source-level     *)
(* semantics see it: scoreboards, entities, execution contexts, target     *)
(* selectors, coordinates, and the log of observable output.               *)
(*                                                                         *)
(* A world is a record                                                     *)
(*   sc   : function from "<holder> <objective>" to a 32-bit integer       *)
(*          (entity holders are "#<id>"; a key outside the domain is an    *)
(*          unset score)                                                   *)
(*   objs : set of registered objectives                                   *)
(*   ent  : sequence of entities (index = id; killed ones stay, al=FALSE)  *)
(*   log  : sequence of observable events                                  *)
(*   rq   : pending random choices (a sequence of naturals)                *)
(*   q    : set of pending scheduled calls [t, f]                          *)
(*   now  : current tick                                                   *)
(*   bad  : "" or the name of the first violated platform rule             *)
(* All coordinates are fixed point, 1000 = one block / one degree.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Int32

Key(h, o) == h \o " " \o o
EKey(id, o) == "#" \o ToString(id) \o " " \o o

Has(w, k) == k \in DOMAIN w.sc
SetK(w, k, v) == IF k \in DOMAIN w.sc THEN [w EXCEPT !.sc[k] = v]
                 ELSE [w EXCEPT !.sc = (k :> v) @@ w.sc]
DelK(w, k) == [w EXCEPT !.sc = [x \in (DOMAIN w.sc) \ {k} |-> w.sc[x]]]
Bad(w, b) == IF w.bad = "" THEN [w EXCEPT !.bad = b] ELSE w

RECURSIVE SeqOfSet(_)
\* ascending sequence of a set of integers
SeqOfSet(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                    IN <<m>> \o SeqOfSet(S \ {m})

RECURSIVE JoinS(_, _)
JoinS(s, sep) == IF s = <<>> THEN ""
                 ELSE IF Len(s) = 1 THEN s[1]
                 ELSE s[1] \o sep \o JoinS(Tail(s), sep)

Range(s) == {s[i] : i \in DOMAIN s}

---------------------------------------------------------------------------
(* Execution contexts *)
NoCx == [e |-> 0, p |-> <<0, 0, 0>>, r |-> <<0, 0>>, d |-> "overworld"]

\* One coordinate: [r |-> "a"/"r" (absolute / ~relative), v |-> n]
Coord1(c, base) == IF c.r = "a" THEN c.v ELSE base + c.v

(* Local (^) coordinates: left, up, front along the rotation.  Exact for    *)
(* rotations that are multiples of 90 degrees (others are opaque).         *)
Norm(a) == ((a % 360000) + 360000) % 360000
Right4(a) == Norm(a) \in {0, 90000, 180000, 270000}
Sin4(a) == CASE Norm(a) = 0 -> 0 [] Norm(a) = 90000 -> 1
             [] Norm(a) = 180000 -> 0 [] OTHER -> -1
Cos4(a) == CASE Norm(a) = 0 -> 1 [] Norm(a) = 90000 -> 0
             [] Norm(a) = 180000 -> -1 [] OTHER -> 0
\* rot = <<pitch, yaw>>; yaw 0 looks at +z, yaw 90 at -x; pitch 90 is down
Local(p, rot, l, u, f) ==
  LET sp == Sin4(rot[1]) cp == Cos4(rot[1])
      sy == Sin4(rot[2]) cy == Cos4(rot[2])
      fx == (-sy) * cp   fy == -sp   fz == cy * cp
      ux == (-sy) * sp   uy == cp    uz == cy * sp
      lx == cy           ly == 0     lz == sy
  IN << p[1] + l * lx + u * ux + f * fx,
        p[2] + l * ly + u * uy + f * fy,
        p[3] + l * lz + u * uz + f * fz >>

\* Coordinates: [k |-> "w", x, y, z] (each Coord1) or [k |-> "l", x, y, z]
Resolve(c, cx) ==
  IF c.k = "l" THEN Local(cx.p, cx.r, c.x, c.y, c.z)
  ELSE << Coord1(c.x, cx.p[1]), Coord1(c.y, cx.p[2]), Coord1(c.z, cx.p[3]) >>

P3(p) == "(" \o ToString(p[1]) \o "," \o ToString(p[2]) \o "," \o ToString(p[3]) \o ")"
Floor1000(v) == (v \div 1000) * 1000
Align(p, ax) == << IF "x" \in ax THEN Floor1000(p[1]) ELSE p[1],
                   IF "y" \in ax THEN Floor1000(p[2]) ELSE p[2],
                   IF "z" \in ax THEN Floor1000(p[3]) ELSE p[3] >>

Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
(* Rotation that faces q from p; defined for axis-parallel displacement.   *)
FacingOf(p, q) ==
  LET dx == q[1] - p[1] dy == q[2] - p[2] dz == q[3] - p[3]
  IN IF dx = 0 /\ dz = 0 THEN IF dy > 0 THEN << -90000, 0>>
                              ELSE IF dy < 0 THEN <<90000, 0>> ELSE <<0, 0>>
     ELSE IF dx = 0 THEN <<0, IF dz > 0 THEN 0 ELSE 180000>>
     ELSE <<0, IF dx > 0 THEN -90000 ELSE 90000>>

---------------------------------------------------------------------------
(* Selectors *)
DSq(p, q) == LET a == (p[1] - q[1]) \div 100
                 b == (p[2] - q[2]) \div 100
                 c == (p[3] - q[3]) \div 100
             IN IF a > 20000 \/ a < -20000 \/ b > 20000 \/ b < -20000
                   \/ c > 20000 \/ c < -20000
                THEN 1200000000 ELSE a * a + b * b + c * c

\* origin of a selector: x/y/z arguments override the context position
RECURSIVE OriginAt(_, _, _, _)
OriginAt(as, i, p, cp) ==
  IF i > Len(as) THEN p
  ELSE LET a == as[i] IN
       OriginAt(as, i + 1,
         CASE a.k = "x" -> <<Coord1(a.c, cp[1]), p[2], p[3]>>
           [] a.k = "y" -> <<p[1], Coord1(a.c, cp[2]), p[3]>>
           [] a.k = "z" -> <<p[1], p[2], Coord1(a.c, cp[3])>>
           [] OTHER -> p, cp)

InR(v, a) == /\ (a.lo.u \/ v >= a.lo.v)
             /\ (a.hi.u \/ v <= a.hi.v)

\* how many of the item the entity carries (in the place asked for)
RECURSIVE Quantity(_, _)
Quantity(inv, a) ==
  IF inv = <<>> THEN 0
  ELSE LET x == Head(inv) IN
       (IF /\ x.it = a.it
           /\ (a.data = -1 \/ x.data = a.data)
           /\ (a.loc = "" \/ x.loc = a.loc)
           /\ InR(x.slot, a.slot)
        THEN x.qty ELSE 0) + Quantity(Tail(inv), a)

Match1(w, en, a, o) ==
  CASE a.k = "tag" -> (a.v \in en.tags) # a.n
    [] a.k = "type" -> (en.ty = a.v) # a.n
    [] a.k = "name" -> (en.nm = a.v) # a.n
    [] a.k = "family" -> (a.v \in en.fam) # a.n
    [] a.k = "m" -> (en.md = a.v) # a.n
    [] a.k = "sc" -> LET k == EKey(en.id, a.o)
                     IN k \in DOMAIN w.sc /\ (InR(w.sc[k], a) # a.n)
    [] a.k = "r" -> DSq(en.pos, o) <= (a.v \div 100) * (a.v \div 100)
    [] a.k = "rm" -> DSq(en.pos, o) >= (a.v \div 100) * (a.v \div 100)
    [] a.k = "dx" -> en.pos[1] >= o[1] + Min32(a.v, 0)
                       /\ en.pos[1] < o[1] + Max32(a.v, 0) + 1000
    [] a.k = "dy" -> en.pos[2] >= o[2] + Min32(a.v, 0)
                       /\ en.pos[2] < o[2] + Max32(a.v, 0) + 1000
    [] a.k = "dz" -> en.pos[3] >= o[3] + Min32(a.v, 0)
                       /\ en.pos[3] < o[3] + Max32(a.v, 0) + 1000
    [] a.k = "rx" -> en.rot[1] <= a.v
    [] a.k = "rxm" -> en.rot[1] >= a.v
    [] a.k = "ry" -> en.rot[2] <= a.v
    [] a.k = "rym" -> en.rot[2] >= a.v
    [] a.k = "l" -> en.lvl <= a.v
    [] a.k = "lm" -> en.lvl >= a.v
    [] a.k = "item" -> InR(Quantity(en.inv, a), a) # a.n
    [] a.k = "perm" -> (a.v \in en.perms) = a.on
    [] OTHER -> TRUE       \* c, x, y, z

IsPlayer(en) == en.ty = "player"

HasK(as, k) == \E i \in 1..Len(as) : as[i].k = k
ArgV(as, k) == as[CHOOSE i \in 1..Len(as) : as[i].k = k].v

RECURSIVE ByDist(_, _, _)
ByDist(w, S, o) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S :
                  LET dx == DSq(w.ent[x].pos, o) dy == DSq(w.ent[y].pos, o)
                  IN dx < dy \/ (dx = dy /\ x <= y)
       IN <<m>> \o ByDist(w, S \ {m}, o)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

\* n of the entities in s, by the next random choice
RandTake(w, s, n) ==
  LET k == IF w.rq = <<>> \/ s = <<>> THEN 0 ELSE Head(w.rq) % Len(s)
  IN Take([i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]], n)

\* ids selected by sel in context cx, as a sequence
Select(w, sel, cx) ==
  LET as == sel.a
      o == OriginAt(as, 1, cx.p, cx.p)
      base == CASE sel.v = "s" -> IF cx.e = 0 THEN {} ELSE {cx.e}
                [] sel.v = "e" -> 1..Len(w.ent)
                [] sel.v = "r" -> IF HasK(as, "type") THEN 1..Len(w.ent)
                                  ELSE {i \in 1..Len(w.ent) : IsPlayer(w.ent[i])}
                [] sel.v \in {"a", "p"} -> {i \in 1..Len(w.ent) : IsPlayer(w.ent[i])}
                [] OTHER -> {}
      spatial == \E i \in 1..Len(as) : as[i].k \in {"r", "rm", "dx", "dy", "dz", "x", "y", "z"}
      ok == {i \in base : w.ent[i].al
                 /\ (spatial => w.ent[i].dim = cx.d)
                 /\ \A j \in 1..Len(as) : Match1(w, w.ent[i], as[j], o)}
      c == IF HasK(as, "c") THEN ArgV(as, "c")
           ELSE IF sel.v \in {"p", "r"} THEN 1 ELSE 0
  IN IF c = 0 THEN SeqOfSet(ok)
     ELSE IF sel.v = "r" THEN RandTake(w, SeqOfSet(ok), c)
     ELSE LET s == ByDist(w, ok, o)
          IN IF c > 0 THEN Take(s, c) ELSE Take(Rev(s), -c)

(* Random choices come from the queue rq, so both sides see the same ones. *)
RandPick(w, lo, hi) ==
  IF w.rq = <<>> THEN lo
  ELSE LET n == Head(w.rq) IN
       IF n > 100 \/ Sub32(hi, lo) < 0 THEN hi
       ELSE IF n >= Sub32(hi, lo) THEN hi ELSE lo + n
PopR(w) == IF w.rq = <<>> THEN w ELSE [w EXCEPT !.rq = Tail(@)]

---------------------------------------------------------------------------
(* Blocks: an unchanging pattern made of the blocks w.blk, each [id, st];   *)
(* st are its states.  Whether two areas are the same is any function of    *)
(* the areas and the mode.                                                  *)
BlockAt(w, p, d) ==
  w.blk[(((p[1] \div 1000) + 2 * (p[2] \div 1000) + 3 * (p[3] \div 1000)
          + (IF d = "overworld" THEN 0 ELSE 1)) % Len(w.blk)) + 1]
IsBlock(w, id, sts, p, d) ==
  w.blk # <<>> /\ LET b == BlockAt(w, p, d) IN b.id = id /\ Range(sts) \subseteq Range(b.st)
Weight(p) == (p[1] \div 500) + 2 * (p[2] \div 500) + 3 * (p[3] \div 500)
SameArea(p, q, r, mode, d) ==
  (Weight(p) + 3 * Weight(q) + 5 * Weight(r) + (IF d = "overworld" THEN 0 ELSE 1)
   + (IF mode = "masked" THEN 1 ELSE 0)) % 3 = 0

---------------------------------------------------------------------------
(* Updates shared by machine and source semantics *)
TagAdd(w, ids, t) ==
  [w EXCEPT !.ent = [i \in DOMAIN w.ent |->
     IF i \in ids THEN [w.ent[i] EXCEPT !.tags = @ \union {t}] ELSE w.ent[i]]]
TagDel(w, ids, t) ==
  [w EXCEPT !.ent = [i \in DOMAIN w.ent |->
     IF i \in ids THEN [w.ent[i] EXCEPT !.tags = @ \ {t}] ELSE w.ent[i]]]
KillAll(w, ids) ==
  [w EXCEPT !.ent = [i \in DOMAIN w.ent |->
     IF i \in ids THEN [w.ent[i] EXCEPT !.al = FALSE] ELSE w.ent[i]]]
MoveTo(w, ids, p, d) ==
  [w EXCEPT !.ent = [i \in DOMAIN w.ent |->
     IF i \in ids THEN [w.ent[i] EXCEPT !.pos = p, !.dim = d] ELSE w.ent[i]]]
RotTo(w, ids, r) ==
  [w EXCEPT !.ent = [i \in DOMAIN w.ent |->
     IF i \in ids THEN [w.ent[i] EXCEPT !.rot = r] ELSE w.ent[i]]]
NewEnt(w, ty, nm, p, d) ==
  [w EXCEPT !.ent = Append(@, [id |-> Len(w.ent) + 1, ty |-> ty, nm |-> nm,
     tags |-> {}, fam |-> {}, pos |-> p, rot |-> <<0, 0>>, dim |-> d,
     al |-> TRUE, lvl |-> 0, md |-> "survival", inv |-> <<>>, perms |-> {}])]

\* snapshot of the probe scores, attached to every logged event
Snap(w, obs) == [i \in 1..Len(obs) |->
                   IF obs[i] \in DOMAIN w.sc THEN ToString(w.sc[obs[i]]) ELSE "?"]
Log(w, obs, kind, who, text) ==
  [w EXCEPT !.log = Append(@, <<kind, who, text, Snap(w, obs)>>)]

---------------------------------------------------------------------------
(* Displayed text: a sequence of runs [f |-> font, t |-> string]; a font is  *)
(* its colour ("" is the default one) and three styles.                      *)
PlainFont == [c |-> "", b |-> FALSE, i |-> FALSE, o |-> FALSE]
FontCode(f, c) ==       \* the section sign followed by c
  CASE c = "r" -> PlainFont
    [] c = "l" -> [f EXCEPT !.b = TRUE]
    [] c = "o" -> [f EXCEPT !.i = TRUE]
    [] c = "k" -> [f EXCEPT !.o = TRUE]
    [] OTHER -> [f EXCEPT !.c = c]
FontStr(f) == (IF f.b THEN "B" ELSE "") \o (IF f.i THEN "I" ELSE "") \o (IF f.o THEN "O" ELSE "") \o f.c
TrText(key, with) == "{translation of " \o key \o (IF with = "" THEN "" ELSE " with " \o with) \o "}"
RECURSIVE RunFrom(_, _)
RunFrom(rs, f) ==
  IF rs = <<>> THEN ""
  ELSE IF Head(rs).t = "" THEN RunFrom(Tail(rs), f)
  ELSE (IF Head(rs).f = f THEN "" ELSE "<" \o FontStr(Head(rs).f) \o ">")
       \o Head(rs).t \o RunFrom(Tail(rs), Head(rs).f)
RunText(rs) == RunFrom(rs, PlainFont)

IdsStr(s) == "[" \o JoinS([i \in 1..Len(s) |-> ToString(s[i])], ",") \o "]"
SortIds(s) == SeqOfSet(Range(s))
=============================================================================
