----------------------------- MODULE McMachine -----------------------------
(***************************************************************************)
(* The target: what a Minecraft world does with the .mcfunction commands   *)
(* the compiler wrote.  Do(cmd, cx, w) gives the effect of one simple      *)
(* command in one context; Fork(subs, cx, w) the contexts in which the     *)
(* "run" part of an /execute is performed.  Every rule the platform        *)
(* imposes (objective exists, function exists, well-formed command) turns  *)
(* into a named "bad" verdict, never into a TLC error.                     *)
(***************************************************************************)
EXTENDS World

\* score holders: [n |-> "holder objective", o |-> objective]  (plain name)
\*            or  [sel |-> selector, o |-> objective]          (entities)
IsPlain(h) == "n" \in DOMAIN h
HKeys(w, h, cx) ==
  IF IsPlain(h) THEN <<h.n>>
  ELSE LET ids == Select(w, h.sel, cx) IN [i \in 1..Len(ids) |-> EKey(ids[i], h.o)]

ObjOK(w, h) == h.o \in w.objs

---------------------------------------------------------------------------
(* /scoreboard players ... *)
RECURSIVE SetAll(_, _, _), AddAll(_, _, _)
SetAll(w, ks, v) == IF ks = <<>> THEN w ELSE SetAll(SetK(w, Head(ks), v), Tail(ks), v)
\* adding to an unset score starts from 0 on the platform
AddAll(w, ks, v) ==
  IF ks = <<>> THEN w
  ELSE LET k == Head(ks)
           old == IF Has(w, k) THEN w.sc[k] ELSE 0
       IN AddAll(SetK(w, k, Add32(old, v)), Tail(ks), v)

(* An operation that involves an unset score leaves its target unset       *)
(* ("poisoned"): a correct program never observes the outcome.             *)
Op1(w, k1, op, k2) ==
  IF op = "=" THEN IF Has(w, k2) THEN SetK(w, k1, w.sc[k2])
                   ELSE IF Has(w, k1) THEN DelK(w, k1) ELSE w
  ELSE IF ~Has(w, k1) \/ ~Has(w, k2)
  THEN IF Has(w, k1) THEN DelK(w, k1) ELSE w
  ELSE LET a == w.sc[k1] b == w.sc[k2] IN
       CASE op = "+=" -> SetK(w, k1, Add32(a, b))
         [] op = "-=" -> SetK(w, k1, Sub32(a, b))
         [] op = "*=" -> SetK(w, k1, Mul32(a, b))
         [] op = "/=" -> IF b = 0 THEN w ELSE SetK(w, k1, Div32(a, b))
         [] op = "%=" -> IF b = 0 THEN w ELSE SetK(w, k1, Mod32(a, b))
         [] op = "<"  -> SetK(w, k1, Min32(a, b))
         [] op = ">"  -> SetK(w, k1, Max32(a, b))
         [] op = "><" -> SetK(SetK(w, k1, b), k2, a)
         [] OTHER -> Bad(w, "unknown scoreboard operation")

RECURSIVE OpRow(_, _, _, _), OpAll(_, _, _, _)
OpRow(w, k1, op, ks2) ==
  IF ks2 = <<>> THEN w ELSE OpRow(Op1(w, k1, op, Head(ks2)), k1, op, Tail(ks2))
OpAll(w, ks1, op, ks2) ==
  IF ks1 = <<>> THEN w ELSE OpAll(OpRow(w, Head(ks1), op, ks2), Tail(ks1), op, ks2)

---------------------------------------------------------------------------
(* Text of output commands: runs of text in one font, see World. *)
PartText(w, p, cx) ==
  CASE p.k = "t" -> p.t
    [] p.k = "s" -> LET ks == HKeys(w, p.h, cx) IN
         JoinS([i \in 1..Len(ks) |->
           IF Has(w, ks[i]) THEN ToString(w.sc[ks[i]]) ELSE "<unset>"], ", ")
    [] p.k = "e" -> IdsStr(SortIds(Select(w, p.sel, cx)))
    [] OTHER -> "<?>"
RECURSIVE RawRuns(_, _, _, _)
\* parts of a /tellraw or /titleraw message, resolved; f is the font in force
RawRuns(w, ps, cx, f) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps) IN
       IF p.k = "f" THEN RawRuns(w, Tail(ps), cx, FontCode(f, p.c))
       ELSE << [f |-> f, t |-> IF p.k = "tr"
                               THEN TrText(p.t, RunText(RawRuns(w, p.w, cx, PlainFont)))
                               ELSE PartText(w, p, cx)] >>
            \o RawRuns(w, Tail(ps), cx, f)

R2(r) == "(" \o ToString(r[1]) \o "," \o ToString(r[2]) \o ")"

RECURSIVE OpaqueText(_, _, _)
OpaqueText(w, ps, cx) ==
  IF ps = <<>> THEN ""
  ELSE LET p == Head(ps)
           here == CASE p.k = "t" -> p.t
                     [] p.k = "e" -> IdsStr(SortIds(Select(w, p.sel, cx)))
                     [] p.k = "pos" -> P3(Resolve(p.c, cx)) \o "@" \o cx.d
                     [] p.k = "who" -> ToString(cx.e)
                     [] p.k = "ctx" -> ToString(cx.e) \o P3(cx.p) \o R2(cx.r) \o "@" \o cx.d
                     [] OTHER -> "<?>"
       IN here \o OpaqueText(w, Tail(ps), cx)

---------------------------------------------------------------------------
(* Simple commands *)
Do(c, cx, w, obs) ==
  CASE c.k = "set" -> IF ~ObjOK(w, c.h) THEN Bad(w, "unknown objective " \o c.h.o)
                      ELSE SetAll(w, HKeys(w, c.h, cx), c.v + c.z)
    [] c.k = "add" -> IF ~ObjOK(w, c.h) THEN Bad(w, "unknown objective " \o c.h.o)
                      ELSE AddAll(w, HKeys(w, c.h, cx), c.v + c.z)
    [] c.k = "rem" -> IF ~ObjOK(w, c.h) THEN Bad(w, "unknown objective " \o c.h.o)
                      ELSE AddAll(w, HKeys(w, c.h, cx), Neg32(c.v + c.z))
    [] c.k = "reset" -> LET ks == HKeys(w, c.h, cx) IN
                        [w EXCEPT !.sc = [x \in (DOMAIN w.sc) \ Range(ks) |-> w.sc[x]]]
    [] c.k = "op" -> IF ~ObjOK(w, c.h) THEN Bad(w, "unknown objective " \o c.h.o)
                     ELSE IF ~ObjOK(w, c.h2) THEN Bad(w, "unknown objective " \o c.h2.o)
                     ELSE OpAll(w, HKeys(w, c.h, cx), c.op, HKeys(w, c.h2, cx))
    [] c.k = "rand" -> IF ~ObjOK(w, c.h) THEN Bad(w, "unknown objective " \o c.h.o)
                       ELSE PopR(SetAll(w, HKeys(w, c.h, cx), RandPick(w, c.lo + c.lz, c.hi + c.hz)))
    [] c.k = "objadd" -> [w EXCEPT !.objs = @ \union {c.o}]
    [] c.k = "objdel" -> [w EXCEPT !.objs = @ \ {c.o}]
    [] c.k = "say" -> Log(w, obs, "say", IF c.w THEN ToString(cx.e) ELSE "0", c.t)
    [] c.k = "tellraw" ->
         Log(w, obs, c.n, IdsStr(SortIds(Select(w, c.sel, cx))), RunText(RawRuns(w, c.ps, cx, PlainFont)))
    [] c.k = "tag" -> LET ids == Range(Select(w, c.sel, cx)) IN
                      IF c.op = "add" THEN TagAdd(w, ids, c.v) ELSE TagDel(w, ids, c.v)
    [] c.k = "kill" -> KillAll(w, Range(Select(w, c.sel, cx)))
    [] c.k = "summon" ->
         LET m == NewEnt(Log(w, obs, "summon", "", c.ty \o " " \o c.nm \o " " \o c.ev),
                         c.ty, c.nm, Resolve(c.p, cx), cx.d)
         IN IF c.rot = <<>> THEN m
            ELSE RotTo(m, {Len(m.ent)}, <<Coord1(c.rot[1], cx.r[1]), Coord1(c.rot[2], cx.r[2])>>)
    [] c.k = "tp" -> LET ids == Range(Select(w, c.sel, cx))
                         m == MoveTo(w, ids, Resolve(c.p, cx), cx.d)
                     IN IF c.rot = <<>> THEN m
                        ELSE RotTo(m, ids, <<Coord1(c.rot[1], cx.r[1]), Coord1(c.rot[2], cx.r[2])>>)
    [] c.k = "raw" -> Log(w, obs, "raw", "", OpaqueText(w, c.ps, cx))
    [] c.k = "sched" -> IF c.m = "append" \/ ~(\E x \in w.q : x.f = c.f)
                        THEN [w EXCEPT !.q = @ \union
                               {[t |-> w.now + c.d, f |-> c.f,
                                 n |-> Cardinality(w.q) + 1]}]
                        ELSE [w EXCEPT !.q = {x \in w.q : x.f # c.f} \union
                               {[t |-> w.now + c.d, f |-> c.f, n |-> 1]}]
    [] c.k = "unsched" -> [w EXCEPT !.q = {x \in w.q : x.f # c.f}]
    [] c.k = "nop" -> w
    [] c.k = "bad" -> Bad(w, "malformed command: " \o c.t)
    [] OTHER -> Bad(w, "unknown command kind " \o c.k)

---------------------------------------------------------------------------
(* /execute *)
CmpHold(w, ks1, op, ks2) ==
  \E i \in 1..Len(ks1), j \in 1..Len(ks2) :
    /\ Has(w, ks1[i]) /\ Has(w, ks2[j])
    /\ LET a == w.sc[ks1[i]] b == w.sc[ks2[j]] IN
       CASE op = "=" -> a = b [] op = "<" -> a < b [] op = ">" -> a > b
         [] op = "<=" -> a <= b [] op = ">=" -> a >= b [] OTHER -> FALSE
MatchHold(w, ks, s) ==
  \E i \in 1..Len(ks) : Has(w, ks[i]) /\ (InR(w.sc[ks[i]], s) # s.n)

RECURSIVE FlatMapCx(_, _, _), ForkFrom(_, _, _, _)
Sub1(w, s, cx) ==     \* sequence of contexts after one subcommand
  CASE s.k = "as" -> LET ids == Select(w, s.sel, cx)
                     IN [i \in 1..Len(ids) |-> [cx EXCEPT !.e = ids[i]]]
    [] s.k = "at" -> LET ids == Select(w, s.sel, cx)
                     IN [i \in 1..Len(ids) |-> [cx EXCEPT !.p = w.ent[ids[i]].pos,
                             !.r = w.ent[ids[i]].rot, !.d = w.ent[ids[i]].dim]]
    [] s.k = "posas" -> LET ids == Select(w, s.sel, cx)
                        IN [i \in 1..Len(ids) |-> [cx EXCEPT !.p = w.ent[ids[i]].pos]]
    [] s.k = "pos" -> << [cx EXCEPT !.p = Resolve(s.p, cx)] >>
    [] s.k = "rot" -> << [cx EXCEPT !.r = <<Coord1(s.x, cx.r[1]), Coord1(s.y, cx.r[2])>>] >>
    [] s.k = "rotas" -> LET ids == Select(w, s.sel, cx)
                        IN [i \in 1..Len(ids) |-> [cx EXCEPT !.r = w.ent[ids[i]].rot]]
    [] s.k = "face" -> << [cx EXCEPT !.r = FacingOf(cx.p, Resolve(s.p, cx))] >>
    [] s.k = "faceent" -> LET ids == Select(w, s.sel, cx)
                          IN [i \in 1..Len(ids) |->
                               [cx EXCEPT !.r = FacingOf(cx.p, w.ent[ids[i]].pos)]]
    [] s.k = "in" -> << [cx EXCEPT !.d = s.d] >>
    [] s.k = "align" -> << [cx EXCEPT !.p = Align(cx.p, Range(s.a))] >>
    [] s.k = "anch" -> <<cx>>
    [] s.k = "ifs" -> IF CmpHold(w, HKeys(w, s.h, cx), s.op, HKeys(w, s.h2, cx)) # s.u
                      THEN <<cx>> ELSE <<>>
    [] s.k = "ifm" -> IF MatchHold(w, HKeys(w, s.h, cx), s) # s.u
                      THEN <<cx>> ELSE <<>>
    [] s.k = "ife" -> IF (Select(w, s.sel, cx) # <<>>) # s.u THEN <<cx>> ELSE <<>>
    [] s.k = "ifb" -> IF IsBlock(w, s.id, s.st, Resolve(s.p, cx), cx.d) # s.u
                      THEN <<cx>> ELSE <<>>
    [] s.k = "ifbs" -> IF SameArea(Resolve(s.p, cx), Resolve(s.q, cx), Resolve(s.to, cx), s.m, cx.d) # s.u
                       THEN <<cx>> ELSE <<>>
    [] OTHER -> <<>>
FlatMapCx(w, s, cxs) ==
  IF cxs = <<>> THEN <<>> ELSE Sub1(w, s, Head(cxs)) \o FlatMapCx(w, s, Tail(cxs))
ForkFrom(w, subs, i, cxs) ==
  IF i > Len(subs) \/ cxs = <<>> THEN cxs
  ELSE ForkFrom(w, subs, i + 1, FlatMapCx(w, subs[i], cxs))
Fork(subs, cx, w) == ForkFrom(w, subs, 1, <<cx>>)

SubObjs(s) == CASE s.k = "ifs" -> {s.h.o, s.h2.o} [] s.k = "ifm" -> {s.h.o} [] OTHER -> {}

RECURSIVE DoEach(_, _, _, _)
DoEach(c, cxs, w, obs) ==
  IF cxs = <<>> THEN w ELSE DoEach(c, Tail(cxs), Do(c, Head(cxs), w, obs), obs)

---------------------------------------------------------------------------
(* One step of the function stack.  A frame is [f, pc, cx]; stk[1] is the   *)
(* innermost.  Step(F, w, stk, obs) -> [w, stk].                            *)
PushCalls(F, w, stk, f, cxs) ==
  IF f \notin DOMAIN F THEN [w |-> Bad(w, "missing function " \o f), stk |-> stk]
  ELSE [w |-> w, stk |-> [i \in 1..Len(cxs) |-> [f |-> f, pc |-> 1, cx |-> cxs[i]]] \o stk]

Step(F, w, stk, obs) ==
  LET top == stk[1]
      code == F[top.f]
      c == code[top.pc]
      \* a frame whose last command has started is dropped (tail call)
      rest == IF top.pc = Len(code) THEN Tail(stk)
              ELSE [stk EXCEPT ![1].pc = @ + 1]
  IN IF Len(code) = 0 THEN [w |-> w, stk |-> Tail(stk)]
     ELSE IF c.k = "fn" THEN PushCalls(F, w, rest, c.f, <<top.cx>>)
     ELSE IF c.k = "exec" THEN
       IF \E i \in 1..Len(c.sub) : ~(SubObjs(c.sub[i]) \subseteq w.objs)
       THEN [w |-> Bad(w, "unknown objective in execute"), stk |-> rest]
       ELSE IF \E i \in 1..Len(c.sub) : c.sub[i].k = "bad"
       THEN [w |-> Bad(w, "malformed execute subcommand"), stk |-> rest]
       ELSE LET cxs == Fork(c.sub, top.cx, w) IN
            IF c.run.k = "fn" THEN PushCalls(F, w, rest, c.run.f, cxs)
            ELSE [w |-> DoEach(c.run, cxs, w, obs), stk |-> rest]
     ELSE [w |-> Do(c, top.cx, w, obs), stk |-> rest]
=============================================================================
