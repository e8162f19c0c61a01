------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Conformance of compiled programs to the language.                       *)
(*                                                                         *)
(* Data (cases.json, produced from the real compiler's output): a sequence *)
(* of cases; a case has                                                    *)
(*   id, obs (probe scores), fns/tpl (source functions and templates),      *)
(*   entries: sequence of [body]: source entry points; entry 1 is the       *)
(*   program itself,                                                       *)
(*   variants: sequence of [name, F] compiled artefacts (one per compiler   *)
(*   configuration), F maps function path to commands, E gives the          *)
(*   functions that make up each entry point,                              *)
(*   inputs: sequence of input vectors (sequences of [k, v]),               *)
(*   rnd: sequence of random-choice vectors,                               *)
(*   depth: how many entry points may be run one after another.            *)
(* The environment picks a case, a variant, inputs and then, again and      *)
(* again, an entry point; the source semantics runs it in one step, the    *)
(* machine command by command; at every quiescent point both must agree on *)
(* the output log, the external scores and the world.                      *)
(***************************************************************************)
EXTENDS AcaciaSem, McMachine, Json, IOUtils

CaseFile == IOEnv.CASES
Cases == JsonDeserialize(CaseFile)
Lo == 1
Hi == Len(Cases)

VARIABLES ci, vi, src, mw, stk, hist, nrun, steps, st, ver
vars == <<ci, vi, src, mw, stk, hist, nrun, steps, st, ver>>

C == Cases[ci]
V == C.variants[vi]

RECURSIVE PutAll(_, _)
PutAll(sc, kv) == IF kv = <<>> THEN sc
                  ELSE PutAll((Head(kv).key :> (Head(kv).v + Head(kv).z)) @@ sc, Tail(kv))

MkEnt(i, e) == [id |-> i, ty |-> e.ty, nm |-> e.nm, tags |-> Range(e.tags),
                fam |-> Range(e.fam), pos |-> e.pos, rot |-> e.rot, dim |-> e.dim,
                al |-> TRUE, lvl |-> e.lvl, md |-> e.md, inv |-> e.inv, perms |-> Range(e.perms)]
\* initial scores of entities
RECURSIVE EntSc(_, _, _)
EntSc(es, i, sc) ==
  IF i > Len(es) THEN sc
  ELSE EntSc(es, i + 1, [k \in {EKey(i, es[i].scb[j].o) : j \in 1..Len(es[i].scb)} |->
         es[i].scb[CHOOSE j \in 1..Len(es[i].scb) : EKey(i, es[i].scb[j].o) = k].v] @@ sc)

World0(c, es) ==
  [sc |-> EntSc(es, 1, Empty), objs |-> Range(c.objs), ent |-> [i \in 1..Len(es) |-> MkEnt(i, es[i])], log |-> <<>>,
   rq |-> <<>>, q |-> {}, now |-> 0, bad |-> "", blk |-> IF "blks" \in DOMAIN c THEN c.blks ELSE <<>>]
Src0(w, fuel) == [m |-> Empty, al |-> Empty, w |-> w, ni |-> 0, fuel |-> fuel, ub |-> ""]


Init ==
  /\ ci \in Lo..Hi
  /\ vi \in 1..Len(Cases[ci].variants)
  /\ \E wi \in 1..Len(Cases[ci].worlds) :
       LET w == World0(Cases[ci], Cases[ci].worlds[wi])
       IN /\ src = Src0(w, 0)
          /\ mw = w
          /\ hist = IF Len(Cases[ci].worlds) = 1 THEN <<>> ELSE << <<"world", wi>> >>
  /\ stk = <<>> /\ nrun = 0 /\ steps = 0
  /\ st = "idle" /\ ver = "ok"

NoCtx == [i |-> 0, rk |-> "", rp |-> "none", self |-> 0, nt |-> ""]

(* The environment starts an entry point with some inputs. *)
Start ==
  /\ st = "idle" /\ ver = "ok" /\ nrun < C.depth
  /\ \E ei \in 1..Len(C.entries), ii \in 1..Len(C.inputs), ri \in 1..Len(C.rnd) :
       LET en == C.entries[ei]
           inp == C.inputs[ii]
           sw == [src.w EXCEPT !.sc = PutAll(@, inp), !.rq = C.rnd[ri], !.log = <<>>]
           s0 == [src EXCEPT !.w = sw, !.fuel = C.fuel]
           s1 == ExSeq(C, en.body, NoCtx, s0)
       IN /\ (nrun = 0) => (ei = 1)
          \* later runs start with the first C.more input vectors only
          /\ (nrun > 0) => (ii <= C.more /\ ei > 1)
          /\ src' = s1
          /\ mw' = [mw EXCEPT !.sc = PutAll(@, inp), !.rq = C.rnd[ri], !.log = <<>>]
          /\ LET paths == V.E[ei]
             IN stk' = [k \in 1..Len(paths) |-> [f |-> paths[k], pc |-> 1, cx |-> NoCx]]
          /\ st' = IF s1.ub # "" THEN "void" ELSE "run"
          /\ nrun' = nrun + 1
          /\ hist' = Append(hist, <<ei, ii, ri>>)
          /\ steps' = 0
  /\ UNCHANGED <<ci, vi, ver>>

Machine ==
  /\ st = "run" /\ stk # <<>> /\ ver = "ok"
  /\ LET r == Step(V.F, mw, stk, C.obs)
     IN /\ mw' = r.w /\ stk' = r.stk
        /\ steps' = steps + 1
        /\ ver' = IF r.w.bad # "" THEN r.w.bad
                  ELSE IF steps > C.maxsteps THEN "machine does not terminate"
                  ELSE "ok"
  /\ UNCHANGED <<ci, vi, src, hist, nrun, st>>

ExtKeys(w, c) == {k \in DOMAIN w.sc : k \in Range(c.obs)}
FirstDiff(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == {i \in 1..n : a[i] # b[i]}
  IN IF d = {} THEN n + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
At(s, i) == IF i <= Len(s) THEN ToString(s[i]) ELSE "nothing"

EntView(w) == [i \in 1..Len(w.ent) |->
   LET e == w.ent[i] IN <<e.ty, e.nm, e.al, IF e.al THEN <<e.pos, e.rot, e.dim>> ELSE <<>>,
        IF e.al THEN {t \in e.tags : t \in Range(C.tagobs)} ELSE {}>>]

Compare ==
  IF mw.log # src.w.log
  THEN LET i == FirstDiff(mw.log, src.w.log) IN
       "output " \o ToString(i) \o ": expected " \o At(src.w.log, i) \o " got " \o At(mw.log, i)
  ELSE IF \E k \in Range(C.obs) :
            (k \in DOMAIN mw.sc) # (k \in DOMAIN src.w.sc)
            \/ (k \in DOMAIN mw.sc /\ mw.sc[k] # src.w.sc[k])
  THEN LET k == CHOOSE k \in Range(C.obs) :
            (k \in DOMAIN mw.sc) # (k \in DOMAIN src.w.sc)
            \/ (k \in DOMAIN mw.sc /\ mw.sc[k] # src.w.sc[k])
       IN "value of " \o k \o ": expected " \o Snap(src.w, <<k>>)[1] \o " got " \o Snap(mw, <<k>>)[1]
  ELSE IF EntView(mw) # EntView(src.w)
  THEN "entities: expected " \o ToString(EntView(src.w)) \o " got " \o ToString(EntView(mw))
  ELSE "ok"

Finish ==
  /\ st = "run" /\ stk = <<>> /\ ver = "ok"
  /\ ver' = Compare
  /\ st' = "idle"
  \* the outcome has been compared: forget what only the comparison needs
  /\ mw' = [mw EXCEPT !.log = <<>>]
  /\ src' = [src EXCEPT !.w.log = <<>>]
  /\ UNCHANGED <<ci, vi, stk, hist, nrun, steps>>

Next == Start \/ Machine \/ Finish
Spec == Init /\ [][Next]_vars

(* ------------------------------ property ------------------------------- *)
Conforms ==
  \/ ver = "ok"
  \/ PrintT("VERDICT|" \o C.id \o "|" \o V.name \o "|" \o ToString(hist) \o "|" \o ver) /\ FALSE
(* counts how often each kind of thing happened, for the evidence file *)
Stat == /\ (st = "void" => PrintT("VOID|" \o C.id \o "|" \o src.ub))
        /\ ((st = "idle" /\ nrun > 0 /\ ver = "ok") => PrintT("DONE|" \o C.id \o "|" \o V.name \o "|" \o ToString(steps)))
=============================================================================
