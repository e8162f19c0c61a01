----------------------------- MODULE ModRefine -----------------------------
(***************************************************************************)
(* Conformance of compiled multi-file projects: the compiler accepts        *)
(* exactly the projects whose names all resolve (spec/Modules.tla), writes  *)
(* a function exactly for main and for the interfaces of the files that     *)
(* are reached, and what the functions do, in any order they are run, is    *)
(* what the elaborated program does.                                        *)
(* A case is as in Refine, except: raw = [files, dir], and a variant has    *)
(* kind (ok, error, crash), at ("file|line" of the error), user (the paths  *)
(* of non-internal functions) and pre (name prefix).                        *)
(***************************************************************************)
EXTENDS Refine, Modules

VARIABLE el
mvars == <<ci, vi, src, mw, stk, hist, nrun, steps, st, ver, el>>

Accept(e, v) ==
  CASE e.ub # "" -> "ok"
    [] v.kind = "crash" -> "compiler crash: " \o v.at
    [] e.err # "" /\ v.kind = "ok" -> "wrong project accepted: " \o e.err
    [] e.err # "" /\ v.kind = "error" -> "ok"
    [] e.err = "" /\ v.kind = "error" -> "valid project rejected: " \o v.at
    [] OTHER ->
       LET ps == {e.ifs[i].path : i \in 1..Len(e.ifs)}
           bad == {p \in Range(v.user) : p # "main" /\ p \notin ps}
       IN IF bad # {} THEN "function of no interface: " \o ToString(bad) ELSE "ok"

MInit ==
  /\ Init
  /\ el = Elaborate(Cases[ci].raw)
MFirst ==                       \* judge acceptance before anything is run
  /\ st = "idle" /\ nrun = 0 /\ ver = "ok" /\ steps = 0
  /\ ver' = Accept(el, V)
  /\ st' = IF el.ub # "" THEN "void" ELSE IF el.err # "" \/ V.kind # "ok" THEN "rejected" ELSE "idle"
  /\ steps' = 1
  /\ UNCHANGED <<ci, vi, src, mw, stk, hist, nrun, el>>
  /\ st' = "void" => PrintT("VOID|" \o C.id \o "|" \o el.ub)
  /\ st' = "rejected" => PrintT("INFO|" \o C.id \o "|" \o el.err \o "|" \o V.at)

Prog == [fns |-> el.fns, tpl |-> [x \in {} |-> 0], obs |-> C.obs, mods |-> el.mods]
MStart ==
  /\ st = "idle" /\ ver = "ok" /\ nrun < C.depth /\ (nrun = 0 => steps = 1)
  /\ \E ei \in 0..Len(el.ifs), ii \in 1..Len(C.inputs) :
       LET body == IF ei = 0 THEN el.main ELSE el.ifs[ei].body
           inp == C.inputs[ii]
           sw == [src.w EXCEPT !.sc = PutAll(@, inp), !.log = <<>>]
           s0 == [src EXCEPT !.w = sw, !.fuel = C.fuel]
           s1 == ExSeq(Prog, body, NoCtx, s0)
           p == IF ei = 0 THEN "main" ELSE el.ifs[ei].path
       IN /\ (nrun = 0) => (ei = 0)
          /\ (nrun > 0) => (ei > 0 /\ ii <= C.more)
          /\ src' = s1
          /\ mw' = [mw EXCEPT !.sc = PutAll(@, inp), !.log = <<>>]
          /\ stk' = IF p \in DOMAIN V.F THEN << [f |-> p, pc |-> 1, cx |-> NoCx] >> ELSE <<>>
          /\ st' = IF s1.ub # "" THEN "void" ELSE "run"
          /\ nrun' = nrun + 1
          /\ hist' = Append(hist, <<p, ii>>)
          /\ steps' = 0
  /\ UNCHANGED <<ci, vi, ver, el>>

MNext == MFirst \/ MStart \/ ((Machine \/ Finish) /\ UNCHANGED el)
MSpec == MInit /\ [][MNext]_mvars
MStat == /\ (st = "void" => PrintT("VOID|" \o C.id \o "|" \o src.ub))
         /\ ((st = "idle" /\ nrun > 0 /\ ver = "ok") => PrintT("DONE|" \o C.id \o "|" \o V.name \o "|" \o ToString(steps)))
=============================================================================
