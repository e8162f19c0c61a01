----------------------------- MODULE SrcRefine -----------------------------
(***************************************************************************)
(* Conformance of the compiler to spec/Source.tla: it accepts exactly the   *)
(* texts that are programs, points at the offending lines of the others,    *)
(* and what it writes does what the text means.                            *)
(* A case is as in Refine, except: src = the character codes, builtin =     *)
(* names of the builtin module, players = names scb() may use; a variant    *)
(* has kind (ok, error, crash), at, line (of the error, 0 if none).         *)
(***************************************************************************)
EXTENDS Refine, Source

VARIABLE el
svars == <<ci, vi, src, mw, stk, hist, nrun, steps, st, ver, el>>

Judge(e, v) ==
  CASE e.ub # "" -> "ok"
    [] e.may /\ v.kind = "error" -> "ok"
    [] v.kind = "crash" -> "compiler crash: " \o v.at
    [] e.err # "" /\ v.kind = "ok" -> "not a program, but accepted: " \o e.err \o " at line " \o ToString(e.lo)
    [] e.err # "" /\ v.kind = "error" ->
         IF v.line \in (e.lo..e.hi) \union e.alt THEN "ok"
         ELSE "wrong line reported: expected " \o ToString(e.lo) \o " to " \o ToString(e.hi) \o ": " \o v.at
    [] e.err = "" /\ v.kind = "error" -> "valid program rejected: " \o v.at
    [] OTHER -> "ok"

SInit == Init /\ el = ElabSrc(Cases[ci].src, Range(Cases[ci].builtin), Range(Cases[ci].players))
SFirst ==
  /\ st = "idle" /\ nrun = 0 /\ ver = "ok" /\ steps = 0
  /\ ver' = Judge(el, V)
  /\ st' = IF el.ub # "" THEN "void" ELSE IF el.err # "" \/ V.kind # "ok" THEN "rejected" ELSE "idle"
  /\ steps' = 1
  /\ UNCHANGED <<ci, vi, src, mw, stk, hist, nrun, el>>
  /\ st' = "void" => PrintT("VOID|" \o C.id \o "|" \o el.ub)
  /\ st' = "rejected" => PrintT("INFO|" \o C.id \o "|" \o el.err \o "|" \o V.at)

SProg == [fns |-> el.fns, tpl |-> [x \in {} |-> 0], obs |-> C.obs]
SStart ==
  /\ st = "idle" /\ ver = "ok" /\ nrun = 0 /\ steps = 1
  /\ \E ii \in 1..Len(C.inputs) :
       LET inp == C.inputs[ii]
           sw == [src.w EXCEPT !.sc = PutAll(@, inp), !.log = <<>>]
           s1 == ExSeq(SProg, el.body, NoCtx, [src EXCEPT !.w = sw, !.fuel = C.fuel])
       IN /\ src' = s1
          /\ mw' = [mw EXCEPT !.sc = PutAll(@, inp), !.log = <<>>]
          /\ stk' = IF "main" \in DOMAIN V.F THEN << [f |-> "main", pc |-> 1, cx |-> NoCx] >> ELSE <<>>
          /\ st' = IF s1.ub # "" THEN "void" ELSE "run"
          /\ nrun' = 1
          /\ hist' = Append(hist, ii)
          /\ steps' = 0
  /\ UNCHANGED <<ci, vi, ver, el>>
SNext == SFirst \/ SStart \/ ((Machine \/ Finish) /\ UNCHANGED el)
SSpec == SInit /\ [][SNext]_svars
SStat == /\ ((st = "void" /\ nrun > 0) => PrintT("VOID|" \o C.id \o "|" \o src.ub))
         /\ ((st = "idle" /\ nrun > 0 /\ ver = "ok") => PrintT("DONE|" \o C.id \o "|" \o V.name \o "|" \o ToString(steps)))
=============================================================================
