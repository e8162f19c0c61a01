--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The compiler as a program that is run again and again over one           *)
(* directory tree.  The state is the tree (files and directories under a    *)
(* scratch directory) and what every project has been compiled to so far.   *)
(* An invocation has a source file, an output path and options:             *)
(*  - wrong use (source or output parent missing, bad option values) and    *)
(*    rejected sources exit with an error and leave every file alone;       *)
(*  - a successful run writes the compiled files below the output path,     *)
(*    replacing files of the same name; with -u everything in the function  *)
(*    folder is removed first; everything else stays as it is;              *)
(*  - which files are written and what is in them only depends on the       *)
(*    project and the options that affect code, never on earlier runs, the  *)
(*    output path, the working directory or the environment;                *)
(*  - the files written are the main file, the init file if split, one per  *)
(*    interface, and internal files in the internal folder; tick.json       *)
(*    exists exactly if the program needs ticks, and lists the tick file.   *)
(* Traces recorded from the real program are checked step by step.          *)
(*                                                                         *)
(* Programs marked any may be accepted or rejected, but always alike;        *)
(* for known ones the set of files is known.                                 *)
(* A case: id, tree (initial, sequence of [p, h]), projects (id -> [src,     *)
(* ok, any, ifaces, empty, nomain, tick, known]), steps: [act, rc, said, msg, after, wrote,      *)
(* ticks]: exit status, was there an error message, the tree afterwards,    *)
(* what the same use writes to an empty place, what tick.json lists.        *)
(* Paths are sequences of names; h is a content hash, "D" for directories.  *)
(* act: [src: path, out: path (empty: not given), opts: sequence of [o, v]], *)
(* v a sequence of character codes, <<0>> for an option without value.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, n, tree, outs, ver
vars == <<ci, n, tree, outs, ver>>
C == Cases[ci]
Nul == [x \in {} |-> 0]
Rng(s) == {s[i] : i \in 1..Len(s)}

(* ---- options ---- *)
IsDigit(c) == c >= 48 /\ c <= 57
IsIdStart(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
IsId(v) == /\ v # <<>> /\ IsIdStart(v[1]) /\ \A i \in 1..Len(v) : IsIdStart(v[i]) \/ IsDigit(v[i])
IsNum(v) == v # <<>> /\ \A i \in 1..Len(v) : IsDigit(v[i])
RECURSIVE NumOf(_)
NumOf(v) == IF v = <<>> THEN 0 ELSE NumOf(SubSeq(v, 1, Len(v) - 1)) * 10 + v[Len(v)] - 48
RECURSIVE Split(_, _)           \* at a character
Split(v, c) ==
  LET s == {i \in 1..Len(v) : v[i] = c} IN
  IF s = {} THEN <<v>>
  ELSE LET i == CHOOSE i \in s : \A j \in s : i <= j
       IN <<SubSeq(v, 1, i - 1)>> \o Split(SubSeq(v, i + 1, Len(v)), c)
Lower(v) == [i \in 1..Len(v) |-> IF v[i] >= 65 /\ v[i] <= 90 THEN v[i] + 32 ELSE v[i]]

Opt(a, o) ==                    \* the last value given, as a sequence of 0 or 1 values
  LET s == {i \in 1..Len(a.opts) : a.opts[i].o = o}
  IN IF s = {} THEN <<>> ELSE << a.opts[CHOOSE i \in s : \A j \in s : i >= j].v >>
Or(x, d) == IF x = <<>> \/ x[1] = <<>> THEN d ELSE x[1]
Has(a, o) == Opt(a, o) # <<>>
LOCAL Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
RECURSIVE Name(_)
Name(v) == IF v = <<>> THEN "" ELSE SubSeq(Ascii, v[1] - 31, v[1] - 31) \o Name(SubSeq(v, 2, Len(v)))
ACACIA == <<97, 99, 97, 99, 105, 97>>
Root(a) == SelectSeq(Split(Or(Opt(a, "-f"), <<>>), 47), LAMBDA p : p # <<>>)
Cfg(a) ==
  [s |-> Or(Opt(a, "-s"), ACACIA), root |-> Root(a), main |-> Or(Opt(a, "-m"), <<109, 97, 105, 110>>),
   tag |-> Or(Opt(a, "-t"), ACACIA), int |-> Or(Opt(a, "--internal-folder"), <<95>> \o ACACIA),
   init |-> IF ~Has(a, "-i") THEN <<>> ELSE IF Opt(a, "-i")[1] = <<0>> THEN <<105, 110, 105, 116>> ELSE Opt(a, "-i")[1],
   v |-> Or(Opt(a, "-v"), <<>>), mi |-> Or(Opt(a, "--max-inline-file-size"), <<50, 48>>),
   d |-> Has(a, "-d"), O |-> Has(a, "-O"), e |-> Has(a, "-e")]

VersionOk(v) ==
  v = <<>> \/
  LET p == Split(v, 46) IN
  /\ Len(p) >= 2 /\ \A i \in 1..Len(p) : IsNum(p[i])
  /\ LET x == [i \in 1..3 |-> IF i <= Len(p) THEN NumOf(p[i]) ELSE -1]
     IN x[1] > 1 \/ (x[1] = 1 /\ (x[2] > 19 \/ (x[2] = 19 /\ x[3] >= 50)))
OptsOk(a) ==
  LET c == Cfg(a) IN
  /\ IsId(c.s) /\ IsId(c.main) /\ IsId(c.int) /\ (c.init = <<>> \/ IsId(c.init))
  /\ \A i \in 1..Len(c.root) : IsId(c.root[i])
  /\ VersionOk(c.v) /\ IsNum(c.mi)
  /\ \A i \in 1..Len(a.opts) : a.opts[i].o \in {"-s", "-f", "-m", "-t", "--internal-folder", "-i", "-v",
                                                "--max-inline-file-size", "-d", "-O", "-e", "-u"}
  /\ \A i \in 1..Len(a.opts) : a.opts[i].o = "--max-inline-file-size" =>      \* also those overridden
        LET v == a.opts[i].v IN IsNum(v) \/ (v[1] = 45 /\ IsNum(Tail(v)))
  /\ c.init # <<>> => Lower(c.init) # Lower(c.main)      \* two files, two names

(* ---- projects ---- *)
Proj(a) == {k \in DOMAIN C.projects : C.projects[k].src = a.src}
\* an interface may not be, or lie below, a name the compiler uses
Taken(path, c) ==
  LET p == [i \in 1..Len(path) |-> Lower(path[i])] IN
  p[1] \in {Lower(c.main), Lower(c.int)} \union (IF c.init = <<>> THEN {} ELSE {Lower(c.init)})
Accepts(p, c) == p.ok /\ \A i \in 1..Len(p.ifaces) : ~Taken(p.ifaces[i], c)

(* ---- trees ---- *)
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Entry(t, p) == IF p \in DOMAIN t THEN t[p] ELSE ""
IsDir(t, p) == p = <<>> \/ Entry(t, p) = "D"
AsTree(es) == [p \in {es[i].p : i \in 1..Len(es)} |-> es[CHOOSE i \in 1..Len(es) : es[i].p = p].h]
Cut(s, k) == SubSeq(s, k + 1, Len(s))
\* the files below a directory, with paths relative to it
Under(t, d) == [q \in {Cut(p, Len(d)) : p \in {p \in DOMAIN t : Prefix(d, p) /\ t[p] # "D"}} |-> t[d \o q]]
\* tree t with files fs (relative to d) added, and their parents
Put(t, d, fs) ==
  LET dirs == {SubSeq(d, 1, k) : k \in 1..Len(d)}
              \union UNION {{d \o SubSeq(f, 1, k) : k \in 1..(Len(f) - 1)} : f \in DOMAIN fs}
  IN [q \in DOMAIN t \union dirs \union {d \o f : f \in DOMAIN fs} |->
        IF \E f \in DOMAIN fs : d \o f = q THEN fs[CHOOSE f \in DOMAIN fs : d \o f = q]
        ELSE IF q \in dirs THEN "D" ELSE t[q]]

(* ---- one invocation ---- *)
\* without -o: next to the source
Out(a) == IF a.out # <<>> THEN a.out
          ELSE LET k == Len(a.src) IN [a.src EXCEPT ![k] = SubSeq(@, 1, Len(@) - 4) \o ".acaout"]
Fail(st, t) ==                  \* an error exit: nothing changed (an empty output directory may have been made)
  IF st.rc = 0 THEN "exit status 0 where an error is due"
  ELSE IF ~st.said THEN "no error message"
  ELSE LET t2 == AsTree(st.after) IN
       IF t2 = t THEN "ok"
       ELSE IF t2 = Put(t, Out(st.act), Nul) /\ Proj(st.act) # {} /\ OptsOk(st.act) THEN "ok"
       ELSE "files changed by a run that failed"
RECURSIVE Join(_)
Join(ns) == IF Len(ns) = 1 THEN ns[1] ELSE ns[1] \o "/" \o Join(SubSeq(ns, 2, Len(ns)))
\* the path of a function file below the output path
FuncFile(c, ns) == LET r == [i \in 1..Len(c.root) |-> Name(c.root[i])]
                       k == Len(ns)
                   IN r \o SubSeq(ns, 1, k - 1) \o <<ns[k] \o ".mcfunction">>
\* the use is right: what happens now depends on the program alone
Proper(a, t) == Proj(a) # {} /\ OptsOk(a) /\ (IsDir(t, Out(a)) \/ IsDir(t, SubSeq(Out(a), 1, Len(Out(a)) - 1)))
Judge(st, t, os) ==
  LET a == st.act
      c == Cfg(a)
      o == Out(a)
      t2 == AsTree(st.after)
  IN
  IF ~Proper(a, t) THEN Fail(st, t)
  ELSE LET k == CHOOSE k \in Proj(a) : TRUE
           p == C.projects[k]
           key == <<k, c>>
  IN IF ~Accepts(p, c) \/ (p.any /\ st.rc # 0)
  THEN IF key \in DOMAIN os /\ os[key] # Nul THEN "same project and options were accepted before" ELSE Fail(st, t)
  ELSE IF st.rc # 0 THEN "valid use rejected: " \o st.msg
  ELSE
  LET rootp == [i \in 1..Len(c.root) |-> Name(c.root[i])]
      fdir == o \o rootp
      kept == IF Has(a, "-u") /\ IsDir(t, fdir)
              THEN [q \in {q \in DOMAIN t : ~Prefix(fdir, q)} |-> t[q]] ELSE t
      fs == AsTree(st.wrote)
      code == DOMAIN fs \ {<<"tick.json">>}
      need == {FuncFile(c, <<Name(c.main)>>)}
              \union (IF c.init = <<>> THEN {} ELSE {FuncFile(c, <<Name(c.init)>>)})
              \union {FuncFile(c, [j \in 1..Len(f) |-> Name(f[j])]) : f \in Rng(p.ifaces)}
      \* functions without any command have no file
      may == {FuncFile(c, [j \in 1..Len(f) |-> Name(f[j])]) : f \in Rng(p.empty)}
             \union (IF p.nomain THEN {FuncFile(c, <<Name(c.main)>>)} ELSE {})
      intern == {f \in code : Len(f) = Len(rootp) + 2 /\ SubSeq(f, 1, Len(rootp) + 1) = rootp \o <<Name(c.int)>>}
  IN IF key \in DOMAIN os /\ fs # os[key]
     THEN "output differs from an earlier run of the same project and options"
     ELSE IF t2 # Put(kept, o, fs) THEN "tree after the run is not the old one with the output put in"
     ELSE IF p.known /\ (code \ (intern \union may) # need \ may) THEN "unexpected set of files"
     ELSE IF p.known /\ (<<"tick.json">> \in DOMAIN fs) # p.tick THEN "tick.json is not there exactly if needed"
     ELSE IF <<"tick.json">> \in DOMAIN fs /\ st.ticks # <<Join(rootp \o <<Name(c.int), "tick">>)>>
     THEN "tick.json does not list the tick function"
     ELSE IF <<"tick.json">> \in DOMAIN fs /\ FuncFile(c, <<Name(c.int), "tick">>) \notin code
     THEN "there is no tick function"
     ELSE "ok"

Init == ci \in 1..Len(Cases) /\ n = 0 /\ tree = AsTree(Cases[ci].tree) /\ outs = Nul /\ ver = "ok"
Step ==
  /\ ver = "ok" /\ n < Len(C.steps)
  /\ LET st == C.steps[n + 1]
         k == IF Proj(st.act) = {} THEN <<"", 0>> ELSE <<CHOOSE k \in Proj(st.act) : TRUE, Cfg(st.act)>>
     IN /\ ver' = Judge(st, tree, outs)
        /\ tree' = AsTree(st.after)
        /\ outs' = IF ver' = "ok" /\ Proper(st.act, tree) /\ k \notin DOMAIN outs
                     /\ (st.rc = 0 \/ C.projects[k[1]].any)
                   THEN (k :> AsTree(st.wrote)) @@ outs ELSE outs
        /\ n' = n + 1
        /\ (ver' # "ok" => PrintT("VERDICT|" \o C.id \o "|step" \o ToString(n + 1) \o "||" \o ver'))
  /\ UNCHANGED ci
Spec == Init /\ [][Step]_vars
Done == (n = Len(C.steps) /\ ver = "ok") => PrintT("DONE|" \o C.id \o "|std|" \o ToString(n))
=============================================================================
