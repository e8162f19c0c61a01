------------------------------ MODULE Modules ------------------------------
(***************************************************************************)
(* Several source files: what every name in a project means.               *)
(*                                                                         *)
(* A raw project is a sequence of files; a file has a path relative to the *)
(* folder of the main file (a sequence of parts, ".." steps up) and a      *)
(* sequence of raw statements over unresolved names.  Elaboration binds    *)
(* every name statically and yields a program of AcaciaSem in which every  *)
(* variable and function has a unique name:                                *)
(*  - a file is analysed once, at the first import of it met anywhere, no  *)
(*    matter how the import is spelled; importing a file that is still     *)
(*    being analysed is an error;                                          *)
(*  - a name is bound at most once in a scope; files, functions and        *)
(*    interfaces open scopes, branches do not;                             *)
(*  - a module provides the names it defines itself, except those that     *)
(*    start with an underscore; an imported name is the same thing, not a  *)
(*    copy;                                                                *)
(*  - the body of an inline function is analysed at each call in the scope *)
(*    it was defined in, as that scope is at that moment;                  *)
(*  - at run time an import statement runs the file's body the first time  *)
(*    it is reached (AcaciaSem, statement "import").                       *)
(*                                                                         *)
(* T, the elaboration state, is a record                                   *)
(*   tabs : scopes, [tab : name -> entity, outer, noexp]                    *)
(*   cache: path -> scope of the analysed file                             *)
(*   load : paths being analysed                                           *)
(*   mods, fns, ifs : code of files, of functions, of interfaces           *)
(*   n    : counter for unique names; fuel                                 *)
(*   err  : "" or [what, file, line] as "what|file|line" for bad projects  *)
(*   ub   : "" or why the project is outside the modelled language         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Nil == [x \in {} |-> 0]
Builtin == {"print", "math", "schedule", "world", "music", "builtins"}

LOCAL Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE PathKey(_)
PathKey(p) == IF p = <<>> THEN "" ELSE "/" \o Head(p) \o PathKey(Tail(p))
FileOf(R, key) == CHOOSE i \in 1..Len(R.files) : PathKey(R.files[i].path) = key
HasFile(R, key) == \E i \in 1..Len(R.files) : PathKey(R.files[i].path) = key
\* where an import looks: leading dots and the parts of the name
RECURSIVE Ups(_)
Ups(n) == IF n <= 0 THEN <<>> ELSE <<"..">> \o Ups(n - 1)
Where(R, meta) ==
  LET raw == Ups(meta.dots - 1) \o meta.parts
  IN IF meta.dots = 2 /\ Len(raw) > 2 /\ raw[2] = R.dir THEN SubSeq(raw, 3, Len(raw)) ELSE raw
IsBuiltin(meta) == meta.dots = 0 /\ Len(meta.parts) = 1 /\ meta.parts[1] \in Builtin

Private(n) == SubSeq(n, 1, 1) = "_"
RECURSIVE Find(_, _, _)
Find(T, sid, n) ==              \* the entity a name denotes in a scope
  IF n \in DOMAIN T.tabs[sid].tab THEN T.tabs[sid].tab[n]
  ELSE IF T.tabs[sid].outer = 0 THEN [k |-> "none"]
  ELSE Find(T, T.tabs[sid].outer, n)
Exports(T, sid) ==
  {n \in DOMAIN T.tabs[sid].tab : ~Private(n) /\ n \notin T.tabs[sid].noexp}
Attr(T, m, n) ==                \* m.n for a module
  IF m.k = "bmod" THEN [k |-> "none"]
  ELSE IF n \in Exports(T, m.sid) THEN T.tabs[m.sid].tab[n] ELSE [k |-> "none"]

Err(T, what, W, st) ==
  IF T.err # "" THEN T
  ELSE [T EXCEPT !.err = what \o "|" \o W.file \o "|" \o ToString(st.ln)]
UbT(T, why) == IF T.ub # "" THEN T ELSE [T EXCEPT !.ub = why]
Dead(T) == T.err # "" \/ T.ub # ""

NewTab(T, outer) == [T EXCEPT !.tabs = Append(@, [tab |-> Nil, outer |-> outer, noexp |-> {}])]
Top(T) == Len(T.tabs)
Uniq(T) == [T EXCEPT !.n = @ + 1]
U(T, n) == n \o ToString(T.n)
\* W: where a statement is analysed: [sid, file, ret]
Reg(T, W, st, n, ent) ==
  IF Dead(T) THEN T
  ELSE IF n \in DOMAIN T.tabs[W.sid].tab THEN Err(T, "already defined", W, st)
  ELSE [T EXCEPT !.tabs[W.sid].tab = (n :> ent) @@ @]
NoExp(T, W, n) == [T EXCEPT !.tabs[W.sid].noexp = @ \union {n}]

Var(u) == [k |-> "v", n |-> u, l |-> FALSE, ty |-> "int"]
IntC(v) == [k |-> "int", v |-> v, z |-> 0]

RECURSIVE Look(_, _, _, _, _), ElE(_, _, _, _, _), ElArgs(_, _, _, _, _, _), El(_, _, _, _),
          ElSeq(_, _, _, _), Load(_, _, _, _, _), FromAll(_, _, _, _, _), FromSome(_, _, _, _, _),
          BindIn(_, _, _, _, _, _)

\* the entity a dotted path denotes: [t, e]
Look(T, W, st, p, i) ==
  IF i = 1
  THEN LET e == Find(T, W.sid, p[1]) IN
       IF e.k = "none" THEN [t |-> Err(T, "undefined", W, st), e |-> e]
       ELSE IF Len(p) = 1 THEN [t |-> T, e |-> e] ELSE Look(T, W, st, <<e>> \o SubSeq(p, 2, Len(p)), 2)
  ELSE LET m == p[1] IN         \* p[1] is an entity by now
       IF m.k \notin {"mod", "bmod"} THEN [t |-> Err(T, "no attribute", W, st), e |-> [k |-> "none"]]
       ELSE LET e == Attr(T, m, p[2]) IN
            IF e.k = "none" THEN [t |-> Err(T, "no attribute", W, st), e |-> e]
            ELSE IF Len(p) = 2 THEN [t |-> T, e |-> e]
            ELSE Look(T, W, st, <<e>> \o SubSeq(p, 3, Len(p)), 2)

\* an integer expression: [t, c] with c code of AcaciaSem
ElE(R, W, st, e, T) ==
  IF Dead(T) THEN [t |-> T, c |-> IntC(0)]
  ELSE CASE e.k = "int" -> [t |-> T, c |-> IntC(e.v)]
    [] e.k = "ref" ->
         LET r == Look(T, W, st, e.p, 1) IN
         IF Dead(r.t) THEN [t |-> r.t, c |-> IntC(0)]
         ELSE IF r.e.k = "var" THEN [t |-> r.t, c |-> Var(r.e.u)]
         ELSE IF r.e.k = "const" THEN [t |-> r.t, c |-> IntC(r.e.v)]
         ELSE [t |-> Err(r.t, "not an integer", W, st), c |-> IntC(0)]
    [] e.k = "bin" ->
         LET a == ElE(R, W, st, e.a, T) b == ElE(R, W, st, e.b, a.t)
         IN [t |-> b.t, c |-> [k |-> "bin", op |-> e.op, a |-> a.c, b |-> b.c]]
    [] e.k = "call" ->
         LET r == Look(T, W, st, e.p, 1) IN
         IF Dead(r.t) THEN [t |-> r.t, c |-> IntC(0)]
         ELSE IF r.e.k # "fn" THEN
            [t |-> IF r.e.k = "inl" THEN UbT(r.t, "inline function in an expression") ELSE Err(r.t, "not callable", W, st), c |-> IntC(0)]
         ELSE IF Len(e.args) # Len(r.e.ps) THEN [t |-> Err(r.t, "arguments", W, st), c |-> IntC(0)]
         ELSE IF ~r.e.int THEN [t |-> Err(r.t, "not an integer", W, st), c |-> IntC(0)]
         ELSE IF r.e.u \in r.t.busy THEN [t |-> UbT(r.t, "recursion"), c |-> IntC(0)]
         ELSE LET a == ElArgs(R, W, st, e.args, 1, r.t)
              IN [t |-> a.t, c |-> [k |-> "call", f |-> r.e.u,
                                    args |-> [i \in 1..Len(a.c) |-> [p |-> r.e.ps[i], e |-> a.c[i]]]]]
ElArgs(R, W, st, es, i, T) ==
  IF i > Len(es) \/ Dead(T) THEN [t |-> T, c |-> <<>>]
  ELSE LET r == ElE(R, W, st, es[i], T) q == ElArgs(R, W, st, es, i + 1, r.t)
       IN [t |-> q.t, c |-> <<r.c>> \o q.c]

ElSeq(R, W, ss, T) ==
  IF ss = <<>> \/ Dead(T) THEN [t |-> T, c |-> <<>>]
  ELSE LET r == El(R, W, Head(ss), T) q == ElSeq(R, W, Tail(ss), r.t)
       IN [t |-> q.t, c |-> r.c \o q.c]

\* the module an import statement names: [t, e, c]
Load(R, W, st, meta, T) ==
  LET key == PathKey(Where(R, meta)) IN
  IF IsBuiltin(meta) THEN [t |-> T, e |-> [k |-> "bmod"], c |-> <<>>]
  ELSE IF ~HasFile(R, key) THEN [t |-> Err(T, "no module", W, st), e |-> [k |-> "bmod"], c |-> <<>>]
  ELSE IF key \in DOMAIN T.cache
  THEN [t |-> T, e |-> [k |-> "mod", sid |-> T.cache[key]], c |-> << [k |-> "import", m |-> key] >>]
  ELSE IF key \in T.load THEN [t |-> Err(T, "circular", W, st), e |-> [k |-> "bmod"], c |-> <<>>]
  ELSE LET T1 == [NewTab(T, 0) EXCEPT !.load = @ \union {key}]
           sid == Top(T1)
           f == R.files[FileOf(R, key)]
           r == ElSeq(R, [sid |-> sid, file |-> key, ret |-> "", busy |-> {}], f.body, T1)
           T2 == [r.t EXCEPT !.load = @ \ {key}, !.cache = (key :> sid) @@ @,
                             !.mods = (key :> r.c) @@ @]
       IN [t |-> T2, e |-> [k |-> "mod", sid |-> sid], c |-> << [k |-> "import", m |-> key] >>]

FromSome(W, st, m, i, T) ==
  IF i > Len(st.names) \/ Dead(T) THEN T
  ELSE LET e == Attr(T, m, st.names[i].n) IN
       IF e.k = "none" THEN Err(T, "no attribute", W, st)
       ELSE FromSome(W, st, m, i + 1, NoExp(Reg(T, W, st, st.names[i].as, e), W, st.names[i].as))
FromAll(W, st, m, ns, T) ==
  IF ns = {} \/ Dead(T) THEN T
  ELSE LET n == CHOOSE n \in ns : TRUE
       IN FromAll(W, st, m, ns \ {n}, NoExp(Reg(T, W, st, n, Attr(T, m, n)), W, n))

\* parameters of an expansion: fresh variables
BindIn(W, st, ps, vals, i, T) ==
  IF i > Len(ps) \/ Dead(T) THEN [t |-> T, c |-> <<>>]
  ELSE LET T1 == Uniq(T) u == U(T1, ps[i])
           q == BindIn(W, st, ps, vals, i + 1, Reg(T1, W, st, ps[i], [k |-> "var", u |-> u]))
       IN [t |-> q.t, c |-> << [k |-> "set", x |-> Var(u), e |-> vals[i]] >> \o q.c]

RECURSIVE RegParams(_, _, _, _, _)
RegParams(W, st, ps, us, T) ==
  IF ps = <<>> \/ Dead(T) THEN T
  ELSE RegParams(W, st, Tail(ps), Tail(us), Reg(T, W, st, Head(ps), [k |-> "var", u |-> Head(us)]))

El(R, W, st, T) ==
  CASE st.k = "pass" -> [t |-> T, c |-> <<>>]
    [] st.k = "say" -> [t |-> T, c |-> << [k |-> "say", ps |-> << [k |-> "t", t |-> st.t] >>] >>]
    [] st.k = "obs" ->
         LET r == ElE(R, W, st, st.e, T)
         IN [t |-> r.t, c |-> << [k |-> "set", x |-> [k |-> "ext", h |-> "p" \o ToString(st.i), o |-> "obs"],
                                 e |-> r.c] >>]
    [] st.k = "var" ->
         LET r == ElE(R, W, st, st.e, T)
             T1 == Uniq(r.t) u == U(T1, st.n)
         IN [t |-> Reg(T1, W, st, st.n, [k |-> "var", u |-> u]),
             c |-> << [k |-> "set", x |-> Var(u), e |-> r.c] >>]
    [] st.k = "const" ->        \* const n = e: e may only use constants
         LET r == ElE(R, W, st, st.e, T)
             v == CASE r.c.k = "int" -> [ok |-> TRUE, v |-> r.c.v] [] OTHER -> [ok |-> FALSE, v |-> 0]
         IN [t |-> IF Dead(r.t) THEN r.t ELSE IF ~v.ok THEN Err(r.t, "not constant", W, st)
                   ELSE Reg(r.t, W, st, st.n, [k |-> "const", v |-> v.v]), c |-> <<>>]
    [] st.k = "asg" ->
         LET l == Look(T, W, st, st.p, 1)
             r == ElE(R, W, st, st.e, l.t)
         IN IF Dead(r.t) THEN [t |-> r.t, c |-> <<>>]
            ELSE IF l.e.k # "var" THEN [t |-> Err(r.t, "not assignable", W, st), c |-> <<>>]
            ELSE [t |-> r.t, c |-> << IF st.op = "" THEN [k |-> "set", x |-> Var(l.e.u), e |-> r.c]
                                      ELSE [k |-> "aug", x |-> Var(l.e.u), op |-> st.op, e |-> r.c] >>]
    [] st.k = "if" ->           \* branches share the scope, both are analysed
         LET a == ElE(R, W, st, st.a, T)
             x == ElSeq(R, W, st.t, a.t)
             y == ElSeq(R, W, st.e, x.t)
         IN [t |-> y.t, c |-> << [k |-> "if", t |-> x.c, e |-> y.c,
               c |-> [k |-> "cmp", a |-> a.c, r |-> << [op |-> st.op, e |-> IntC(st.v)] >>]] >>]
    [] st.k = "def" ->
         LET T1 == Uniq(T) u == U(T1, st.n)
             us == [i \in 1..Len(st.ps) |-> u \o "p" \o ToString(i)]
             T2 == NewTab(Reg(T1, W, st, st.n, [k |-> "fn", u |-> u, ps |-> us, int |-> st.int]), W.sid)
             W2 == [sid |-> Top(T2), file |-> W.file, ret |-> IF st.int THEN "int" ELSE "none"]
             T3 == [RegParams(W2, st, st.ps, us, T2) EXCEPT !.busy = @ \union {u}]
             r == ElSeq(R, W2, st.b, T3)
             f == [name |-> u, params |-> us, body |-> r.c, ret |-> IF st.int THEN "int" ELSE "none",
                   kind |-> "def", rp |-> "val", ports |-> [p \in Rng(us) |-> "val"], dflt |-> Nil]
         IN [t |-> [r.t EXCEPT !.busy = @ \ {u}, !.fns = (u :> f) @@ @], c |-> <<>>]
    [] st.k = "inline" ->
         [t |-> Reg(T, W, st, st.n, [k |-> "inl", ps |-> st.ps, b |-> st.b, sid |-> W.sid, file |-> W.file]), c |-> <<>>]
    [] st.k = "result" ->
         LET r == ElE(R, W, st, st.e, T)
         IN [t |-> IF W.ret = "int" THEN r.t ELSE UbT(r.t, "result outside"), c |-> << [k |-> "result", e |-> r.c] >>]
    [] st.k = "call" ->
         LET l == Look(T, W, st, st.p, 1)
             a == ElArgs(R, W, st, st.args, 1, l.t)
         IN IF Dead(a.t) THEN [t |-> a.t, c |-> <<>>]
            ELSE IF l.e.k \notin {"fn", "inl"} THEN [t |-> Err(a.t, "not callable", W, st), c |-> <<>>]
            ELSE IF Len(st.args) # Len(l.e.ps) THEN [t |-> Err(a.t, "arguments", W, st), c |-> <<>>]
            ELSE IF l.e.k = "fn"
            THEN IF l.e.u \in a.t.busy THEN [t |-> UbT(a.t, "recursion"), c |-> <<>>]
                 ELSE [t |-> a.t, c |-> << [k |-> "expr", e |-> [k |-> "call", f |-> l.e.u,
                                args |-> [i \in 1..Len(a.c) |-> [p |-> l.e.ps[i], e |-> a.c[i]]]]] >>]
            ELSE IF a.t.depth > 6 THEN [t |-> UbT(a.t, "recursion"), c |-> <<>>]
            ELSE LET T1 == [NewTab(a.t, l.e.sid) EXCEPT !.depth = @ + 1]
                     W1 == [sid |-> Top(T1), file |-> l.e.file, ret |-> "none"]
                     b == BindIn(W1, st, l.e.ps, a.c, 1, T1)
                     r == ElSeq(R, W1, l.e.b, b.t)
                 IN [t |-> [r.t EXCEPT !.depth = a.t.depth], c |-> b.c \o r.c]
    [] st.k = "iface" ->
         LET T1 == NewTab(T, W.sid)
             T2 == IF st.path \in T.paths THEN Err(T1, "path used", W, st) ELSE [T1 EXCEPT !.paths = @ \union {st.path}]
             r == ElSeq(R, [sid |-> Top(T1), file |-> W.file, ret |-> ""], st.b, T2)
         IN [t |-> [r.t EXCEPT !.ifs = Append(@, [path |-> st.path, body |-> r.c])], c |-> <<>>]
    [] st.k = "import" ->
         LET r == Load(R, W, st, st.m, T)
         IN IF Dead(r.t) THEN [t |-> r.t, c |-> <<>>]
            ELSE [t |-> NoExp(Reg(r.t, W, st, st.as, r.e), W, st.as), c |-> r.c]
    [] st.k = "from" ->
         LET r == Load(R, W, st, st.m, T)
         IN IF Dead(r.t) THEN [t |-> r.t, c |-> <<>>]
            ELSE [t |-> FromSome(W, st, r.e, 1, r.t), c |-> r.c]
    [] st.k = "star" ->
         LET r == Load(R, W, st, st.m, T)
         IN IF Dead(r.t) \/ r.e.k = "bmod" THEN [t |-> r.t, c |-> r.c]
            ELSE [t |-> FromAll(W, st, r.e, Exports(r.t, r.e.sid), r.t), c |-> r.c]

T0 == [tabs |-> <<>>, cache |-> Nil, load |-> {}, mods |-> Nil, fns |-> Nil, ifs |-> <<>>, paths |-> {}, n |-> 0,
       depth |-> 0, busy |-> {}, err |-> "", ub |-> ""]
\* file 1 is the main file
Elaborate(R) ==
  LET key == PathKey(R.files[1].path)
      T1 == [NewTab(T0, 0) EXCEPT !.load = {key}]
      r == ElSeq(R, [sid |-> 1, file |-> key, ret |-> ""], R.files[1].body, T1)
  IN [err |-> r.t.err, ub |-> r.t.ub, main |-> r.c, mods |-> r.t.mods, fns |-> r.t.fns, ifs |-> r.t.ifs]
=============================================================================
