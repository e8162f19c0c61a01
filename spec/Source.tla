------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* From characters to meaning: layout, tokens, grammar and static rules of *)
(* the core of the language (integers, booleans, text, assignments,        *)
(* branches, loops, commands, constants, references, functions), all the   *)
(* way from source text to a program of AcaciaSem.                          *)
(*                                                                         *)
(* Layout.  A logical line is one or more physical lines.  Blanks, line    *)
(* comments (# ...), long comments (#* ... *#), a backslash at the end of  *)
(* a line and line ends inside brackets separate tokens and are nothing    *)
(* else.  Lines with nothing else are nothing.  The indentation of a       *)
(* logical line is the number of blanks its first physical line starts     *)
(* with.  A `/` as first token starts a command up to the end of the line, *)
(* or up to the closing */ if it is followed by *.                          *)
(*                                                                         *)
(* Characters are codes (10 = line end); X is the text of a program.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Int32

LOCAL Nul == [x \in {} |-> 0]
LOCAL Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Chr(c) == IF c >= 32 /\ c <= 126 THEN SubSeq(Ascii, c - 31, c - 31)
          ELSE "{u" \o ToString(c) \o "}"
ChAt(X, i) == IF i >= 1 /\ i <= Len(X) THEN X[i] ELSE 0
LOCAL NL == 10
IsDigit(c) == c >= 48 /\ c <= 57
IsIdStart(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
IsIdChar(c) == IsIdStart(c) \/ IsDigit(c)
RECURSIVE StrOf(_, _, _)
StrOf(X, i, j) == IF i > j THEN "" ELSE Chr(X[i]) \o StrOf(X, i + 1, j)
RECURSIVE EndWhile(_, _, _)     \* first position at or after i not in class P
EndWhile(X, i, P) ==
  IF CASE P = "id" -> IsIdChar(ChAt(X, i)) [] P = "dig" -> IsDigit(ChAt(X, i))
       [] P = "sp" -> ChAt(X, i) = 32 [] P = "line" -> ChAt(X, i) \notin {0, NL}
  THEN EndWhile(X, i + 1, P) ELSE i

Keywords == {"True", "def", "interface", "inline", "entity", "extends", "self", "if", "elif",
  "else", "while", "pass", "and", "or", "not", "result", "import", "as", "from", "None", "for",
  "in", "struct", "virtual", "override", "const", "static", "new", "False"}
Two == {"==", "!=", ">=", "<=", "+=", "-=", "*=", "/=", "%=", "->", ":="}
One == {"(", ")", "[", "]", "{", "}", ":", ",", "+", "-", "*", "/", "%", ">", "<", "=", ".", "@", "&"}

Font(w) ==
  CASE w = "reset" -> "r" [] w = "bold" -> "l" [] w = "italic" -> "o" [] w = "obfuscated" -> "k"
    [] w = "black" -> "0" [] w = "dark_blue" -> "1" [] w = "dark_green" -> "2"
    [] w = "dark_aqua" -> "3" [] w = "dark_red" -> "4" [] w = "dark_purple" -> "5"
    [] w = "gold" -> "6" [] w = "gray" -> "7" [] w = "dark_gray" -> "8" [] w = "blue" -> "9"
    [] w = "green" -> "a" [] w = "aqua" -> "b" [] w = "red" -> "c" [] w = "light_purple" -> "d"
    [] w = "yellow" -> "e" [] w = "white" -> "f" [] w = "minecoin_gold" -> "g"
    [] w = "material_quartz" -> "h" [] w = "material_iron" -> "i" [] w = "material_netherite" -> "j"
    [] w = "material_redstone" -> "m" [] w = "material_copper" -> "n" [] w = "material_gold" -> "p"
    [] w = "material_emerald" -> "q" [] w = "material_diamond" -> "s" [] w = "material_lapis" -> "t"
    [] w = "material_amethyst" -> "u" [] OTHER -> ""

Hex(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55
          ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1
RECURSIVE HexVal(_, _, _, _)    \* value of n digits from i; -1 = not hexadecimal
HexVal(X, i, n, acc) ==
  IF n = 0 THEN acc
  ELSE IF Hex(ChAt(X, i)) < 0 THEN -1
  ELSE HexVal(X, i + 1, n - 1, IF acc > 16777215 THEN 16777216 ELSE acc * 16 + Hex(ChAt(X, i)))

---------------------------------------------------------------------------
(* Lexer.  L is a record: i position, ln line, toks, ind indentations of    *)
(* the open blocks, br open brackets [c, ln], sp indentation of the         *)
(* current logical line, has: does it have a token, end, ub.                *)
(* Brackets "s", "c", "m" are the ${ of strings, commands, long commands.  *)
Tk(t, s, n, ln) == [t |-> t, s |-> s, n |-> n, ln |-> ln]
LErr(L, ln) == [L EXCEPT !.toks = Append(@, Tk("ERR", "", 0, ln)), !.end = TRUE]
LUb(L, why) == [L EXCEPT !.ub = why, !.end = TRUE]

LOCAL IdxOf(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
Indent(L) ==                    \* the first token of a logical line is due
  LET top == L.ind[Len(L.ind)]
      has == \E i \in 1..Len(L.ind) : L.ind[i] = L.sp
      k == IdxOf(L.ind, L.sp)
  IN IF L.sp > top THEN [L EXCEPT !.ind = Append(@, L.sp), !.toks = Append(@, Tk("INDENT", "", 0, L.ln))]
     ELSE IF ~has THEN LErr(L, L.ln)
     ELSE [L EXCEPT !.ind = SubSeq(@, 1, k),
                    !.toks = @ \o Rep(Tk("DEDENT", "", 0, L.ln), Len(L.ind) - k)]
Emit(L, t, s, n) ==
  LET L1 == IF L.has THEN L ELSE Indent(L)
  IN IF L1.end THEN L1 ELSE [L1 EXCEPT !.has = TRUE, !.toks = Append(@, Tk(t, s, n, L.ln))]
NewLine(X, L, i) ==             \* i: first position of the next physical line
  LET j == EndWhile(X, i, "sp")
  IN [L EXCEPT !.i = j, !.ln = @ + 1, !.sp = j - i, !.has = FALSE]

RECURSIVE Text(_, _, _, _, _, _)
\* text of a string, command or long command from i; gives
\* [i, ln, s (text so far), how: "end", "fexpr" or "err", eln]
Text(X, i, ln, m, s, ln0) ==
  LET c == ChAt(X, i) d == ChAt(X, i + 1)
      stop(how, j, eln) == [i |-> j, ln |-> ln, s |-> s, how |-> how, eln |-> eln]
      go(j, t) == Text(X, j, ln, m, s \o t, ln0)
  IN IF m = "s" /\ c = 34 THEN stop("end", i + 1, 0)
     ELSE IF m = "m" /\ c = 42 /\ d = 47 THEN stop("end", i + 2, 0)
     ELSE IF c \in {0, NL}
     THEN CASE m = "s" -> stop("err", i, ln0)
            [] m = "c" -> stop("end", i, 0)
            [] m = "m" -> IF c = 0 THEN stop("err", i, ln0)
                          ELSE Text(X, i + 1, ln + 1, m, s \o " ", ln0)
     ELSE IF c = 36 /\ d = 123 THEN stop("fexpr", i + 2, 0)
     ELSE IF c # 92 THEN IF c < 32 THEN stop("ub", i, 0) ELSE go(i + 1, Chr(c))
     ELSE IF m = "s" /\ d = 34 THEN go(i + 2, "\"")
     ELSE IF d = 36 THEN go(i + 2, "$")
     ELSE IF d = 92 THEN go(i + 2, "\\")
     ELSE IF d = 35
     THEN IF ChAt(X, i + 2) # 40 THEN go(i + 2, Chr(167))
          ELSE LET j == CHOOSE k \in (i + 3)..(Len(X) + 1) :
                          ChAt(X, k) \in {0, NL, 41} /\ \A q \in (i + 3)..(k - 1) : X[q] \notin {NL, 41}
                   cuts == {k \in (i + 2)..j : k \in {i + 2, j} \/ X[k] = 44}
                   nxt(k) == CHOOSE q \in cuts : q > k /\ \A r \in cuts : r > k => r >= q
                   ends(a, b) == LET n == {q \in a..b : X[q] # 32} IN
                      IF n = {} THEN "" ELSE StrOf(X, CHOOSE q \in n : \A r \in n : q <= r,
                                                      CHOOSE q \in n : \A r \in n : q >= r)
                   RECURSIVE All(_)
                   All(k) == IF k = j THEN ""
                             ELSE LET f == Font(ends(k + 1, nxt(k) - 1)) g == All(nxt(k))
                                  IN IF f = "" \/ g = "!" THEN "!" ELSE Chr(167) \o f \o g
               IN IF ChAt(X, j) # 41 \/ All(i + 2) = "!" THEN stop("err", i, ln) ELSE go(j + 1, All(i + 2))
     ELSE IF d \in {120, 117, 85}
     THEN LET n == CASE d = 120 -> 2 [] d = 117 -> 4 [] d = 85 -> 8
              v == HexVal(X, i + 2, n, 0)
          IN IF v < 0 \/ v >= 1114112 THEN stop("err", i, ln)
             ELSE IF v < 32 \/ (v >= 127 /\ v < 160) \/ (v >= 55296 /\ v < 57344) \/ v >= 65536
             THEN stop("ub", i, 0)
             ELSE go(i + 2 + n, Chr(v))
     ELSE go(i + 1, "\\")

OpenText(L, m) == [L EXCEPT !.txt = Append(@, [m |-> m, ln |-> L.ln])]
RunText(X, L) ==                \* go on with the innermost text
  LET m == L.txt[Len(L.txt)].m
      r == Text(X, L.i, L.ln, m, "", L.txt[Len(L.txt)].ln)
      L1 == [L EXCEPT !.i = r.i, !.ln = r.ln,
                      !.toks = IF r.s = "" THEN @ ELSE Append(@, Tk("TEXT", r.s, 0, L.ln))]
  IN CASE r.how = "err" -> LErr(L1, r.eln)
       [] r.how = "ub" -> LUb(L1, "character in text")
       [] r.how = "fexpr" -> [L1 EXCEPT !.toks = Append(@, Tk("${", "", 0, r.ln)),
                                        !.br = Append(@, [c |-> m, ln |-> r.ln])]
       [] r.how = "end" -> [L1 EXCEPT !.toks = Append(@, Tk(IF m = "s" THEN "STRE" ELSE "CMDE", "", 0, r.ln)),
                                      !.txt = SubSeq(@, 1, Len(@) - 1)]

RECURSIVE LongComment(_, _, _)  \* position after *#, or 0; [i, nl: lines passed]
LongComment(X, i, nl) ==
  IF ChAt(X, i) = 0 THEN [i |-> 0, nl |-> nl]
  ELSE IF X[i] = 42 /\ ChAt(X, i + 1) = 35 THEN [i |-> i + 2, nl |-> nl]
  ELSE LongComment(X, i + 1, IF X[i] = NL THEN nl + 1 ELSE nl)

Closing == [x \in {")", "]", "}"} |-> CASE x = ")" -> {"("} [] x = "]" -> {"["} [] OTHER -> {"{", "s", "c", "m"}]
OneLine(L) == \E k \in 1..Len(L.br) : L.br[k].c \in {"s", "c"}

RECURSIVE IntVal(_, _, _, _)    \* digits i..j in a base; -1 = too big
IntVal(X, i, j, b) ==
  IF j < i THEN 0
  ELSE LET h == IntVal(X, i, j - 1, b)
       IN IF h < 0 \/ h > MaxInt \div b \/ (h = MaxInt \div b /\ Hex(X[j]) > MaxInt % b) THEN -1
          ELSE h * b + Hex(X[j])
RECURSIVE EndDigits(_, _, _)
EndDigits(X, i, b) == IF Hex(ChAt(X, i)) >= 0 /\ Hex(ChAt(X, i)) < b THEN EndDigits(X, i + 1, b) ELSE i

Step1(X, L) ==                  \* one token, or one piece of what separates tokens
  LET i == L.i c == ChAt(X, i) d == ChAt(X, i + 1)
      two == IF d = 0 \/ d = NL \/ c < 32 \/ c > 126 \/ d < 32 \/ d > 126 THEN "" ELSE Chr(c) \o Chr(d)
      go(M, j) == [M EXCEPT !.i = j]
  IN
  CASE c = 32 -> go(L, EndWhile(X, i, "sp"))
    [] c = 0 ->
         IF L.br # <<>> THEN LErr(L, IF \E k \in 1..Len(L.br) : L.br[k].c \in {"s", "c", "m"} THEN L.ln
                                     ELSE L.br[Len(L.br)].ln)
         ELSE LET L1 == IF L.has THEN [L EXCEPT !.toks = Append(@, Tk("NEWLINE", "", 0, L.ln))] ELSE L
              IN [L1 EXCEPT !.toks = @ \o Rep(Tk("DEDENT", "", 0, L.ln + 1), Len(L.ind) - 1)
                                       \o <<Tk("END", "", 0, L.ln + 1)>>, !.end = TRUE]
    [] c = NL ->
         IF OneLine(L) THEN LErr(L, L.ln)
         ELSE IF L.br # <<>> THEN [L EXCEPT !.i = i + 1, !.ln = @ + 1]
         ELSE NewLine(X, IF L.has THEN [L EXCEPT !.toks = Append(@, Tk("NEWLINE", "", 0, L.ln))] ELSE L, i + 1)
    [] c = 92 ->
         IF OneLine(L) \/ d # NL THEN LErr(L, L.ln) ELSE [L EXCEPT !.i = i + 2, !.ln = @ + 1]
    [] c = 35 /\ d = 42 ->
         LET r == LongComment(X, i + 2, 0)
         IN IF OneLine(L) /\ (r.nl > 0 \/ r.i = 0) THEN LErr(L, L.ln)
            ELSE IF r.i = 0 THEN LErr(L, L.ln)
            ELSE [L EXCEPT !.i = r.i, !.ln = @ + r.nl]
    [] c = 35 /\ d # 42 -> go(L, EndWhile(X, i, "line"))
    [] IsDigit(c) ->
         LET b == IF c # 48 THEN 10
                  ELSE CASE d \in {98, 66} -> 2 [] d \in {111, 79} -> 8 [] d \in {120, 88} -> 16 [] OTHER -> 10
             s == IF b = 10 THEN i ELSE i + 2
             e == EndDigits(X, s, b)
         IN IF e = s THEN LErr(L, L.ln)
            ELSE IF b = 10 /\ ChAt(X, e) = 46 /\ IsDigit(ChAt(X, e + 1)) THEN LUb(L, "float")
            ELSE go(Emit(L, "int", "", IntVal(X, s, e - 1, b)), e)
    [] IsIdStart(c) ->
         LET e == EndWhile(X, i, "id") s == StrOf(X, i, e - 1)
         IN IF s = "interface" THEN LUb(L, "interface")
            ELSE go(IF s \in Keywords THEN Emit(L, s, "", 0) ELSE Emit(L, "id", s, 0), e)
    [] c = 47 /\ ~L.has ->
         LET L1 == Emit(L, "CMDB", "", 0) IN
         IF L1.end THEN L1
         ELSE IF d = 42 THEN OpenText(go(L1, i + 2), "m") ELSE OpenText(go(L1, i + 1), "c")
    [] c = 34 -> LET L1 == Emit(L, "STRB", "", 0) IN IF L1.end THEN L1 ELSE OpenText(go(L1, i + 1), "s")
    [] OTHER ->
         IF two \in Two THEN go(Emit(L, two, "", 0), i + 2)
         ELSE IF c > 126 THEN LUb(L, "letter")
         ELSE IF c < 32 \/ Chr(c) \notin One THEN LErr(L, L.ln)
         ELSE IF Chr(c) \in {"(", "[", "{"}
         THEN LET L1 == Emit(L, Chr(c), "", 0) IN
              IF L1.end THEN L1 ELSE [go(L1, i + 1) EXCEPT !.br = Append(@, [c |-> Chr(c), ln |-> L.ln])]
         ELSE IF Chr(c) \in DOMAIN Closing
         THEN IF L.br = <<>> \/ L.br[Len(L.br)].c \notin Closing[Chr(c)] THEN LErr(L, L.ln)
              ELSE [go(Emit(L, Chr(c), "", 0), i + 1) EXCEPT !.br = SubSeq(@, 1, Len(@) - 1)]
         ELSE go(Emit(L, Chr(c), "", 0), i + 1)

\* text goes on unless an expression is open inside it
InText(L) ==
  /\ L.txt # <<>>
  /\ Len(SelectSeq(L.br, LAMBDA b : b.c \in {"s", "c", "m"})) < Len(L.txt)
RECURSIVE LexN(_, _, _)
LexN(X, L, n) ==                \* at most n steps (keeps the recursion shallow)
  IF L.end \/ n = 0 THEN L
  ELSE LexN(X, IF InText(L) THEN RunText(X, L) ELSE Step1(X, L), n - 1)
RECURSIVE LexAll(_, _)
LexAll(X, L) == IF L.end THEN L ELSE LexAll(X, LexN(X, L, 60))
\* \r\n and \r end lines as \n does
UniLines(X) ==
  IF \A i \in 1..Len(X) : X[i] # 13 THEN X
  ELSE LET keep == SelectSeq([i \in 1..Len(X) |-> i], LAMBDA i : ~(X[i] = NL /\ i > 1 /\ X[i - 1] = 13))
       IN [j \in 1..Len(keep) |-> IF X[keep[j]] = 13 THEN NL ELSE X[keep[j]]]
LexNorm(X) == LexAll(X, NewLine(X, [i |-> 1, ln |-> 0, toks |-> <<>>, ind |-> <<0>>, br |-> <<>>, txt |-> <<>>,
                                sp |-> 0, has |-> FALSE, end |-> FALSE, ub |-> ""], 1))

Lex(X) == LexNorm(UniLines(X))

---------------------------------------------------------------------------
(* Grammar.  Each rule takes the tokens T and a position p and gives        *)
(* [ok, p, e, ub]: success and the position after it, or failure at p.      *)
Ok(p, e) == [ok |-> TRUE, p |-> p, e |-> e, ub |-> ""]
No(p) == [ok |-> FALSE, p |-> p, e |-> 0, ub |-> ""]
Unk(p, why) == [ok |-> FALSE, p |-> p, e |-> 0, ub |-> why]
Tt(T, p) == T[p].t

RECURSIVE PExpr(_, _), PLevel(_, _, _), PLoop(_, _, _, _), PPost(_, _, _), PAtom(_, _), PStr(_, _, _),
          PArgs(_, _, _, _), PItems(_, _, _, _), PParts(_, _, _), PMap(_, _, _), PMapRest(_, _)

Ops(l) == CASE l = 8 -> {"or"} [] l = 7 -> {"and"} [] l = 4 -> {"+", "-"} [] l = 3 -> {"*", "/", "%"}
            [] l = 5 -> {"==", "!=", ">", "<", ">=", "<="}
PExpr(T, p) == PLevel(T, p, 8)
PLevel(T, p, l) ==
  IF l \in {8, 7, 5, 4, 3}
  THEN LET a == PLevel(T, p, l - 1) IN IF ~a.ok THEN a ELSE PLoop(T, a.p, l, <<[op |-> "", e |-> a.e]>>)
  ELSE IF l = 6
  THEN IF Tt(T, p) = "not"
       THEN LET a == PLevel(T, p + 1, 6)
            IN IF a.ok THEN Ok(a.p, [k |-> "not", a |-> a.e, ln |-> T[p].ln]) ELSE a
       ELSE PLevel(T, p, 5)
  ELSE IF Tt(T, p) \in {"+", "-"}
       THEN LET a == PLevel(T, p + 1, 2)
            IN IF a.ok THEN Ok(a.p, [k |-> "sign", op |-> Tt(T, p), a |-> a.e, ln |-> T[p].ln]) ELSE a
       ELSE LET a == PAtom(T, p) IN IF a.ok THEN PPost(T, a.p, a.e) ELSE a
RECURSIVE LeftFold(_, _)
LeftFold(es, n) ==              \* left associative operators
  IF n = 1 THEN es[1].e
  ELSE [k |-> "bin", op |-> es[n].op, a |-> LeftFold(es, n - 1), b |-> es[n].e, ln |-> es[1].e.ln]
PLoop(T, p, l, es) ==
  IF Tt(T, p) \in Ops(l)
  THEN LET b == PLevel(T, p + 1, l - 1)
       IN IF b.ok THEN PLoop(T, b.p, l, Append(es, [op |-> Tt(T, p), e |-> b.e])) ELSE b
  ELSE Ok(p, IF Len(es) = 1 THEN es[1].e
             ELSE CASE l \in {3, 4} -> LeftFold(es, Len(es))
                    [] l = 5 -> [k |-> "cmp", es |-> es, ln |-> es[1].e.ln]
                    [] OTHER -> [k |-> "bool", op |-> IF l = 7 THEN "and" ELSE "or", es |-> es, ln |-> es[1].e.ln])
PPost(T, p, e) ==
  CASE Tt(T, p) = "." ->
         IF Tt(T, p + 1) = "new" THEN Ok(p, e)
         ELSE IF Tt(T, p + 1) # "id" THEN No(p + 1)
         ELSE PPost(T, p + 2, [k |-> "other", ln |-> e.ln])
    [] Tt(T, p) = "(" ->
         LET a == PArgs(T, p + 1, <<>>, FALSE)
         IN IF a.ok THEN PPost(T, a.p, [k |-> "call", f |-> e, args |-> a.e, ln |-> e.ln]) ELSE a
    [] Tt(T, p) = "[" ->
         LET a == PItems(T, p + 1, <<>>, "]")
         IN IF a.ok THEN PPost(T, a.p, [k |-> "other", ln |-> e.ln]) ELSE a
    [] OTHER -> Ok(p, e)
\* call arguments: positional ones before keywords, a comma may come last
PArgs(T, p, acc, kw) ==
  IF Tt(T, p) = ")" THEN Ok(p + 1, acc)
  ELSE LET iskw == T[p].t # "ERR" /\ Tt(T, p) # "END" /\ Tt(T, p + 1) = "="
           v == IF iskw THEN (IF Tt(T, p) = "id" /\ (\A i \in 1..Len(acc) : acc[i].kw # T[p].s)
                              THEN PExpr(T, p + 2) ELSE No(p))
                ELSE IF kw THEN No(p) ELSE PExpr(T, p)
           acc1 == Append(acc, [kw |-> IF iskw THEN T[p].s ELSE "", e |-> v.e])
       IN IF ~v.ok THEN v
          ELSE IF Tt(T, v.p) = "," THEN PArgs(T, v.p + 1, acc1, iskw)
          ELSE IF Tt(T, v.p) = ")" THEN Ok(v.p + 1, acc1) ELSE No(v.p)
PItems(T, p, acc, close) ==
  IF Tt(T, p) = close THEN Ok(p + 1, acc)
  ELSE LET v == PExpr(T, p) IN
       IF ~v.ok THEN v
       ELSE IF Tt(T, v.p) = "," THEN PItems(T, v.p + 1, Append(acc, v.e), close)
       ELSE IF Tt(T, v.p) = close THEN Ok(v.p + 1, Append(acc, v.e)) ELSE No(v.p)
PMapRest(T, p) ==               \* after a value of a map
  IF Tt(T, p) = "}" THEN Ok(p + 1, <<>>)
  ELSE IF Tt(T, p) # "," THEN No(p)
  ELSE IF Tt(T, p + 1) = "}" THEN Ok(p + 2, <<>>)
  ELSE LET k == PExpr(T, p + 1) IN
       IF ~k.ok THEN k ELSE IF Tt(T, k.p) # ":" THEN No(k.p)
       ELSE LET v == PExpr(T, k.p + 1) IN IF v.ok THEN PMapRest(T, v.p) ELSE v
PMap(T, p, ln) ==               \* after {
  IF Tt(T, p) = "}" THEN Ok(p + 1, [k |-> "other", ln |-> ln])
  ELSE IF Tt(T, p) = ":" THEN IF Tt(T, p + 1) = "}" THEN Ok(p + 2, [k |-> "other", ln |-> ln]) ELSE No(p + 1)
  ELSE LET a == PExpr(T, p) IN
       IF ~a.ok THEN a
       ELSE LET r == IF Tt(T, a.p) = ":"
                     THEN LET v == PExpr(T, a.p + 1) IN IF v.ok THEN PMapRest(T, v.p) ELSE v
                     ELSE IF Tt(T, a.p) = "," THEN PItems(T, a.p + 1, <<>>, "}")
                     ELSE IF Tt(T, a.p) = "}" THEN Ok(a.p + 1, <<>>) ELSE No(a.p)
            IN IF r.ok THEN Ok(r.p, [k |-> "other", ln |-> ln]) ELSE r
PAtom(T, p) ==
  LET ln == T[p].ln IN
  CASE Tt(T, p) = "int" -> Ok(p + 1, [k |-> "int", n |-> T[p].n, ln |-> ln])
    [] Tt(T, p) \in {"True", "False"} -> Ok(p + 1, [k |-> "lit", b |-> Tt(T, p) = "True", ln |-> ln])
    [] Tt(T, p) \in {"None", "self"} -> Ok(p + 1, [k |-> "other", ln |-> ln])
    [] Tt(T, p) = "id" -> Ok(p + 1, [k |-> "name", s |-> T[p].s, ln |-> ln])
    [] Tt(T, p) = "STRB" -> PStr(T, p, <<>>)
    [] Tt(T, p) = "(" ->
         LET a == PExpr(T, p + 1)
         IN IF ~a.ok THEN a ELSE IF Tt(T, a.p) = ")" THEN Ok(a.p + 1, a.e) ELSE No(a.p)
    [] Tt(T, p) = "{" -> PMap(T, p + 1, ln)
    [] OTHER -> No(p)
PParts(T, p, acc) ==            \* text with expressions, up to its end
  CASE Tt(T, p) = "TEXT" -> PParts(T, p + 1, Append(acc, [t |-> "x", s |-> T[p].s]))
    [] Tt(T, p) = "${" ->
         LET a == PExpr(T, p + 1)
         IN IF ~a.ok THEN a ELSE IF Tt(T, a.p) = "}" THEN PParts(T, a.p + 1, Append(acc, [t |-> "e", e |-> a.e]))
            ELSE No(a.p)
    [] Tt(T, p) \in {"STRE", "CMDE"} -> Ok(p + 1, acc)
    [] OTHER -> No(p)
PStr(T, p, acc) ==              \* adjacent strings are one string
  LET a == PParts(T, p + 1, acc) IN
  IF ~a.ok THEN a
  ELSE IF Tt(T, a.p) = "STRB" THEN PStr(T, a.p, a.e)
  ELSE Ok(a.p, [k |-> "str", ps |-> a.e, ln |-> T[p].ln])

---------------------------------------------------------------------------
(* Statements.  Every statement node has ln and hi, its first and last line *)
(* (for blocks: the lines of the head).                                    *)
RECURSIVE PStmt(_, _), PBlock(_, _), PStmts(_, _, _, _), PIf(_, _), PParams(_, _, _, _), PConsts(_, _, _, _)
AugOps == {"+=", "-=", "*=", "/=", "%="}
LOCAL Nd(T, p, q, k) == [k |-> k, ln |-> T[p].ln, hi |-> T[q].ln]
PBlock(T, p) ==                 \* from the colon
  IF Tt(T, p) # ":" THEN No(p)
  ELSE IF Tt(T, p + 1) # "NEWLINE" THEN No(p + 1)
  ELSE IF Tt(T, p + 2) # "INDENT" THEN No(p + 2)
  ELSE PStmts(T, p + 3, "DEDENT", <<>>)
PStmts(T, p, close, acc) ==
  IF Tt(T, p) = close THEN Ok(p + 1, acc)
  ELSE LET s == PStmt(T, p) IN IF s.ok THEN PStmts(T, s.p, close, Append(acc, s.e)) ELSE s
PIf(T, p) ==                    \* at `if` or `elif`
  LET c == PExpr(T, p + 1) IN
  IF ~c.ok THEN c
  ELSE LET b == PBlock(T, c.p) IN
       IF ~b.ok THEN b
       ELSE LET r == CASE Tt(T, b.p) = "elif" ->
                            LET x == PIf(T, b.p) IN IF x.ok THEN Ok(x.p, <<x.e>>) ELSE x
                       [] Tt(T, b.p) = "else" -> PBlock(T, b.p + 1)
                       [] OTHER -> Ok(b.p, <<>>)
            IN IF ~r.ok THEN r
               ELSE Ok(r.p, [k |-> "if", c |-> c.e, t |-> b.e, e |-> r.e, ln |-> T[p].ln, hi |-> T[c.p].ln])
\* parameters: name [: type] [= default]; defaults come last
PParams(T, p, acc, dflt) ==
  IF Tt(T, p) = ")" THEN Ok(p + 1, acc)
  ELSE IF Tt(T, p) # "id" THEN IF Tt(T, p) \in {"&", "const"} THEN No(p) ELSE No(p)
  ELSE LET ty == IF Tt(T, p + 1) = ":" THEN PExpr(T, p + 2) ELSE Ok(p + 1, [k |-> "none"])
       IN IF ~ty.ok THEN ty
          ELSE LET d == IF Tt(T, ty.p) = "=" THEN PExpr(T, ty.p + 1) ELSE Ok(ty.p, [k |-> "none"])
               IN IF ~d.ok THEN d
                  ELSE IF dflt /\ d.e.k = "none" THEN No(p)
                  ELSE IF d.e.k = "none" /\ ty.e.k = "none" THEN No(p)
                  ELSE IF \E i \in 1..Len(acc) : acc[i].n = T[p].s THEN No(p)
                  ELSE LET acc1 == Append(acc, [n |-> T[p].s, ty |-> ty.e, d |-> d.e])
                       IN IF Tt(T, d.p) = "," THEN PParams(T, d.p + 1, acc1, d.e.k # "none")
                          ELSE IF Tt(T, d.p) = ")" THEN Ok(d.p + 1, acc1) ELSE No(d.p)
\* constant_decl, separated by commas; close = ")" for the bracketed form
PConsts(T, p, acc, close) ==
  IF close = ")" /\ Tt(T, p) = ")" THEN Ok(p + 1, acc)
  ELSE IF Tt(T, p) # "id" THEN No(p)
  ELSE LET ty == IF Tt(T, p + 1) = ":" THEN PExpr(T, p + 2) ELSE Ok(p + 1, [k |-> "none"])
       IN IF ~ty.ok THEN ty
          ELSE IF Tt(T, ty.p) # "=" THEN No(ty.p)
          ELSE LET v == PExpr(T, ty.p + 1)
                   acc1 == Append(acc, [n |-> T[p].s, ty |-> ty.e, e |-> v.e])
               IN IF ~v.ok THEN v
                  ELSE IF Tt(T, v.p) = "," THEN PConsts(T, v.p + 1, acc1, close)
                  ELSE IF close = "" THEN Ok(v.p, acc1)
                  ELSE IF Tt(T, v.p) = ")" THEN Ok(v.p + 1, acc1) ELSE No(v.p)

LOCAL Line(T, r, e) ==          \* a simple statement ends with its line
  IF ~r.ok THEN r ELSE IF Tt(T, r.p) # "NEWLINE" THEN No(r.p)
  ELSE Ok(r.p + 1, [ln |-> 0, hi |-> T[r.p].ln] @@ e)

PStmt(T, p) ==
  LET ln == T[p].ln t == Tt(T, p) IN
  CASE t = "if" -> PIf(T, p)
    [] t = "while" ->
         LET c == PExpr(T, p + 1) IN
         IF ~c.ok THEN c
         ELSE LET b == PBlock(T, c.p)
              IN IF b.ok THEN Ok(b.p, [k |-> "while", c |-> c.e, b |-> b.e, ln |-> ln, hi |-> T[c.p].ln]) ELSE b
    [] t = "def" ->
         IF Tt(T, p + 1) # "id" THEN No(p + 1) ELSE IF Tt(T, p + 2) # "(" THEN No(p + 2)
         ELSE LET a == PParams(T, p + 3, <<>>, FALSE) IN
              IF ~a.ok THEN a
              ELSE LET r == IF Tt(T, a.p) = "->" THEN PExpr(T, a.p + 1) ELSE Ok(a.p, [k |-> "none"])
                   IN IF ~r.ok THEN r
                      ELSE LET b == PBlock(T, r.p)
                           IN IF b.ok THEN Ok(b.p, [k |-> "def", n |-> T[p + 1].s, ps |-> a.e, r |-> r.e, b |-> b.e,
                                                    ln |-> ln, hi |-> T[r.p].ln])
                              ELSE b
    [] t = "pass" -> Line(T, Ok(p + 1, 0), [k |-> "pass", ln |-> ln])
    [] t = "CMDB" ->
         LET a == PParts(T, p + 1, <<>>) IN Line(T, a, [k |-> "cmd", ps |-> a.e, ln |-> ln])
    [] t = "result" -> LET a == PExpr(T, p + 1) IN Line(T, a, [k |-> "result", e |-> a.e, ln |-> ln])
    [] t = "const" ->
         IF Tt(T, p + 1) = "def" THEN Unk(p, "const def")
         ELSE LET a == IF Tt(T, p + 1) = "(" THEN PConsts(T, p + 2, <<>>, ")") ELSE PConsts(T, p + 1, <<>>, "")
              IN Line(T, a, [k |-> "const", ds |-> a.e, ln |-> ln])
    [] t = "&" ->
         LET a == IF Tt(T, p + 1) # "id" THEN No(p + 1)
                  ELSE LET ty == IF Tt(T, p + 2) = ":" THEN PExpr(T, p + 3) ELSE Ok(p + 2, [k |-> "none"])
                       IN IF ~ty.ok THEN ty
                          ELSE IF Tt(T, ty.p) # "=" THEN No(ty.p)
                          ELSE LET v == PExpr(T, ty.p + 1)
                               IN IF v.ok THEN Ok(v.p, [n |-> T[p + 1].s, ty |-> ty.e, e |-> v.e]) ELSE v
         IN Line(T, a, [k |-> "ref", d |-> a.e, ln |-> ln])
    [] t \in {"inline", "entity", "for", "struct", "import", "from", "new", "interface"} -> Unk(p, t)
    [] OTHER ->
         LET x == PExpr(T, p) IN
         IF ~x.ok THEN x
         ELSE LET o == Tt(T, x.p) IN
              CASE o = "=" -> LET v == PExpr(T, x.p + 1) IN Line(T, v, [k |-> "set", x |-> x.e, e |-> v.e, ln |-> ln])
                [] o \in AugOps -> LET v == PExpr(T, x.p + 1)
                                   IN Line(T, v, [k |-> "aug", x |-> x.e, op |-> SubSeq(o, 1, 1), e |-> v.e, ln |-> ln])
                [] o = ":" ->
                     IF x.e.k # "name" THEN No(p)
                     ELSE LET ty == PExpr(T, x.p + 1) IN
                          IF ~ty.ok THEN ty
                          ELSE LET v == IF Tt(T, ty.p) = "=" THEN PExpr(T, ty.p + 1) ELSE Ok(ty.p, [k |-> "none"])
                               IN Line(T, v, [k |-> "var", n |-> x.e.s, ty |-> ty.e, e |-> v.e, ln |-> ln])
                [] o = ":=" ->
                     IF x.e.k # "name" THEN No(p)
                     ELSE LET v == PExpr(T, x.p + 1)
                          IN Line(T, v, [k |-> "var", n |-> x.e.s, ty |-> [k |-> "none"], e |-> v.e, ln |-> ln])
                [] o = "." -> Unk(p, "new")
                [] OTHER -> Line(T, x, [k |-> "expr", e |-> x.e, ln |-> ln])

---------------------------------------------------------------------------
(* Static rules.  U: sc scopes (innermost last), name -> entity; fns;       *)
(* cnt; cur = the function being analysed, "" outside; err = 0 or the       *)
(* statement that is wrong; ub.                                             *)
(* An expression gives r = [e, ty, c, v, lv, imp, err, ub]: meaning, type,   *)
(* c: "y" known at compile time (value v), "n" not, "m" not decided here;   *)
(* lv: can be assigned; imp: has effects.                                   *)
Xp(e, ty, c, v, lv) == [e |-> e, ty |-> ty, c |-> c, v |-> v, lv |-> lv, imp |-> FALSE, err |-> "", ub |-> ""]
XErr(w) == [e |-> 0, ty |-> "?", c |-> "n", v |-> 0, lv |-> FALSE, imp |-> FALSE, err |-> w, ub |-> ""]
XUb(w) == [e |-> 0, ty |-> "?", c |-> "n", v |-> 0, lv |-> FALSE, imp |-> FALSE, err |-> "", ub |-> w]
SInt(v) == [k |-> "int", v |-> v, z |-> 0]
SBool(b) == [k |-> "bool", v |-> b]

RECURSIVE Look(_, _, _)
Look(sc, i, n) == IF i = 0 THEN [k |-> "none"] ELSE IF n \in DOMAIN sc[i] THEN sc[i][n] ELSE Look(sc, i - 1, n)
Stop(r) == r.err # "" \/ r.ub # ""
RECURSIVE Cx(_, _), CxAll(_, _, _), CxText(_, _, _, _, _), CxCall(_, _), CxArgs(_, _, _, _, _, _)

Known(c1, c2) == IF c1 = "y" /\ c2 = "y" THEN "y" ELSE IF c1 = "n" /\ c2 = "n" THEN "n" ELSE "m"
Lit(ty, v) == IF ty = "int" THEN SInt(v) ELSE IF ty = "bool" THEN SBool(v) ELSE [k |-> "str", v |-> v]
ShowC(r) == IF r.ty = "bool" THEN (IF r.v THEN "true" ELSE "false") ELSE IF r.ty = "str" THEN r.v ELSE ToString(r.v)

CxArith(op, a, b) ==
  IF op \in {"/", "%"} /\ b.v = 0 THEN XErr("division by zero")
  ELSE IF op \in {"/", "%"} /\ a.v = MinInt /\ b.v = -1 THEN XErr("overflow")
  ELSE IF (op = "+" /\ AddOv(a.v, b.v)) \/ (op = "-" /\ SubOv(a.v, b.v)) \/ (op = "*" /\ MulOv(a.v, b.v))
  THEN XErr("overflow")
  ELSE LET v == CASE op = "+" -> Add32(a.v, b.v) [] op = "-" -> Sub32(a.v, b.v) [] op = "*" -> Mul32(a.v, b.v)
                  [] op = "/" -> Div32(a.v, b.v) [] op = "%" -> Mod32(a.v, b.v)
       IN Xp(SInt(v), "int", "y", v, FALSE)
Rel(op, a, b) == CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b [] op = ">" -> a > b
                   [] op = "<=" -> a <= b [] op = ">=" -> a >= b

CxAll(U, es, acc) ==            \* [rs, bad]: all operands, bad = the first that stops
  IF es = <<>> THEN [rs |-> acc, bad |-> Xp(0, "", "y", 0, FALSE)]
  ELSE LET r == Cx(U, Head(es).e) IN
       IF Stop(r) THEN [rs |-> acc, bad |-> r] ELSE CxAll(U, Tail(es), Append(acc, r))
CxText(U, ps, s, e, c) ==       \* text: only what is known at compile time fits in
  IF ps = <<>> THEN Xp([k |-> "str", v |-> s], "str", "y", s, FALSE)
  ELSE IF Head(ps).t = "x" THEN CxText(U, Tail(ps), s \o Head(ps).s, e, c)
  ELSE LET r == Cx(U, Head(ps).e) IN
       IF Stop(r) THEN r
       ELSE IF r.ty \notin {"int", "bool", "str"} \/ r.c = "m" THEN XUb("text of unknown value")
       ELSE IF r.c = "n" THEN XErr("run-time value in text")
       ELSE CxText(U, Tail(ps), s \o ShowC(r), e, c)
RECURSIVE AndAll(_, _), AnyImp(_)
AndAll(rs, i) == IF i > Len(rs) THEN <<>> ELSE <<rs[i].e>> \o AndAll(rs, i + 1)
AnyImp(rs) == \E i \in 1..Len(rs) : rs[i].imp

Cx(U, e) ==
  CASE e.k = "int" -> IF e.n < 0 THEN XErr("integer too big") ELSE Xp(SInt(e.n), "int", "y", e.n, FALSE)
    [] e.k = "lit" -> Xp(SBool(e.b), "bool", "y", e.b, FALSE)
    [] e.k = "other" -> XUb("expression")
    [] e.k = "str" -> CxText(U, e.ps, "", 0, 0)
    [] e.k = "name" ->
         LET x == Look(U.sc, Len(U.sc), e.s) IN
         CASE x.k = "none" -> IF e.s \in U.builtin THEN XUb("builtin " \o e.s) ELSE XErr("undefined " \o e.s)
           [] x.k = "var" -> Xp(x.e, x.ty, "n", 0, TRUE)
           [] x.k = "const" -> Xp(Lit(x.ty, x.v), x.ty, "y", x.v, FALSE)
           [] OTHER -> XUb("function as value")
    [] e.k = "sign" ->
         LET r == Cx(U, e.a) IN
         IF Stop(r) THEN r ELSE IF r.ty # "int" THEN XErr("sign of no integer")
         ELSE IF r.c = "y" /\ r.v = MinInt THEN IF e.op = "-" THEN XErr("overflow") ELSE r
         ELSE IF r.c = "y" THEN LET v == IF e.op = "-" THEN Neg32(r.v) ELSE r.v IN Xp(SInt(v), "int", "y", v, FALSE)
         ELSE [r EXCEPT !.e = IF e.op = "-" THEN [k |-> "neg", e |-> @] ELSE @,
                        !.lv = FALSE, !.c = IF e.op = "+" THEN "m" ELSE @]
    [] e.k = "not" ->
         LET r == Cx(U, e.a) IN
         IF Stop(r) THEN r ELSE IF r.ty # "bool" THEN XErr("not of no boolean")
         ELSE IF r.c = "y" THEN Xp(SBool(~r.v), "bool", "y", ~r.v, FALSE)
         ELSE [r EXCEPT !.e = [k |-> "not", e |-> @], !.lv = FALSE]
    [] e.k = "bin" ->
         LET a == Cx(U, e.a) IN
         IF Stop(a) THEN a
         ELSE LET b == Cx(U, e.b) IN
              IF Stop(b) THEN b
              ELSE IF a.ty = "str" \/ b.ty = "str"
              THEN IF a.ty = b.ty /\ e.op = "+"
                   THEN Xp([k |-> "str", v |-> a.v \o b.v], "str", "y", a.v \o b.v, FALSE)
                   ELSE IF e.op = "*" THEN XUb("text times") ELSE XErr("operands")
              ELSE IF a.ty # "int" \/ b.ty # "int" THEN XErr("operands")
              ELSE IF (a.imp /\ b.c # "y") \/ (b.imp /\ a.c # "y") THEN XUb("effects in operands")
              ELSE IF a.c = "y" /\ b.c = "y" THEN CxArith(e.op, a, b)
              ELSE IF (b.c = "m" \/ (b.c = "y" /\ b.v = 0)) /\ e.op \in {"/", "%"} THEN XUb("division by zero")
              ELSE [Xp([k |-> "bin", op |-> e.op, a |-> a.e, b |-> b.e], "int", Known(a.c, b.c), 0, FALSE)
                      EXCEPT !.imp = a.imp \/ b.imp]
    [] e.k = "cmp" ->
         LET r == CxAll(U, e.es, <<>>) n == Len(r.rs) IN
         IF Stop(r.bad) THEN r.bad
         ELSE IF \E i \in 1..n : r.rs[i].ty \notin {"int", "bool"} THEN XUb("comparison of text")
         ELSE IF \E i \in 1..(n - 1) : r.rs[i].ty # r.rs[i + 1].ty
                   \/ (r.rs[i].ty = "bool" /\ e.es[i + 1].op \notin {"==", "!="}) THEN XErr("operands")
         ELSE IF AnyImp(r.rs) THEN XUb("effects in operands")
         ELSE IF \A i \in 1..n : r.rs[i].c = "y"
         THEN LET v == \A i \in 1..(n - 1) : Rel(e.es[i + 1].op, r.rs[i].v, r.rs[i + 1].v)
              IN Xp(SBool(v), "bool", "y", v, FALSE)
         ELSE Xp([k |-> "cmp", a |-> r.rs[1].e, r |-> [i \in 1..(n - 1) |-> [op |-> e.es[i + 1].op, e |-> r.rs[i + 1].e]]],
                 "bool", IF \A i \in 1..n : r.rs[i].c = "n" THEN "n" ELSE IF n = 2 /\ r.rs[1].ty = "int" THEN "n" ELSE "m",
                 0, FALSE)
    [] e.k = "bool" ->
         LET r == CxAll(U, e.es, <<>>) n == Len(r.rs) IN
         IF Stop(r.bad) THEN r.bad
         ELSE IF \E i \in 1..n : r.rs[i].ty # "bool" THEN XErr("operands")
         ELSE IF AnyImp(r.rs) THEN XUb("effects in operands")
         ELSE IF \A i \in 1..n : r.rs[i].c = "y"
         THEN LET v == IF e.op = "and" THEN \A i \in 1..n : r.rs[i].v ELSE \E i \in 1..n : r.rs[i].v
              IN Xp(SBool(v), "bool", "y", v, FALSE)
         ELSE Xp([k |-> e.op, es |-> AndAll(r.rs, 1)], "bool",
                 IF \A i \in 1..n : r.rs[i].c = "n" THEN "n" ELSE "m", 0, FALSE)
    [] e.k = "call" -> CxCall(U, e)

PlainStr(e) == e.k = "str" /\ Len(e.ps) = 1 /\ e.ps[1].t = "x"
CxCall(U, e) ==
  IF e.f.k # "name" THEN (LET r == Cx(U, e.f) IN IF Stop(r) THEN r ELSE XErr("not a function"))
  ELSE LET x == Look(U.sc, Len(U.sc), e.f.s) IN
  IF x.k = "fn" THEN CxArgs(U, x, e.args, 1, <<>>, Nul)
  ELSE IF x.k \in {"var", "const"} THEN XErr("not a function")
  ELSE IF e.f.s = "scb"
  THEN IF Len(e.args) = 2 /\ e.args[1].kw = "" /\ e.args[2].kw = ""
          /\ PlainStr(e.args[1].e) /\ PlainStr(e.args[2].e)
          /\ e.args[1].e.ps[1].s \in U.players /\ e.args[2].e.ps[1].s \in {"inp", "obs"}
       THEN Xp([k |-> "ext", h |-> e.args[1].e.ps[1].s, o |-> e.args[2].e.ps[1].s, ty |-> "int"], "int", "n", 0, TRUE)
       ELSE XUb("scb")
  ELSE IF e.f.s = "int" /\ Len(e.args) = 1 /\ e.args[1].kw = ""
  THEN LET r == Cx(U, e.args[1].e) IN
       IF Stop(r) THEN r
       ELSE IF r.ty # "bool" THEN XUb("conversion")
       ELSE IF r.c = "y" THEN Xp(SInt(IF r.v THEN 1 ELSE 0), "int", "y", IF r.v THEN 1 ELSE 0, FALSE)
       ELSE [r EXCEPT !.e = [k |-> "toint", e |-> @], !.ty = "int", !.lv = FALSE, !.c = "m"]
  ELSE IF e.f.s \in U.builtin THEN XUb("builtin " \o e.f.s)
  ELSE XErr("undefined " \o e.f.s)
\* arguments by position, then by keyword; the rest by default
CxArgs(U, f, args, i, acc, got) ==
  IF i > Len(args)
  THEN IF \E j \in 1..Len(f.ps) : f.ps[j].n \notin DOMAIN got /\ f.ps[j].d.k = "none" THEN XErr("missing argument")
       ELSE [Xp([k |-> "call", f |-> f.n, args |-> acc], f.ret, "n", 0, FALSE) EXCEPT !.imp = f.imp]
  ELSE LET a == args[i]
           r == Cx(U, a.e)
           pos == IF a.kw = "" THEN i ELSE IF \E j \in 1..Len(f.ps) : f.ps[j].n = a.kw
                  THEN CHOOSE j \in 1..Len(f.ps) : f.ps[j].n = a.kw ELSE 0
       IN IF Stop(r) THEN r
          ELSE IF r.imp THEN XUb("effects in arguments")
          ELSE IF pos = 0 \/ pos > Len(f.ps) \/ f.ps[pos].n \in DOMAIN got
          THEN \* wrong anyway, unless a later argument is outside this model
               (LET rest == CxAll(U, SubSeq(args, i + 1, Len(args)), <<>>).bad
                IN IF rest.ub # "" THEN rest ELSE XErr("argument"))
          ELSE IF r.ty # f.ps[pos].ty THEN IF r.ty \in {"int", "bool", "str"} THEN XErr("argument type") ELSE XUb("argument")
          ELSE CxArgs(U, f, args, i + 1, Append(acc, [p |-> f.ps[pos].u, e |-> r.e]), (f.ps[pos].n :> TRUE) @@ got)

---------------------------------------------------------------------------
RECURSIVE Cs(_, _), CsAll(_, _, _), CsConsts(_, _, _), CsParams(_, _, _, _)
\* statements give [u, ss]: the new U and the statements meant
UErr(U, st, w) == [U EXCEPT !.err = [w |-> w, lo |-> st.ln, hi |-> st.hi]]
UUb(U, w) == [U EXCEPT !.ub = w]
UStop(U) == U.ub # "" \/ U.err.w # ""
Fail(U, st, r) == [u |-> IF r.ub # "" THEN UUb(U, r.ub) ELSE UErr(U, st, r.err), ss |-> <<>>]
Fine(U, ss) == [u |-> U, ss |-> ss]
TypeOf(U, e) ==                 \* int, bool, or what is wrong
  IF e.k = "name" /\ e.s \in {"int", "bool"} /\ Look(U.sc, Len(U.sc), e.s).k = "none" THEN e.s ELSE "?"
Define(U, n, x) == [U EXCEPT !.sc[Len(U.sc)] = (n :> x) @@ @, !.cnt = @ + 1]
Bound(U, n) == n \in DOMAIN U.sc[Len(U.sc)]
Fresh(U, n) == n \o "." \o ToString(U.cnt)
VarE(n, ty) == [k |-> "v", n |-> n, ty |-> ty, l |-> FALSE]
Imp(U) == [U EXCEPT !.imp = TRUE]
\* writing to something outside of the function is an effect
Wr(U, r) == IF r.e.k = "ext" \/ (U.cur # "" /\ r.e.n \notin U.own) THEN Imp(U) ELSE U

CsAll(U, ss, acc) ==
  IF ss = <<>> \/ UStop(U) THEN Fine(U, acc)
  ELSE LET r == Cs(U, Head(ss)) IN CsAll(r.u, Tail(ss), acc \o r.ss)
CsConsts(U, st, ds) ==
  IF ds = <<>> \/ UStop(U) THEN Fine(U, <<>>)
  ELSE LET d == Head(ds) r == Cx(U, d.e) IN
       IF Stop(r) THEN Fail(U, st, r)
       ELSE IF r.ty \notin {"int", "bool", "str"} \/ r.c = "m" THEN Fail(U, st, XUb("constant"))
       ELSE IF r.c = "n" THEN Fail(U, st, XErr("not a constant"))
       ELSE IF d.ty.k # "none" /\ TypeOf(U, d.ty) = "?" THEN Fail(U, st, XUb("type"))
       ELSE IF d.ty.k # "none" /\ TypeOf(U, d.ty) # r.ty THEN Fail(U, st, XErr("constant type"))
       ELSE IF Bound(U, d.n) THEN Fail(U, st, XErr("name taken"))
       ELSE CsConsts(Define(U, d.n, [k |-> "const", ty |-> r.ty, v |-> r.v]), st, Tail(ds))
\* parameters of a function: types and defaults
CsParams(U, st, ps, acc) ==
  IF ps = <<>> THEN [u |-> U, ps |-> acc]
  ELSE LET p == Head(ps)
           d == IF p.d.k = "none" THEN Xp(0, "", "y", 0, FALSE) ELSE Cx(U, p.d)
           ty == IF p.ty.k = "none" THEN d.ty ELSE TypeOf(U, p.ty)
           bad == IF Stop(d) THEN d
                  ELSE IF ty = "?" THEN XUb("type")
                  ELSE IF p.d.k # "none" /\ (d.c = "m" \/ d.ty \notin {"int", "bool", "str"}) THEN XUb("default")
                  ELSE IF ty \notin {"int", "bool"} THEN XErr("parameter type")
                  ELSE IF p.d.k # "none" /\ d.ty # ty THEN XErr("default type")
                  ELSE IF d.c = "n" THEN XErr("default not constant")
                  ELSE Xp(0, "", "y", 0, FALSE)
       IN IF Stop(bad) THEN [u |-> Fail(U, st, bad).u, ps |-> acc]
          ELSE CsParams([U EXCEPT !.cnt = @ + 1], st, Tail(ps),
                 Append(acc, [n |-> p.n, ty |-> ty, u |-> p.n \o "." \o ToString(U.cnt),
                              d |-> IF p.d.k = "none" THEN [k |-> "none"] ELSE d.e]))
RECURSIVE ParScope(_, _)
ParScope(ps, i) == IF i > Len(ps) THEN Nul
                   ELSE (ps[i].n :> [k |-> "var", ty |-> ps[i].ty, e |-> VarE(ps[i].u, ps[i].ty)]) @@ ParScope(ps, i + 1)

Strip(s) ==                     \* without blanks at both ends
  LET n == {i \in 1..Len(s) : SubSeq(s, i, i) # " "}
  IN IF n = {} THEN "" ELSE SubSeq(s, CHOOSE i \in n : \A j \in n : i <= j, CHOOSE i \in n : \A j \in n : i >= j)

Cs(U, st) ==
  CASE st.k = "pass" -> Fine(U, <<>>)
    [] st.k = "var" ->
         \* with a type, the name exists before its value: it is a declaration and an assignment
         LET n == Fresh(U, st.n)
             ty0 == IF st.ty.k = "none" THEN "" ELSE TypeOf(U, st.ty)
             UV == IF ty0 \in {"int", "bool"} THEN Define(U, st.n, [k |-> "var", ty |-> ty0, e |-> VarE(n, ty0)]) ELSE U
             r == IF st.e.k = "none" THEN Xp(0, "", "n", 0, FALSE) ELSE Cx(UV, st.e)
             ty == IF ty0 = "" THEN r.ty ELSE ty0
             U1 == Define(U, st.n, [k |-> "var", ty |-> ty, e |-> VarE(n, ty)])
             U2 == [U1 EXCEPT !.own = @ \union {n}, !.imp = @ \/ r.imp]
         IN IF Stop(r) THEN Fail(U, st, r)
            ELSE IF ty = "?" \/ ty = "none" THEN Fail(U, st, XUb("type"))
            ELSE IF ty = "str" THEN Fail(U, st, XErr("text variable"))
            ELSE IF st.e.k # "none" /\ r.ty # ty
            THEN Fail(U, st, IF r.ty \in {"int", "bool", "str"} THEN XErr("type of value") ELSE XUb("type"))
            ELSE IF Bound(U, st.n) THEN Fail(U, st, XErr("name taken"))
            ELSE Fine(U2, IF st.e.k = "none" THEN <<[k |-> "decl", n |-> n, ty |-> ty, l |-> FALSE]>>
                          ELSE <<[k |-> "set", x |-> VarE(n, ty), e |-> r.e]>>)
    [] st.k \in {"set", "aug"} ->
         LET x == Cx(U, st.x) r == Cx(U, st.e) IN
         IF Stop(x) THEN (IF r.ub # "" THEN Fail(U, st, r) ELSE Fail(U, st, x))
         ELSE IF Stop(r) THEN Fail(U, st, r)
         ELSE IF ~x.lv /\ (x.e.k = "call" \/ x.c = "m") THEN Fail(U, st, XUb("target"))
         ELSE IF ~x.lv THEN Fail(U, st, XErr("target"))
         ELSE IF r.ty \notin {"int", "bool", "str"} THEN Fail(U, st, XUb("value"))
         ELSE IF x.ty # r.ty \/ (st.k = "aug" /\ x.ty # "int") THEN Fail(U, st, XErr("type of value"))
         ELSE IF st.k = "aug" /\ (r.c = "m" \/ (r.c = "y" /\ r.v = 0)) /\ st.op \in {"/", "%"} THEN Fail(U, st, XUb("division by zero"))
         ELSE IF st.k = "aug" /\ r.imp THEN Fail(U, st, XUb("effects in operands"))
         ELSE Fine([Wr(U, x) EXCEPT !.imp = @ \/ r.imp],
                   <<IF st.k = "set" THEN [k |-> "set", x |-> x.e, e |-> r.e]
                     ELSE [k |-> "aug", x |-> x.e, op |-> st.op, e |-> r.e]>>)
    [] st.k = "expr" ->
         LET r == Cx(U, st.e) IN
         IF Stop(r) THEN Fail(U, st, r)
         ELSE Fine([U EXCEPT !.imp = @ \/ r.imp], IF r.e.k = "call" THEN <<[k |-> "expr", e |-> r.e]>>
                   ELSE IF r.imp THEN <<[k |-> "set", x |-> VarE("_", r.ty), e |-> r.e]>> ELSE <<>>)
    [] st.k = "if" ->
         LET c == Cx(U, st.c) IN
         IF Stop(c) THEN Fail(U, st, c)
         ELSE IF c.ty = "none" THEN Fail(U, st, XUb("condition"))
         ELSE IF c.ty # "bool" THEN Fail(U, st, XErr("condition"))
         ELSE LET t == CsAll(U, st.t, <<>>) e == CsAll(t.u, st.e, <<>>)
              IN Fine([e.u EXCEPT !.imp = @ \/ c.imp], <<[k |-> "if", c |-> c.e, t |-> t.ss, e |-> e.ss]>>)
    [] st.k = "while" ->
         LET c == Cx(U, st.c) IN
         IF Stop(c) THEN Fail(U, st, c)
         ELSE IF c.ty = "none" THEN Fail(U, st, XUb("condition"))
         ELSE IF c.ty # "bool" THEN Fail(U, st, XErr("condition"))
         ELSE LET b == CsAll(U, st.b, <<>>) IN
              IF UStop(b.u) THEN b
              ELSE IF c.c = "y" /\ c.v THEN Fail(U, st, XErr("endless loop"))
              ELSE Fine([b.u EXCEPT !.imp = @ \/ c.imp, !.may = @ \/ c.c = "m"], <<[k |-> "while", c |-> c.e, b |-> b.ss]>>)
    [] st.k = "const" -> CsConsts(U, st, st.ds)
    [] st.k = "ref" ->
         LET r == Cx(U, st.d.e) IN
         IF Stop(r) THEN Fail(U, st, r)
         ELSE IF ~r.lv /\ (r.e.k = "call" \/ r.c = "m") THEN Fail(U, st, XUb("reference"))
         ELSE IF ~r.lv THEN Fail(U, st, XErr("reference"))
         ELSE IF st.d.ty.k # "none" /\ TypeOf(U, st.d.ty) = "?" THEN Fail(U, st, XUb("type"))
         ELSE IF st.d.ty.k # "none" /\ TypeOf(U, st.d.ty) # r.ty THEN Fail(U, st, XErr("type of reference"))
         ELSE IF Bound(U, st.d.n) THEN Fail(U, st, XErr("name taken"))
         ELSE Fine(Define(U, st.d.n, [k |-> "var", ty |-> r.ty, e |-> r.e]), <<>>)
    [] st.k = "cmd" ->
         LET r == CxText(U, st.ps, "", 0, 0) IN
         IF Stop(r) THEN Fail(U, st, r)
         ELSE IF Len(r.v) < 5 \/ SubSeq(r.v, 1, 4) # "say " \/ Strip(SubSeq(r.v, 5, Len(r.v))) = ""
                 \/ \E i \in 5..Len(r.v) : SubSeq(r.v, i, i) = "@" THEN Fail(U, st, XUb("command"))
         ELSE Fine(Imp(U), <<[k |-> "say", ps |-> <<[k |-> "t", t |-> Strip(SubSeq(r.v, 5, Len(r.v)))]>>]>>)
    [] st.k = "result" ->
         LET r == Cx(U, st.e) IN
         IF Stop(r) THEN Fail(U, st, r)
         ELSE IF r.ty \notin {"int", "bool", "str"} THEN Fail(U, st, XUb("result"))
         ELSE IF U.cur = "" THEN Fail(U, st, XErr("result outside of a function"))
         ELSE IF r.ty # U.ret THEN Fail(U, st, XErr("type of result"))
         ELSE Fine([U EXCEPT !.imp = @ \/ r.imp], <<[k |-> "result", e |-> r.e]>>)
    [] st.k = "def" ->
         IF U.cur # "" THEN Fail(U, st, XUb("nested function"))
         ELSE LET ps == CsParams(U, st, st.ps, <<>>)
                  ret == IF st.r.k = "none" THEN "none" ELSE TypeOf(U, st.r)
              IN IF UStop(ps.u) THEN Fine(ps.u, <<>>)
                 ELSE IF ret = "?" THEN Fail(U, st, XUb("type"))
                 ELSE LET un == st.n \o "." \o ToString(ps.u.cnt)
                          V0 == [ps.u EXCEPT !.cnt = @ + 1, !.sc = Append(@, ParScope(ps.ps, 1)), !.cur = un,
                                   !.ret = ret, !.imp = FALSE, !.own = {ps.ps[i].u : i \in 1..Len(ps.ps)}]
                          b == CsAll(V0, st.b, <<>>)
                          us == [i \in 1..Len(ps.ps) |-> ps.ps[i].u]
                          du == {i \in 1..Len(us) : ps.ps[i].d.k # "none"}
                          F == [name |-> un, kind |-> "def", params |-> us,
                                ports |-> [x \in {us[i] : i \in 1..Len(us)} |-> "val"],
                                dflt |-> [x \in {us[i] : i \in du} |-> ps.ps[CHOOSE i \in du : us[i] = x].d],
                                body |-> b.ss, ret |-> ret, rp |-> "val"]
                          X == [k |-> "fn", n |-> un, ps |-> ps.ps, ret |-> ret, imp |-> b.u.imp]
                          U1 == [b.u EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1), !.cur = "", !.ret = "",
                                   !.imp = FALSE, !.own = U.own, !.fns = (un :> F) @@ @]
                      IN IF UStop(b.u) THEN Fine(b.u, <<>>)
                         ELSE IF Bound(U, st.n) THEN Fail(U, st, XErr("name taken"))
                         ELSE Fine(Define(U1, st.n, X), <<>>)

---------------------------------------------------------------------------
(* The whole way.  Gives [ub, err, lo, hi, body, fns]: err # "" means the    *)
(* text is no program, and the report has to point into lines lo..hi (or alt). *)
(* may: a loop may be seen to be endless, then the text may be refused.     *)
ElabSrc(X, builtin, players) ==
  LET L == Lex(X) T == L.toks IN
  IF L.ub # "" THEN [ub |-> L.ub, err |-> "", lo |-> 0, hi |-> 0, body |-> <<>>, fns |-> Nul, alt |-> {}, may |-> FALSE]
  ELSE
  LET P == PStmts(T, 1, "END", <<>>) IN
  IF P.ub # "" THEN [ub |-> P.ub, err |-> "", lo |-> 0, hi |-> 0, body |-> <<>>, fns |-> Nul, alt |-> {}, may |-> FALSE]
  ELSE IF ~P.ok
  THEN LET ln == T[P.p].ln
           \* the scanner works line by line: it may see its own error first
           e == IF T[Len(T)].t = "ERR" THEN {T[Len(T)].ln} ELSE {}
       IN [ub |-> "", err |-> IF Tt(T, P.p) = "ERR" THEN "layout" ELSE "grammar", lo |-> ln, hi |-> ln,
           body |-> <<>>, fns |-> Nul, alt |-> e, may |-> FALSE]
  ELSE LET U0 == [sc |-> <<Nul>>, cnt |-> 1, fns |-> Nul, cur |-> "", ret |-> "", err |-> [w |-> "", lo |-> 0, hi |-> 0],
                  ub |-> "", may |-> FALSE, imp |-> FALSE, own |-> {}, builtin |-> builtin, players |-> players]
           r == CsAll(U0, P.e, <<>>)
       IN [ub |-> r.u.ub, err |-> r.u.err.w, lo |-> r.u.err.lo, hi |-> r.u.err.hi, body |-> r.ss, fns |-> r.u.fns,
           alt |-> {}, may |-> r.u.may]
=============================================================================
