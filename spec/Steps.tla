-------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* Step functions: one application of +, * or ^ to the value and a         *)
(* constant. Texts are sequences of characters as in Lang; constants are   *)
(* kept as decimal digits before and after the point.                      *)
(***************************************************************************)
EXTENDS Lang

Num(cs) ==
  LET dot == {i \in DOMAIN cs : cs[i] = "."}
      p == IF dot = {} THEN Len(cs) + 1 ELSE CHOOSE i \in dot : TRUE
      ip == SubSeq(cs, 1, p - 1)
      fp == SubSeq(cs, p + 1, Len(cs)) IN
  IF Cardinality(dot) > 1 \/ ip \o fp = <<>> THEN Tok("ERR", cs) ELSE Tok("num", [ip |-> ip, fp |-> fp])
RECURSIVE SLex(_, _)
SLex(cs, i) ==
  IF i > Len(cs) \/ At(cs, i) = "NUL" THEN <<>>
  ELSE LET c == cs[i] IN
  CASE c \in White -> SLex(cs, i + 1)
    [] c \in Letters ->
         LET j == Run(cs, i, Letters \cup Digits \cup {"_"}) IN
         <<Tok("id", Join(SubSeq(cs, i, j - 1)))>> \o SLex(cs, j)
    [] c \in Digits \cup {"."} ->
         LET j == Run(cs, i, Digits \cup {"."}) IN <<Num(SubSeq(cs, i, j - 1))>> \o SLex(cs, j)
    [] c \in {"+", "*", "^"} -> <<Tok("op", c)>> \o SLex(cs, i + 1)
    [] OTHER -> <<Tok("ERR", c)>>

\* no zeros at either end that mean nothing
RECURSIVE TrimL(_)
TrimL(d) == IF d # <<>> /\ d[1] = "0" THEN TrimL(Tail(d)) ELSE d
RECURSIVE TrimR(_)
TrimR(d) == IF d # <<>> /\ d[Len(d)] = "0" THEN TrimR(SubSeq(d, 1, Len(d) - 1)) ELSE d
Canon(v) == [ip |-> TrimL(v.ip), fp |-> TrimR(v.fp)]

None == [ok |-> FALSE]
StepOf(cs) ==
  LET t == SLex(cs, 1) IN
  IF Len(t) # 3 \/ \E i \in DOMAIN t : t[i].k = "ERR" THEN None
  ELSE IF t[2].k # "op" THEN None
  ELSE CASE t[1].k = "id" /\ t[3].k = "num" ->
              [ok |-> TRUE, o |-> t[2].v, left |-> FALSE, c |-> Canon(t[3].v), x |-> t[1].v]
         [] t[1].k = "num" /\ t[3].k = "id" ->
              [ok |-> TRUE, o |-> t[2].v, left |-> TRUE, c |-> Canon(t[1].v), x |-> t[3].v]
         [] OTHER -> None

----------------------------------------------------------------------------
\* successors, in thousandths; "?" where the result is not exact in them
Abs(x) == IF x < 0 THEN -x ELSE x
Small(c) == Len(c.ip) <= 4 /\ Len(c.fp) <= 3
Milli(c) == IntOf(c.ip \o c.fp) * (CASE Len(c.fp) = 0 -> 1000 [] Len(c.fp) = 1 -> 100
                                     [] Len(c.fp) = 2 -> 10 [] OTHER -> 1)
RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)
\* b^e stays below a million
RECURSIVE Fits0(_, _, _)
Fits(b, e) == \/ (Abs(b) <= 1 /\ e <= 50) \/ e = 0
              \/ (e <= 20 /\ b # 0 /\ Abs(b) <= 1000 /\ Fits0(b, e, 1))
Fits0(b, e, p) == IF e = 0 THEN TRUE ELSE p <= 1000000 \div Abs(b) /\ Fits0(b, e - 1, p * Abs(b))
Unknown == 2000000003
Succ(f, v) ==
  LET c == f.c IN
  IF ~Small(c) THEN Unknown
  ELSE LET m == Milli(c) IN
  CASE f.o = "+" -> v * 1000 + m
    [] f.o = "*" -> IF v = 0 \/ m <= 1000000000 \div Abs(v) THEN v * m ELSE Unknown
    [] f.left -> \* c to the v
         IF c.fp = <<>> /\ v >= 0 /\ Fits(IntOf(c.ip), v) THEN 1000 * IPow(IntOf(c.ip), v)
         ELSE IF v \in 0..3 /\ Len(c.fp) * v <= 3 /\ m <= 20000
              THEN CASE v = 0 -> 1000 [] v = 1 -> m [] v = 2 -> (m * m) \div 1000
                     [] OTHER -> ((m \div 100) * (m \div 100) * (m \div 100))
         ELSE Unknown
    [] OTHER -> \* v to the c
         IF c.fp = <<>> /\ Fits(v, IntOf(c.ip)) THEN 1000 * IPow(v, IntOf(c.ip))
         ELSE IF c.ip = <<>> /\ c.fp = <<"5">> /\ \E r \in 0..20 : r * r = v
              THEN 1000 * (CHOOSE r \in 0..20 : r * r = v)
         ELSE Unknown
\* towards zero
Trunc(m) == IF m < 0 THEN -((-m) \div 1000) ELSE m \div 1000
\* constants a double holds exactly
Dyadic(c) == c.fp \in {<<>>, <<"5">>, <<"2", "5">>, <<"7", "5">>, <<"1", "2", "5">>, <<"3", "7", "5">>,
                       <<"6", "2", "5">>, <<"8", "7", "5">>}

----------------------------------------------------------------------------
\* values of a range: the minimum and every successor inside it, each once
RECURSIVE Walk(_, _, _, _, _)
Walk(f, v, lo, hi, vs) ==
  IF v \in vs \/ v < lo \/ v > hi THEN vs
  ELSE LET s == Succ(f, v) IN
       IF s = Unknown THEN {} ELSE Walk(f, Trunc(s), lo, hi, vs \cup {v})
Plus1 == [ok |-> TRUE, o |-> "+", left |-> FALSE, c |-> [ip |-> <<"1">>, fp |-> <<>>], x |-> "x"]
Range(f, lo, hi) == Walk(f, lo, lo, hi, {})

----------------------------------------------------------------------------
\* the laws
Digs(c) == IF c.ip = <<>> /\ c.fp = <<>> THEN <<"0">>
           ELSE c.ip \o (IF c.fp = <<>> THEN <<>> ELSE <<".">> \o c.fp)
Write(f) == IF f.left THEN Digs(f.c) \o <<"SP", f.o, "SP">> \o <<"x">>
            ELSE <<"x", "SP", f.o, "SP">> \o Digs(f.c)
SameFun(f, g) == f.ok /\ g.ok /\ f.o = g.o /\ f.left = g.left /\ f.c = g.c
\* writing and reading are inverse; + and * do not care about the side
WriteRead(f) == f.ok => SameFun(StepOf(Write(f)), f)
Commutes(f) == f.ok /\ f.o # "^" => \A v \in 0..5 : Succ(f, v) = Succ([f EXCEPT !.left = ~@], v)
\* all values lie in the range, and all but the last have their successor in it
RangeLaw(f, lo, hi) ==
  LET V == Range(f, lo, hi) IN
  /\ \A v \in V : v \in lo..hi
  /\ V # {} => /\ lo \in V
               /\ \A v \in V : LET t == Trunc(Succ(f, v)) IN t \in lo..hi => t \in V
=============================================================================
