-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* The constraint language: characters to tokens, tokens to trees, trees   *)
(* back to characters, and the fluent builder as another way to write      *)
(* tokens. Characters are strings of length one; white space and other     *)
(* special characters have symbolic names.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Letters == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q",
            "r", "s", "t", "u", "v", "w", "x", "y", "z", "A", "B", "C", "D", "E", "F", "G", "H",
            "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digits == {DigitSeq[i] : i \in 1..10}
DVal(c) == CHOOSE i \in 0..9 : DigitSeq[i + 1] = c
White == {"SP", "NL", "TAB", "CR"}

----------------------------------------------------------------------------
\* numbers: decimal digits, an optional exponent; values are kept as text and
\* saturate at the largest 64-bit integer
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o Join(Tail(s))
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = "0" THEN Strip(Tail(d)) ELSE d
MaxInt == <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "7">>
RECURSIVE Above(_, _)
Above(d, m) == IF d = <<>> THEN FALSE
               ELSE IF d[1] = m[1] THEN Above(Tail(d), Tail(m)) ELSE DVal(d[1]) > DVal(m[1])
Clamp(d0) == LET d == Strip(d0) IN
  IF Len(d) > 19 \/ (Len(d) = 19 /\ Above(d, MaxInt)) THEN Join(MaxInt) ELSE Join(d)
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN <<>> ELSE Append(Zeros(k - 1), "0")
RECURSIVE IntOf(_)
IntOf(d) == IF d = <<>> THEN 0 ELSE 10 * IntOf(SubSeq(d, 1, Len(d) - 1)) + DVal(d[Len(d)])
NumVal(d, sign, ex) ==
  IF ex = <<>> THEN Clamp(d)
  ELSE LET k == IF Len(Strip(ex)) > 2 THEN 99 ELSE IntOf(Strip(ex)) IN
       IF Strip(d) = <<"0">> THEN "0" ELSE
       IF sign = "-" THEN IF k >= Len(d) THEN "0" ELSE Clamp(SubSeq(d, 1, Len(d) - k))
       ELSE Clamp(d \o Zeros(k))

\* numbers written with an exponent are specified where a double holds them exactly:
\* integers of at most 15 digits, or beyond 64 bits
TailZeros(d) == Cardinality({i \in DOMAIN d : \A j \in i..Len(d) : d[j] = "0"})
Exact(d, sign, ex) ==
  LET k == IF Len(Strip(ex)) > 2 THEN 99 ELSE IntOf(Strip(ex))  e == Strip(d) IN
  ex = <<>> \/ e = <<"0">> \/ (IF sign = "-" THEN k <= TailZeros(e) /\ Len(e) <= 15
                                ELSE Len(e) + k <= 15 \/ Len(e) + k >= 20)

----------------------------------------------------------------------------
\* characters to tokens
Tok(k, v) == [k |-> k, v |-> v]
RECURSIVE Run(_, _, _)
Run(cs, i, S) == IF i <= Len(cs) /\ cs[i] \in S THEN Run(cs, i + 1, S) ELSE i
At(cs, i) == IF i <= Len(cs) THEN cs[i] ELSE ""
RECURSIVE LexFrom(_, _)
LexFrom(cs, i) ==
  IF i > Len(cs) \/ At(cs, i) = "NUL" THEN <<>>
  ELSE LET c == cs[i]  d == At(cs, i + 1)  e == At(cs, i + 2)
           go(t, n) == <<t>> \o LexFrom(cs, i + n) IN
  CASE c \in White -> LexFrom(cs, i + 1)
    [] c \in Letters ->
         LET j == Run(cs, i, Letters \cup Digits \cup {"_"})
             v == Join(SubSeq(cs, i, j - 1)) IN
         go(IF v = "or" THEN Tok("op", "|") ELSE Tok("id", v), j - i)
    [] c \in Digits ->
         LET j == Run(cs, i, Digits)
             s == IF At(cs, j) \in {"e", "E"} /\ At(cs, j + 1) \in {"+", "-"} THEN j + 2 ELSE j + 1
             k == IF At(cs, j) \in {"e", "E"} THEN Run(cs, s, Digits) ELSE j
             m == SubSeq(cs, i, j - 1) IN
         IF k > s THEN go(Tok(IF Exact(m, At(cs, j + 1), SubSeq(cs, s, k - 1)) THEN "num" ELSE "rounded",
                              NumVal(m, At(cs, j + 1), SubSeq(cs, s, k - 1))), k - i)
         ELSE go(Tok("num", NumVal(m, "", <<>>)), j - i)
    [] c \in {"(", ")", "~"} -> go(Tok(c, ""), 1)
    [] c \in {"+", "*", "/", "&", "|", "^"} -> go(Tok("op", c), 1)
    [] c = "-" -> IF d = ">" THEN go(Tok("op", "=>"), 2) ELSE go(Tok("op", "-"), 1)
    [] c = "!" -> IF d = "=" THEN go(Tok("op", "!="), 2) ELSE go(Tok("!", ""), 1)
    [] c = "=" -> IF d = ">" THEN go(Tok("op", "=>"), 2) ELSE go(Tok("op", "="), 1)
    [] c = ">" -> IF d = "=" THEN go(Tok("op", ">="), 2) ELSE go(Tok("op", ">"), 1)
    [] c = "<" -> IF d \in {"-", "="} /\ e = ">" THEN go(Tok("op", "<=>"), 3)
                  ELSE IF d = "=" THEN go(Tok("op", "<="), 2) ELSE go(Tok("op", "<"), 1)
    [] OTHER -> <<Tok("ERR", c)>>
Lex(cs) == LexFrom(cs, 1)
Specified(cs) == LET t == Lex(cs) IN \A i \in DOMAIN t : t[i].k # "rounded"

----------------------------------------------------------------------------
\* tokens to trees: one level of the grammar per precedence, left-associative
Levels == <<{"*", "/"}, {"+", "-"}, {"<", "<=", ">", ">="}, {"=", "!="}, {"&"}, {"|", "^"},
            {"=>", "=>!"}, {"<=>"}>>
Fail == [ok |-> FALSE, a |-> <<>>, i |-> 0]
Ok(a, i) == [ok |-> TRUE, a |-> a, i |-> i]
RECURSIVE Unary(_, _)
RECURSIVE Level(_, _, _)
RECURSIVE More(_, _, _, _)
Unary(t, i) ==
  IF i > Len(t) THEN Fail
  ELSE CASE t[i].k = "id" -> Ok([o |-> "f", n |-> t[i].v], i + 1)
         [] t[i].k = "num" -> Ok([o |-> "i", v |-> t[i].v], i + 1)
         [] t[i].k \in {"!", "~"} ->
              LET x == Unary(t, i + 1) IN
              IF x.ok THEN Ok([o |-> t[i].k, x |-> x.a], x.i) ELSE Fail
         [] t[i].k = "(" ->
              LET x == Level(t, 8, i + 1) IN
              IF x.ok /\ x.i <= Len(t) /\ t[x.i].k = ")" THEN Ok(x.a, x.i + 1) ELSE Fail
         [] OTHER -> Fail
Level(t, p, i) ==
  IF p = 0 THEN Unary(t, i)
  ELSE LET l == Level(t, p - 1, i) IN IF l.ok THEN More(t, p, l.a, l.i) ELSE Fail
More(t, p, a, i) ==
  IF i <= Len(t) /\ t[i].k = "op" /\ t[i].v \in Levels[p]
  THEN LET r == Level(t, p - 1, i + 1) IN
       IF r.ok THEN More(t, p, [o |-> t[i].v, l |-> a, r |-> r.a], r.i) ELSE Fail
  ELSE Ok(a, i)
ParseT(t) == LET r == Level(t, 8, 1) IN IF r.ok /\ r.i = Len(t) + 1 THEN r ELSE Fail
Parse(cs) == ParseT(Lex(cs))

----------------------------------------------------------------------------
\* trees to tokens (fully bracketed)
RECURSIVE Show(_)
Show(a) == CASE a.o = "f" -> <<Tok("id", a.n)>>
             [] a.o = "i" -> <<Tok("num", a.v)>>
             [] a.o \in {"!", "~"} -> <<Tok(a.o, "")>> \o Show(a.x)
             [] OTHER -> <<Tok("(", "")>> \o Show(a.l) \o <<Tok("op", a.o)>> \o Show(a.r)
                         \o <<Tok(")", "")>>

----------------------------------------------------------------------------
\* the builder: calls append tokens; "()" brackets everything written so far
RECURSIVE Written(_, _, _)
Written(calls, i, t) ==
  IF i > Len(calls) THEN t
  ELSE IF calls[i].k = "()"
       THEN IF ParseT(t).ok THEN Written(calls, i + 1, <<Tok("(", "")>> \o t \o <<Tok(")", "")>>)
            ELSE <<Tok("ERR", "")>>
       ELSE Written(calls, i + 1, Append(t, calls[i]))
Built(calls) == ParseT(Written(calls, 1, <<>>))
=============================================================================
