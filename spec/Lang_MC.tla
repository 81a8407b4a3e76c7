------------------------------ MODULE Lang_MC ------------------------------
(***************************************************************************)
(* Enumerates texts and builder call sequences, checks the laws of the     *)
(* language on each, and prints them for execution.                        *)
(***************************************************************************)
EXTENDS Lang
CONSTANTS Profile, Depth, Walks
VARIABLES s, n, wid
vars == <<s, n, wid>>

Emit(op) == PrintT("SCRIPT " \o ToJson(<<op>>))
EmitText(cs) == Specified(cs) => Emit([op |-> "parse", cs |-> cs])
EmitReuse(c, d) == Emit([op |-> "cbuild", calls |-> c, next |-> d])
EmitCalls(c) == EmitReuse(c, <<>>)

\* spelled-out tokens
Spell == [and |-> <<"&">>, or |-> <<"|">>, orw |-> <<"SP", "o", "r", "SP">>, xor |-> <<"^">>,
          imp |-> <<"=", ">">>, imp2 |-> <<"-", ">">>, eqv |-> <<"<", "=", ">">>,
          eqv2 |-> <<"<", "-", ">">>, eq |-> <<"=">>, ne |-> <<"!", "=">>, lt |-> <<"<">>,
          le |-> <<"<", "=">>, gt |-> <<">">>, ge |-> <<">", "=">>, plus |-> <<"+">>,
          minus |-> <<"-">>, mul |-> <<"*">>, div |-> <<"/">>, not |-> <<"!">>, neg |-> <<"~">>,
          lp |-> <<"(">>, rp |-> <<")">>, fa |-> <<"a">>, fb |-> <<"B", "_", "1">>,
          one |-> <<"1">>, num |-> <<"4", "0", "7">>, sci |-> <<"2", "e", "+", "3">>,
          sci2 |-> <<"1", "2", "E", "1">>, sci3 |-> <<"5", "0", "e", "-", "1">>,
          big |-> <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "7">>,
          huge |-> <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "8">>,
          zero |-> <<"0", "0", "3">>, orf |-> <<"o", "r", "1">>, sp |-> <<"SP">>, nl |-> <<"NL">>,
          tab |-> <<"TAB", "CR">>, err |-> <<"#">>, us |-> <<"_">>, dot |-> <<".">>]
Spelled == DOMAIN Spell
\* names and numbers that are easily mistaken for something else, in small contexts
Chars(str) == [i \in 1..Len(str) |-> SubSeq(str, i, i)]
RECURSIVE Times(_, _)
Times(c, k) == IF k = 0 THEN <<>> ELSE <<c>> \o Times(c, k - 1)
Words == {Chars(w) : w \in {"OR", "Or", "oR", "orr", "o", "or_", "or1", "nor", "and", "AND", "xor", "not", "implies",
                            "e", "E", "e1", "E_", "a_", "a__b", "_a", "Z9z", "requires", "x1e5",
                            "0", "00", "1e0", "1e+0", "1e-0", "0e9", "1e", "1e+", "1e-", "1ea", "1e5e5", "1E05", "1e0020",
                            "12e-1", "12e-2", "12e-3", "5e18", "9e18", "10e18", "1e19", "1e99", "70e-1", "1200e-2", "0x10", "1_000", "1a",
                            "922337203685477580e1", "922337203685477581e1", "9223372036854775808e-1",
                            "9223372036854775807e0", "92233720368547758070e-1", "9223372036854775809", "18446744073709551615",
                            "18446744073709551616", "007", "10000000000000000000"}}
         \cup {Times("7", 45), Times("0", 30) \o <<"7">>, Times("n", 60), Times("n", 300), <<"1">> \o Times("0", 41) \o <<"e", "-", "4", "0">>,
               Times("1", 20) \o <<"e", "-", "3">>, <<"1", "e">> \o Times("0", 40) \o <<"2">>}
RandWord(z) == LET k == RandomElement(1..4) IN
  CASE k = 1 -> [i \in 1..RandomElement(1..14) |-> IF i = 1 THEN RandomElement(Letters) ELSE RandomElement(Letters \cup Digits \cup {"_"})]
    [] k = 2 -> [i \in 1..RandomElement(1..25) |-> RandomElement(Digits)]
    [] k = 3 -> [i \in 1..RandomElement(1..21) |-> RandomElement(Digits)] \o <<RandomElement({"e", "E"})>>
                \o RandomElement({<<>>, <<"+">>, <<"-">>}) \o [i \in 1..RandomElement(1..2) |-> RandomElement(Digits)]
    [] OTHER -> [i \in 1..RandomElement(1..3) |-> RandomElement({"o", "r", "O", "R", "_", "e", "1", "SP"})]
Contexts(w) == {w, w \o <<"&", "b">>, <<"b", "|">> \o w, <<"a", "=", ">">> \o w \o <<"=", ">", "b">>, <<"!">> \o w \o <<"+", "2">>,
                <<"(">> \o w \o <<")">>, <<"a", "SP">> \o w \o <<"SP", "b">>, w \o <<"-", "1">>, w \o <<"<", "-", ">">> \o w}
BinNames == {"and", "or", "orw", "xor", "imp", "imp2", "eqv", "eqv2", "eq", "ne", "lt", "le", "gt",
             "ge", "plus", "minus", "mul", "div"}
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN <<>> ELSE Spell[q[1]] \o Text(Tail(q))
\* the same with white space between all tokens
RECURSIVE Spaced(_, _)
Spaced(q, ws) == IF q = <<>> THEN ws ELSE ws \o Spell[q[1]] \o Spaced(Tail(q), ws)

----------------------------------------------------------------------------
\* random expressions with optional brackets and white space
RandWs(z) == LET k == RandomElement(1..6) IN
  CASE k = 1 -> <<"SP">> [] k = 2 -> <<"NL">> [] k = 3 -> <<"TAB", "SP">> [] OTHER -> <<>>
RECURSIVE RandExpr(_)
RandExpr(d) ==
  LET k == RandomElement(1..(IF d = 0 THEN 2 ELSE 8)) IN
  CASE k <= 2 -> Spell[RandomElement({"fa", "fb", "one", "num", "orf", "sci", "zero"})] \o RandWs(d)
    [] k = 3 -> Spell[RandomElement({"not", "neg"})] \o RandWs(d) \o
                (IF RandomElement(BOOLEAN) THEN <<"(">> \o RandExpr(d - 1) \o <<")">>
                 ELSE RandExpr(d - 1))
    [] k = 4 -> <<"(">> \o RandWs(d) \o RandExpr(d - 1) \o RandWs(d) \o <<")">>
    [] OTHER -> RandExpr(d - 1) \o RandWs(d) \o
                Spell[RandomElement(BinNames)]
                \o RandWs(d) \o RandExpr(d - 1)
\* one token changed, dropped or inserted
Mutate(cs) ==
  LET i == RandomElement(1..Len(cs))
      k == RandomElement(1..3)
      x == Spell[RandomElement(Spelled)] IN
  CASE k = 1 -> SubSeq(cs, 1, i - 1) \o SubSeq(cs, i + 1, Len(cs))
    [] k = 2 -> SubSeq(cs, 1, i - 1) \o x \o SubSeq(cs, i + 1, Len(cs))
    [] OTHER -> SubSeq(cs, 1, i) \o x \o SubSeq(cs, i + 1, Len(cs))

----------------------------------------------------------------------------
CharSet == {"a", "1", "e", "SP", "(", ")", "+", "-", "!", "=", ">", "<", "&", "|", "*", "~", "/", "#"}
CharSet2 == {"a", "o", "r", "_", "0", "1", "E", "NL", "-", ">", "<", "=", "!", "^", "NUL", "."}
\* call sequences of the builder
CBin == {"&", "|", "^", "=>", "=>!", "<=>", "=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/"}
Call(k, v) == [k |-> k, v |-> v]
BCalls == {Call("id", "a"), Call("num", "1"), Call("!", ""), Call("~", ""), Call("(", ""),
           Call(")", ""), Call("()", "")}
          \cup {Call("op", o) : o \in {"*", "-", "<", "&", "=>!"}}
RECURSIVE RandCalls(_)
RandCalls(d) ==
  LET k == RandomElement(1..(IF d = 0 THEN 2 ELSE 8)) IN
  CASE k <= 2 -> <<RandomElement({Call("id", "a"), Call("id", "b"), Call("num", "7"), Call("num", "-5")})>>
    [] k = 3 -> <<Call(RandomElement({"!", "~"}), "")>> \o
                (IF RandomElement(BOOLEAN) THEN <<Call("(", "")>> \o RandCalls(d - 1) \o <<Call(")", "")>>
                 ELSE RandCalls(d - 1))
    [] k = 4 -> <<Call("(", "")>> \o RandCalls(d - 1) \o <<Call(")", "")>>
    [] OTHER -> RandCalls(d - 1) \o <<Call("op", RandomElement(CBin))>> \o RandCalls(d - 1)
RandTop(d) == LET k == RandomElement(1..3)  c == RandCalls(d) IN
  CASE k = 1 -> c
    [] k = 2 -> c \o <<Call("()", ""), Call("op", RandomElement(CBin))>> \o RandCalls(d - 1)
    [] OTHER -> LET i == RandomElement(1..Len(c))  m == RandomElement(1..3) IN
       CASE m = 1 -> SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))
         [] m = 2 -> SubSeq(c, 1, i) \o <<RandomElement(BCalls)>> \o SubSeq(c, i + 1, Len(c))
         [] OTHER -> SubSeq(c, 1, i - 1) \o <<RandomElement(BCalls)>> \o SubSeq(c, i + 1, Len(c))
\* every two operators, with brackets of both kinds and unary operators in every position
Op(o) == <<Call("op", o)>>
CallPairs ==
  \E x, y \in CBin : \E u \in {<<>>, <<Call("!", "")>>}, v \in {<<>>, <<Call("~", "")>>} :
    LET a == <<Call("id", "a")>>  b == <<Call("num", "3")>>  c == <<Call("id", "c")>>
        l == <<Call("(", "")>>  r == <<Call(")", "")>>  w == <<Call("()", "")>>
        S == {u \o a \o Op(x) \o v \o b \o Op(y) \o c,
              u \o l \o a \o Op(x) \o v \o b \o r \o Op(y) \o c,
              u \o a \o Op(x) \o v \o b \o w \o Op(y) \o c,
              a \o Op(x) \o u \o l \o v \o b \o Op(y) \o c \o r,
              a \o w \o Op(x) \o u \o b \o Op(y) \o c \o w \o Op(x) \o v \o c,
              l \o u \o a \o Op(x) \o l \o v \o b \o r \o r \o Op(y) \o c} IN
    \E q \in S :
      /\ s' = q /\ n' = 1 /\ wid' = wid /\ EmitCalls(q)
      /\ (u = <<>> /\ v = <<>> => EmitReuse(q, c \o Op(y) \o a))

Grow(S, emit(_)) == n < Depth /\ \E x \in S :
   /\ s' = Append(s, x) /\ n' = n + 1 /\ wid' = wid /\ emit(Append(s, x))
EmitToks(q) == EmitText(Text(q)) /\ EmitText(Spaced(q, <<"SP">>))
\* triples of operators, with a bracket or unary operator in every position
OpPairs ==
  LET P == {""} \cup {"not", "neg"} IN
  \E x, y \in BinNames : \E u \in {"", "not"}, v \in {"", "neg"} :
    LET w(z) == IF z = "" THEN <<>> ELSE <<z>>
        A == w(u) \o <<"fa", x>> \o w(v) \o <<"one", y, "fb">>
        B == w(u) \o <<"lp", "fa", x>> \o w(v) \o <<"one", "rp", y, "fb">>
        C == <<"fa", x>> \o w(u) \o <<"lp">> \o w(v) \o <<"one", y, "fb", "rp">> IN
    \E q \in {A, B, C} :
      /\ s' = q /\ n' = 1 /\ wid' = wid
      /\ EmitText(Text(q)) /\ EmitText(Spaced(q, <<"NL", "SP">>))
Next ==
  CASE Profile = "chars" -> Grow(CharSet, EmitText)
    [] Profile = "chars2" -> Grow(CharSet2, EmitText)
    [] Profile = "toks" -> Grow(Spelled, EmitToks)
    [] Profile = "pairs" -> n = 0 /\ OpPairs
    [] Profile = "rand" -> n = 0 /\ \E cs \in {RandExpr(Depth)} :
         /\ s' = cs /\ n' = 1 /\ wid' = wid /\ EmitText(cs) /\ EmitText(Mutate(cs))
    [] Profile = "words" -> n = 0 /\ \E w \in Words : \E cs \in Contexts(w) :
         /\ s' = cs /\ n' = 1 /\ wid' = wid /\ EmitText(cs)
    [] Profile = "wordr" -> n = 0 /\ \E w \in {RandWord(wid)} : \E cs \in Contexts(w) :
         /\ s' = cs /\ n' = 1 /\ wid' = wid /\ EmitText(cs)
    [] Profile = "calls" -> Grow(BCalls, EmitCalls)
    [] Profile = "callsp" -> n = 0 /\ CallPairs
    [] Profile = "callsr" -> n = 0 /\ \E c \in {RandTop(Depth)} :
         /\ s' = c /\ n' = 1 /\ wid' = wid /\ EmitReuse(c, RandCalls(wid % 3))
Init == /\ s = <<>> /\ n = 0 /\ wid \in 0..Walks
        /\ (wid = 0 => IF Profile \in {"calls", "callsp", "callsr"} THEN EmitCalls(<<>>) ELSE EmitText(<<>>))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* laws of the language
Cs == CASE Profile \in {"toks", "pairs"} -> Text(s)
        [] Profile \in {"calls", "callsp", "callsr"} -> <<>>
        [] OTHER -> s
LP == Tok("(", "")
RP == Tok(")", "")
ToksOf == IF Profile \in {"calls", "callsp", "callsr"} THEN Written(s, 1, <<>>) ELSE Lex(Cs)
PrintParse == LET p == ParseT(ToksOf) IN p.ok => ParseT(Show(p.a)) = [p EXCEPT !.i = Len(Show(p.a)) + 1]
Brackets == LET p == ParseT(ToksOf)  q == ParseT(<<LP>> \o ToksOf \o <<RP>>) IN
            q.ok = p.ok /\ q.a = p.a
SpaceFree == (Cs # <<>>) =>
  LET p == Parse(Cs)  q == Parse(<<"SP">> \o Cs \o <<"NL">>) IN p = q
UnaryTight == \A o \in {"*", "+", "&", "=>", "<=>"} :
  LET p == ParseT(ToksOf) IN
  p.ok => LET q == ParseT(<<Tok("!", ""), LP>> \o ToksOf \o <<RP, Tok("op", o), Tok("id", "zz")>>) IN
          q.ok /\ q.a = [o |-> o, l |-> [o |-> "!", x |-> p.a], r |-> [o |-> "f", n |-> "zz"]]
=============================================================================
