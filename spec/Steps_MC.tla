------------------------------ MODULE Steps_MC ------------------------------
(***************************************************************************)
(* Enumerates step function texts, constants and ranges, checks the laws   *)
(* on each and prints them for execution.                                  *)
(***************************************************************************)
EXTENDS Steps
CONSTANTS Profile, Depth, Walks
VARIABLES s, n, wid
vars == <<s, n, wid>>
Probes == <<0, 1, 2, 3, 4, 7, 10, -3>>
EmitText(cs) == PrintT("SCRIPT " \o ToJson(<<[op |-> "step", cs |-> cs, at |-> Probes]>>))
EmitMake(f) == PrintT("SCRIPT " \o ToJson(<<[op |-> "stepmk", o |-> f.o, left |-> f.left,
                                             c |-> Digs(f.c), at |-> Probes]>>))
EmitRange(cs, lo, hi) == PrintT("SCRIPT " \o ToJson(<<[op |-> "numvals", cs |-> cs, lo |-> lo, hi |-> hi]>>))

Alpha == {"x", "_", "1", "0", ".", "+", "*", "^", "SP", "NUL", "-", "B"}
Ids == {<<"x">>, <<"n", "1">>, <<"a", "_", "b">>, <<"X", "_">>, <<"_", "x">>, <<"e">>}
Nums == {<<"0">>, <<"1">>, <<"2">>, <<"3">>, <<"0", ".", "5">>, <<".", "5">>, <<"1", ".", "5">>, <<"1", "0">>,
         <<"0", "0", "7">>, <<"1", ".", "2", "5">>, <<"1", "3", ".", "3", "7">>, <<"1", "0", "0">>,
         <<"0", ".", "1">>, <<"0", ".", "0", "0", "1">>, <<"2", ".", "5", "0">>, <<"0", ".", "0">>,
         <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>,
         <<"1", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0", "0">>,
         <<"0", ".", "0", "0", "0", "0", "0", "0", "0", "1", "2", "5">>,
         <<"0", ".", "1", "2", "3", "4", "5", "6", "7", "8", "9", "0", "1", "2", "3", "4", "5">>,
         <<"9", "9", "9", "9", "9", "9", ".", "9", "9", "9">>}
BadNums == {<<"1", ".", "2", ".", "3">>, <<".">>, <<"1", ".", ".", "2">>, <<".", ".">>, <<"1", ".", "0", ".">>,
            <<"-", "1">>, <<"1", "e", "3">>, <<"0", "x", "1">>, <<"1", ",", "5">>, <<"1", "_">>}
Ops == {<<"+">>, <<"*">>, <<"^">>}
BadOps == {<<"-">>, <<"/">>, <<"+", "+">>, <<"*", "*">>, <<>>, <<"SP">>, <<"NUL">>, <<"#">>}
Ws == {<<>>, <<"SP">>, <<"TAB", "NL", "CR">>}
Junk == {<<"x">>, <<"1">>, <<"+">>, <<"NUL", "x">>, <<"SP">>, <<"#">>, <<".">>, <<"+", "1">>, <<"*", "x">>}
Put3(a, o, b, w) == w \o a \o w \o o \o w \o b \o w

Text(cs) == /\ s' = cs /\ n' = n + 1 /\ wid' = wid /\ EmitText(cs)
CharNext == n < Depth /\ \E c \in Alpha : Text(Append(s, c))
FormNext == n = 0 /\
  (\/ \E a \in Ids, b \in Nums, o \in Ops, w \in Ws : Text(Put3(a, o, b, w)) \/ Text(Put3(b, o, a, w))
   \/ \E a \in Ids, b \in BadNums, o \in Ops : Text(Put3(a, o, b, <<"SP">>)) \/ Text(Put3(b, o, a, <<>>))
   \/ \E a \in Ids, b \in {<<"2">>, <<"0", ".", "5">>}, o \in BadOps, w \in Ws :
        Text(Put3(a, o, b, w)) \/ Text(Put3(b, o, a, w))
   \/ \E a \in Ids \cup Nums, b \in {<<"x">>, <<"2">>, <<>>}, o \in Ops : Text(Put3(a, o, b, <<"SP">>))
   \/ \E j \in Junk, k \in Junk \cup {<<>>}, a \in {<<"x">>, <<"2">>}, b \in {<<"x">>, <<"2">>}, o \in Ops :
        \/ Text(j \o Put3(a, o, b, <<>>) \o k) \/ Text(Put3(a, o, b, <<"SP">>) \o j \o k)
        \/ Text(a \o j \o o \o k \o b))
Make(f) == /\ s' = Write(f) /\ n' = n + 1 /\ wid' = wid /\ EmitMake(f)
MakeNext == n = 0 /\ \E o \in {"+", "*", "^"}, left \in BOOLEAN, c \in Nums :
  Make([ok |-> TRUE, o |-> o, left |-> left, c |-> Canon(Num(c).v), x |-> "x"])
\* random constants with many digits
RNum(z) == LET a == RandomElement(0..17)  b == RandomElement(0..(IF RandomElement(BOOLEAN) THEN 3 ELSE 17)) IN
  [j \in 1..(a + b + 1) |-> IF j = a + 1 THEN "." ELSE DigitSeq[RandomElement(1..10)]]
RandNext == n = 0 /\ \E c0 \in {RNum(wid)} : \E c \in {IF Len(c0) = 1 THEN <<"7">> ELSE c0} :
  IF RandomElement(BOOLEAN)
  THEN Make([ok |-> TRUE, o |-> RandomElement({"+", "*", "^"}), left |-> RandomElement(BOOLEAN), c |-> Canon(Num(c).v), x |-> "x"])
  ELSE LET x == RandomElement(Ids)  w == RandomElement(Ws)  o == RandomElement(Ops) IN
       Text(IF RandomElement(BOOLEAN) THEN Put3(x, o, c, w) ELSE Put3(c, o, x, w))
Rng(cs, lo, hi) == /\ s' = cs /\ n' = n + 1 /\ wid' = wid
                   /\ LET f == IF cs = <<>> THEN Plus1 ELSE StepOf(cs) IN
                      Assert(RangeLaw(f, lo, hi), <<"range", cs, lo, hi>>)
                      /\ (Range(f, lo, hi) # {} => EmitRange(cs, lo, hi))
StepTexts == {<<>>} \cup {Put3(<<"x">>, o, c, <<>>) : o \in Ops,
     c \in {<<"0">>, <<"1">>, <<"2">>, <<"3">>, <<"0", ".", "5">>, <<"1", ".", "5">>, <<"7">>, <<"1", "0", "0">>}}
  \cup {Put3(c, o, <<"x">>, <<>>) : o \in Ops, c \in {<<"0">>, <<"1">>, <<"2">>, <<"3">>, <<"2", ".", "5">>}}
RangeNext == n = 0 /\ \E cs \in StepTexts, lo \in {-3, -1, 0, 1, 2, 5}, hi \in {-2, 0, 1, 3, 16, 20} :
  lo <= hi /\ Rng(cs, lo, hi)

Next == CASE Profile = "chars" -> CharNext
          [] Profile = "forms" -> FormNext
          [] Profile = "make" -> MakeNext
          [] Profile = "rand" -> RandNext
          [] Profile = "range" -> RangeNext
Init == s = <<>> /\ n = 0 /\ wid \in 0..Walks
Spec == Init /\ [][Next]_vars
Laws == WriteRead(StepOf(s)) /\ Commutes(StepOf(s))
\* white space around and between the parts has no meaning
SpaceFree == LET t == SLex(s, 1) IN SLex(<<"SP">> \o s, 1) = t
=============================================================================
