------------------------------ MODULE Conf_MC -------------------------------
(***************************************************************************)
(* Enumerates sessions over a configuration and texts to read, checks the  *)
(* laws and prints the sessions for execution.                             *)
(***************************************************************************)
EXTENDS Conf
CONSTANTS Profile, Depth, Walks
VARIABLES s, n, wid
vars == <<s, n, wid>>
Emit(q) == PrintT("SCRIPT " \o ToJson(<<[op |-> "conf", steps |-> q]>>))
SetTo(nm, v) == [k |-> "set", n |-> nm, v |-> v]
AddTo(nm, v) == [k |-> "add", n |-> nm, v |-> v]
ParseOf(t) == [k |-> "parse", t |-> t]
TripOf == [k |-> "trip"]
\* one session at once
All(q) == s' = q /\ n' = n + 1 /\ wid' = wid /\ Emit(q)

\* all short values, and longer ones near the borders
VAlpha == {"0", "1", "7", "-", "+", "t", "SP", ".", "x", "e"}
RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, d) == IF d = 0 THEN {<<>>} ELSE LET P == SeqsUpTo(S, d - 1) IN P \cup {Append(p, c) : p \in P, c \in S}
Rep(c, k) == [i \in 1..k |-> c]
Bump(d, c) == [d EXCEPT ![19] = c]
Special == {<<"T", "r", "u", "e">>, <<"T", "R", "U", "E">>, <<"t", "R", "u", "E">>, <<"F", "A", "L", "S", "E">>,
            <<"F", "a", "l", "s", "e">>, <<"t", "r", "u", "e">>, <<"f", "a", "l", "s", "e">>, <<"t", "r", "u">>,
            <<"t", "r", "u", "e", "SP">>, <<"SP", "t", "r", "u", "e">>, <<"t", "r", "u", "e", "s">>, <<"f", "a", "l", "s", "E">>,
            <<"y", "e", "s">>, <<"o", "n">>, <<"n", "u", "l", "l">>,
            MaxInt, MinInt, Bump(MaxInt, "6"), Bump(MaxInt, "9"), <<"-">> \o MaxInt, <<"-">> \o MinInt,
            <<"-">> \o Bump(MaxInt, "9"), <<"0">> \o MaxInt, <<"-", "0", "0">> \o MinInt, <<"0">> \o MinInt,
            MaxInt \o <<"0">>, Rep("9", 18), Rep("9", 19), Rep("1", 19), Rep("1", 20), Rep("0", 25),
            <<"-">> \o Rep("9", 18), <<"-">> \o Rep("9", 19), <<"0", "x", "1", "F">>, <<"0", "b", "1">>,
            <<"0", "o", "7">>, <<"0", "1", "0">>, <<"0", "0", "8">>, <<"1", "e", "3">>, <<"1", ".", "0">>, <<"1", "_", "0">>,
            <<"1", "NUL">>, <<"NUL">>, <<"QT", "1", "QT">>, <<"2", "1", "4", "7", "4", "8", "3", "6", "4", "8">>,
            <<"-", "2", "1", "4", "7", "4", "8", "3", "6", "4", "9">>, <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "6">>,
            <<"QT">>, <<"BS">>, <<"BS", "n">>, <<"BS", "QT">>, <<"{", "}">>, <<"C1">>, <<"C31">>, <<"E9">>, <<"EUR">>, <<"EMO">>,
            <<"NL">>, <<"TAB">>, <<"CR">>, <<"BSP">>, <<"FF">>, <<"DEL">>, <<"QT", ":", "QT">>, <<",">>, <<"/">>,
            <<"a", "BS">>, <<"BS", "u", "0", "0", "6", "1">>}
ValNext == n = 0 /\ \E v \in SeqsUpTo(VAlpha, Depth) \cup Special :
   All(<<SetTo(<<"a">>, v), TripOf, AddTo(<<"a">>, <<"x">>), AddTo(<<"b">>, v)>>)
\* names are any text
NameNext == n = 0 /\ \E m1 \in Special \cup {<<>>, <<"a">>}, m2 \in {<<>>, <<"a">>, <<"b">>, <<"NUL">>, <<"a", "NUL">>, <<"a", "SP">>, <<"A">>} :
   All(<<SetTo(m1, <<"1">>), AddTo(m2, <<"T", "r", "u", "e">>), SetTo(m1, m2), TripOf, SetTo(m2, m1), TripOf>>)
\* every history
SmallNames == {<<>>, <<"a">>, <<"b", "SP">>, <<"a", "a">>}
SmallVals == {<<"1">>, <<"T", "r", "u", "e">>, <<"x">>}
Texts == {<<"{", "}">>, <<"{", "QT", "a", "QT", ":", "QT", "0", "7", "QT", "}">>, <<"{">>,
          <<"{", "QT", "a", "QT", ":", "1", "}">>}
Steps == {SetTo(m, v) : m \in SmallNames, v \in SmallVals}
         \cup {AddTo(m, v) : m \in {<<"a">>, <<"b", "SP">>}, v \in {<<"0">>, <<"x", "y">>}}
         \cup {ParseOf(t) : t \in Texts} \cup {TripOf}
HistNext == n < Depth /\ \E a \in Steps : /\ s' = Append(s, a) /\ n' = n + 1 /\ wid' = wid
                                          /\ (n + 1 = Depth => Emit(s'))
RandStep(z) == LET k == RandomElement(1..10) IN
  CASE k <= 5 -> [k |-> RandomElement({"set", "add"}), n |-> Append(RandomElement(SmallNames), RandomElement({"1", "2", "3", "4"})),
                  v |-> RandomElement(Special \cup SmallVals)]
    [] k <= 7 -> SetTo(RandomElement(SmallNames), RandomElement(Special))
    [] k = 8 -> ParseOf(RandomElement(Texts))
    [] OTHER -> TripOf
WalkNext == n < Depth /\ \E a \in {RandStep(n)} : /\ s' = Append(s, a) /\ n' = n + 1 /\ wid' = wid
                                                /\ (n + 1 = Depth => Emit(s'))

\* texts: token sequences, valid texts with one token changed, escapes
Spell == [ob |-> <<"{">>, cb |-> <<"}">>, os |-> <<"[">>, cl |-> <<"]">>, co |-> <<",">>, cn |-> <<":">>,
          a |-> <<"QT", "a", "QT">>, b |-> <<"QT", "b", "QT">>, one |-> <<"1">>, nul |-> <<"n", "u", "l", "l">>,
          tr |-> <<"t", "r", "u", "e">>, q |-> <<"QT">>, e |-> <<"QT", "QT">>, bare |-> <<"a">>, sp |-> <<"SP">>,
          sq |-> <<"'", "a", "'">>, nb |-> <<"NUL">>, neg |-> <<"-", "1", ".", "5">>, cm |-> <<"/", "/">>,
          num |-> <<"QT", "1", "2", "QT">>, deep |-> <<"{", "QT", "a", "QT", ":", "QT", "b", "QT", "}">>]
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN <<>> ELSE Spell[q[1]] \o Text(Tail(q))
RECURSIVE Spaced(_, _)
Spaced(q, w) == IF q = <<>> THEN w ELSE w \o Spell[q[1]] \o Spaced(Tail(q), w)
\* read into a configuration that holds something
Reads(t) == Read(t).known /\ All(<<SetTo(<<"z">>, <<"1">>), ParseOf(t), SetTo(<<"a">>, <<"2">>)>>)
TokNext == n < Depth /\ \E t \in {"ob", "cb", "os", "cl", "co", "cn", "a", "num", "one", "nul", "sp"} :
   /\ s' = Append(s, t) /\ n' = n + 1 /\ wid' = wid
   /\ (Read(Text(s')).known => Emit(<<SetTo(<<"z">>, <<"1">>), ParseOf(Text(s'))>>))
Valid == {<<"ob", "cb">>, <<"ob", "a", "cn", "b", "cb">>, <<"ob", "a", "cn", "num", "co", "b", "cn", "e", "cb">>,
          <<"ob", "a", "cn", "b", "co", "a", "cn", "num", "cb">>,
          <<"ob", "e", "cn", "a", "co", "b", "cn", "a", "co", "num", "cn", "a", "cb">>}
MutNext == n = 0 /\ \E q \in Valid :
  \/ \E w \in {<<>>, <<"SP">>, <<"TAB", "NL", "CR">>} : Reads(Spaced(q, w))
  \/ \E i \in 1..Len(q) : \/ Reads(Text(SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))))
                          \/ Reads(Text(SubSeq(q, 1, i - 1)))
                          \/ \E t \in DOMAIN Spell : \/ Reads(Text([q EXCEPT ![i] = t]))
                                                     \/ Reads(Text(SubSeq(q, 1, i) \o <<t>> \o SubSeq(q, i + 1, Len(q))))
  \/ \E t \in DOMAIN Spell : Reads(Text(<<t>> \o q))
Pieces == {<<"BS">>, <<"QT">>, <<"u">>, <<"0", "0">>, <<"a">>, <<"n">>, <<"/">>, <<"SP">>, <<"NL">>, <<"C1">>, <<"E9">>, <<"EMO">>,
           <<"BS", "u", "0", "0", "4", "1">>, <<"BS", "u", "0", "0", "e", "9">>, <<"BS", "u", "0", "0", "E", "9">>,
           <<"BS", "u", "0", "0", "0", "0">>, <<"BS", "u", "2", "0", "A", "C">>, <<"BS", "BS">>, <<"BS", "QT">>, <<"BS", "t">>, <<"BS", "x">>,
           <<"DEL">>, <<"4", "1">>, <<"TAB">>, <<"NUL">>}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
EscNext == n = 0 /\ \E w \in SeqsUpTo(Pieces, Depth), asName \in BOOLEAN :
  Reads(<<"{", "QT">> \o (IF asName THEN Flat(w) ELSE <<"a">>) \o <<"QT", ":", "QT">>
        \o (IF asName THEN <<"a">> ELSE Flat(w)) \o <<"QT", "}">>)

Next == CASE Profile = "vals" -> ValNext
          [] Profile = "names" -> NameNext
          [] Profile = "hist" -> HistNext
          [] Profile = "walk" -> WalkNext
          [] Profile = "toks" -> TokNext
          [] Profile = "mut" -> MutNext
          [] Profile = "esc" -> EscNext
Init == s = <<>> /\ n = 0 /\ wid \in 0..Walks
Spec == Init /\ [][Next]_vars
After == IF Profile = "toks" THEN Empty ELSE DoAll(Empty, s)
Laws == \E c \in {After} : OnePerName(c) /\ Trip(c) /\ Stable(c)
=============================================================================
