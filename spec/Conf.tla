-------------------------------- MODULE Conf ---------------------------------
(***************************************************************************)
(* Configurations: a map from option names to values that classify by     *)
(* their text, and its JSON form. Texts are sequences of characters as in  *)
(* Lang, with symbolic names for the special ones.                         *)
(***************************************************************************)
EXTENDS Lang

----------------------------------------------------------------------------
\* values
LowerOf(c) == CASE c = "T" -> "t" [] c = "R" -> "r" [] c = "U" -> "u" [] c = "E" -> "e"
                [] c = "F" -> "f" [] c = "A" -> "a" [] c = "L" -> "l" [] c = "S" -> "s" [] OTHER -> c
LowerAll(cs) == [i \in DOMAIN cs |-> LowerOf(cs[i])]
TrueText == <<"t", "r", "u", "e">>
FalseText == <<"f", "a", "l", "s", "e">>
MinInt == [MaxInt EXCEPT ![19] = "8"]
IsNeg(cs) == cs # <<>> /\ cs[1] = "-"
DigitsOf(cs) == IF IsNeg(cs) THEN Tail(cs) ELSE cs
IsInt(cs) ==
  LET d == DigitsOf(cs) IN
  /\ d # <<>> /\ \A i \in DOMAIN d : d[i] \in Digits
  /\ LET t == Strip(d) IN
     Len(t) < 19 \/ (Len(t) = 19 /\ ~Above(t, IF IsNeg(cs) THEN MinInt ELSE MaxInt))
Value(cs) ==
  IF LowerAll(cs) \in {TrueText, FalseText} THEN [k |-> "b", v |-> LowerAll(cs)]
  ELSE IF IsInt(cs)
  THEN LET t == Strip(DigitsOf(cs)) IN
       [k |-> "i", v |-> IF IsNeg(cs) /\ t # <<"0">> THEN <<"-">> \o t ELSE t]
  ELSE [k |-> "s", v |-> cs]

----------------------------------------------------------------------------
\* configurations: sets of [n, k, v] with one element per name
Empty == {}
Opt(n, v) == LET w == Value(v) IN [n |-> n, k |-> w.k, v |-> w.v]
Set(conf, n, v) == {o \in conf : o.n # n} \cup {Opt(n, v)}

----------------------------------------------------------------------------
\* reading JSON: only flat maps of strings to strings are configurations
Hex(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "D" -> "d"
            [] c = "E" -> "e" [] c = "F" -> "f" [] OTHER -> c
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
Code(h) == LET t == Join([i \in DOMAIN h |-> Hex(h[i])]) IN
  CASE t = "0000" -> "NUL" [] t = "0001" -> "C1" [] t = "0008" -> "BSP" [] t = "0009" -> "TAB"
    [] t = "000a" -> "NL" [] t = "000c" -> "FF" [] t = "000d" -> "CR" [] t = "0020" -> "SP"
    [] t = "0022" -> "QT" [] t = "005c" -> "BS" [] t = "002f" -> "/" [] t = "0041" -> "A"
    [] t = "0061" -> "a" [] t = "0031" -> "1" [] t = "001f" -> "C31" [] t = "007f" -> "DEL"
    [] t = "00e9" -> "E9" [] t = "20ac" -> "EUR" [] OTHER -> "?"
Control == {"NUL", "C1", "C31", "BSP", "TAB", "NL", "FF", "CR"}
Bad == [ok |-> FALSE, known |-> TRUE]
\* characters this specification does not name
NotSaid == [ok |-> FALSE, known |-> FALSE]
RECURSIVE StrFrom(_, _, _)
StrFrom(cs, i, acc) ==
  LET c == At(cs, i)  d == At(cs, i + 1)
      esc(x) == StrFrom(cs, i + 2, Append(acc, x)) IN
  CASE c = "" \/ c \in Control -> Bad
    [] c = "QT" -> [ok |-> TRUE, known |-> TRUE, v |-> acc, j |-> i + 1]
    [] c # "BS" -> StrFrom(cs, i + 1, Append(acc, c))
    [] d \in {"QT", "BS", "/"} -> esc(d)
    [] d = "b" -> esc("BSP") [] d = "f" -> esc("FF") [] d = "n" -> esc("NL")
    [] d = "r" -> esc("CR") [] d = "t" -> esc("TAB")
    [] d = "u" -> IF i + 5 > Len(cs) \/ \E k \in 2..5 : At(cs, i + k) \notin HexDigits THEN Bad
                  ELSE LET x == Code(SubSeq(cs, i + 2, i + 5)) IN
                       IF x = "?" THEN NotSaid ELSE StrFrom(cs, i + 6, Append(acc, x))
    [] OTHER -> Bad
RECURSIVE Ws(_, _)
Ws(cs, i) == IF At(cs, i) \in White THEN Ws(cs, i + 1) ELSE i
\* JSON does not say which of two entries of one name counts; here the last
\* one does, and an entry that is no string is not judged if another follows
Mentions(cs, v) == LET q == <<"QT">> \o v \o <<"QT">> IN
  Cardinality({i \in 1..(Len(cs) - Len(q) + 1) : SubSeq(cs, i, i + Len(q) - 1) = q})
RECURSIVE PairsFrom(_, _, _)
PairsFrom(cs, i0, conf) ==
  LET i == Ws(cs, i0) IN
  IF At(cs, i) # "QT" THEN Bad
  ELSE LET a == StrFrom(cs, i + 1, <<>>) IN
  IF ~a.ok THEN a
  ELSE LET j == Ws(cs, a.j) IN
  IF At(cs, j) # ":" THEN Bad
  ELSE LET k == Ws(cs, j + 1) IN
  IF At(cs, k) # "QT" THEN (IF Mentions(cs, a.v) > 1 THEN NotSaid ELSE Bad)
  ELSE LET b == StrFrom(cs, k + 1, <<>>) IN
  IF ~b.ok THEN b
  ELSE LET l == Ws(cs, b.j)  next == Set(conf, a.v, b.v) IN
  CASE At(cs, l) = "," -> PairsFrom(cs, l + 1, next)
    [] At(cs, l) = "}" /\ Ws(cs, l + 1) > Len(cs) -> [ok |-> TRUE, known |-> TRUE, conf |-> next]
    [] OTHER -> Bad
Read(cs) ==
  LET i == Ws(cs, 1)  j == Ws(cs, i + 1) IN
  IF At(cs, i) # "{" THEN Bad
  ELSE IF At(cs, j) = "}"
  THEN IF Ws(cs, j + 1) > Len(cs) THEN [ok |-> TRUE, known |-> TRUE, conf |-> Empty] ELSE Bad
  ELSE PairsFrom(cs, j, Empty)

----------------------------------------------------------------------------
\* one way to write a configuration
RECURSIVE Quoted(_)
Quoted(s) == IF s = <<>> THEN <<>>
  ELSE LET c == s[1] IN
       (CASE c = "QT" -> <<"BS", "QT">> [] c = "BS" -> <<"BS", "BS">> [] c = "NL" -> <<"BS", "n">>
          [] c = "CR" -> <<"BS", "r">> [] c = "TAB" -> <<"BS", "t">>
          [] c = "NUL" -> <<"BS", "u", "0", "0", "0", "0">>
          [] c = "C1" -> <<"BS", "u", "0", "0", "0", "1">>
          [] c = "C31" -> <<"BS", "u", "0", "0", "1", "f">>
          [] c = "BSP" -> <<"BS", "b">> [] c = "FF" -> <<"BS", "f">> [] OTHER -> <<c>>)
       \o Quoted(Tail(s))
Pair(o) == <<"QT">> \o Quoted(o.n) \o <<"QT", ":", "QT">> \o Quoted(o.v) \o <<"QT">>
RECURSIVE PairsText(_)
PairsText(S) == LET o == CHOOSE o \in S : TRUE IN
  IF Cardinality(S) = 1 THEN Pair(o) ELSE Pair(o) \o <<",">> \o PairsText(S \ {o})
Write(conf) == <<"{">> \o (IF conf = {} THEN <<>> ELSE PairsText(conf)) \o <<"}">>

----------------------------------------------------------------------------
\* sessions: set and add store, parse replaces the configuration if the text
\* is one, trip writes and reads it
Do(conf, a) ==
  CASE a.k \in {"set", "add"} -> Set(conf, a.n, a.v)
    [] a.k = "parse" -> LET r == Read(a.t) IN IF r.ok THEN r.conf ELSE conf
    [] OTHER -> conf
RECURSIVE DoAll(_, _)
DoAll(conf, q) == IF q = <<>> THEN conf ELSE DoAll(Do(conf, q[1]), Tail(q))
\* laws
OnePerName(conf) == \A o, p \in conf : o.n = p.n => o = p
Trip(conf) == Read(Write(conf)) = [ok |-> TRUE, known |-> TRUE, conf |-> conf]
Stable(conf) == \A o \in conf : Opt(o.n, o.v) = o
=============================================================================
