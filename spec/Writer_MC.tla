----------------------------- MODULE Writer_MC ------------------------------
(***************************************************************************)
(* Enumerates models with flags and lists of configurations to write.      *)
(***************************************************************************)
EXTENDS Writer
CONSTANTS Profile, Depth, Walks
VARIABLES s, n, wid
vars == <<s, n, wid>>
Emit(q, cs) == PrintT("SCRIPT " \o ToJson(<<[op |-> "write", root |-> "root", steps |-> q, confs |-> cs]>>))
B(x, p, out) == [e |-> "f", k |-> "bin", n |-> x, p |-> p, out |-> out]
N(x, p, out) == [e |-> "f", k |-> "num", n |-> x, p |-> p, out |-> out, range |-> <<0, 9>>]
G(x, kind) == [e |-> "g", n |-> x, kind |-> kind]
\* what a feature may be
Sorts(x, p) == {B(x, p, ""), B(x, p, "-D" \o x), N(x, p, ""), N(x, p, "--" \o x \o "=")}
Texts(f) == IF f.k = "num" THEN {<<"0">>, <<"-", "3">>, <<"0", "1", "2">>}
            ELSE {<<"t", "r", "u", "e">>, <<"F", "a", "l", "s", "e">>}
\* all configurations of a model, as sequences of settings in model order
RECURSIVE Confs(_)
Confs(q) == IF q = <<>> THEN {<<>>}
            ELSE LET P == Confs(SubSeq(q, 1, Len(q) - 1))  f == q[Len(q)] IN
                 P \cup {Append(c, [n |-> f.n, v |-> v]) : c \in P, v \in Texts(f)}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Put(q, cs) == s' = [q |-> q, cs |-> cs] /\ n' = n + 1 /\ wid' = wid /\ Emit(q, cs)
Orders == {<<"a", "B", "c">>, <<"c", "a", "B">>, <<"B", "c", "a">>}
\* every model of up to Depth features, all its configurations in one list
AllNext == n = 0 /\ \E o \in Orders :
  \E q1 \in {<<>>} \cup {<<f>> : f \in Sorts(o[1], "root")} :
  \E q2 \in {q1} \cup (IF q1 = <<>> THEN {} ELSE {Append(q1, f) : f \in UNION {Sorts(o[2], p) : p \in {"root", o[1]}}}) :
  \E q3 \in {q2} \cup (IF Len(q2) < 2 \/ Depth < 3 THEN {}
                       ELSE {Append(q2, f) : f \in UNION {Sorts(o[3], p) : p \in {"root", o[1], o[2]}}}) :
  Put(q3, AsSeq(Confs(q3)))

\* flags with characters that mean something to YAML or to lists
Odd == {"-D a", "a, b", "[x]", "it's", "say \"x\"", "a: b", "# c", "back\\slash", "\\", "{}", "- x", "&a", "*a", "!t", "|",
        ">", "%", "@", "`", "true", "null", "~", "1", "0x1", "=", " lead", "trail ", "\\n", "\"", "'", "\"\"", "?", "a\\\"b"}
OddNext == n = 0 /\ \E x \in Odd, y \in Odd : \E k \in {"bin", "num"} :
  LET f == IF k = "bin" THEN B("a", "root", x) ELSE N("a", "root", x)
      g == B("B", "root", y) IN
  Put(<<f, g>>, <<<<[n |-> "a", v |-> IF k = "bin" THEN TrueText ELSE <<"7">>]>>,
                  <<[n |-> "B", v |-> TrueText]>>,
                  <<[n |-> "B", v |-> TrueText], [n |-> "a", v |-> IF k = "bin" THEN TrueText ELSE <<"0">>]>>,
                  <<[n |-> "a", v |-> IF k = "bin" THEN TrueText ELSE <<"1">>], [n |-> "B", v |-> TrueText]>>, <<>>>>)

\* random models and lists
Perm(z) == LET i == RandomElement(1..8) IN [j \in 1..8 |-> NameSeq[((i * j + i - 1) % 10) + 1]]
RECURSIVE RFeats(_, _)
RFeats(q, k) ==
  IF k = 0 THEN q
  ELSE LET free == {x \in {NameSeq[i] : i \in 1..10} : x \notin Feats(q)}
           x == RandomElement(free)
           p == RandomElement({"root"} \cup Feats(q))
           f == RandomElement(IF RandomElement(1..4) = 1 THEN {B(x, p, RandomElement(Odd)), N(x, p, RandomElement(Odd))}
                              ELSE Sorts(x, p)) IN
       RFeats(Append(q, f), k - 1)
Groups(q) == {x \in Feats(q) : Cardinality(Kids(q, x)) > 1 /\ \A y \in Kids(q, x) : Feat(q, y).k = "bin"}
RSet(q) == LET x == RandomElement(Feats(q)) IN [n |-> x, v |-> RandomElement(Texts(Feat(q, x)))]
RECURSIVE RConf(_, _)
RConf(q, k) == IF k = 0 THEN <<>>
  ELSE <<IF RandomElement(1..9) = 1 THEN [n |-> "alien", v |-> <<"1">>]
         ELSE IF RandomElement(1..9) = 1 THEN [n |-> "root", v |-> TrueText] ELSE RSet(q)>> \o RConf(q, k - 1)
RECURSIVE RConfs(_, _)
RConfs(q, k) == IF k = 0 THEN <<>> ELSE <<RConf(q, RandomElement(0..8))>> \o RConfs(q, k - 1)
RandNext == n = 0 /\ \E q0 \in {RFeats(<<>>, RandomElement(1..Depth))} :
  \E g \in {IF Groups(q0) = {} \/ RandomElement(BOOLEAN) THEN <<>>
            ELSE <<G(RandomElement(Groups(q0)), RandomElement({"ALT", "OR"}))>>} :
  \E cs \in {RConfs(q0, RandomElement(0..(IF RandomElement(1..8) = 1 THEN 110 ELSE 14)))} : Put(q0 \o g, cs)
Next == CASE Profile = "all" -> AllNext [] Profile = "odd" -> OddNext [] Profile = "rand" -> RandNext
Init == s = [q |-> <<>>, cs |-> <<>>] /\ n = 0 /\ wid \in 0..Walks
Spec == Init /\ [][Next]_vars
Laws == \A i \in DOMAIN s.cs : Sound(s.q, s.cs[i])
=============================================================================
