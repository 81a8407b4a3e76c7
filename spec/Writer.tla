------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* Writing configurations of a model as lists of flags. A model is a       *)
(* sequence of steps (features "f" with kind, flag and parent, groups "g"),*)
(* a configuration a sequence of settings [n, v]; the last one counts.     *)
(***************************************************************************)
EXTENDS Conf

\* case-insensitive order of the names used
NameSeq == <<"a", "B", "c", "D", "e", "F", "g", "H", "i", "J">>
Rank(x) == CHOOSE i \in 1..Len(NameSeq) : NameSeq[i] = x
Feats(q) == {q[i].n : i \in {i \in DOMAIN q : q[i].e = "f"}}
Feat(q, x) == q[CHOOSE i \in DOMAIN q : q[i].e = "f" /\ q[i].n = x]
Kids(q, x) == {y \in Feats(q) : Feat(q, y).p = x}
\* a feature, then what is below it, children by name
RECURSIVE Visit(_, _)
RECURSIVE VisitAll(_, _)
VisitAll(q, S) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Rank(x) < Rank(y)
       IN Visit(q, x) \o VisitAll(q, S \ {x})
Visit(q, x) == <<x>> \o VisitAll(q, Kids(q, x))
Order(q) == VisitAll(q, Kids(q, "root"))

RECURSIVE ToConf(_, _)
ToConf(c, conf) == IF c = <<>> THEN conf ELSE ToConf(Tail(c), Set(conf, c[1].n, c[1].v))
FlagOf(q, conf, x) ==
  LET o == {o \in conf : o.n = x} IN
  IF o = {} \/ Feat(q, x).out = "" THEN <<>>
  ELSE LET v == CHOOSE v \in o : TRUE IN
       IF Feat(q, x).k = "num" THEN <<Feat(q, x).out \o Join(v.v)>>
       ELSE IF v = [n |-> x, k |-> "b", v |-> TrueText] THEN <<Feat(q, x).out>> ELSE <<>>
RECURSIVE Gather(_, _, _)
Gather(q, conf, xs) == IF xs = <<>> THEN <<>> ELSE FlagOf(q, conf, xs[1]) \o Gather(q, conf, Tail(xs))
Flags(q, c) == Gather(q, ToConf(c, Empty), Order(q))
Number(i) == ToString(i - 1)

\* laws: flags of features that are on, once each, and nothing else
Sound(q, c) ==
  LET conf == ToConf(c, Empty)
      on == {x \in Feats(q) : Feat(q, x).out # "" /\ \E o \in conf : o.n = x /\ o.v # FalseText} IN
  Len(Flags(q, c)) = Cardinality(on)
=============================================================================
