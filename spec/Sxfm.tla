-------------------------------- MODULE Sxfm --------------------------------
(***************************************************************************)
(* The SXFM documents feature models are read from.                        *)
(*                                                                         *)
(* A document is a record:                                                 *)
(*   name     name of the model ("?": not given)                           *)
(*   lines    of the feature tree: lvl level of the indentation, t type    *)
(*            ("r" root, "m" mandatory, "o" optional, "g" group, "c"       *)
(*            member of a group), nm name ("": none), id identifier        *)
(*            ("?": none), card cardinality ("": none)                     *)
(*   clauses  sequences of literals [n name or identifier, neg negated]    *)
(*   flaw     "": none; otherwise a defect of the text itself              *)
(***************************************************************************)
EXTENDS Xml

SxDocFlaws == { \* the text is no valid document
  "empty", "nonsense", "truncated", "notree", "twotrees", "badelement", "sections", "otherroot",
  "strayattr", "nodataname"}
SxLineFlaws == { \* a line cannot be read
  "nocolon", "badtype", "bare", "shifted", "glued", "notype", "noindentation",
  "clausecolon", "clauseempty", "clausebad"}

Contains(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t

\* unnamed groups get artificial names
Unnamed(ls, j) == Cardinality({i \in 1..j : ls[i].nm = ""})
LineName(ls, j) == IF ls[j].nm # "" THEN ls[j].nm ELSE "group_" \o ToString(Unnamed(ls, j))

\* the parent is the last line before that is indented one level less
LineParent(ls, j) ==
  LET C == {i \in 1..(j - 1) : ls[i].lvl = ls[j].lvl - 1} IN
  CHOOSE i \in C : \A h \in C : h <= i

Cards == {"1,1", "1,*"}
TreeOk(ls) ==
  /\ ls # <<>>
  /\ \A j \in DOMAIN ls :
       /\ (ls[j].t = "r") = (j = 1)
       /\ ls[j].t = "g" => ls[j].card \in Cards
       /\ j > 1 => ls[j].lvl > ls[1].lvl /\ ls[j].lvl <= ls[j - 1].lvl + 1
  /\ \A j, k \in DOMAIN ls : j # k => LineName(ls, j) # LineName(ls, k)
IdsOk(ls) ==
  /\ \A j \in DOMAIN ls : ls[j].id # "?" /\ ls[j].nm # "" =>
       ls[j].id = ls[j].nm \/ ~Contains(ls[j].nm, ls[j].id)
  /\ \A j, k \in DOMAIN ls : j # k /\ ls[j].id # "?" => ls[j].id # ls[k].id

\* literals refer to identifiers first, then to names
Meant(ls, x) ==
  LET D == {j \in DOMAIN ls : ls[j].id = x} IN
  IF D = {} THEN x ELSE LineName(ls, CHOOSE j \in D : TRUE)
LitAst(ls, l) == IF l.neg THEN [o |-> "!", x |-> Leaf(Meant(ls, l.n))] ELSE Leaf(Meant(ls, l.n))
RECURSIVE OrOf(_, _, _)
OrOf(ls, c, k) == IF k = 1 THEN LitAst(ls, c[1])
                  ELSE [o |-> "|", l |-> OrOf(ls, c, k - 1), r |-> LitAst(ls, c[k])]
\* the literals of a disjunction
RECURSIVE Literals(_)
Literals(a) == CASE a.o = "|" -> Literals(a.l) \cup Literals(a.r)
                 [] a.o = "!" /\ a.x.o = "f" -> {<<a.x.n, TRUE>>}
                 [] a.o = "f" -> {<<a.n, FALSE>>}
                 [] OTHER -> {<<"?" \o ToString(a), FALSE>>}

SxImport(doc) ==
  LET ls == doc.lines
      at(t) == IF t = "o" THEN "b3" ELSE "b0"
      ds == [j \in DOMAIN ls |->
               IF j = 1 THEN [d |-> "root", n |-> LineName(ls, 1)]
               ELSE [d |-> "feature", n |-> LineName(ls, j), at |-> at(ls[j].t)]]
            \o [j \in 1..(Len(ls) - 1) |->
               [d |-> "edge", p |-> LineName(ls, LineParent(ls, j + 1)), c |-> LineName(ls, j + 1)]]
            \o SeqOfSet({[d |-> "rel", n |-> LineName(ls, j),
                          kind |-> IF ls[j].card = "1,*" THEN "OR" ELSE "ALT"]
                         : j \in {k \in DOMAIN ls : ls[k].t = "g"}})
            \o [j \in DOMAIN doc.clauses |->
               [d |-> "constraint", ck |-> "b", a |-> OrOf(ls, doc.clauses[j], Len(doc.clauses[j])),
                req |-> "all", ek |-> "pos"]]
            \o (IF doc.name = "?" THEN <<>> ELSE <<[d |-> "name", v |-> doc.name]>>)
  IN IF doc.flaw \in SxDocFlaws \cup SxLineFlaws \/ ~TreeOk(ls) \/ ~IdsOk(ls) THEN Refused
     ELSE LET s == Build(ds) IN IF s.r = "OK" THEN s ELSE Refused

DoSxfmRead(w, op) ==
  IF op.doc.flaw = "unspecified" THEN RetX(w, "ANY", [verify |-> "ANY"])
  ELSE LET s == SxImport(op.doc) IN
       IF s.r = "OK" THEN RetX(SetM(w, op.m, s.m), "OK", [verify |-> "YES"])
       ELSE RetX(w, "NULL", [verify |-> IF op.doc.flaw \in SxDocFlaws THEN "NO" ELSE "ANY"])
=============================================================================
