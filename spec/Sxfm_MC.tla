------------------------------ MODULE Sxfm_MC ------------------------------
(* SXFM documents to read (C18): every document is given to the reader. *)
EXTENDS FM_MC

Ln(lvl, t, nm, id, card) == [lvl |-> lvl, t |-> t, nm |-> nm, id |-> id, card |-> card]
SDoc(ls, cs) == [name |-> "S", lines |-> ls, clauses |-> cs, flaw |-> ""]
SRead(doc, deco) == [op |-> "sxfmread", m |-> "A", doc |-> doc, deco |-> deco]
Lit(x, neg) == [n |-> x, neg |-> neg]
R0 == Ln(0, "r", "root", "?", "")
\* members exactly below groups: elsewhere nothing is said about them
Placed2(ls) == \A j \in 2..Len(ls) :
  (\E i \in 1..(j - 1) : ls[i].lvl = ls[j].lvl - 1) =>
    LET p == LineParent(ls, j) IN
    IF ls[p].t = "g" THEN ls[j].t \in {"c", "g"} ELSE ls[j].t # "c"

\* exhaustive: all trees of four lines, right and wrong
Kinds == {<<"m", "">>, <<"o", "">>, <<"g", "1,1">>, <<"g", "1,*">>, <<"c", "">>}
NameOf(j, t, un) == IF t = "g" /\ un THEN "" ELSE <<"root", "a", "b", "c", "d">>[j]
LinesNext ==
  n = 0 /\ \E un \in BOOLEAN, l0 \in {0, 1} :
    \E l1, l2, l3 \in 0..3, k1, k2, k3 \in Kinds :
      LET ls == <<[R0 EXCEPT !.lvl = l0],
                  Ln(l0 + l1, k1[1], NameOf(2, k1[1], un), "?", k1[2]),
                  Ln(l0 + l2, k2[1], NameOf(3, k2[1], un), "?", k2[2]),
                  Ln(l0 + l3, k3[1], NameOf(4, k3[1], un), "?", k3[2])>> IN
      /\ (un => \E j \in DOMAIN ls : ls[j].t = "g")
      /\ (l0 = 1 => k1[1] = "m" /\ k3[1] = "o")
      /\ Placed2(ls)
      /\ Step(SRead(SDoc(ls, <<>>), 0), TRUE)
\* roots in the wrong place and below the root
RootsNext ==
  n = 0 /\ \E t1, t2, t3 \in {"r", "m"}, l1, l2, l3 \in 0..2 :
    Step(SRead(SDoc(<<Ln(l1, t1, "a", "?", ""), Ln(l2, t2, "b", "?", ""), Ln(l3, t3, "c", "?", "")>>, <<>>), 0), TRUE)
\* identifiers and names in clauses
Refs(S) == SeqOfSet(S \ {"?"})
IdNext ==
  n = 0 /\ \E na, nb \in {"a", "b", "ab", "x1", "H_a"}, ia, ib \in {"?", "a", "b", "ab", "o", "i1", "r", "H_a"} :
    \E s \in BOOLEAN :
      /\ (na = nb => ia = "?" /\ ib = "i1")
      /\ LET q == Refs({na, nb, ia, ib}) IN
         Step(SRead(SDoc(<<R0, Ln(1, "m", na, ia, ""), Ln(1, "o", nb, ib, "")>>,
                         <<[j \in DOMAIN q |-> Lit(q[j], (j % 2 = 0) = s)], <<Lit(q[1], s)>>>>), 1), TRUE)
Base == SDoc(<<Ln(0, "r", "root", "rid", ""), Ln(1, "o", "opt", "i1", ""), Ln(1, "m", "man", "?", ""),
               Ln(2, "g", "", "g_1", "1,*"), Ln(3, "c", "a", "ia", ""), Ln(4, "o", "deep", "q1", ""), Ln(3, "c", "b", "ib", ""),
               Ln(2, "g", "alt", "ga", "1,1"), Ln(3, "c", "x", "?", ""), Ln(3, "c", "y", "iy", ""), Ln(1, "o", "last", "?", "")>>,
             <<<<Lit("ia", TRUE), Lit("i1", FALSE)>>, <<Lit("last", FALSE)>>,
               <<Lit("g_1", TRUE), Lit("ga", TRUE), Lit("rid", FALSE), Lit("x", FALSE)>>>>)
ASSUME SxImport(Base).r = "OK"
OneSxNext ==
  n = 0 /\
  \/ \E deco \in 0..99 : Step(SRead(Base, deco), TRUE)
  \/ \E fl \in SxDocFlaws \cup SxLineFlaws \cup {"unspecified"} : \E deco \in 0..39 :
       Step(SRead([Base EXCEPT !.flaw = fl], deco), TRUE)
  \/ \E c \in {"", "1", "1,2", "0,1", "*,*", "0,*", "2,2", "1,-1", "-1,1", "a,b", "1,", ",1", ",", "1,*,2", "1;1", "1,1,1",
               "1.0,1", "99999999999,1", "NONE", "OPEN 1,1", "OPEN 1,*", "CLOSE 1,1"} :
       \E k \in {4, 8}, deco \in 0..7 :
         Step(SRead([Base EXCEPT !.lines[k].card = c], deco), TRUE)
  \/ \E j, k \in 1..11 : j # k /\ Step(SRead([Base EXCEPT !.lines[k].nm = Base.lines[j].nm], 0), TRUE)
  \/ \E j, k \in 1..11 : j # k /\ Step(SRead([Base EXCEPT !.lines[k].id = Base.lines[j].id], 0), TRUE)
  \/ \E k \in 1..11, l \in 0..6 : Step(SRead([Base EXCEPT !.lines[k].lvl = l], 0), TRUE)
                                   /\ Placed2([Base EXCEPT !.lines[k].lvl = l].lines)
  \/ \E k \in 1..11 : LET d == [Base EXCEPT !.lines = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, 11)] IN
                      Placed2(d.lines) /\ Step(SRead(d, 0), TRUE)
  \/ \E x \in {"z", "or", "root_id"}, neg \in BOOLEAN :
       x # "or" /\ Step(SRead([Base EXCEPT !.clauses[1] = Append(@, Lit(x, neg))], 0), TRUE)
  \/ \E v \in {"?", "", "N & <M>"} : Step(SRead([Base EXCEPT !.name = v], 2), TRUE)
  \/ Step(SRead([Base EXCEPT !.lines = <<>>, !.clauses = <<>>], 0), TRUE)

----------------------------------------------------------------------------
SNames == {"a", "b", "c", "d", "e1", "f_2", "H", "name", "xX", "j", "k"}
SIds == {"a", "b", "i1", "i2", "id", "n", "r_4", "o", "H", "XX", "or_1"}
RECURSIVE RandLines(_, _, _)
RandLines(ls, q, k) ==
  IF k > Len(q) THEN ls
  ELSE LET prev == ls[Len(ls)].lvl
           lvl == RandomElement({prev + 1} \cup {RandomElement((ls[1].lvl + 1)..(prev + 1))})
           probe == Append(ls, Ln(lvl, "c", "", "?", ""))
           p == LineParent(probe, Len(ls) + 1)
           t == IF ls[p].t = "g" THEN RandomElement({"c", "c", "g"}) ELSE RandomElement({"m", "o", "g"})
           \* a group has to have members
           must == ls[Len(ls)].t = "g"
           l2 == IF must THEN prev + 1 ELSE lvl
           p2 == IF must THEN Len(ls) ELSE p
           t2 == IF ls[p2].t = "g" THEN (IF k = Len(q) \/ RandomElement(1..4) > 1 THEN "c" ELSE "g")
                 ELSE IF t = "g" /\ k < Len(q) THEN "g" ELSE RandomElement({"m", "o"})
       IN RandLines(Append(ls, Ln(l2, t2, IF t2 = "g" /\ RandomElement(1..2) = 1 THEN "" ELSE q[k], "?",
                                  IF t2 = "g" THEN RandomElement(Cards) ELSE "")), q, k + 1)
RandSxNext ==
  n = 0 /\
  \E q0 \in {RandPerm(SNames)}, k \in {RandomElement(1..11)}, iq \in {RandPerm(SIds)} :
  \E l0 \in {<<Ln(RandomElement({0, 0, 1, 2}), "r", RandomElement({"root", "base", "Top"}), "?", "")>>} :
  \E l1 \in {RandLines(l0, SubSeq(q0, 1, k), 1)} :
  \E ls \in {[j \in DOMAIN l1 |-> IF j <= Len(iq) /\ RandomElement(1..3) > 1 /\ ~Contains(l1[j].nm, iq[j])
                                  THEN [l1[j] EXCEPT !.id = iq[j]] ELSE l1[j]]} :
  \E refs \in {[j \in DOMAIN ls |-> IF ls[j].id # "?" THEN ls[j].id ELSE LineName(ls, j)]} :
  \E cs \in {[j \in 1..RandomElement(0..4) |-> [h \in 1..RandomElement(1..4) |->
               Lit(IF RandomElement(1..30) = 1 THEN RandomElement(SNames \cup SIds) ELSE refs[RandomElement(DOMAIN refs)],
                   RandomElement(BOOLEAN))]]} :
  \E sp \in {RandomElement(1..14)}, i \in {RandomElement(DOMAIN ls)} :
  \E ls2 \in {CASE sp = 1 /\ i > 1 -> [ls EXCEPT ![i].lvl = RandomElement(0..4)]
                [] sp = 2 -> [ls EXCEPT ![i].id = RandomElement(SIds)]
                [] sp = 3 -> [ls EXCEPT ![i].nm = RandomElement(SNames)]
                [] OTHER -> ls} :
    /\ Placed2(ls2)
    /\ Step(SRead([name |-> RandomElement({"S", "T 2", "?"}), lines |-> ls2, clauses |-> cs, flaw |-> ""],
                  RandomElement(0..1000000)), TRUE)

SNext == CASE Profile = "sxlines" -> LinesNext
           [] Profile = "sxids" -> IdNext
           [] Profile = "sxone" -> OneSxNext \/ RootsNext
           [] Profile = "sxrand" -> RandSxNext
SInit == /\ n = 0 /\ wid \in 0..Walks /\ hist = <<>> /\ w = EmptyWorld
=============================================================================
