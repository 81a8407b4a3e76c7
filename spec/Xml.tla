-------------------------------- MODULE Xml --------------------------------
(***************************************************************************)
(* The XML documents feature models are read from and written to.          *)
(*                                                                         *)
(* A document is a record:                                                 *)
(*   name, path, commit   attributes of the document ("?": not given)      *)
(*   opts                 options, in the order of the document; each has  *)
(*     n name, at attributes (a key), par stated parent ("?": none),       *)
(*     kids stated children, impl / excl implied and excluded options      *)
(*   cb, cn, cx           constraints of the three sections                *)
(*   flaw                 "": none; otherwise a defect of the text itself  *)
(***************************************************************************)
EXTENDS FM

ReservedRoots == {"root", "base"}
Leaf(n) == [o |-> "f", n |-> n]
ImpliesC(a, b) == [o |-> "=>", l |-> Leaf(a), r |-> Leaf(b)]
ExcludesC(a, b) == [o |-> "=>!", l |-> Leaf(a), r |-> Leaf(b)]
Excluding(m, a, b) == \E c \in Range(m.cb) : c.a = ExcludesC(a, b)

\* the constraint language has no operator for exclusion: "a =>! b" is "a => !b"
RECURSIVE AsRead(_)
AsRead(a) ==
  CASE a.o \in {"f", "i"} -> a
    [] a.o \in {"!", "~"} -> [a EXCEPT !.x = AsRead(@)]
    [] a.o = "=>!" -> [o |-> "=>", l |-> AsRead(a.l), r |-> [o |-> "!", x |-> AsRead(a.r)]]
    [] OTHER -> [a EXCEPT !.l = AsRead(@), !.r = AsRead(@)]
Simple(a) == a.o \in {"=>", "=>!"} /\ a.l.o = "f" /\ a.r.o = "f"
----------------------------------------------------------------------------
\* siblings that all exclude each other and are all mandatory are alternatives
AreAlternatives(m, x) ==
  LET K == Kids(m, x) IN
  /\ Cardinality(K) > 1
  /\ \A a \in K : ~m.f[a].opt /\ \A b \in K \ {a} : Excluding(m, a, b)
WithAlternatives(m) ==
  LET P == {x \in Feats(m) : AreAlternatives(m, x)} IN
  [m EXCEPT !.g = [x \in P |-> "ALT"],
            !.f = [x \in Feats(m) |-> [m.f[x] EXCEPT !.grp = (x # m.root /\ m.f[x].par \in P)]]]

----------------------------------------------------------------------------
\* reading
Flaws == { \* the text is no valid document
  "empty", "nonsense", "truncated", "twobinaries", "nobinaries", "sections", "noname",
  "order", "badelement", "badcategory", "nostart", "novmname", "minonly", "otherroot",
  "textinvm", "strayattr"}
BadConstraints == {"badcb", "badcn", "badcx"} \* a constraint cannot be read
Refused == [r |-> "NULL", m |-> EmptyFun]

Edges(doc) ==
  UNION {(IF o.par = "?" THEN {} ELSE {<<o.par, o.n>>}) \cup {<<o.n, k>> : k \in Range(o.kids)}
         : o \in Range(doc.opts)}
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlatSeq(Tail(ss))
Import(doc) ==
  LET os == doc.opts
      E == Edges(doc)
      roots == SelectSeq(os, LAMBDA o : o.n \in ReservedRoots)
      con(ck, a) == [d |-> "constraint", ck |-> ck, a |-> a, req |-> "all", ek |-> "pos"]
      ofOpt(o) == [j \in 1..Len(o.impl) |-> con("b", ImpliesC(o.n, o.impl[j]))]
                  \o [j \in 1..Len(o.excl) |-> con("b", ExcludesC(o.n, o.excl[j]))]
      ds == [j \in 1..Len(os) |->
               IF os[j].n \in ReservedRoots THEN [d |-> "root", n |-> os[j].n]
               ELSE [d |-> "feature", n |-> os[j].n, at |-> os[j].at]]
            \o SeqOfSet({[d |-> "edge", p |-> e[1], c |-> e[2]] : e \in E})
            \o FlatSeq([j \in 1..Len(os) |-> ofOpt(os[j])])
            \o [j \in 1..Len(doc.cb) |-> con("b", AsRead(doc.cb[j]))]
            \o [j \in 1..Len(doc.cn) |-> con("n", AsRead(doc.cn[j]))]
            \o [j \in 1..Len(doc.cx) |->
                  [d |-> "constraint", ck |-> "x", a |-> AsRead(doc.cx[j].a),
                   req |-> IF doc.cx[j].req = "none" THEN "none" ELSE "all",
                   ek |-> IF doc.cx[j].ek = "neg" THEN "neg" ELSE "pos"]]
            \o <<[d |-> "name", v |-> doc.name],
                 [d |-> "path", v |-> IF doc.path = "?" THEN "CWD" ELSE doc.path],
                 [d |-> "commit", v |-> IF doc.commit = "?" THEN "" ELSE doc.commit]>>
      s == Build(ds)
  IN IF \/ doc.flaw \in Flaws \cup BadConstraints
        \/ Cardinality({o.n : o \in Range(os)}) # Len(os)
        \/ Len(roots) > 1
        \/ \E e1, e2 \in E : (e1 # e2 /\ e1[2] = e2[2])
        \/ s.r # "OK"
     THEN Refused
     ELSE LET m == IF roots = <<>> THEN s.m
                   ELSE [s.m EXCEPT !.f[roots[1].n].locs = Attr(roots[1].at).locs]
          IN [r |-> "OK", m |-> WithAlternatives(m)]

DoXmlRead(w, op) ==
  IF op.doc.flaw \in {"unspecified"}
  THEN RetX(w, "ANY", [verify |-> "ANY"])
  ELSE LET s == Import(op.doc) IN
       IF s.r = "OK" THEN RetX(SetM(w, op.m, s.m), "OK", [verify |-> "YES"])
       ELSE RetX(w, "NULL", [verify |-> IF op.doc.flaw \in Flaws THEN "NO" ELSE "ANY"])

----------------------------------------------------------------------------
\* writing
Placed(m) == \* both positions are known for every location
  \A x \in Feats(m) : \A l \in Range(m.f[x].locs) : Tables.placed[l]
Expressible(m) ==
  /\ m.root \in ReservedRoots
  /\ \A x \in Feats(m) \ {m.root} : x \notin ReservedRoots /\ m.f[x].k \in {"bin", "num"}
  /\ \A x \in DOMAIN m.g :
       /\ m.g[x] = "ALT"
       /\ Cardinality(Kids(m, x)) > 1
       /\ \A y \in Kids(m, x) : m.f[y].grp /\ ~m.f[y].opt
\* what a document says about a model: the members of a group exclude each other
Normal(m) ==
  LET new == {ExcludesC(a, b) : <<a, b>> \in
                {p \in Feats(m) \X Feats(m) :
                   /\ p[1] # p[2] /\ m.root \notin {p[1], p[2]}
                   /\ m.f[p[1]].grp /\ m.f[p[2]].grp /\ m.f[p[1]].par = m.f[p[2]].par}}
  IN WithAlternatives(
       [m EXCEPT !.cb = [j \in DOMAIN @ |-> [@[j] EXCEPT !.a = IF Simple(@) THEN @ ELSE AsRead(@)]]
                        \o SeqOfSet({[a |-> c] : c \in new \ {c.a : c \in Range(@)}}),
                 !.cn = [j \in DOMAIN @ |-> [@[j] EXCEPT !.a = AsRead(@)]],
                 !.cx = [j \in DOMAIN @ |-> [@[j] EXCEPT !.a = AsRead(@)]]])
DoXmlSave(w, op) ==
  LET m == w.M[op.m] IN
  IF ~Placed(m) THEN RetX(w, "NULL", [doc |-> FALSE])
  ELSE RetX(SetM(w, op.to, Normal(m)), "OK", [doc |-> TRUE])
\* laws of the format
NormalLaws(m) ==
  Expressible(m) =>
    /\ Expressible(Normal(m)) /\ WF(Normal(m))
    /\ Normal(Normal(m)) = Normal(m)
    /\ DOMAIN m.g \subseteq DOMAIN Normal(m).g
    /\ \A x \in Feats(m) : Normal(m).f[x] = [m.f[x] EXCEPT !.grp = Normal(m).f[x].grp]
=============================================================================
