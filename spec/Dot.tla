-------------------------------- MODULE Dot --------------------------------
(***************************************************************************)
(* The graph a feature model is exported to.                               *)
(*                                                                         *)
(* One node per feature and group, one edge per parent-child link; the     *)
(* label of a feature shows its name, its flag, the constraints it takes   *)
(* part in and its locations.                                              *)
(***************************************************************************)
EXTENDS FM

RECURSIVE Written(_)
Written(a) ==
  CASE a.o = "f" -> a.n
    [] a.o = "i" -> a.v
    [] a.o \in {"!", "~"} -> a.o \o Written(a.x)
    [] a.o = "=>!" -> "(" \o Written(a.l) \o " => !" \o Written(a.r) \o ")"
    [] OTHER -> "(" \o Written(a.l) \o " " \o a.o \o " " \o Written(a.r) \o ")"
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) \in {" ", "\t"} THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) \in {" ", "\t"} THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

ConstraintsOf(m) == {c.a : c \in Range(m.cb) \cup Range(m.cn)} \cup {c.a : c \in Range(m.cx)}
GroupNode(x) == "#" \o x
Graph(m) ==
  [nodes |-> [x \in Feats(m) |->
     [flag |-> TrimL(TrimR(m.f[x].out)),
      cons |-> {Written(a) : a \in {b \in ConstraintsOf(m) : x \in Names(b)}},
      locs |-> [j \in DOMAIN m.f[x].locs |-> Tables.disp[m.f[x].locs[j]]]]],
   groups |-> [x \in {GroupNode(y) : y \in DOMAIN m.g} |->
                 LET y == CHOOSE y \in DOMAIN m.g : GroupNode(y) = x IN
                 IF m.g[y] = "ALT" THEN "ALTERNATIVE" ELSE "OR"],
   edges |-> {<<IF m.f[x].grp THEN GroupNode(m.f[x].par) ELSE m.f[x].par, x,
                IF m.f[x].opt THEN "odot" ELSE "dot">> : x \in Feats(m) \ {m.root}}
             \cup {<<x, GroupNode(x), "none">> : x \in DOMAIN m.g}]

\* the same, of a graph that was read back from the exported text
SameGraph(g, r) ==
  /\ r.ok
  /\ r.count = Cardinality(DOMAIN g.nodes) + Cardinality(DOMAIN g.groups)
  /\ DOMAIN r.nodes = DOMAIN g.nodes
  /\ r.groups = g.groups
  /\ Len(r.edges) = Cardinality(g.edges) /\ Range(r.edges) = g.edges
  /\ \A x \in DOMAIN g.nodes :
       LET s == g.nodes[x]  t == r.nodes[x] IN
       /\ t.flag = s.flag
       /\ Range(t.cons) = s.cons
       /\ Len(t.locs) = Len(s.locs)
       /\ \A l \in Range(s.locs) \cup Range(t.locs) :
            Cardinality({j \in DOMAIN t.locs : t.locs[j] = l}) = Cardinality({j \in DOMAIN s.locs : s.locs[j] = l})

\* laws: the graph is a tree over all features and groups
GraphLaws(m) ==
  LET g == Graph(m)
      V == DOMAIN g.nodes \cup DOMAIN g.groups IN
  /\ Cardinality(g.edges) = Cardinality(V) - 1
  /\ \A v \in V \ {m.root} : Cardinality({e \in g.edges : e[2] = v}) = 1
  /\ \A e \in g.edges : e[1] \in V /\ e[2] \in V /\ e[2] # m.root

DoDot(w, op) == RetX(w, "OK", [g |-> Graph(w.M[op.m])])
=============================================================================
