-------------------------------- MODULE Nav --------------------------------
(***************************************************************************)
(* What single nodes answer: their children of a type down to a depth,     *)
(* their edges, and the text a feature describes itself with.              *)
(***************************************************************************)
EXTENDS FM

GNode(x) == "#" \o x
NodesOf(m) == Feats(m) \cup {GNode(x) : x \in DOMAIN m.g}
NavUp(m, v) == IF v \in Feats(m) THEN IF v = m.root THEN "" ELSE IF m.f[v].grp THEN GNode(m.f[v].par) ELSE m.f[v].par
            ELSE CHOOSE x \in DOMAIN m.g : GNode(x) = v
IsA(m, t, v) == CASE t = "feature" -> v \in Feats(m)
                  [] t = "group" -> v \notin Feats(m)
                  [] OTHER -> TRUE
\* nodes of type t below v; others are looked through, d levels (-1: all) down
RECURSIVE BelowIn(_, _, _, _, _)
BelowIn(m, down, t, v, d) ==
  IF d = 0 THEN {}
  ELSE {u \in down[v] : IsA(m, t, u)}
       \cup UNION {BelowIn(m, down, t, u, d - 1) : u \in {x \in down[v] : ~IsA(m, t, x)}}
DownOf(m) == LET up == TLCEval([v \in NodesOf(m) |-> NavUp(m, v)])
             IN TLCEval([v \in NodesOf(m) |-> {u \in NodesOf(m) : up[u] = v}])

RECURSIVE Bracketed(_, _)
Bracketed(s, j) == IF j > Len(s) THEN "" ELSE "[" \o Tables.disp[s[j]] \o "]" \o Bracketed(s, j + 1)
Described(m, x) ==
  [name |-> x, opt |-> m.f[x].opt, locs |-> Bracketed(m.f[x].locs, 1),
   parent |-> m.f[x].par, vals |-> m.f[x].vals, children |-> Direct(m, x)]

Types == {"feature", "group", "any"}
Depths == {"all", "0", "1", "2", "3"}
DepthOf(s) == CASE s = "all" -> -1 [] s = "0" -> 0 [] s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3
DoNav(w, op) ==
  LET m == w.M[op.m] down == DownOf(m) IN
  RetX(w, "OK",
    [down |-> down,
     below |-> TLCEval([t \in Types |-> [d \in Depths |-> [v \in NodesOf(m) |-> BelowIn(m, down, t, v, DepthOf(d))]]]),
     text |-> TLCEval([x \in Feats(m) |-> Described(m, x)])])

SameText(s, t) == /\ t.name = s.name /\ t.opt = s.opt /\ t.locs = s.locs /\ t.parent = s.parent
                  /\ t.vals = s.vals /\ Range(t.children) = s.children /\ Len(t.children) = Cardinality(s.children)
SameSet(s, q) == Range(q) = s /\ Len(q) = Cardinality(s)
\* what was observed, e, against what is expected, x
SameNav(x, e) ==
  /\ DOMAIN e.to = DOMAIN x.down
  /\ \A v \in DOMAIN x.down : /\ SameSet(x.down[v], e.to[v]) /\ SameSet(x.down[v], e.from[v])
                              /\ e.leaf[v] = (x.down[v] = {})
  /\ \A t \in Types : \A d \in Depths : \A v \in DOMAIN x.down : SameSet(x.below[t][d][v], e.below[t][d][v])
  /\ DOMAIN e.text = DOMAIN x.text
  /\ \A f \in DOMAIN x.text : SameText(x.text[f], e.text[f])
  /\ e.streams
  \* the dump of the whole model shows every feature once, in any order
  /\ Len(e.dump) = Cardinality(DOMAIN x.text)
  /\ {e.dump[j].name : j \in DOMAIN e.dump} = DOMAIN x.text
  /\ \A j \in DOMAIN e.dump : SameText(x.text[e.dump[j].name], e.dump[j])
  /\ Len(e.single) = 1 /\ e.single[1].name \in DOMAIN x.text
  /\ SameText(x.text[e.single[1].name], e.single[1])

\* laws: going down and up agree; looking through groups finds exactly the child features
NavLaws(m) ==
  LET down == DownOf(m) IN
  /\ \A v \in NodesOf(m) : \A d \in {0, 1, 2, 3} : BelowIn(m, down, "any", v, d) = IF d = 0 THEN {} ELSE down[v]
  /\ \A x \in Feats(m) : /\ BelowIn(m, down, "feature", x, -1) = Kids(m, x)
                         /\ BelowIn(m, down, "feature", x, 1) = Direct(m, x)
                         /\ BelowIn(m, down, "feature", x, 2) = Kids(m, x)
                         /\ GNode(x) \in BelowIn(m, down, "group", x, 1) <=> x \in DOMAIN m.g
  /\ BelowIn(m, down, "group", m.root, -1) = {GNode(x) : x \in {y \in DOMAIN m.g : \A z \in AncSelf(m, y) : ~m.f[z].grp}}
=============================================================================
