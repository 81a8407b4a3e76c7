-------------------------------- MODULE Py --------------------------------
(***************************************************************************)
(* What the Python bindings show: the same models, seen through the        *)
(* exported functions. Groups are plain nodes without a name or a kind;    *)
(* constraints and locations are seen as text.                             *)
(***************************************************************************)
EXTENDS Sxfm, Dot
L == INSTANCE Lang

\* constraints are chained together by calls
DoChain(w, op) ==
  LET r == L!Built(op.calls) IN
  IF r.ok THEN RetX(w, "OK", [text |-> Written(r.a)]) ELSE Ret(w, "NULL")
\* locations: read, compared and overwritten
DoPyLoc(w, op) ==
  RetX(w, "OK", [before |-> Tables.seen[Tables.loc[op.x]], after |-> Tables.seen[Tables.loc[op.y]],
                 eq |-> op.x = op.y])

Texts(s) == {Written(c.a) : c \in Range(s)}
RECURSIVE Squeezed(_)
Squeezed(ls) == IF ls = <<>> THEN "" ELSE "[" \o Tables.disp[ls[1]] \o "]" \o Squeezed(Tail(ls))
NodeOf(m, x) == IF m.f[x].grp THEN "#" \o m.f[x].par ELSE m.f[x].par
PyModel(m, d) ==
  LET below(x) == Direct(m, x) \cup (IF x \in DOMAIN m.g THEN {GroupNode(x)} ELSE {})
      bag(s, S) == Range(s) = S /\ Len(s) = Cardinality(S) IN
  /\ d.name = m.name /\ d.path = m.path /\ d.commit = m.commit
  /\ d.size = Cardinality(Feats(m)) /\ d.len = d.size /\ d.root = m.root
  /\ d.dfs = Dfs(m)
  /\ DOMAIN d.F = Feats(m)
  /\ \A x \in Feats(m) :
       LET e == d.F[x]  f == m.f[x]  t == d.F[x].text IN
       /\ e.k = f.k /\ e.opt = f.opt /\ e.out = f.out /\ e.isroot = (x = m.root)
       /\ e.par = NodeOf(m, x)
       /\ bag(e.ch, below(x)) /\ e.it = e.ch /\ bag(e.kids, below(x))
       /\ bag(e.pars, IF x = m.root THEN {} ELSE {NodeOf(m, x)})
       /\ e.hl = (f.locs # <<>>)
       /\ e.locs = [j \in DOMAIN f.locs |-> Tables.seen[f.locs[j]]]
       /\ e.same
       /\ t.name = x /\ t.opt = f.opt /\ t.locs = Squeezed(f.locs) /\ t.par = f.par
       /\ bag(t.ch, Direct(m, x)) /\ t.vals = f.vals
  /\ DOMAIN d.R = {GroupNode(x) : x \in DOMAIN m.g}
  /\ \A x \in DOMAIN m.g :
       LET r == d.R[GroupNode(x)] IN
       /\ r.par = x /\ bag(r.ch, InGroup(m, x)) /\ r.it = r.ch
       /\ bag(r.kids, InGroup(m, x)) /\ bag(r.pars, {x})
  /\ Range(d.cb) = Texts(m.cb) /\ Range(d.cn) = Texts(m.cn) /\ d.cin
  /\ {[s |-> c.s, req |-> c.req, ek |-> c.ek] : c \in Range(d.cx)}
       = {[s |-> Written(c.a), req |-> c.req, ek |-> c.ek] : c \in Range(m.cx)}
=============================================================================
