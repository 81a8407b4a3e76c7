-------------------------------- MODULE FM --------------------------------
(***************************************************************************)
(* Feature models, the edits on them, and the two kinds of transactions.   *)
(*                                                                         *)
(* A world holds named model slots and named transactions. Do(w, op) is    *)
(* the one definition of what an operation does and reports; the model     *)
(* checking modules (FM_MC) explore it, the trace module (FMTrace) checks  *)
(* recorded executions of the implementation against it.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TablesFile
\* attr: key -> attributes of a feature; loc: key -> printed source location;
\* rank: name -> position in the case-insensitive order of names
Tables == JsonDeserialize(TablesFile)
Attr(k) == Tables.attr[k]
LocText(k) == Tables.loc[k]
Rank(n) == Tables.rank[n]

----------------------------------------------------------------------------
\* generic helpers
Range(s) == {s[i] : i \in DOMAIN s}
Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
EmptyFun == [x \in {} |-> 0]
FirstIdx(s, P(_)) ==
  IF \E i \in DOMAIN s : P(s[i])
  THEN CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i-1) : ~P(s[j])
  ELSE 0
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE
                                        IN <<x>> \o SeqOfSet(S \ {x})
DropIdx(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))

----------------------------------------------------------------------------
\* constraints are expression trees [o, ...] over feature names
RECURSIVE Names(_)
Names(a) == CASE a.o = "f" -> {a.n}
              [] a.o = "i" -> {}
              [] a.o \in {"!", "~"} -> Names(a.x)
              [] OTHER -> Names(a.l) \cup Names(a.r)
RECURSIVE Occurrences(_, _)
Occurrences(a, n) == CASE a.o = "f" -> IF a.n = n THEN 1 ELSE 0
              [] a.o = "i" -> 0
              [] a.o \in {"!", "~"} -> Occurrences(a.x, n)
              [] OTHER -> Occurrences(a.l, n) + Occurrences(a.r, n)

----------------------------------------------------------------------------
\* models
RootAttr == [k |-> "root", opt |-> FALSE, out |-> "", vals |-> "", step |-> "",
             locs |-> <<>>]
Feat(at, par, grp) ==
  [k |-> at.k, opt |-> at.opt, out |-> at.out, vals |-> at.vals,
   step |-> at.step, locs |-> at.locs, par |-> par, grp |-> grp]

NewModel(name, root, path, commit) ==
  [name |-> name, path |-> path, commit |-> commit, root |-> root,
   f |-> (root :> Feat(RootAttr, "", FALSE)), g |-> EmptyFun,
   cb |-> <<>>, cn |-> <<>>, cx |-> <<>>]

Feats(m) == DOMAIN m.f
Kids(m, x) == {y \in Feats(m) : y # m.root /\ m.f[y].par = x}
Direct(m, x) == {y \in Kids(m, x) : ~m.f[y].grp}
InGroup(m, x) == {y \in Kids(m, x) : m.f[y].grp}
RECURSIVE AncSelf(_, _)
AncSelf(m, x) == IF x = m.root THEN {x} ELSE {x} \cup AncSelf(m, m.f[x].par)
DescSelf(m, x) == {y \in Feats(m) : x \in AncSelf(m, y)}

\* a model is well-formed
WF(m) ==
  /\ m.root \in Feats(m)
  /\ m.f[m.root].k = "root" /\ m.f[m.root].par = ""
  /\ \A x \in Feats(m) \ {m.root} :
       /\ m.f[x].k # "root"
       /\ m.f[x].par \in Feats(m)
       /\ m.f[x].grp => m.f[x].par \in DOMAIN m.g
  \* acyclic: climbing ends in the root
  /\ \A x \in Feats(m) :
       LET RECURSIVE Climb(_, _)
           Climb(y, n) == IF y = m.root THEN TRUE
                          ELSE IF n = 0 THEN FALSE ELSE Climb(m.f[y].par, n - 1)
       IN Climb(x, Cardinality(Feats(m)))
  /\ DOMAIN m.g \subseteq Feats(m)
  /\ \A x \in DOMAIN m.g : m.g[x] \in {"ALT", "OR"}
  \* constraints only mention own features
  /\ \A c \in Range(m.cb) \cup Range(m.cn) : Names(c.a) \subseteq Feats(m)
  /\ \A c \in Range(m.cx) : Names(c.a) \subseteq Feats(m)

\* removing features removes the constraints they take part in
Without(m, S) ==
  LET keep(c) == Names(c.a) \cap S = {} IN
  [m EXCEPT !.f = Restrict(m.f, Feats(m) \ S),
            !.g = Restrict(m.g, Feats(m) \ S),
            !.cb = SelectSeq(m.cb, keep),
            !.cn = SelectSeq(m.cn, keep),
            !.cx = SelectSeq(m.cx, keep)]

Keep(m, r) == [m |-> m, r |-> r]
Done(m) == [m |-> m, r |-> "OK"]

----------------------------------------------------------------------------
\* the edits: what each does to the model and what it reports
AddFeature(m, e) ==
  LET at == Attr(e.at)
      p == IF e.p = "" THEN m.root ELSE e.p IN
  CASE at.k = "root" -> Keep(m, "INCONSISTENT")
    [] p \notin Feats(m) -> Keep(m, "MISSING_PARENT")
    [] e.n \in Feats(m) -> Keep(m, "ALREADY_PRESENT")
    [] OTHER -> Done([m EXCEPT !.f = Put(m.f, e.n, Feat(at, p, FALSE))])

RemoveFeature(m, e) ==
  CASE e.n \notin Feats(m) -> Keep(m, "MISSING_FEATURE")
    [] e.n \in Feats(m) /\ ~e.rec /\ Kids(m, e.n) # {} -> Keep(m, "NON_LEAF_NODE")
    [] e.n \in Feats(m) /\ e.n = m.root /\ (e.rec \/ Kids(m, e.n) = {})
         -> Keep(m, "ERROR")
    [] OTHER -> Done(Without(m, DescSelf(m, e.n)))

AddRel(m, e) ==
  CASE e.n \notin Feats(m) -> Keep(m, "MISSING_PARENT")
    [] e.n \in DOMAIN m.g -> Keep(m, "ALREADY_PRESENT")
    [] OTHER ->
       Done([m EXCEPT
         !.g = Put(m.g, e.n, e.kind),
         !.f = [x \in Feats(m) |-> IF x \in Kids(m, e.n)
                  THEN [m.f[x] EXCEPT !.grp = TRUE] ELSE m.f[x]]])

RemoveRel(m, e) ==
  CASE e.n \notin Feats(m) -> Keep(m, "MISSING_PARENT")
    [] e.n \in Feats(m) /\ e.n \notin DOMAIN m.g -> Keep(m, "ERROR")
    [] OTHER ->
       Done([m EXCEPT
         !.g = Restrict(m.g, Feats(m) \ {e.n}),
         !.f = [x \in Feats(m) |-> IF x \in Kids(m, e.n)
                  THEN [m.f[x] EXCEPT !.grp = FALSE] ELSE m.f[x]]])

AddChild(m, e) ==
  CASE e.c \notin Feats(m) -> Keep(m, "MISSING_CHILD")
    [] e.c \in Feats(m) /\
       (e.p \notin Feats(m) \/ (e.pg /\ e.p \notin DOMAIN m.g))
         -> Keep(m, "MISSING_PARENT")
    [] OTHER ->
       IF e.c \in AncSelf(m, e.p) THEN Keep(m, "RECURSIVE_EDGE")
       ELSE Done([m EXCEPT !.f[e.c].par = e.p, !.f[e.c].grp = e.pg])

SetRoot(m, e) ==
  IF e.n = m.root THEN Done(m)
  ELSE IF e.n \in Feats(m) THEN Keep(m, "ALREADY_PRESENT")
  ELSE LET moved == [x \in Feats(m) |->
              IF x \in Kids(m, m.root) THEN [m.f[x] EXCEPT !.par = e.n]
              ELSE m.f[x]]
           m1 == [m EXCEPT
              !.f = Put(moved, e.n, Feat(RootAttr, "", FALSE)),
              !.g = IF m.root \in DOMAIN m.g
                    THEN Put(m.g, e.n, m.g[m.root]) ELSE m.g,
              !.root = e.n]
       IN Done(Without(m1, {m.root}))

AddLoc(m, e) ==
  IF e.n \notin Feats(m) THEN Keep(m, "MISSING_FEATURE")
  ELSE Done([m EXCEPT !.f[e.n].locs = Append(@, LocText(e.loc))])

RemoveLoc(m, e) ==
  IF e.n \notin Feats(m) THEN Keep(m, "MISSING_FEATURE")
  ELSE LET i == FirstIdx(m.f[e.n].locs, LAMBDA l : l = LocText(e.loc)) IN
       IF i = 0 THEN Done(m)
       ELSE Done([m EXCEPT !.f[e.n].locs = DropIdx(@, i)])

AddConstraint(m, e) ==
  IF ~(Names(e.a) \subseteq Feats(m)) THEN Keep(m, "MISSING_FEATURE")
  ELSE CASE e.ck = "b" -> Done([m EXCEPT !.cb = Append(@, [a |-> e.a])])
         [] e.ck = "n" -> Done([m EXCEPT !.cn = Append(@, [a |-> e.a])])
         [] OTHER -> Done([m EXCEPT !.cx =
                       Append(@, [a |-> e.a, req |-> e.req, ek |-> e.ek])])

Edit(m, e) ==
  CASE e.e = "addFeature" -> AddFeature(m, e)
    [] e.e = "removeFeature" -> RemoveFeature(m, e)
    [] e.e = "addRel" -> AddRel(m, e)
    [] e.e = "removeRel" -> RemoveRel(m, e)
    [] e.e = "addChild" -> AddChild(m, e)
    [] e.e = "setRoot" -> SetRoot(m, e)
    [] e.e = "addLoc" -> AddLoc(m, e)
    [] e.e = "removeLoc" -> RemoveLoc(m, e)
    [] e.e = "addConstraint" -> AddConstraint(m, e)
    [] e.e = "setName" -> Done([m EXCEPT !.name = e.v])
    [] e.e = "setCommit" -> Done([m EXCEPT !.commit = e.v])
    [] e.e = "setPath" -> Done([m EXCEPT !.path = e.v])

\* run edits in order, stop at the first one that is refused
RECURSIVE RunFrom(_, _, _)
RunFrom(m, q, i) ==
  IF i > Len(q) THEN Done(m)
  ELSE LET s == Edit(m, q[i]) IN
       IF s.r # "OK" THEN s ELSE RunFrom(s.m, q, i + 1)
Run(m, q) == RunFrom(m, q, 1)

\* does an edit on a copy report its result?
Reports(e) == e.e \in {"addFeature", "addRel", "addConstraint", "setRoot"}

----------------------------------------------------------------------------
\* bulk removal: what is removed, in closed form
BulkRemoved(m, L, rec) ==
  LET known == {n \in L : n \in Feats(m) /\ n # m.root} IN
  IF rec THEN UNION {DescSelf(m, n) : n \in known}
  ELSE {n \in known : DescSelf(m, n) \subseteq known}

----------------------------------------------------------------------------
\* merging m2 into a copy of m1
SameEnough(m1, m2, x, strict) ==
  LET a == m1.f[x]  b == m2.f[x] IN
  /\ (a.k # "root" /\ b.k # "root") => a.par = b.par
  /\ strict =>
       /\ a.opt = b.opt /\ a.k = b.k
       /\ a.k # "root" => /\ a.grp = b.grp
                          /\ a.k \in {"bin", "num"}
                          /\ a.vals = b.vals
Mergeable(m1, m2, strict) ==
  /\ \A x \in Feats(m2) \cap Feats(m1) : SameEnough(m1, m2, x, strict)
  /\ \A x \in Feats(m2) \ Feats(m1) : m2.f[x].k \in {"bin", "num"}
Merge(m1, m2) ==
  [m1 EXCEPT !.f = [x \in Feats(m1) \cup Feats(m2) |->
     IF x \notin Feats(m1) THEN [m2.f[x] EXCEPT !.grp = FALSE]
     ELSE IF x \notin Feats(m2) THEN m1.f[x]
     ELSE [m1.f[x] EXCEPT !.locs = @ \o
             SelectSeq(m2.f[x].locs, LAMBDA l : l \notin Range(m1.f[x].locs))]]]

----------------------------------------------------------------------------
\* building a model from declarations: tree and features first, then groups
\* constraints and locations; the order across kinds does not matter, and within a
\* kind only for what is stated twice: the last statement counts
OfKind(ds, k) == SelectSeq(ds, LAMBDA d : d.d = k)
Build(ds) ==
  LET roots == OfKind(ds, "root")
      mk(d) == CASE d.d = "feature" -> [e |-> "addFeature", n |-> d.n, at |-> d.at, p |-> ""]
                 [] d.d = "edge" -> [e |-> "addChild", p |-> d.p, pg |-> FALSE, c |-> d.c]
                 [] d.d = "rel" -> [e |-> "addRel", n |-> d.n, kind |-> d.kind]
                 [] d.d = "root" -> [e |-> "setRoot", n |-> d.n]
                 [] d.d = "constraint" -> [e |-> "addConstraint", ck |-> d.ck, a |-> d.a,
                                           req |-> d.req, ek |-> d.ek]
                 [] d.d = "loc" -> [e |-> "addLoc", n |-> d.n, loc |-> d.loc, by |-> "name"]
                 [] d.d = "name" -> [e |-> "setName", v |-> d.v]
                 [] d.d = "commit" -> [e |-> "setCommit", v |-> d.v]
                 [] d.d = "path" -> [e |-> "setPath", v |-> d.v]
      seqof(k) == LET s == OfKind(ds, k) IN [i \in 1..Len(s) |-> mk(s[i])]
      q == seqof("root") \o seqof("feature") \o seqof("edge") \o seqof("name")
           \o seqof("commit") \o seqof("path") \o seqof("rel") \o seqof("constraint") \o seqof("loc")
  IN Run(NewModel("FeatureModel", "root", "", ""), q)
\* the parent reported for an asked name: the last edge declared before
AskedParent(ds, i) ==
  LET es == {j \in 1..(i-1) : ds[j].d = "edge" /\ ds[j].c = ds[i].n} IN
  IF es = {} THEN "?none"
  ELSE LET j == CHOOSE j \in es : \A h \in es : h <= j IN ds[j].p

----------------------------------------------------------------------------
\* order of features and traversal
RECURSIVE PathTo(_, _)
PathTo(m, x) == IF x = m.root THEN <<x>> ELSE Append(PathTo(m, m.f[x].par), x)
Before(m, x, y) ==
  LET p == PathTo(m, x)  q == PathTo(m, y)
      n == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
      d == {i \in 1..n : p[i] # q[i]} IN
  IF d = {} THEN Len(p) < Len(q)
  ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN Rank(p[i]) < Rank(q[i])
RECURSIVE SortedBy(_, _)
SortedBy(m, S) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Before(m, x, y)
       IN <<x>> \o SortedBy(m, S \ {x})
\* the order as an explicit traversal: a feature, then its children by name
RECURSIVE Visit(_, _)
RECURSIVE VisitAll(_, _)
VisitAll(m, S) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Rank(x) < Rank(y)
       IN Visit(m, x) \o VisitAll(m, S \ {x})
Visit(m, x) == <<x>> \o VisitAll(m, Kids(m, x))
Dfs(m) == Visit(m, m.root)
\* inserting into an ordered vector: after every element not greater than x
OfvInsert(m, s, x) ==
  LET i == FirstIdx(s, LAMBDA y : Before(m, x, y)) IN
  IF i = 0 THEN Append(s, x) ELSE SubSeq(s, 1, i-1) \o <<x>> \o SubSeq(s, i, Len(s))
RECURSIVE OfvSteps(_, _, _, _)
OfvSteps(m, q, i, s) ==
  IF i > Len(q) THEN <<>>
  ELSE LET s1 == IF q[i].rm THEN SelectSeq(s, LAMBDA y : y # q[i].n)
                 ELSE OfvInsert(m, s, q[i].n)
       IN <<s1>> \o OfvSteps(m, q, i + 1, s1)

----------------------------------------------------------------------------
\* worlds
EmptyWorld == [M |-> EmptyFun, T |-> EmptyFun]
Ret(w, r) == [w |-> w, r |-> r, x |-> EmptyFun]
RetX(w, r, x) == [w |-> w, r |-> r, x |-> x]
SetM(w, s, m) == [w EXCEPT !.M = Put(w.M, s, m)]
SetT(w, t, x) == [w EXCEPT !.T = Put(w.T, t, x)]
DelT(w, t) == [w EXCEPT !.T = Restrict(w.T, (DOMAIN w.T) \ {t})]

DoOpen(w, op) ==
  Ret(SetT(w, op.t, [mode |-> op.mode, m |-> op.m, open |-> TRUE, q |-> <<>>,
                     c |-> IF op.mode = "copy" THEN <<w.M[op.m]>> ELSE <<>>]), "OK")

DoEdit(w, op) ==
  LET t == w.T[op.t] IN
  IF t.mode = "modify"
  THEN Ret(SetT(w, op.t, [t EXCEPT !.q = Append(@, op)]), "-")
  ELSE IF ~t.open
  THEN Ret(w, IF Reports(op) THEN "ERROR" ELSE "-")
  ELSE LET s == Edit(t.c[1], op) IN
       Ret(SetT(w, op.t, [t EXCEPT !.c = <<s.m>>]), IF Reports(op) THEN s.r ELSE "-")

DoCommit(w, op) ==
  LET t == w.T[op.t]
      closed == [t EXCEPT !.open = FALSE, !.c = <<>>] IN
  IF ~t.open THEN Ret(w, "ABORTED")
  ELSE IF t.mode = "modify"
  THEN LET s == Run(w.M[t.m], t.q) IN
       Ret(SetM(SetT(w, op.t, closed), t.m, s.m), s.r)
  ELSE Ret(SetM(SetT(w, op.t, closed), op.to, t.c[1]), "OK")

DoDrop(w, op) ==
  LET t == w.T[op.t] IN
  IF t.open /\ t.mode = "modify"
  THEN Ret(SetM(DelT(w, op.t), t.m, Run(w.M[t.m], t.q).m), "OK")
  ELSE Ret(DelT(w, op.t), "OK")

\* the helper functions run one transaction and report nothing
HelperEdits(op) ==
  IF op.e = "addFeatures"
  THEN [i \in 1..Len(op.fs) |-> [e |-> "addFeature", n |-> op.fs[i].n,
                                 at |-> op.fs[i].at, p |-> op.fs[i].p]]
  ELSE <<op>>

DoRemoveFeatures(w, op) ==
  LET m == w.M[op.m]
      L == {op.fs[i].n : i \in DOMAIN op.fs}
      S == BulkRemoved(m, L, op.rec) IN
  RetX(SetM(w, op.m, Without(m, S)), "OK",
       [rest |-> {n \in L : n \notin S}])

DoMerge(w, op) ==
  LET m1 == w.M[op.m]  m2 == w.M[op.m2] IN
  IF Mergeable(m1, m2, op.strict)
  THEN Ret(SetM(w, op.to, Merge(m1, m2)), "OK")
  ELSE Ret(w, "NULL")

DoUpdateLoc(w, op) ==
  LET m == w.M[op.m]
      i == FirstIdx(m.f[op.n].locs, LAMBDA l : l = LocText(op.loc)) IN
  IF i = 0 THEN Ret(w, "FALSE")
  ELSE Ret(SetM(w, op.m, [m EXCEPT !.f[op.n].locs[i] = LocText(op.new)]), "TRUE")

DoBuild(w, op) ==
  LET s == Build(op.decls)
      par == [i \in 1..Len(op.decls) |->
                IF op.decls[i].d = "ask" THEN AskedParent(op.decls, i) ELSE "-"] IN
  IF s.r = "OK" THEN RetX(SetM(w, op.m, s.m), "OK", [par |-> par])
  ELSE RetX(w, "NULL", [par |-> par])

DoOrder(w, op) ==
  LET m == w.M[op.m] IN
  RetX(w, "OK", [lt |-> [x \in Feats(m) |-> {y \in Feats(m) : Before(m, x, y)}],
                 gt |-> [x \in Feats(m) |-> {y \in Feats(m) : Before(m, y, x)}],
                 eq |-> [x \in Feats(m) |-> {x}]])

\* class nesting and member of a location offset, given as tokens
\* <<c1, "::", c2, "::", member>>
DoOffset(w, op) ==
  LET tk == op.toks
      n == Len(tk)
      ok == n >= 2 /\ tk[n - 1] = "::" /\ tk[n] # "::" /\ tk[n] # ""
      cls == [i \in 1..((n - 1) \div 2) |-> tk[2 * i - 1]] 
      real == IF ok /\ tk[1] = "::" THEN <<>> ELSE cls IN
  RetX(w, "OK", IF ok THEN [is |-> TRUE, has |-> TRUE, mem |-> tk[n],
                            cls |-> real, again |-> TRUE]
                ELSE [is |-> FALSE, has |-> FALSE])

LocBefore(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

Do(w, op) ==
  CASE op.op = "new" ->
         Ret(SetM(w, op.m, NewModel(op.name, op.root, op.path, op.commit)), "OK")
    [] op.op = "clone" -> Ret(SetM(w, op.to, w.M[op.m]), "OK")
    [] op.op = "destroy" ->
         Ret([w EXCEPT !.M = Restrict(w.M, (DOMAIN w.M) \ {op.m})], "OK")
    [] op.op = "show" -> Ret(w, "OK")
    [] op.op = "open" -> DoOpen(w, op)
    [] op.op = "edit" -> DoEdit(w, op)
    [] op.op = "commit" -> DoCommit(w, op)
    [] op.op = "abort" ->
         Ret(SetT(w, op.t, [w.T[op.t] EXCEPT !.open = FALSE, !.c = <<>>]), "OK")
    [] op.op = "drop" -> DoDrop(w, op)
    [] op.op = "move" -> Ret(SetT(DelT(w, op.t), op.to, w.T[op.t]), "OK")
    [] op.op = "helper" ->
         Ret(SetM(w, op.m, Run(w.M[op.m], HelperEdits(op)).m), "OK")
    [] op.op = "removeFeatures" -> DoRemoveFeatures(w, op)
    [] op.op = "merge" -> DoMerge(w, op)
    [] op.op \in {"updateLoc", "locSet"} -> DoUpdateLoc(w, op)
    [] op.op = "locEq" -> RetX(w, "OK", [eq |-> LocText(op.x) = LocText(op.y),
                                         ne |-> LocText(op.x) # LocText(op.y)])
    [] op.op = "locOrd" -> RetX(w, "OK", [eq |-> op.x = op.y, lt |-> LocBefore(op.x, op.y),
                                          gt |-> LocBefore(op.y, op.x)])
    [] op.op = "memberOffset" -> DoOffset(w, op)
    [] op.op = "order" -> DoOrder(w, op)
    [] op.op = "ofv" -> RetX(w, "OK", [steps |-> OfvSteps(w.M[op.m], op.seq, 1, <<>>)])
    [] op.op = "build" -> DoBuild(w, op)
=============================================================================
