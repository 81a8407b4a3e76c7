------------------------------ MODULE FMTrace ------------------------------
(***************************************************************************)
(* Checks recorded executions against FM. Every line of TraceFile is one   *)
(* script with the events of its execution; each script is an initial      *)
(* state, each event one step. A step is possible only if the recorded     *)
(* result and the recorded state of every model are what World!Act yields.     *)
(***************************************************************************)
EXTENDS World
CONSTANTS TraceFile, Prop
Trace == ndJsonDeserialize(TraceFile)

VARIABLES sid, i, w, bad
vars == <<sid, i, w, bad>>
VView == <<sid, i, bad>>

----------------------------------------------------------------------------
\* facets of a recorded model d against a model m of the specification
Dup(s) == Cardinality(Range(s)) # Len(s)
Node(m, x) == IF m.f[x].grp THEN "#" \o m.f[x].par ELSE m.f[x].par
GName(x) == "#" \o x

CmpMeta(m, d) == d.name = m.name /\ d.path = m.path /\ d.commit = m.commit
CmpSet(m, d) == DOMAIN d.F = Feats(m) /\ d.root = m.root /\ d.size = Cardinality(Feats(m))
CmpTree(m, d) ==
  /\ CmpSet(m, d)
  /\ \A x \in Feats(m) :
       /\ d.F[x].par = Node(m, x)
       /\ d.F[x].pf = m.f[x].par
       /\ ~Dup(d.F[x].ch)
       /\ Range(d.F[x].ch) = Direct(m, x) \cup (IF x \in DOMAIN m.g THEN {GName(x)} ELSE {})
       /\ d.F[x].leaf = (Range(d.F[x].ch) = {})
  /\ DOMAIN d.R = {GName(x) : x \in DOMAIN m.g}
  /\ \A x \in DOMAIN m.g :
       /\ d.R[GName(x)].par = x
       /\ d.R[GName(x)].k = m.g[x]
       /\ ~Dup(d.R[GName(x)].ch)
       /\ Range(d.R[GName(x)].ch) = InGroup(m, x)
CmpAttr(m, d) ==
  \A x \in Feats(m) :
    /\ d.F[x].k = m.f[x].k /\ d.F[x].opt = m.f[x].opt /\ d.F[x].out = m.f[x].out
    /\ d.F[x].vals = m.f[x].vals /\ d.F[x].step = m.f[x].step
CmpLocs(m, d) == \A x \in Feats(m) : d.F[x].locs = m.f[x].locs
Asts(s) == [j \in 1..Len(s) |-> s[j].a]
CmpCons(m, d) ==
  /\ Asts(d.cb) = Asts(m.cb)
  /\ Asts(d.cn) = Asts(m.cn)
  /\ Len(d.cx) = Len(m.cx)
  /\ \A j \in 1..Len(m.cx) : /\ d.cx[j].a = m.cx[j].a
                             /\ d.cx[j].req = m.cx[j].req /\ d.cx[j].ek = m.cx[j].ek
\* constraints as a set: the order in a document has no meaning
MixOf(s) == {[a |-> s[j].a, req |-> s[j].req, ek |-> s[j].ek] : j \in DOMAIN s}
CmpConSet(m, d) ==
  /\ Range(Asts(d.cb)) = Range(Asts(m.cb))
  /\ Range(Asts(d.cn)) = Range(Asts(m.cn))
  /\ MixOf(d.cx) = MixOf(m.cx)
\* clauses: one constraint each, with the same literals
CmpClauses(m, d) ==
  /\ Len(d.cb) = Len(m.cb) /\ d.cn = <<>> /\ d.cx = <<>>
  /\ \A j \in DOMAIN m.cb : Literals(d.cb[j].a) = Literals(m.cb[j].a)
CmpAll(m, d) == /\ CmpMeta(m, d) /\ CmpTree(m, d) /\ CmpAttr(m, d) /\ CmpLocs(m, d)
                /\ CmpCons(m, d)

\* what each feature knows of the constraints
CId(kind, j) == kind \o ToString(j)
Lists(m) == {<<"b", m.cb>>, <<"n", m.cn>>, <<"x", m.cx>>}
CountIn(s, v) == Cardinality({j \in DOMAIN s : s[j] = v})
CmpKnown(m, d) ==
  /\ CmpCons(m, d)
  /\ \A c \in Range(d.cb) \cup Range(d.cn) \cup Range(d.cx) : c.ok
  /\ \A x \in Feats(m) :
       /\ \A l \in Lists(m) : \A j \in DOMAIN l[2] :
            /\ CountIn(d.F[x].cs, CId(l[1], j)) = Occurrences(l[2][j].a, x)
            /\ (CountIn(d.F[x].im, CId(l[1], j)) > 0)
                 = (l[2][j].a.o = "=>" /\ x \in Names(l[2][j].a))
            /\ (CountIn(d.F[x].ex, CId(l[1], j)) > 0)
                 = (l[2][j].a.o = "=>!" /\ x \in Names(l[2][j].a))
       \* and nothing else is listed
       /\ LET all == UNION {{CId(l[1], j) : j \in DOMAIN l[2]} : l \in Lists(m)} IN
          Range(d.F[x].cs) \cup Range(d.F[x].im) \cup Range(d.F[x].ex) \subseteq all

\* well-formedness of what was recorded, without looking at the specification
RawWF(d) ==
  LET nodes == (DOMAIN d.F) \cup (DOMAIN d.R)
      ch(x) == IF x \in DOMAIN d.F THEN d.F[x].ch ELSE d.R[x].ch
      par(x) == IF x \in DOMAIN d.F THEN d.F[x].par ELSE d.R[x].par
      RECURSIVE Up(_, _)
      Up(x, n) == IF x = d.root THEN TRUE
                  ELSE IF n = 0 \/ par(x) \notin nodes THEN FALSE ELSE Up(par(x), n - 1)
  IN /\ d.root \in DOMAIN d.F
     /\ {x \in DOMAIN d.F : d.F[x].k = "root"} = {d.root}
     /\ d.F[d.root].par = ""
     /\ d.lookup
     /\ d.size = Cardinality(DOMAIN d.F)
     /\ \A x \in nodes : Range(ch(x)) \subseteq nodes /\ ~Dup(ch(x))
     /\ \A x \in nodes \ {d.root} :
          /\ par(x) \in nodes
          /\ {y \in nodes : x \in Range(ch(y))} = {par(x)}
          /\ Up(x, Cardinality(nodes))
     /\ d.root \notin UNION {Range(ch(y)) : y \in nodes}
     /\ ~Dup(d.dfs) /\ Range(d.dfs) = DOMAIN d.F

----------------------------------------------------------------------------
\* which facets a property is about
CmpModel(m, d) ==
  CASE Prop = "C01" -> RawWF(d)
    [] Prop \in {"C25", "C26"} -> TRUE
    [] Prop = "C16" -> CmpTree(m, d) => d.dfs = Dfs(m)
    [] Prop = "C14" -> CmpTree(m, d) /\ CmpAttr(m, d) /\ CmpCons(m, d)
    [] Prop = "C15" -> CmpSet(m, d) => CmpLocs(m, d)
    [] Prop = "C18" -> CmpMeta(m, d) /\ CmpTree(m, d) /\ CmpAttr(m, d) /\ CmpClauses(m, d)
    [] Prop \in {"C10", "C11"} ->
         /\ CmpMeta(m, d) /\ CmpTree(m, d) /\ CmpAttr(m, d) /\ CmpLocs(m, d)
         /\ CmpConSet(m, d)
    [] Prop = "C24" -> CmpSet(m, d) => CmpKnown(m, d)
    [] Prop = "C23" -> PyModel(m, d)
    [] OTHER -> CmpAll(m, d)

\* results whose fields are compared as sets
SetOf(f) == [x \in DOMAIN f |-> Range(f[x])]
CmpExtra(op, x, e) ==
  CASE op.op = "removeFeatures" -> Range(e.rest) = x.rest
    [] op.op = "order" -> SetOf(e.lt) = x.lt /\ SetOf(e.gt) = x.gt /\ SetOf(e.eq) = x.eq
    [] op.op = "ofv" -> e.steps = x.steps
    [] op.op = "cursors" -> SameCursors(x.m, x.at, e)
    [] op.op = "build" -> e.par = x.par
    [] op.op = "xmlsave" -> x.doc => (e.verify /\ e.same /\ e.file /\ e.nofile)
    [] op.op = "sxfmread" -> /\ x.verify # "ANY" => e.verify = (x.verify = "YES")
                             /\ e.res = "OK" => e.verify
    [] op.op = "xmlread" -> /\ x.verify # "ANY" => e.verify = (x.verify = "YES")
                            /\ e.file /\ (e.res = "OK" => e.verify)
    [] op.op \in {"dot", "view"} -> SameGraph(x.g, e.graph)
    [] op.op = "nav" -> SameNav(x, e)
    [] op.op = "tool" -> SameTool(x, e)
    [] op.op = "cbuild" -> e.res = "OK" => e.text = x.text /\ e.same /\ e.kinds
    [] op.op = "pyloc" -> /\ e.before = x.before /\ e.after = x.after /\ e.eq = x.eq
                          /\ ~e.none /\ e.eqafter
    [] op.op \in {"locEq"} -> e.eq = x.eq /\ e.ne = x.ne
    [] op.op \in {"locOrd"} -> e.eq = x.eq /\ e.lt = x.lt /\ e.gt = x.gt
    [] op.op = "memberOffset" ->
         /\ e.is = x.is /\ e.has = x.has
         /\ x.has =>
              /\ e.mem = x.mem /\ e.depth = Len(x.cls) /\ e.again
              /\ e.nest = [j \in 1..Len(x.cls) |-> x.cls[Len(x.cls) + 1 - j]]
    [] OTHER -> TRUE

\* results are part of C01 only as far as success or refusal is concerned
CmpRes(op, r, e) ==
  CASE Prop = "C01" -> (e.res \in {"OK", "-", "TRUE", "FALSE"}) = (r \in {"OK", "-", "TRUE", "FALSE"})
    [] Prop \in {"C16", "C24"} -> e.res = r \/ (e.res # "OK" /\ r # "OK")
    [] OTHER -> e.res = r \/ r = "ANY"

Why(op, s, e) ==
  IF e.res \in {"CRASH", "EXCEPTION"} THEN "crash"
  ELSE IF ~CmpRes(op, s.r, e) THEN "result"
  ELSE IF ~CmpExtra(op, s.x, e) THEN "value"
  ELSE IF "st" \notin DOMAIN e THEN ""
  ELSE IF DOMAIN e.st # DOMAIN s.w.M THEN "models"
  ELSE IF \E k \in DOMAIN e.st : ~CmpModel(s.w.M[k], e.st[k]) THEN "state"
  ELSE ""

Init == /\ sid \in 1..Len(Trace)
        /\ i = 1
        /\ w = EmptyWorld
        /\ bad = ""
\* One step consumes the events up to and including the next one whose state
\* was recorded (or the end). The events between are checked for their result.
RECURSIVE Consume(_, _, _)
Consume(ev, j, ww) ==
  IF j > Len(ev) THEN [i |-> j, w |-> ww, bad |-> "", r |-> ""]
  ELSE LET e == ev[j]
           s == Act(ww, e.op)
           y == Why(e.op, s, e)
       IN IF y # "" THEN [i |-> j, w |-> ww, bad |-> y, r |-> s.r]
          ELSE IF "st" \in DOMAIN e THEN [i |-> j + 1, w |-> s.w, bad |-> "", r |-> ""]
          ELSE Consume(ev, j + 1, s.w)
Next ==
  /\ bad = ""
  /\ i <= Len(Trace[sid].ev)
  /\ \E c \in {Consume(Trace[sid].ev, i, w)} :
       /\ i' = c.i /\ w' = c.w /\ bad' = c.bad
       /\ (c.bad # "" => PrintT(<<"MISMATCH", Trace[sid].id, c.i, c.bad, c.r>>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars

\* every model the specification reaches along the traces is well-formed
SpecWF == \A k \in DOMAIN w.M : WF(w.M[k])
=============================================================================
