------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* What a configuration of a feature model is, and the solver as a state   *)
(* machine that hands configurations out.                                  *)
(*                                                                         *)
(* A model is described by its root and the steps that build it: features  *)
(* (e = "f"), groups over the children a feature has at that moment (e =   *)
(* "g"), removals ("del") and constraints ("cb", "cn", "cx"). Binary       *)
(* features and the root take the values 0 and 1, numeric features their   *)
(* listed values or those of their range.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, Json

----------------------------------------------------------------------------
\* values of a range: the minimum and every successor up to the maximum
RECURSIVE Pow(_, _)
Pow(b, e) == IF e <= 0 THEN 1 ELSE b * Pow(b, e - 1)
Succ(st, v) == CASE st.o = "+" -> v + st.c
                 [] st.o = "*" -> v * st.c
                 [] st.left -> Pow(st.c, v)
                 [] OTHER -> Pow(v, st.c)
RECURSIVE UpFrom(_, _, _, _, _)
\* the walk never leaves the range at its lower end
UpFrom(st, v, lo, hi, vs) ==
  IF v \in vs \/ v > hi \/ v < lo THEN vs ELSE UpFrom(st, Succ(st, v), lo, hi, vs \cup {v})
One == [o |-> "+", c |-> 1, left |-> FALSE]
Values(f) == IF "list" \in DOMAIN f THEN ToSet(f.list)
             ELSE UpFrom(IF "step" \in DOMAIN f THEN f.step ELSE One, f.range[1], f.range[1], f.range[2], {})

----------------------------------------------------------------------------
\* terms and formulas over an assignment; k gives the kind of every feature
\* ("b" or "i"). In a mixed constraint a feature stands for its number.
RECURSIVE Ev(_, _, _, _)
Ev(c, a, k, mixed) ==
  LET L == Ev(c.l, a, k, mixed)
      R == Ev(c.r, a, k, mixed) IN
  CASE c.o = "f" -> IF k[c.n] = "i" \/ mixed THEN a[c.n] ELSE a[c.n] = 1
    [] c.o = "i" -> c.v
    [] c.o = "!" -> ~Ev(c.x, a, k, mixed)
    [] c.o = "~" -> -Ev(c.x, a, k, mixed)
    [] c.o = "&" -> L /\ R
    [] c.o = "|" -> L \/ R
    [] c.o = "^" -> L # R
    [] c.o = "=>" -> L => R
    [] c.o = "=>!" -> ~(L /\ R)
    [] c.o = "<=>" -> L = R
    [] c.o = "=" -> L = R
    [] c.o = "!=" -> L # R
    [] c.o = "<" -> L < R
    [] c.o = "<=" -> L <= R
    [] c.o = ">" -> L > R
    [] c.o = ">=" -> L >= R
    [] c.o = "+" -> L + R
    [] c.o = "-" -> L - R
    [] c.o = "*" -> L * R
    [] c.o = "/" -> L \div R
RECURSIVE Vars(_)
Vars(c) == CASE c.o = "f" -> {c.n}
             [] c.o = "i" -> {}
             [] c.o \in {"!", "~"} -> Vars(c.x)
             [] OTHER -> Vars(c.l) \cup Vars(c.r)

\* a numeric feature always has a value and so is always there
Present(p, a, k) == k[p] = "i" \/ a[p] = 1
\* a clause is a constraint or a rule of the tree
Holds(q, a, k) ==
  CASE q.t = "con" -> Ev(q.a, a, k, FALSE)
    [] q.t = "mix" -> \/ q.req = "all" /\ \E x \in Vars(q.a) : k[x] = "b" /\ a[x] = 0
                      \/ Ev(q.a, a, k, TRUE) = (q.ek # "neg")
    [] q.t = "root" -> a[q.n] = 1
    [] q.t = "needs" -> a[q.n] = 1 => Present(q.p, a, k)
    [] q.t = "follows" -> Present(q.p, a, k) => a[q.n] = 1
    [] q.t = "group" -> Present(q.p, a, k) =>
         LET s == {x \in q.ch : a[x] = 1} IN IF q.kind = "ALT" THEN Cardinality(s) = 1 ELSE s # {}
ClauseVars(q) == CASE q.t \in {"con", "mix"} -> Vars(q.a)
                   [] q.t = "root" -> {q.n}
                   [] q.t = "group" -> {q.p} \cup q.ch
                   [] OTHER -> {q.n, q.p}

RECURSIVE Extend(_, _, _, _, _)
\* assignments over the features of q, dropping one as soon as a clause over
\* assigned features fails
Extend(dom, kind, cls, q, S) ==
  IF q = <<>> THEN S
  ELSE LET x == q[1]
           done == DOMAIN (CHOOSE a \in S : TRUE) \cup {x}
           now == {c \in cls : x \in ClauseVars(c) /\ ClauseVars(c) \subseteq done}
           T == {b \in {a @@ (x :> v) : a \in S, v \in dom[x]} : \A c \in now : Holds(c, b, kind)} IN
       IF T = {} THEN {} ELSE Extend(dom, kind, cls, Tail(q), T)
Nothing == [x \in {} |-> 0]
Sols(dom, kind, cls) ==
  IF \E c \in cls : ClauseVars(c) = {} /\ ~Holds(c, Nothing, kind) THEN {}
  ELSE Extend(dom, kind, cls, SetToSeq(DOMAIN dom), {Nothing})

----------------------------------------------------------------------------
\* the model a description stands for
Con(e) == CASE e.e = "cx" -> [t |-> "mix", a |-> e.a, req |-> e.req, ek |-> e.ek]
            [] OTHER -> [t |-> "con", a |-> e.a]
RECURSIVE Below(_, _)
Below(m, x) == {x} \cup UNION {Below(m, y) : y \in {y \in DOMAIN m.par : m.par[y] = x}}
Restrict2(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
StepOf(m, e) ==
  CASE e.e = "f" ->
         [m EXCEPT !.F = @ @@ (e.n :> e), !.par = @ @@ (e.n :> e.p)]
    [] e.e = "g" ->
         [m EXCEPT !.G = @ @@ (e.n :> [kind |-> e.kind, ch |-> {y \in DOMAIN m.par : m.par[y] = e.n}])]
    [] e.e = "del" ->
         LET D == Below(m, e.n)  K == DOMAIN m.F \ D IN
         [m EXCEPT !.F = Restrict2(@, K), !.par = Restrict2(@, K),
                   !.G = [x \in DOMAIN @ \ D |-> [@[x] EXCEPT !.ch = @ \ D]],
                   !.C = {c \in @ : Vars(c.a) \cap D = {}}]
    [] OTHER -> [m EXCEPT !.C = @ \cup {Con(e)}]
RECURSIVE Build(_, _)
Build(m, q) == IF q = <<>> THEN m ELSE Build(StepOf(m, q[1]), Tail(q))
Model(d) == Build([root |-> d.root, F |-> [x \in {} |-> {}], par |-> [x \in {} |-> ""],
                   G |-> [x \in {} |-> {}], C |-> {}], d.steps)
Names(m) == {m.root} \cup DOMAIN m.F
KindOf(m, x) == IF x # m.root /\ m.F[x].k = "num" THEN "i" ELSE "b"
DomOf(m, x) == IF KindOf(m, x) = "i" THEN Values(m.F[x]) ELSE {0, 1}
Grouped(m) == UNION {m.G[x].ch : x \in DOMAIN m.G}
\* the clauses a single feature brings along
Own(m, x, alt) ==
  IF x = m.root THEN {[t |-> "root", n |-> x]}
  ELSE IF KindOf(m, x) = "i" THEN {}
  ELSE {[t |-> "needs", n |-> x, p |-> m.par[x]]}
       \cup (IF alt \/ m.F[x].opt THEN {} ELSE {[t |-> "follows", n |-> x, p |-> m.par[x]]})
GroupClause(m, p) == [t |-> "group", p |-> p, kind |-> m.G[p].kind, ch |-> m.G[p].ch]
Clauses(m) == UNION {Own(m, x, x \in Grouped(m)) : x \in Names(m)}
              \cup {GroupClause(m, p) : p \in DOMAIN m.G} \cup m.C
Kinds(m) == [x \in Names(m) |-> KindOf(m, x)]
Doms(m) == [x \in Names(m) |-> DomOf(m, x)]
Configs(m) == Sols(Doms(m), Kinds(m), Clauses(m))

----------------------------------------------------------------------------
\* The solver: features it knows, clauses, the configurations still to come,
\* those already handed out, and the current one.
\* "cur" holds at most one assignment
Fresh(dom, kind, cls) ==
  [dom |-> dom, kind |-> kind, cls |-> cls, seen |-> {}, cur |-> {}, clean |-> TRUE,
   rem |-> Sols(dom, kind, cls)]
EmptySolver == Fresh(Nothing, Nothing, {})
OfModel(m) == Fresh(Doms(m), Kinds(m), Clauses(m))
\* more features or clauses: what was handed out stays excluded
Grown(s, dom, kind, cls) ==
  [s EXCEPT !.dom = dom, !.kind = kind, !.cls = cls, !.clean = FALSE,
            !.rem = {a \in Sols(dom, kind, cls) :
                       \A p \in s.seen : \E x \in DOMAIN p : p[x] # a[x]}]
Knows(s, X) == X \subseteq DOMAIN s.dom
AddFeat(s, m, x, alt) ==
  IF x # m.root /\ ~Knows(s, {m.par[x]}) THEN [s |-> s, res |-> "PARENT_NOT_PRESENT"]
  ELSE IF Knows(s, {x}) THEN [s |-> s, res |-> "ALREADY_PRESENT"]
  ELSE [s |-> Grown(s, s.dom @@ (x :> DomOf(m, x)), s.kind @@ (x :> KindOf(m, x)), s.cls \cup Own(m, x, alt)),
        res |-> "OK"]
AddVar(s, x, k, d) ==
  IF Knows(s, {x}) THEN [s |-> s, res |-> "ALREADY_PRESENT"]
  ELSE [s |-> Grown(s, s.dom @@ (x :> d), s.kind @@ (x :> k), s.cls), res |-> "OK"]
\* the reason of the refusal is not fixed
AddClause(s, c) ==
  IF ~Knows(s, ClauseVars(c)) THEN [s |-> s, res |-> "ERR"]
  ELSE [s |-> Grown(s, s.dom, s.kind, s.cls \cup {c}), res |-> "OK"]
\* handing out configuration a
Take(s, a) == [s EXCEPT !.seen = @ \cup {a}, !.rem = @ \ {a}, !.cur = {a}, !.clean = TRUE]

=============================================================================
