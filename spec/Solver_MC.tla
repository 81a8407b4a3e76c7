----------------------------- MODULE Solver_MC -----------------------------
(***************************************************************************)
(* Enumerates models and solver sessions, checks the laws of Solver on     *)
(* them, and prints them for execution.                                    *)
(***************************************************************************)
EXTENDS Solver
CONSTANTS Profile, Depth, Walks
VARIABLES st, hist, n, wid
vars == <<st, hist, n, wid>>
View == <<st, n, wid>>

EmitS(ops) == PrintT("SCRIPT " \o ToJson(ops))
Bin(o, l, r) == [o |-> o, l |-> l, r |-> r]
F(x) == [o |-> "f", n |-> x]
I(v) == [o |-> "i", v |-> v]
Not(x) == [o |-> "!", x |-> x]
Neg(x) == [o |-> "~", x |-> x]

B(x, opt, p) == [e |-> "f", n |-> x, k |-> "bin", opt |-> opt, p |-> p]
L(x, p, list) == [e |-> "f", n |-> x, k |-> "num", opt |-> FALSE, p |-> p, list |-> list]
R(x, p, lo, hi) == [e |-> "f", n |-> x, k |-> "num", opt |-> FALSE, p |-> p, range |-> <<lo, hi>>]
RS(x, p, lo, hi, o, c, left) ==
  [e |-> "f", n |-> x, k |-> "num", opt |-> FALSE, p |-> p, range |-> <<lo, hi>>,
   step |-> [o |-> o, c |-> c, left |-> left]]
G(x, kind) == [e |-> "g", n |-> x, kind |-> kind]
CB(a) == [e |-> "cb", a |-> a]
CN(a) == [e |-> "cn", a |-> a]
CX(a, req, ek) == [e |-> "cx", a |-> a, req |-> req, ek |-> ek]
D(steps) == [op |-> "smodel", root |-> "root", steps |-> steps]
Op(o) == [op |-> o]
Ask(k) == <<Op("qall"), Op("qnum"), Op("qvalid"), [op |-> "qn", k |-> k]>>
AskAll == <<Op("qall"), Op("qvalid")>>

----------------------------------------------------------------------------
\* all small trees
Fs == <<"a", "B_1", "c", "d">>
Feat(x, p) == {B(x, TRUE, p), B(x, FALSE, p), L(x, p, <<3, -1>>), R(x, p, 0, 2)}
Inner(q) == {"root"} \cup {q[j].n : j \in {j \in 1..Len(q) : q[j].e = "f" /\ q[j].k = "bin"}}
NumKids(q, x) == \E j \in 1..Len(q) : q[j].e = "f" /\ q[j].k = "num" /\ q[j].p = x
Kids(q, x) == {j \in 1..Len(q) : q[j].e = "f" /\ q[j].p = x}
HasG(q, x) == \E j \in 1..Len(q) : q[j].e = "g" /\ q[j].n = x
NoG(q) == \A j \in 1..Len(q) : q[j].e # "g"
\* groups hold binary features only
TreeSteps(q) ==
  (IF n < Depth /\ NoG(q) THEN {Append(q, f) : f \in UNION {Feat(Fs[n + 1], p) : p \in Inner(q)}} ELSE {})
  \cup {Append(q, G(x, k)) : x \in {x \in Inner(q) : Kids(q, x) # {} /\ ~NumKids(q, x) /\ ~HasG(q, x)
                                     /\ \A y \in Inner(q) : HasG(q, y) =>
                                          \E j1, j2 \in 1..Len(q) : j1 < j2 /\ q[j1].n = y /\ q[j2].n = x}
                            , k \in {"ALT", "OR"}}
CountF(q) == Cardinality({j \in 1..Len(q) : q[j].e = "f"})
TreeNext == \E q \in TreeSteps(st) :
   /\ st' = q /\ n' = CountF(q) /\ hist' = hist /\ wid' = wid
   /\ EmitS(<<D(q)>> \o Ask(1 + (Len(q) % 3)))

----------------------------------------------------------------------------
\* random larger models
BoolTerms0(X) == {F(x) : x \in X}
RECURSIVE RBool(_, _)
RBool(X, d) == LET k == RandomElement(1..(IF d = 0 THEN 1 ELSE 4)) IN
  CASE k = 1 -> F(RandomElement(X))
    [] k = 2 -> Not(RBool(X, d - 1))
    [] OTHER -> Bin(RandomElement({"&", "|", "^", "=>", "=>!", "<=>", "=", "!="}), RBool(X, d - 1), RBool(X, d - 1))
RECURSIVE RTerm(_, _)
RTerm(X, d) == LET k == RandomElement(1..(IF d = 0 THEN 3 ELSE 7)) IN
  CASE k <= 2 -> F(RandomElement(X))
    [] k = 3 -> I(RandomElement(0..4))
    [] k = 4 -> Neg(RTerm(X, d - 1))
    [] OTHER -> Bin(RandomElement({"+", "-", "*"}), RTerm(X, d - 1), RTerm(X, d - 1))
RCmp(X, d) == Bin(RandomElement({"=", "!=", "<", "<=", ">", ">="}), RTerm(X, d), RTerm(X, d - 1))
RECURSIVE RForm(_, _)
RForm(X, d) == LET k == RandomElement(1..(IF d = 0 THEN 2 ELSE 4)) IN
  CASE k <= 2 -> RCmp(X, 1 + d)
    [] k = 3 -> Not(RForm(X, d - 1))
    [] OTHER -> Bin(RandomElement({"&", "|", "^", "=>", "<=>"}), RForm(X, d - 1), RForm(X, d - 1))
Bools(q) == Inner(q)
Nums(q) == {q[j].n : j \in {j \in 1..Len(q) : q[j].e = "f" /\ q[j].k = "num"}}
RFeat(x, q) == LET p == RandomElement(Inner(q))  k == RandomElement(1..10) IN
  CASE k <= 3 -> B(x, TRUE, p)
    [] k <= 6 -> B(x, FALSE, p)
    [] HasG(q, p) \/ k <= 7 -> B(x, k % 2 = 0, p)
    [] k = 8 -> L(x, p, <<RandomElement(-3..3), RandomElement(4..5)>>)
    [] k = 9 -> R(x, p, RandomElement(-1..1), RandomElement(0..2))
    [] OTHER -> RandomElement({RS(x, p, 1, 9, "*", 2, FALSE), RS(x, p, 0, 5, "*", 3, TRUE),
                               RS(x, p, 2, 20, "^", 2, FALSE), RS(x, p, -3, 4, "+", 3, TRUE),
                               RS(x, p, 1, 17, "^", 2, TRUE), RS(x, p, 2, 5, "+", 0, FALSE)})
RGroup(q) == LET S == {x \in Inner(q) : Kids(q, x) # {} /\ ~NumKids(q, x) /\ ~HasG(q, x)} IN
  IF S = {} THEN q ELSE Append(q, G(RandomElement(S), RandomElement({"ALT", "OR"})))
Names7 == <<"a", "b", "c", "d", "e", "f", "g", "h">>
RECURSIVE RSteps(_, _)
RSteps(q, k) ==
  IF k > Depth THEN q
  ELSE LET q1 == Append(q, RFeat(Names7[k], q))
           z == RandomElement(1..4) IN
       RSteps(IF z <= 2 THEN RGroup(q1) ELSE q1, k + 1)
RCons(q) == LET z == RandomElement(1..5)
                X == Bools(q)
                N == Nums(q) IN
  CASE z <= 2 -> <<CB(RBool(X, 2))>>
    [] z = 3 /\ N # {} -> <<CN(RForm(N, 1))>>
    [] z = 4 -> <<CX(RForm(X \cup N, 1), RandomElement({"all", "none"}), RandomElement({"pos", "neg"}))>>
    [] OTHER -> <<>>
Deep(q) == IF RandomElement(1..6) # 1 THEN <<>>
           ELSE <<[e |-> "del", n |-> RandomElement({q[j].n : j \in {j \in 1..Len(q) : q[j].e = "f"}})]>>
RandNext == n = 0 /\ \E q0 \in {RSteps(<<>>, 1)} : \E q \in {q0 \o RCons(q0) \o RCons(q0) \o Deep(q0)} :
   /\ st' = q /\ n' = 1 /\ hist' = hist /\ wid' = wid
   /\ EmitS(<<D(q)>> \o Ask(RandomElement(0..9)))

----------------------------------------------------------------------------
\* wide groups, deep chains, many values
WNames == <<"a", "b", "c", "d", "e", "f", "g", "h", "i">>
Members(k, p, m) == [j \in 1..k |-> B(WNames[j], m = 2 \/ (m = 1 /\ j % 2 = 0), p)]
Chain(k, m) == [j \in 1..k |-> B(WNames[j], m = 2 \/ (m = 1 /\ j % 2 = 0), IF j = 1 THEN "root" ELSE WNames[j - 1])]
All8(o, k) == LET RECURSIVE Go(_)
                  Go(j) == IF j = 1 THEN F(WNames[1]) ELSE Bin(o, Go(j - 1), F(WNames[j])) IN Go(k)
Upto(k) == [j \in 1..k |-> 3 * j - 10]
Shapes ==
  {Members(k, "root", m) \o <<G("root", g)>> : k \in 4..(Depth + 6), m \in 0..2, g \in {"ALT", "OR"}}
  \cup {<<B("p", TRUE, "root")>> \o Members(k, "p", 0) \o <<G("p", g), CB(Bin(o, F("p"), F(WNames[k])))>> :
           k \in {4, 5, 6}, g \in {"ALT", "OR"}, o \in {"=>", "=>!", "^"}}
  \cup {Chain(k, m) : k \in 4..(Depth + 7), m \in 0..2}
  \cup {Append(Chain(k, 1), G(WNames[j], g)) : k \in {5, 7}, j \in {3, 4}, g \in {"ALT", "OR"}}
  \cup {Append(Members(k, "root", 2), CB(All8(o, k))) : k \in 4..(Depth + 5), o \in {"&", "|", "^", "=>", "<=>"}}
  \cup {<<L("x", "root", Upto(k))>> : k \in 4..(Depth + 14)} \cup {<<R("x", "root", -k, 2 * k)>> : k \in 2..(Depth + 8)}
  \cup {<<RS("x", "root", 1, 100, "+", k, FALSE)>> : k \in 3..12}
  \cup {<<L("x", "root", <<1, 2, 3>>), L("y", "root", <<0, 5>>), L("z", "root", <<-1, 4, 9>>), CN(Bin(o, Bin("+", F("x"), Bin("+", F("y"), F("z"))), I(6)))>>
           : o \in {"=", "<=", ">"}}
WideNext == n = 0 /\ \E q \in Shapes :
   /\ st' = q /\ n' = 1 /\ hist' = hist /\ wid' = wid
   /\ EmitS(<<D(q)>> \o Ask(Len(q)))

----------------------------------------------------------------------------
\* models whose numbers are given in a large unit (big: which one): nothing but
\* sums and comparisons, so that the unit does not matter
RLin(X, d) == LET RECURSIVE Go(_)
                  Go(h) == LET k == RandomElement(1..(IF h = 0 THEN 3 ELSE 6)) IN
                    CASE k <= 2 -> F(RandomElement(X))
                      [] k = 3 -> I(RandomElement(0..4))
                      [] k = 4 -> Neg(Go(h - 1))
                      [] OTHER -> Bin(RandomElement({"+", "-"}), Go(h - 1), Go(h - 1))
              IN Go(d)
RLinCmp(X) == Bin(RandomElement({"=", "!=", "<", "<=", ">", ">="}), RLin(X, 2), RLin(X, 1))
RBig(x, u) == LET p == RandomElement({"root", "a"}) IN
  IF u = 2 \/ RandomElement(1..2) = 1
  THEN L(x, p, <<RandomElement(-5..-1), RandomElement(0..2), RandomElement(3..6)>>)
  ELSE RS(x, p, RandomElement(-3..0), RandomElement(2..7), "+", RandomElement(1..3), RandomElement(BOOLEAN))
BigNext == n = 0 /\ \E u \in {1, 2} : \E q \in {<<B("a", TRUE, "root"), RBig("x", u), RBig("y", u)>>
                                              \o <<CN(RLinCmp({"x", "y"}))>>
                                              \o (IF RandomElement(1..3) = 1 THEN <<CN(RLinCmp({"x", "y"}))>> ELSE <<>>)
                                              \o (IF RandomElement(1..3) = 1 THEN <<CX(RLinCmp({"x"}), "none", "neg")>> ELSE <<>>)} :
   /\ st' = q /\ n' = 1 /\ hist' = hist /\ wid' = wid
   /\ EmitS(<<D(q) @@ [big |-> u]>> \o Ask(RandomElement(0..4)))

----------------------------------------------------------------------------
\* one constraint over a fixed model
ConBase == <<B("a", TRUE, "root"), B("b", TRUE, "root"), L("x", "root", <<0, 1, 3>>), L("y", "root", <<-2, 0, 2>>)>>
Cmps == {"=", "!=", "<", "<=", ">", ">="}
BOps == {"&", "|", "^", "=>", "=>!", "<=>", "=", "!="}
Bo0 == {F("a"), F("b")}
Bo1 == Bo0 \cup {Not(x) : x \in Bo0} \cup {Bin(o, x, y) : o \in BOps, x \in Bo0, y \in Bo0 \cup {F("root")}}
Bo2 == Bo1 \cup {Not(x) : x \in Bo1} \cup {Bin(o, x, y) : o \in BOps, x \in Bo1, y \in Bo0}
       \cup {Bin(o, y, Not(x)) : o \in BOps, x \in Bo1, y \in Bo0}
T0 == {F("x"), F("y"), I(2)}
T1 == T0 \cup {Neg(t) : t \in T0} \cup {Bin(o, t, u) : o \in {"+", "-", "*"}, t \in T0, u \in T0}
      \cup {Bin("/", F("x"), I(2)), Bin("/", Bin("*", F("x"), F("x")), I(2))}
T2 == {Bin(o, t, u) : o \in {"+", "-", "*"}, t \in T1, u \in T0} \cup {Bin(o, u, t) : o \in {"-", "*"}, t \in T1, u \in T0}
No1 == {Bin(o, t, u) : o \in Cmps, t \in T1, u \in T0}
Lo1 == {Bin(o, t, u) : o \in {"&", "|", "^", "=>", "<=>", "=>!"}, t \in {Bin("<", F("x"), F("y"))}, u \in {Bin("=", F("y"), I(2)), Not(Bin(">=", F("x"), I(3)))}}
M0 == {F("a"), F("x"), I(1)}
M1 == M0 \cup {Neg(t) : t \in M0} \cup {Bin(o, t, u) : o \in {"+", "-", "*"}, t \in M0, u \in M0 \cup {F("b")}}
Mi1 == {Bin(o, t, u) : o \in Cmps, t \in M1, u \in {F("x"), I(1), F("b")}}
       \cup {Bin(o, Bin("<", F("a"), F("x")), Bin("=", F("b"), I(1))) : o \in {"&", "|", "^", "=>", "<=>", "=>!"}}
Mixed(S) == {CX(a, r, k) : a \in S, r \in {"all", "none"}, k \in {"pos", "neg"}}
\* quick: a random part of it
\* (the parameter keeps TLC from evaluating the random choices only once)
ConChoice(z) ==
  CASE Profile = "cons1" -> {CB(a) : a \in Bo1} \cup {CN(a) : a \in Lo1}
    [] Profile = "consb" -> {CB(a) : a \in Bo2}
    [] Profile = "consn" -> {CN(a) : a \in No1 \cup {Bin("<=", t, I(1)) : t \in T2}}
    [] Profile = "consx" -> Mixed(Mi1)
    [] Profile = "consr" -> {RandomElement({CB(a) : a \in Bo2}),
                             RandomElement({CN(a) : a \in No1 \cup {Bin("<", t, u) : t \in T2, u \in T0}}),
                             RandomElement(Mixed(Mi1)), CN(RForm({"x", "y"}, 2)),
                             CX(RForm({"x", "a", "b", "y"}, 2), RandomElement({"all", "none"}), RandomElement({"pos", "neg"}))}
ConNext == n = 0 /\ \E c \in ConChoice(wid) :
   /\ st' = Append(ConBase, c) /\ n' = 1 /\ hist' = hist /\ wid' = wid
   /\ EmitS(<<D(Append(ConBase, c))>> \o AskAll)

----------------------------------------------------------------------------
\* sessions with the solver itself
HModel == D(<<B("a", TRUE, "root"), B("b", FALSE, "root"), B("c", FALSE, "a"), B("d", TRUE, "a"),
              G("a", "ALT"), L("x", "root", <<1, -2>>)>>)
HM == Model(HModel)
AddFs == {[op |-> "saddF", n |-> x] : x \in {"root", "a", "b", "x"}}
         \cup {[op |-> "saddF", n |-> x, alt |-> TRUE] : x \in {"c", "d"}}
Conss == {[op |-> "saddC", a |-> Bin("=>!", F("a"), F("b"))], [op |-> "saddC", a |-> Bin("<", F("x"), I(1))],
         [op |-> "saddC", a |-> Bin("|", F("b"), F("zz"))],
         [op |-> "saddM", a |-> Bin("<", Bin("+", F("a"), F("x")), I(2)), req |-> "none", ek |-> "pos"],
         [op |-> "saddM", a |-> Bin("=", F("a"), F("zz")), req |-> "all", ek |-> "neg"]}
Vars1 == {[op |-> "saddB", n |-> "a"], [op |-> "saddB", n |-> "z"], [op |-> "saddN", n |-> "x", list |-> <<4, 5>>],
          [op |-> "saddN", n |-> "w", list |-> <<7>>]}
Steps1 == {Op("snext"), Op("scur"), Op("svalid")}
Odd == {[op |-> "saddR", n |-> "a"], [op |-> "srem", n |-> "a"],
        [op |-> "saddO", n |-> "lone", k |-> "bin", opt |-> TRUE]}
\* the solver after op; the configuration handed out is any of those to come
After(s, op) ==
  CASE op.op = "saddF" -> {AddFeat(s, HM, op.n, "alt" \in DOMAIN op).s}
    [] op.op = "saddB" -> {AddVar(s, op.n, "b", {0, 1}).s}
    [] op.op = "saddN" -> {AddVar(s, op.n, "i", ToSet(op.list)).s}
    [] op.op = "saddR" -> {AddClause(s, GroupClause(HM, op.n)).s}
    [] op.op = "saddC" -> {AddClause(s, [t |-> "con", a |-> op.a]).s}
    [] op.op = "saddM" -> {AddClause(s, [t |-> "mix", a |-> op.a, req |-> op.req, ek |-> op.ek]).s}
    [] op.op = "snext" \/ (op.op = "scur" /\ s.cur = {}) ->
         IF s.rem = {} THEN {s} ELSE {Take(s, CHOOSE a \in s.rem : TRUE)}
    [] OTHER -> {s}
SessNext(A) == n < Depth /\ \E op \in A : \E s \in After(st, op) :
   /\ st' = s /\ n' = n + 1 /\ wid' = wid /\ hist' = Append(hist, op)
   /\ EmitS(hist')
SessR == n < Depth /\ \E op \in {RandomElement(RandomElement({AddFs, AddFs, Conss, Vars1, Steps1, Steps1, Odd}))} :
   \E s \in After(st, op) :
   /\ st' = s /\ n' = n + 1 /\ wid' = wid /\ hist' = Append(hist, op)
   /\ (n' = Depth => EmitS(hist'))
\* iterating over models with 0, 1, 2, 4 and 5 configurations
ItModels == <<<<B("a", FALSE, "root"), CB(Not(F("a")))>>, <<B("a", FALSE, "root")>>,
              <<B("a", TRUE, "root")>>, <<B("a", TRUE, "root"), L("x", "root", <<-1, 1>>)>>,
              <<R("x", "root", 1, 5)>>>>
ItNext == n < Depth /\ \E op \in {Op("itget"), Op("itinc"), Op("itend")} :
   /\ st' = <<st[1], IF op.op = "itinc" THEN st[2] + 1 ELSE st[2], op.op>>
   /\ n' = n + 1 /\ wid' = wid /\ hist' = Append(hist, op) /\ EmitS(hist')

IsSess == Profile \in {"hist", "histr", "histm"}
Init == /\ n = 0
        /\ wid \in 0..Walks
        /\ CASE Profile = "hist" -> st = EmptySolver /\ hist = <<HModel, Op("snew")>>
             [] Profile = "histr" -> st = EmptySolver /\ hist = <<HModel, Op("snew")>>
             [] Profile = "histm" -> st = OfModel(HM) /\ hist = <<HModel, [op |-> "snew", model |-> TRUE]>>
             [] Profile = "iter" -> \E k \in 1..Len(ItModels) :
                   st = <<k, 1, "">> /\ hist = <<D(ItModels[k]), Op("itnew")>>
             [] OTHER -> st = <<>> /\ hist = <<>>
        /\ (~IsSess /\ Profile # "iter" => EmitS(<<D(<<>>)>> \o Ask(2)))
Next == CASE Profile = "tree" -> TreeNext
          [] Profile = "treer" -> RandNext
          [] Profile = "big" -> BigNext
          [] Profile = "wide" -> WideNext
          [] Profile \in {"cons1", "consb", "consn", "consx", "consr"} -> ConNext
          [] Profile = "hist" -> SessNext(AddFs \cup Conss \cup Vars1 \cup Steps1 \cup Odd)
          [] Profile = "histm" -> SessNext(Steps1 \cup Conss)
          [] Profile = "histr" -> SessR
          [] Profile = "iter" -> ItNext
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Laws
IsModel == ~IsSess /\ Profile # "iter"
M == Model(D(st))
\* counting along the tree gives the number of configurations of a model
\* without constraints
RECURSIVE Sel(_, _), Des(_, _)
Prod(S, f(_)) == FoldSet(LAMBDA x, y : f(x) * y, 1, S)
Kids2(m, x) == {y \in DOMAIN m.par : m.par[y] = x}
Des(m, x) == (IF KindOf(m, x) = "i" THEN Cardinality(DomOf(m, x)) ELSE 1)
             * Prod(Kids2(m, x), LAMBDA y : Des(m, y))
Sel(m, x) ==
  LET g == IF x \in DOMAIN m.G THEN m.G[x].ch ELSE {}
      out(y) == IF KindOf(m, y) = "i" THEN Des(m, y)
                ELSE IF m.F[y].opt THEN Sel(m, y) + Des(m, y) ELSE Sel(m, y)
      rest == Prod(Kids2(m, x) \ g, out)
      grp == IF x \notin DOMAIN m.G THEN 1
             ELSE IF m.G[x].kind = "ALT"
             THEN FoldSet(LAMBDA y, acc : acc + Sel(m, y) * Prod(g \ {y}, LAMBDA z : Des(m, z)), 0, g)
             ELSE Prod(g, LAMBDA y : Sel(m, y) + Des(m, y)) - Prod(g, LAMBDA y : Des(m, y)) IN
  rest * grp
CountLaw == IsModel => LET m0 == [M EXCEPT !.C = {}] IN Cardinality(Configs(m0)) = Sel(m0, m0.root)
\* constraints only take configurations away, and a constraint and its
\* negation share them out
Shares == IsModel => LET m0 == [M EXCEPT !.C = {}] IN
  /\ Configs(M) \subseteq Configs(m0)
  /\ \A c \in M.C :
       LET neg == IF c.t = "con" THEN [c EXCEPT !.a = Not(@)]
                  ELSE [c EXCEPT !.ek = IF @ = "neg" THEN "pos" ELSE "neg"]
           P == Configs([m0 EXCEPT !.C = {c}])
           Q == Configs([m0 EXCEPT !.C = {neg}])
           V == {a \in Configs(m0) : c.t = "mix" /\ c.req = "all" /\ \E x \in Vars(c.a) : Kinds(m0)[x] = "b" /\ a[x] = 0} IN
       P \cup Q = Configs(m0) /\ P \cap Q = V
\* nothing is handed out twice, and nothing is lost
Sess == IsSess => /\ st.rem \cap st.seen = {}
                  /\ st.rem = {a \in Sols(st.dom, st.kind, st.cls) :
                                 \A p \in st.seen : \E x \in DOMAIN p : p[x] # a[x]}
                  /\ (st.cur # {} => st.cur \subseteq st.seen)
=============================================================================
