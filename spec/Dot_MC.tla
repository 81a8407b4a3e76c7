------------------------------- MODULE Dot_MC -------------------------------
(***************************************************************************)
(* Models whose graph is looked at (C22).                                  *)
(***************************************************************************)
EXTENDS Xml_MC

Look == Profile \in {"nseed", "ntree", "none", "nrand"}
ExportOp == [op |-> IF Look THEN "nav" ELSE "dot", m |-> "A"]
ViewOps(m) == IF ~Look /\ Expressible(m) /\ Placed(m) /\ UNION {Names(a) : a \in ConstraintsOf(m)} \subseteq Ident THEN <<[op |-> "view", m |-> "A"]>> ELSE <<>>
\* do ops, then export; sometimes look at it through the viewer as well
Drawn(ops, view, out) ==
  LET m == After(ops) IN
  /\ Assert(GraphLaws(m) /\ NavLaws(m), <<"graph", m>>)
  /\ StepAll(ops \o <<ExportOp>>, FALSE)
  /\ (out => Emit(hist \o Quiet(ops, 1) \o <<ExportOp>> \o (IF view THEN ViewOps(m) ELSE <<>>)))

\* every start model, and every edit on it
SeedDotNext ==
  \/ n = 0 /\ \E s \in 1..9 : Drawn(NewA(s), TRUE, TRUE)
  \/ n = 1 /\ \E e \in CloneEdits \cup SmallEdits :
       CanMacro("A", e) /\ Edit(w.M["A"], e).r = "OK" /\ Drawn(Tx("A", e), FALSE, TRUE)
\* every tree of four features with every set of groups, and a late direct child
TreeDotNext ==
  n = 0 /\ \E par \in Trees({"a", "b", "c", "d"}) : \E G \in SUBSET Parents(par) : \E k \in {"ALT", "OR"} :
    /\ (G = {} => k = "OR")
    /\ Drawn(NewRoot("root") \o TreeOps(par, G, k), FALSE, TRUE)
OneDotNext ==
  \/ n = 0 /\ \E at \in XAts \cup {"u0"}, p \in {"root", "g"}, x \in {"a", "a<b&c", "é ü", "two words"} :
       Drawn(NewRoot("root") \o InTx("A", "modify", Flat(<<AddF("g", "b0", ""), AddF(x, at, p), ALoc(x, "L3", "name")>>, 1), ""),
             x # "a", TRUE)
  \/ n = 0 /\ \E l, k \in DOMAIN Tables.loc, x \in {"base", "g"} :
       (l = k \/ x = "g") /\
       Drawn(NewRoot("base") \o InTx("A", "modify", <<AddF("g", "b2", ""), ALoc(x, l, "name"), ALoc(x, k, "name")>>, ""),
             l = k, TRUE)
  \/ n = 0 /\ \E a \in XShapes \cup Shapes, k \in {"b", "n", "x"}, x \in {"d", "a<b&c"} :
       Drawn(NewRoot("root") \o InTx("A", "modify",
            <<AddF("a", "b0", ""), AddF("b", "n0", ""), AddF("c", "n0", ""), AddF("z", "b1", ""), AddF(x, "b0", ""),
              [e |-> "addConstraint", ck |-> k, a |-> a, req |-> "all", ek |-> "pos"],
              Con("b", Bin("=>", F(x), Bin("&", Not(F("b")), Bin("<=", F("c"), I(3)))))>>, ""), FALSE, TRUE)
RandDotNext ==
  \/ n = 0 /\
     \E q \in {RandPerm(XNames)}, k \in {RandomElement(2..9)} :
     \E par \in {RandTree(q, k)} :
     \E grps \in {[x \in RandSub(Parents(par)) |-> RandomElement({"ALT", "ALT", "OR"})]} :
     \E at \in {[x \in DOMAIN par |-> IF par[x] \in DOMAIN grps /\ RandomElement(1..3) > 1 THEN RandomElement(Mandatory)
                                      ELSE RandomElement(XAts \cup {"u0"})]} :
     \E ids \in {DOMAIN par \cup {"root"}} :
     \E cs \in {[j \in 1..RandomElement(0..5) |->
          CASE RandomElement(1..3) = 1 -> Con("b", RandAstOver(ids, 3))
            [] RandomElement(1..2) = 1 -> Con("b", Bin(RandomElement({"=>", "=>!"}), F(RandomElement(ids)),
                                                       F(RandomElement(ids))))
            [] OTHER -> RandomElement({Con("n", Not(RandAstOver(ids, 2))),
                           ConX(Not(RandAstOver(ids, 2)), RandomElement({"all", "none"}), RandomElement({"pos", "neg"}))})]} :
     \E ls \in {[j \in 1..RandomElement(0..5) |-> ALoc(RandomElement(DOMAIN par \cup {"root"}),
                                                      RandomElement(DOMAIN Tables.loc), "name")]} :
       Drawn(NewRoot(RandomElement({"root", "base", "r0"}) ) \o InTx("A", "modify",
          [j \in 1..k |-> AddF(q[j], at[q[j]], "")]
          \o SeqOfSet({Move(x, par[x], FALSE, "name") : x \in {y \in DOMAIN par : par[y] # "root"}})
          \o SeqOfSet({Grp(x, grps[x], "name") : x \in DOMAIN grps \ {"root"}}) \o cs \o ls, ""), TRUE, TRUE)
  \/ n \in 1..(Depth - 1) /\ \E e \in {XEdit(n)} :
       CanMacro("A", e) /\ Drawn(Tx("A", e), FALSE, n = Depth - 1)

DNext == CASE Profile \in {"dseed", "nseed"} -> n < Depth /\ SeedDotNext
           [] Profile \in {"dtree", "ntree"} -> TreeDotNext
           [] Profile \in {"done", "none"} -> OneDotNext
           [] Profile \in {"drand", "nrand"} -> n < Depth /\ RandDotNext
DInit == XInit
=============================================================================
