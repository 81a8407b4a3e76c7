------------------------------- MODULE FM_MC -------------------------------
(***************************************************************************)
(* Bounded exploration of FM. Every profile fixes the start models, the    *)
(* alphabet of operations and the bounds; the invariants below are checked *)
(* in every reached state, and the histories that lead to an observable    *)
(* step are printed, to be executed against the implementation.            *)
(***************************************************************************)
EXTENDS World
CONSTANTS Profile,   \* which histories to explore
          Depth,     \* bound on the number of operations after the setup
          Walks      \* 0: exhaustive; otherwise number of random histories
VARIABLES w, hist, n, wid
vars == <<w, hist, n, wid>>
View == <<w, n, wid>>

----------------------------------------------------------------------------
\* constraint trees used below
F(x) == [o |-> "f", n |-> x]
I(v) == [o |-> "i", v |-> ToString(v)]
Bin(o, l, r) == [o |-> o, l |-> l, r |-> r]
Not(x) == [o |-> "!", x |-> x]
Con(ck, a) == [e |-> "addConstraint", ck |-> ck, a |-> a, req |-> "all", ek |-> "pos"]
ConX(a, req, ek) == [e |-> "addConstraint", ck |-> "x", a |-> a, req |-> req, ek |-> ek]

AddF(x, at, p) == [e |-> "addFeature", n |-> x, at |-> at, p |-> p]
RmF(x, rec, by) == [e |-> "removeFeature", n |-> x, rec |-> rec, by |-> by]
Grp(x, kind, by) == [e |-> "addRel", n |-> x, kind |-> kind, by |-> by]
Ungrp(x, by) == [e |-> "removeRel", n |-> x, by |-> by]
Move(c, p, pg, by) == [e |-> "addChild", c |-> c, p |-> p, pg |-> pg, by |-> by]
Root(x) == [e |-> "setRoot", n |-> x]
ALoc(x, l, by) == [e |-> "addLoc", n |-> x, loc |-> l, by |-> by]
RLoc(x, l, by) == [e |-> "removeLoc", n |-> x, loc |-> l, by |-> by]
Set(what, v) == [e |-> what, v |-> v]

\* start models
SeedEdits(s) ==
  CASE s = 1 -> <<>>
    [] s = 2 -> <<AddF("a", "b0", ""), AddF("b", "b1", "a"), AddF("c", "n0", "")>>
    [] s = 3 -> <<AddF("a", "b1", ""), AddF("b", "b0", "a"), AddF("c", "b0", "a"),
                  Grp("a", "ALT", "name"), Con("b", Bin("=>!", F("b"), F("c")))>>
    [] s = 4 -> <<AddF("a", "b0", ""), AddF("b", "b2", ""), Grp("root", "OR", "name"),
                  AddF("c", "b1", "a"), Con("b", Bin("=>", F("a"), Not(F("c")))),
                  ALoc("a", "L1", "name"), ALoc("a", "L2", "name"), ALoc("a", "L1", "name")>>
    [] s = 5 -> <<AddF("a", "b0", ""), AddF("b", "b0", "a"), Grp("a", "ALT", "name"),
                  AddF("c", "n1", "a"), Con("n", Bin(">", F("c"), I(2))),
                  ConX(Bin("<=", Bin("+", F("b"), F("c")), I(3)), "all", "pos")>>
    \* a chain with groups at both ends
    [] s = 6 -> <<AddF("a", "b0", ""), AddF("b", "b1", "a"), AddF("c", "b0", "b"),
                  Grp("b", "OR", "name"), Con("b", Bin("|", F("root"), F("c")))>>
    [] s = 7 -> <<AddF("a", "b0", ""), AddF("b", "b0", ""), AddF("c", "n2", "b"),
                  ALoc("root", "L3", "name"), ALoc("c", "L2", "name"),
                  Set("setName", "N1"), Set("setPath", "p/q.xml"), Set("setCommit", "c0ffee"),
                  Root("r0")>>
    \* grouped and direct children of one feature, nested groups, all attributes
    [] s = 8 -> <<AddF("a", "b2", ""), AddF("b", "b1", "a"), AddF("c", "n3", "a"),
                  Grp("a", "ALT", "name"), AddF("d", "n1", "a"), AddF("e", "b3", "b"),
                  AddF("g", "n0", "b"), Grp("b", "OR", "name"), AddF("H", "n10", ""),
                  Grp("root", "ALT", "name"), AddF("i", "b0", ""),
                  ALoc("root", "L3", "name"), ALoc("root", "L7", "name"), ALoc("d", "L6", "name"),
                  ALoc("e", "L5", "name"), ALoc("e", "L8", "name"), ALoc("g", "L9", "name"),
                  ALoc("g", "L10", "name"), ALoc("g", "L3", "name"), ALoc("g", "L3", "name"),
                  Con("b", Bin("=>!", F("b"), F("c"))), Con("b", Bin("=>", F("b"), F("e"))),
                  Con("b", Bin("<=>", F("b"), Bin("|", Not(F("e")), Bin("^", F("i"), F("a"))))),
                  Con("n", Bin("!=", Bin("*", F("d"), I(2)), Bin("+", F("d"), F("g")))),
                  Con("n", Bin("<=", Bin("-", F("H"), F("d")), Bin("/", F("g"), [o |-> "i", v |-> "5000000000"]))),
                  ConX(Bin(">=", Bin("+", F("b"), F("d")), [o |-> "~", x |-> I(3)]), "none", "neg"),
                  ConX(Bin("<", F("e"), F("d")), "all", "neg")>>
    [] s = 9 -> <<AddF("a", "u0", ""), AddF("Ab", "b0", "a"), AddF("aC", "b0", "Ab"),
                  AddF("abd", "b1", "Ab"), AddF("B1", "b0", "aC"), AddF("a0", "n11", "aC"),
                  Grp("aC", "ALT", "name"), Grp("Ab", "OR", "name"),
                  Con("b", Bin("=>", F("a0"), F("a0"))), Con("b", F("a")),
                  Con("b", Not(Not(F("a"))))>>
    \* deep: a chain of eight, groups in the middle and at its end
    [] s = 10 -> <<AddF("a", "b0", ""), AddF("b", "b1", "a"), AddF("c", "b0", "b"), AddF("d", "b1", "c"),
                   AddF("e", "b0", "d"), AddF("g", "b1", "e"), AddF("H", "b0", "g"), AddF("i", "n2", "H"),
                   AddF("x", "b0", "d"), AddF("y", "n1", "d"), Grp("d", "ALT", "name"),
                   AddF("s", "b1", "H"), Grp("H", "OR", "name"), AddF("r0", "b2", "d"),
                   ALoc("H", "L1", "name"), ALoc("H", "L3", "name"), ALoc("H", "L5", "name"),
                   ALoc("e", "L2", "name"), ALoc("a", "L1", "name"), ALoc("s", "L4", "name"),
                   Con("b", Bin("=>", F("s"), F("a"))), Con("b", Bin("=>!", F("H"), F("x"))),
                   Con("n", Bin("<", F("i"), F("y")))>>
    \* wide: nine children, three groups of up to six, long lists of everything
    [] s = 11 -> <<AddF("a", "b0", ""), AddF("b", "b1", ""), AddF("c", "n0", ""), AddF("d", "b0", ""),
                   AddF("e", "b1", ""), AddF("f", "b0", ""), AddF("g", "n1", ""), AddF("H", "b1", ""),
                   AddF("i", "b0", ""),
                   AddF("x", "b0", "a"), AddF("y", "b0", "a"), AddF("s", "b0", "a"), AddF("r0", "b0", "a"),
                   AddF("Ab", "b0", "a"), AddF("B1", "b0", "a"), Grp("a", "ALT", "name"),
                   AddF("a0", "b1", "b"), AddF("aC", "b1", "b"), AddF("abd", "b1", "b"),
                   Grp("b", "OR", "name"), AddF("r1", "b1", "b"),
                   ALoc("a", "L1", "name"), ALoc("a", "L2", "name"), ALoc("a", "L3", "name"),
                   ALoc("a", "L4", "name"), ALoc("a", "L5", "name"), ALoc("a", "L6", "name"),
                   ALoc("a", "L7", "name"), ALoc("a", "L8", "name"), ALoc("a", "L9", "name"),
                   ALoc("a", "L1", "name"), ALoc("B1", "L3", "name"), ALoc("B1", "L2", "name"),
                   Con("b", Bin("=>", F("a"), F("b"))), Con("b", Bin("=>", F("b"), F("d"))),
                   Con("b", Bin("=>!", F("e"), F("f"))), Con("b", Bin("|", F("a"), F("H"))),
                   Con("b", Bin("|", F("i"), Bin("|", F("e"), Bin("|", F("d"), Bin("|", F("f"), F("H")))))),
                   Con("b", Bin("=>", F("x"), F("a0"))), Con("b", Bin("=>!", F("aC"), F("x"))),
                   Con("n", Bin("<", F("c"), F("g"))), Con("n", Bin("=", Bin("+", F("c"), F("g")), I(7))),
                   Con("n", Bin(">", F("c"), I(2))), ConX(Bin(">", F("a"), I(0)), "none", "neg"),
                   ConX(Bin("<=", Bin("+", F("b"), F("d")), I(3)), "all", "pos"),
                   ConX(Bin("<=", F("e"), I(3)), "all", "neg")>>
    \* everything in one group, groups below it
    [] s = 12 -> <<AddF("a", "b0", ""), AddF("b", "b0", ""), AddF("c", "b0", ""), AddF("d", "b0", ""),
                   AddF("e", "b0", ""), AddF("g", "b0", ""), AddF("H", "b0", ""),
                   AddF("x", "b0", "c"), AddF("y", "b0", "c"), AddF("i", "b0", "c"), Grp("c", "OR", "name"),
                   AddF("s", "b0", "H"), AddF("r0", "b0", "H"), AddF("f", "b0", "H"), Grp("H", "ALT", "name"),
                   AddF("aC", "n4", "s"), Grp("root", "ALT", "name"),
                   ALoc("i", "L2", "name"), ALoc("f", "L6", "name"),
                   Con("b", Bin("=>", F("i"), F("f"))), Con("b", Bin("<=>", F("y"), F("s")))>>
\* a feature below one that is added in the same transaction has no handle yet
RECURSIVE Flat(_, _)
Flat(q, i) ==
  IF i > Len(q) THEN <<>>
  ELSE (IF q[i].e = "addFeature" /\ q[i].p # ""
        THEN <<AddF(q[i].n, q[i].at, ""), Move(q[i].n, q[i].p, FALSE, "name")>>
        ELSE <<q[i]>>) \o Flat(q, i + 1)
WithTx(t, m, q) ==
  <<[op |-> "open", t |-> t, m |-> m, mode |-> "modify"]>>
  \o [i \in 1..Len(q) |-> q[i] @@ [op |-> "edit", t |-> t, m |-> m]]
  \o <<[op |-> "commit", t |-> t, m |-> m, to |-> ""], [op |-> "drop", t |-> t, m |-> m]>>
NewA(s) == <<[op |-> "new", m |-> "A", name |-> "M", root |-> "root", path |-> "x.xml",
              commit |-> ""]>> \o (IF SeedEdits(s) = <<>> THEN <<>>
                                   ELSE WithTx("s", "A", Flat(SeedEdits(s), 1)))
RECURSIVE Exec(_, _, _)
Exec(ww, ops, i) == IF i > Len(ops) THEN ww ELSE Exec(Act(ww, ops[i]).w, ops, i + 1)

Seeds == CASE Profile \in {"tx1"} -> 1..7
           [] Profile \in {"tx2", "copy2"} -> {4, 5}
           [] Profile = "clone" -> 1..12
           [] Profile \in {"group", "show", "curs"} -> 1..9
           [] Profile \in {"bigtx", "bigcopy", "biggrp", "bigbulk", "bigmerge", "bigorder"} -> 10..12
           [] Profile = "walk" -> 1..12 \ {8, 9}
           [] Profile \in {"loc", "locset", "moved"} -> {2, 4}
           [] Profile \in {"pairs", "bulk3", "bulk4", "bulkr", "ord3", "ordr", "build1", "build2",
                          "buildr", "mpair"} -> {1}
           [] Profile = "merge" -> 1..9
           [] Profile = "know" -> {2, 5, 8}
           [] OTHER -> 1..7

----------------------------------------------------------------------------
\* edit alphabets
Nm == {"a", "b", "c"}
All == Nm \cup {"root", "z"}
By == {"name", "ptr"}
SmallEdits ==
  {AddF("d", "b1", p) : p \in {"", "a", "b", "c"}}
  \cup {AddF("a", "b0", ""), AddF("e", "n1", "a"), AddF("b", "n0", "c"), AddF("s", "r0", "")}
  \cup {RmF(x, rec, "name") : x \in All \cup {"d"}, rec \in BOOLEAN}
  \cup {Grp(x, k, "name") : x \in All, k \in {"ALT"}} \cup {Grp("a", "OR", "name")}
  \cup {Ungrp(x, "name") : x \in All}
  \cup {Move(c, p, FALSE, "name") : c \in Nm \cup {"root", "z"}, p \in Nm \cup {"root", "z"}}
  \cup {Move(c, p, TRUE, "name") : c \in Nm, p \in Nm \cup {"root"}}
  \cup {Root("root"), Root("r1"), Root("a")}
  \cup {ALoc("a", "L1", "name"), ALoc("z", "L1", "name"), RLoc("a", "L1", "name"),
        RLoc("z", "L1", "name"), RLoc("a", "L9", "name")}
  \cup {Con("b", Bin("=>", F("a"), F("b"))), Con("b", Bin("&", F("a"), F("z"))),
        Con("n", Bin("=", F("c"), I(1))), ConX(Bin(">", F("a"), I(0)), "none", "neg")}
  \cup {Set("setName", "N2"), Set("setCommit", "abc"), Set("setPath", "y/z.xml")}
PtrEdits ==
  {RmF(x, rec, "ptr") : x \in Nm, rec \in BOOLEAN}
  \cup {Grp(x, k, "ptr") : x \in Nm, k \in {"OR"}}
  \cup {Ungrp(x, "ptr") : x \in Nm}
  \cup {Move(c, p, FALSE, "ptr") : c \in Nm, p \in Nm}
  \cup {Move(c, p, TRUE, "ptr") : c \in Nm, p \in Nm}
  \cup {ALoc("a", "L2", "ptr"), RLoc("a", "L1", "ptr")}

\* a larger universe for random histories
BigNm == {"a", "b", "c", "d", "e", "g", "H"}
BigAll == BigNm \cup {"root", "z"}
RECURSIVE RandAst(_)
RandAst(d) ==
  LET k == RandomElement(1..(IF d = 0 THEN 1 ELSE 5)) IN
  CASE k = 1 -> F(RandomElement(BigNm \cup {"root"}))
    [] k = 2 -> Not(RandAst(d - 1))
    [] OTHER -> Bin(RandomElement({"&", "|", "=>", "=>!", "<=>", "^"}),
                    RandAst(d - 1), RandAst(d - 1))
RandEdit(z) == \* a parameter: TLC evaluates constants only once
  LET k == RandomElement(1..19) 
      x == RandomElement(BigAll)
      y == RandomElement(BigAll)
      by == RandomElement(By) IN
  CASE k \in 1..5 -> AddF(x, RandomElement({"b0", "b1", "b2", "n0", "n1", "n2", "n13", "u0"}),
                          RandomElement({"", y}))
    [] k = 6 -> RmF(x, FALSE, by)
    [] k = 7 -> RmF(x, RandomElement(BOOLEAN), by)
    [] k \in 8..9 -> Grp(x, RandomElement({"ALT", "OR"}), by)
    [] k = 10 -> Ungrp(x, by)
    [] k \in 11..13 -> Move(x, y, RandomElement(BOOLEAN), by)
    [] k = 14 -> Root(RandomElement({"root", "r1", "r2", "a"}))
    [] k = 15 -> ALoc(x, RandomElement({"L1", "L2", "L3"}), by)
    [] k = 16 -> RLoc(x, RandomElement({"L1", "L2", "L3"}), by)
    [] k = 17 -> Con("b", RandAst(2))
    [] k = 18 -> RandomElement({Con("n", Bin("<", F(x), I(3))),
                                ConX(Bin(">=", F(x), F(y)), "all", "neg")})
    [] OTHER -> Set(RandomElement({"setName", "setCommit", "setPath"}),
                    RandomElement({"u", "v", "w"}))

----------------------------------------------------------------------------
\* Handles (pointers) must stay valid until the edit is executed: a pointer is
\* only used while no removal is pending in an open in-place transaction of
\* this model, and no removal is requested while a pointer is pending.
UsesPtr(e) == (e.e = "addFeature" /\ e.p # "") \/
              (e.e \in {"removeFeature", "addRel", "removeRel", "addChild", "addLoc", "removeLoc"}
               /\ e.by = "ptr") \/ (e.e = "addChild" /\ e.pg)
Removes(e) == e.e \in {"removeFeature", "removeRel", "setRoot"}
Pending == {t \in DOMAIN w.T : w.T[t].open /\ w.T[t].mode = "modify"}
PtrPending == \E t \in Pending : \E j \in DOMAIN w.T[t].q : UsesPtr(w.T[t].q[j])
RmPending == \E t \in Pending : \E j \in DOMAIN w.T[t].q : Removes(w.T[t].q[j])
Handles(e) == \* the names that must exist when the edit is requested
  (IF e.e = "addFeature" /\ e.p # "" THEN {e.p} ELSE {})
  \cup (IF e.e \in {"removeFeature", "addRel", "removeRel", "addLoc", "removeLoc"}
           /\ e.by = "ptr" THEN {e.n} ELSE {})
  \cup (IF e.e = "addChild" /\ e.by = "ptr" THEN {e.p, e.c} ELSE {})
  \cup (IF e.e = "addChild" /\ e.pg THEN {e.p} ELSE {})
CanEdit(t, e) ==
  LET m == w.M[w.T[t].m] IN
  /\ w.T[t].m \in DOMAIN w.M
  /\ Handles(e) \subseteq Feats(m)
  /\ (e.e = "addChild" /\ e.pg) => e.p \in DOMAIN m.g
  /\ w.T[t].mode = "modify" => /\ (UsesPtr(e) => ~RmPending)
                               /\ (Removes(e) => ~PtrPending)
  \* closed transactions only accept some requests
  /\ ~w.T[t].open => IF w.T[t].mode = "modify"
                     THEN e.e \notin {"addFeature", "setName", "setCommit", "setPath",
                                      "setRoot", "addChild"}
                     ELSE Reports(e)
\* models other transactions are open on must stay
OpenOn(m) == {t \in DOMAIN w.T : w.T[t].m = m /\ w.T[t].open}

EOp(t, e) == e @@ [op |-> "edit", t |-> t, m |-> w.T[t].m]
Open(t, m, mode) == [op |-> "open", t |-> t, m |-> m, mode |-> mode]
Commit(t, to) == [op |-> "commit", t |-> t, m |-> w.T[t].m, to |-> to]
Abort(t) == [op |-> "abort", t |-> t, m |-> w.T[t].m]
Drop(t) == [op |-> "drop", t |-> t, m |-> w.T[t].m]

Emit(h) == PrintT("SCRIPT " \o ToJson(h))
Step(op, out) ==
  LET s == Act(w, op) IN
  /\ w' = s.w
  /\ hist' = Append(hist, op)
  /\ n' = n + 1
  /\ wid' = wid
  /\ (out => Emit(Append(hist, op)))

----------------------------------------------------------------------------
\* exhaustive: one transaction with up to Depth-2 edits, then commit, abort,
\* or destruction, then a second use of the closed transaction
TxNext(mode, Es, to) ==
  \/ n = 0 /\ Step(Open("t", "A", mode), FALSE)
  \/ /\ n > 0 /\ "t" \in DOMAIN w.T /\ w.T["t"].open
     /\ \/ /\ n < Depth - 1
           /\ \E e \in Es : CanEdit("t", e) /\ Step(EOp("t", e), mode = "copy")
        \/ Step(Commit("t", to), TRUE)
        \/ n <= 2 /\ Step(Abort("t"), TRUE)
        \/ n <= 2 /\ mode = "modify" /\ Step(Drop("t"), TRUE)
  \/ /\ n \in 2..4 /\ "t" \in DOMAIN w.T /\ ~w.T["t"].open
     /\ \/ \E e \in {RmF("a", TRUE, "name"), Grp("root", "ALT", "name"),
                     Con("b", F("a"))} : CanEdit("t", e) /\ Step(EOp("t", e), FALSE)
        \/ Step(Commit("t", to), TRUE)

\* a transaction is handed on to another owner at any point of its life
MoveEdits == {AddF("d", "b1", "a"), RmF("b", TRUE, "name"), Grp("a", "ALT", "name"), Root("r1"),
              ALoc("a", "L1", "name"), Con("b", Bin("=>", F("a"), F("b"))), RmF("z", FALSE, "name")}
MovedNext ==
  \/ n = 0 /\ \E mode \in {"modify", "copy"} : Step(Open("t", "A", mode), FALSE)
  \/ \E t \in (DOMAIN w.T) \cap {"t", "u"} :
       LET copy == w.T[t].mode = "copy" IN
       \/ n > 0 /\ n < Depth - 1 /\ t = "t" /\ Step([op |-> "move", t |-> t, m |-> "A", to |-> "u"], TRUE)
       \/ n > 0 /\ n < Depth - 1 /\ \E e \in MoveEdits : CanEdit(t, e) /\ Step(EOp(t, e), FALSE)
       \/ n > 0 /\ n < Depth /\ Step(Commit(t, IF copy THEN "B" ELSE ""), TRUE)
       \/ n > 0 /\ n < Depth /\ Step(Abort(t), TRUE)
       \/ n > 0 /\ n < Depth /\ (w.T[t].open => ~copy) /\ Step(Drop(t), TRUE)

\* several operations as one step; only the state after the last is recorded
RECURSIVE Quiet(_, _)
Quiet(ops, i) == IF i > Len(ops) THEN <<>>
                 ELSE <<IF i < Len(ops) THEN ops[i] @@ [nd |-> TRUE] ELSE ops[i]>>
                      \o Quiet(ops, i + 1)
StepAll(ops, out) ==
  /\ w' = Exec(w, ops, 1)
  /\ hist' = hist \o Quiet(ops, 1)
  /\ n' = n + 1
  /\ wid' = wid
  /\ (out => Emit(hist \o Quiet(ops, 1)))
CanMacro(m, e) == /\ Handles(e) \subseteq Feats(w.M[m])
                  /\ (e.e = "addChild" /\ e.pg) => e.p \in DOMAIN w.M[m].g
\* one transaction around q
InTx(m, mode, q, to) ==
  <<[op |-> "open", t |-> "t", m |-> m, mode |-> mode]>>
  \o [j \in 1..Len(q) |-> q[j] @@ [op |-> "edit", t |-> "t", m |-> m]]
  \o <<[op |-> "commit", t |-> "t", m |-> m, to |-> to], [op |-> "drop", t |-> "t", m |-> m]>>
Tx(m, e) == InTx(m, "modify", <<e>>, "")
Help(m, e) == <<e @@ [op |-> "helper", m |-> m]>>

\* clone, then edit or destroy either model
CloneEdits ==
  {AddF("z", "b2", "a"), AddF("z", "n0", ""), RmF("a", TRUE, "name"), RmF("b", TRUE, "ptr"),
   RmF("c", TRUE, "name"), Grp("b", "ALT", "name"), Grp("root", "OR", "ptr"), Ungrp("a", "name"),
   Ungrp("root", "ptr"), Move("b", "root", FALSE, "name"), Move("c", "b", FALSE, "ptr"),
   Root("r1"), ALoc("a", "L3", "ptr"), RLoc("a", "L1", "name"), Set("setName", "Other"),
   Set("setCommit", "ff"), Set("setPath", "o/p.xml"), Con("b", Bin("|", F("a"), F("b")))}
CloneNext ==
  \/ n = 0 /\ Step([op |-> "clone", m |-> "A", to |-> "B"], TRUE)
  \/ /\ n > 0
     /\ (n < 2 \/ Cardinality(Feats(w.M[CHOOSE k \in DOMAIN w.M : TRUE])) < 10)
     /\ \/ \E m \in DOMAIN w.M : \E e \in CloneEdits :
             CanMacro(m, e) /\ StepAll(Tx(m, e), TRUE)
        \/ \E m \in DOMAIN w.M : Cardinality(DOMAIN w.M) > 1 /\
             StepAll(<<[op |-> "destroy", m |-> m]>>, TRUE)
        \/ "C" \notin DOMAIN w.M /\ "B" \in DOMAIN w.M /\
             Step([op |-> "clone", m |-> "B", to |-> "C"], TRUE)

\* grouping and ungrouping, by transaction, copy and helper
GroupNext ==
  LET m == w.M["A"]
      Xs == Feats(m) \cup {"z"}
      Es == {Grp(x, k, by) : x \in Xs, k \in {"ALT", "OR"}, by \in By}
            \cup {Ungrp(x, by) : x \in Xs, by \in By}
            \cup (IF n > 0 /\ n < Depth - 1
                  THEN {AddF("z", "b0", x) : x \in Feats(m) \ {"z"}}
                       \cup {Move(c, p, pg, "name") : c \in Feats(m) \ {m.root},
                              p \in Feats(m), pg \in BOOLEAN}
                       \cup {RmF(x, TRUE, "name") : x \in Feats(m) \ {m.root}}
                  ELSE {})
      grpE(e) == e.e \in {"addRel", "removeRel"} IN
  \E e \in Es : CanMacro("A", e) /\
     \/ e.by # "ptr" /\ StepAll(Tx("A", e), grpE(e))
     \/ grpE(e) /\ e.by = "ptr" /\ StepAll(Help("A", e), TRUE)
     \/ grpE(e) /\ e.by = "ptr" /\ n = 0 /\ StepAll(InTx("A", "copy", <<e>>, "A"), TRUE)
     \/ /\ n = 0 /\ e.e = "addRel" /\ e.by = "name"
        /\ \E e2 \in {Ungrp(e.n, "name"), Grp(e.n, "OR", "name")} :
             StepAll(InTx("A", "modify", <<e, e2>>, ""), TRUE)

\* one edit of every kind anywhere in a large model
BigTargets(m) == Feats(m) \cup {"z"}
BigEdits(m) ==
  {AddF("r2", "b0", x) : x \in Feats(m)} \cup {AddF("r2", "n0", ""), AddF("H", "b0", "")}
  \cup {RmF(x, rec, "name") : x \in BigTargets(m), rec \in BOOLEAN}
  \cup {Move(c, p, FALSE, "name") : c \in Feats(m), p \in Feats(m)}
  \cup {Move(c, p, TRUE, "name") : c \in Feats(m), p \in DOMAIN m.g}
  \cup {Root("r2"), Root("root"), Root("d")}
  \cup {ALoc(x, l, "name") : x \in BigTargets(m), l \in {"L1", "L4"}}
  \cup {RLoc(x, l, "name") : x \in BigTargets(m), l \in {"L1", "L3", "L5", "L9"}}
  \cup {Con("b", Bin("=>", F("i"), F("a"))), Con("b", Bin("&", F("e"), F("z"))),
        ConX(Bin(">", F("H"), I(0)), "none", "neg")}
  \cup {Set("setName", "N2"), Set("setCommit", "abc"), Set("setPath", "y/z.xml")}
BigNext(mode, Es) ==
  \E e \in Es : CanMacro("A", e) /\
    IF mode = "copy" THEN StepAll(InTx("A", "copy", <<e>>, IF e.e = "removeFeature" THEN "A" ELSE "B"), TRUE)
    ELSE StepAll(Tx("A", e), TRUE)
BigGrp(m) == {Grp(x, k, by) : x \in Feats(m), k \in {"ALT", "OR"}, by \in By}
             \cup {Ungrp(x, by) : x \in Feats(m), by \in By}
BigGrpNext ==
  \E e \in BigGrp(w.M["A"]) : CanMacro("A", e) /\
     \/ StepAll(Tx("A", e), TRUE)
     \/ e.by = "ptr" /\ StepAll(Help("A", e), TRUE)
     \/ e.by = "ptr" /\ StepAll(InTx("A", "copy", <<e>>, "A"), TRUE)
\* locations
LocNext ==
  LET Ls == {"L1", "L2", "L4"}
      Es == {ALoc(x, l, by) : x \in {"a", "root"}, l \in Ls, by \in By}
            \cup {RLoc(x, l, by) : x \in {"a", "root"}, l \in Ls, by \in By} IN
  \/ \E e \in Es : StepAll(Tx("A", e), TRUE)
  \/ \E e \in Es : e.by = "name" /\ StepAll(InTx("A", "copy", <<e>>, "A"), TRUE)
  \/ \E x \in {"a", "c"}, l \in Ls, k \in Ls :
        Step([op |-> "updateLoc", m |-> "A", n |-> x, loc |-> l, new |-> k], TRUE)
LocKeys == DOMAIN Tables.loc
\* one component of a location is changed where it is
LocSetNext ==
  \E c \in Range(Tables.settable) :
    StepAll(Tx("A", ALoc("b", c[1], "name")) \o Tx("A", ALoc("b", "L4", "name"))
            \o <<[op |-> "locSet", m |-> "A", n |-> "b", loc |-> c[1], new |-> c[2], what |-> c[3]]>>, TRUE)
OffSeqs == LET Id == {"C", "D1", "a:b", "m_"} IN
  {<<x>> : x \in Id} \cup {<<x, "::", y>> : x \in Id, y \in Id}
  \cup {<<x, "::", y, "::", z>> : x \in Id, y \in Id, z \in Id}
  \cup {<<x, "::", y, "::", z, "::", u>> : x \in Id, y \in Id, z \in {"C", "m_"}, u \in {"C", "m_"}}
  \cup {<<x, "::">> : x \in Id} \cup {<<"::", x>> : x \in Id} \cup {<<x, "::", y, "::">> : x \in Id, y \in Id}
  \cup {<<>>, <<"::">>, <<":">>}
PairNext == n = 0 /\
  \/ \E x \in LocKeys :
       StepAll(SeqOfSet({[op |-> "locEq", x |-> x, y |-> y] : y \in LocKeys}), TRUE)
  \/ \E x \in 0..2, y \in 0..2 :
       StepAll(SeqOfSet({[op |-> "locOrd", x |-> <<x, y>>, y |-> <<u, v>>] : u \in 0..2, v \in 0..2}),
               TRUE)
  \/ StepAll(SeqOfSet({[op |-> "memberOffset", toks |-> s] : s \in OffSeqs}), TRUE)

\* arbitrary trees
RECURSIVE Acyclic(_, _, _)
Acyclic(par, x, k) == IF x = "root" THEN TRUE ELSE IF k = 0 THEN FALSE ELSE Acyclic(par, par[x], k - 1)
Trees(S) == {par \in [S -> S \cup {"root"}] : \A x \in S : Acyclic(par, x, Cardinality(S))}
\* features, then edges, then groups, then late direct children
TreeOps(par, G, kind) ==
  WithTx("s", "A",
    SeqOfSet({AddF(x, "b0", "") : x \in DOMAIN par})
    \o SeqOfSet({Move(x, par[x], FALSE, "name") : x \in {y \in DOMAIN par : par[y] # "root"}})
    \o SeqOfSet({Grp(x, kind, "name") : x \in G}))
Parents(par) == {par[x] : x \in DOMAIN par}
RmList(fs, rec, by) ==
  [op |-> "removeFeatures", m |-> "A", rec |-> rec,
   fs |-> [j \in 1..Len(fs) |-> [n |-> fs[j], by |-> IF fs[j] = "z" THEN "name" ELSE by]]]
\* lists without repetition up to length k
RECURSIVE Lists1(_, _)
Lists1(S, k) == IF k = 0 THEN {<<>>}
                ELSE Lists1(S, k - 1) \cup
                     {Append(l, x) : l \in {l2 \in Lists1(S, k - 1) : Len(l2) = k - 1}, x \in S}
NoRep(l) == \A i, j \in DOMAIN l : i # j => l[i] # l[j]
\* duplicates at most once and only in short lists
ListsOf(S, k) == {l \in Lists1(S, k) : NoRep(l) \/ Len(l) = 2}
PermsOf3(S) == {l \in Lists1(S, 3) : NoRep(l) /\ Len(l) = 3}
BulkNext(S, k) ==
  \/ /\ n = 0
     /\ \E par \in Trees(S) : \E G \in SUBSET Parents(par) :
          (G = {} \/ G = Parents(par) \/ Cardinality(S) < 4)
          /\ StepAll(TreeOps(par, G, "ALT"), FALSE)
  \/ /\ n = 1
     /\ \E l \in ListsOf(S \cup {"z", "root"}, k) \cup {<<x[1], x[2], x[1], x[3]>> : x \in PermsOf3(S)}, rec \in BOOLEAN, by \in By :
          /\ (by = "ptr" => Len(l) \in 1..2)
          /\ Step(RmList(l, rec, by), TRUE)
BigSpots(m) == {x \in Feats(m) : x # m.root}
\* subtrees, their parents, and lists that cut across
BigLists(m) ==
  {<<x>> : x \in Feats(m)} \cup {<<x, m.f[x].par>> : x \in BigSpots(m)}
  \cup {<<m.f[x].par, x>> : x \in BigSpots(m)}
  \cup {SeqOfSet(Kids(m, x)) : x \in Feats(m)} \cup {Append(SeqOfSet(Kids(m, x)), x) : x \in Feats(m)}
  \cup {LET q == SeqOfSet(Kids(m, x)) IN (IF Len(q) > 2 THEN SubSeq(q, 1, 2) ELSE q) \o q : x \in Feats(m)}
  \cup {LET q == SeqOfSet(DescSelf(m, x)) IN q \o <<x>> \o q : x \in BigSpots(m)}
  \cup {SeqOfSet((DescSelf(m, x) \ {x})) : x \in BigSpots(m)} \cup {Append(SeqOfSet((DescSelf(m, x) \ {x})), "z") : x \in BigSpots(m)}
BigBulkNext ==
  \E l \in BigLists(w.M["A"]) : \E rec \in BOOLEAN : Step(RmList(l, rec, "name"), TRUE)

RandSub(S) == {x \in S : RandomElement(1..2) = 1}
RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o RandPerm(S \ {x})
RECURSIVE RandTree(_, _)
RandTree(q, k) == \* par as a function over the first k names of q
  IF k = 0 THEN EmptyFun
  ELSE Put(RandTree(q, k - 1), q[k],
           RandomElement({"root"} \cup {q[j] : j \in {i \in 1..(k-1) : i >= k - 3}}))
WNames == <<"a", "b", "c", "d", "e", "f", "g", "H">>
ONames == <<"a", "b", "Ab", "aC", "abd", "B1", "a0", "H">>
BulkRandNext ==
  \/ /\ n = 0
     /\ \E par \in {RandTree(WNames, RandomElement(5..8))} :
          StepAll(TreeOps(par, RandSub(Parents(par)), RandomElement({"ALT", "OR"})), FALSE)
  \/ /\ n \in 1..2
     /\ \E l \in {RandPerm(RandSub({WNames[j] : j \in 1..8}))} :
          Step(RmList(CASE RandomElement(1..5) = 1 -> l \o <<"root", "z">>
                         [] RandomElement(1..3) = 1 -> l \o l
                         [] OTHER -> l,
                      RandomElement(BOOLEAN), "name"), TRUE)

\* traversal and order
OrdProbe(S) == <<[op |-> "order", m |-> "A"]>>
               \o SeqOfSet({[op |-> "ofv", m |-> "A",
                             seq |-> [j \in 1..Len(s) |-> [n |-> s[j], rm |-> FALSE]]] : s \in S})
PermsOf(S) == {l \in Lists1(S, Cardinality(S)) : NoRep(l) /\ Len(l) = Cardinality(S)}
OrdNext(S) ==
  \/ /\ n = 0
     /\ \E par \in Trees(S) : \E G \in SUBSET Parents(par) :
          StepAll(TreeOps(par, G, "ALT"), TRUE)
  \/ n = 1 /\ StepAll(OrdProbe(PermsOf(S) \cup {Append(s, "root") : s \in PermsOf(S)}), TRUE)
RandOfv(S) == LET p == RandPerm(S) \o RandPerm(RandSub(S)) IN
  [j \in 1..Len(p) |-> [n |-> p[j], rm |-> j > Cardinality(S)]]
\* cursors: everything that can be done with two of them
Curs(seq) == [op |-> "cursors", m |-> "A", seq |-> seq]
CursNext == /\ n = 0
            /\ \E a \in Moves : StepAll(SeqOfSet({Curs(<<a, b, c>>) : b \in Moves, c \in Moves}), TRUE)
RandMoves(k) == [j \in 1..k |-> RandomElement(Moves)]
OrdRandNext ==
  \/ /\ n = 0
     /\ \E par \in {RandTree(RandPerm({ONames[j] : j \in 1..8}), RandomElement(5..8))} :
          StepAll(TreeOps(par, RandSub(Parents(par)), "OR"), TRUE)
  \/ /\ n \in 1..3
     /\ \E S \in {Feats(w.M["A"])} :
        \/ StepAll(<<[op |-> "order", m |-> "A"],
                     [op |-> "ofv", m |-> "A", seq |-> RandOfv(S)],
                     Curs(RandMoves(2 * Cardinality(S))), Curs(RandMoves(3 * Cardinality(S) + 4)),
                     [op |-> "ofv", m |-> "A", seq |-> RandOfv(S)]>>, TRUE)
        \/ \E e \in {RandomElement({Move(x, y, FALSE, "name") : x \in S, y \in S}
                       \cup {Grp(x, "ALT", "name") : x \in S} \cup {Ungrp(x, "name") : x \in S}
                       \cup {RmF(x, TRUE, "name") : x \in S} \cup {Root("r1")}
                       \cup {AddF("i", "b0", x) : x \in S}
                       \cup {Con("b", Bin("=>", F(x), F(y))) : x \in S, y \in S})} :
             StepAll(Tx("A", e), TRUE)

\* large models: the order of all their features, and edits that change it
BigOrdNext ==
  \/ n = 0 /\ \E S \in {{x \in Feats(w.M["A"]) : RandomElement(1..2) = 1}} :
       StepAll(<<[op |-> "order", m |-> "A"], [op |-> "ofv", m |-> "A", seq |-> RandOfv(Feats(w.M["A"]))],
                 [op |-> "ofv", m |-> "A", seq |-> RandOfv(S)]>>, TRUE)
  \/ n = 0 /\ \E e \in {Move(x, y, FALSE, "name") : x \in Feats(w.M["A"]), y \in {"root", "H", "a"}}
                         \cup {RmF(x, TRUE, "name") : x \in {"a", "H", "c"}} :
       StepAll(Tx("A", e) \o <<[op |-> "order", m |-> "A"]>>, TRUE)

\* merging
MergeEdits ==
  {AddF("d", "b2", "a"), AddF("d", "b1", ""), AddF("d", "n1", "b"), AddF("d", "n0", "c"),
   AddF("d", "n3", "a"), AddF("d", "n13", "a"), AddF("d", "b3", "a"), AddF("z", "u0", ""), AddF("z", "b0", "a"),
   Move("b", "root", FALSE, "name"), Move("c", "a", FALSE, "name"),
   RmF("b", TRUE, "name"), RmF("c", TRUE, "name"), RmF("a", TRUE, "name"),
   Grp("a", "OR", "name"), Grp("a", "ALT", "name"), Grp("root", "ALT", "name"), Ungrp("a", "name"),
   Ungrp("root", "name"), Root("r1"), Root("base"),
   ALoc("a", "L1", "name"), ALoc("a", "L5", "name"), ALoc("b", "L2", "name"), ALoc("root", "L3", "name"),
   Con("b", Bin("=>", F("a"), F("b"))), Con("n", Bin("=", F("c"), I(1))), Set("setName", "N9")}
MergeOps == SeqOfSet({[op |-> "merge", m |-> x, m2 |-> y, strict |-> s, to |-> "C"] :
                      x \in {"A", "B"}, y \in {"A", "B"}, s \in BOOLEAN})
\* all of them one after the other, each recorded; then the inputs go away
Loud(ops, out) == /\ w' = Exec(w, ops, 1) /\ hist' = hist \o ops /\ n' = n + 1 /\ wid' = wid
                  /\ (out => Emit(hist \o ops))
MergeAll == Loud(MergeOps \o <<[op |-> "destroy", m |-> "A"], [op |-> "destroy", m |-> "B"]>>, TRUE)
MergeNext ==
  \/ n = 0 /\ StepAll(<<[op |-> "clone", m |-> "A", to |-> "B"]>>, FALSE)
  \/ n = 0 /\ \E s \in 1..9 :
       StepAll(<<[op |-> "new", m |-> "B", name |-> "M2", root |-> "root", path |-> "y.xml",
                  commit |-> "aa"]>> \o
               (IF s = 1 THEN <<>> ELSE WithTx("s", "B", Flat(SeedEdits(s), 1))), FALSE)
  \/ n > 0 /\ n < Depth /\ "A" \in DOMAIN w.M /\
       \E m \in {"A", "B"} : \E e \in MergeEdits :
          CanMacro(m, e) /\ Edit(w.M[m], e).r = "OK" /\ StepAll(Tx(m, e), FALSE)
  \/ n > 0 /\ "A" \in DOMAIN w.M /\ MergeAll

BigMergeEdits == {RmF("c", TRUE, "name"), RmF("H", TRUE, "name"), Root("base"), Set("setName", "N9"),
                  AddF("r2", "b2", "a"), AddF("r2", "n3", "H"), Grp("root", "ALT", "name"), Ungrp("a", "name"),
                  Move("b", "a", FALSE, "name"), ALoc("a", "L12", "name"), ALoc("H", "L2", "name")}
BigMergeNext ==
  \/ n = 0 /\ StepAll(<<[op |-> "clone", m |-> "A", to |-> "B"]>>, FALSE)
  \/ n = 0 /\ \E s \in {4, 8, 10, 11, 12} :
       StepAll(<<[op |-> "new", m |-> "B", name |-> "M2", root |-> "root", path |-> "y.xml",
                  commit |-> "aa"]>> \o WithTx("s", "B", Flat(SeedEdits(s), 1)), FALSE)
  \/ n = 1 /\ \E m \in {"A", "B"} : \E e \in BigMergeEdits :
          CanMacro(m, e) /\ Edit(w.M[m], e).r = "OK" /\ StepAll(Tx(m, e), FALSE)
  \/ n > 0 /\ "A" \in DOMAIN w.M /\ MergeAll

\* every pair of attributes, and every pair of places, of one shared feature
Ats == {"b0", "b1", "b2", "b3", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9", "n12", "n13", "u0"}
Places == {<<p, g>> : p \in {"root", "a", "b"}, g \in {"", "ALT", "OR"}}
At(m, at, pl) ==
  <<[op |-> "new", m |-> m, name |-> "M" \o m, root |-> "root", path |-> "x", commit |-> "c"]>>
  \o WithTx("s", m, Flat(<<AddF("a", "b0", ""), AddF("b", "b0", ""), AddF("x", at, pl[1])>>
                          \o (IF pl[2] = "" THEN <<>> ELSE <<Grp(pl[1], pl[2], "name")>>), 1))
MPairNext ==
  n = 0 /\ \E a1, a2 \in Ats, p1, p2 \in Places :
    /\ (p1 = p2 /\ p1[1] = "root" /\ p1[2] # "OR") \/ (a1 = "b0" /\ a2 \in {"b0", "b3"})
    /\ StepAll(At("A", a1, p1) \o At("B", a2, p2)
               \o <<[op |-> "merge", m |-> "A", m2 |-> "B", strict |-> FALSE, to |-> "C"],
                    [op |-> "merge", m |-> "A", m2 |-> "B", strict |-> TRUE, to |-> "C"]>>, FALSE)
    /\ PrintT("SCRIPT " \o ToJson(
         hist \o Quiet(At("A", a1, p1) \o At("B", a2, p2), 1)
         \o <<[op |-> "merge", m |-> "A", m2 |-> "B", strict |-> TRUE, to |-> "C"],
              [op |-> "merge", m |-> "A", m2 |-> "B", strict |-> FALSE, to |-> "D"]>>))

\* declarations for the builder
Decl(d, r) == r @@ [d |-> d]
Fd(x, at) == [d |-> "feature", n |-> x, at |-> at]
Ed(p, c) == [d |-> "edge", p |-> p, c |-> c]
Rl(x, k) == [d |-> "rel", n |-> x, kind |-> k]
Cd(c) == [d |-> "constraint", ck |-> c.ck, a |-> c.a, req |-> c.req, ek |-> c.ek]
Lc(x, l) == [d |-> "loc", n |-> x, loc |-> l]
Ask(x) == [d |-> "ask", n |-> x]
Md(k, v) == [d |-> k, v |-> v]
DeclsSmall == {Fd("a", "b0"), Fd("b", "b1"), Fd("c", "n0"), Ed("a", "b"), Ed("b", "c"), Ed("a", "c"),
               Ed("root", "a"), Ed("c", "a"), Rl("a", "ALT"), Rl("z", "OR"),
               Cd(Con("b", Bin("=>", F("b"), F("a")))), [d |-> "root", n |-> "r0"], Ask("b"),
               Ed("a", "z"), Md("name", "N1"), Lc("b", "L1"), Lc("z", "L3")}
\* what can be stated twice
DeclsTwice == {Ed("a", "b"), Ed("root", "b"), Ed("b", "a"), Ed("z", "b"), Ed("r0", "b"), Fd("b", "n1"),
               Lc("a", "L1"), Lc("a", "L3"), Lc("b", "L1"), Lc("root", "L2"), Rl("a", "OR"), Rl("a", "ALT"),
               [d |-> "root", n |-> "r0"], [d |-> "root", n |-> "root"], [d |-> "root", n |-> "r1"], Ask("b"),
               Md("name", "N1"), Md("name", ""), Md("commit", "be"), Md("commit", ""), Md("path", "p/a.xml")}
BuildOp(q) == [op |-> "build", m |-> "A", decls |-> q]
BuildTwiceNext(k) ==
  n = 0 /\ \E q \in UNION {[1..j -> DeclsTwice] : j \in 2..k} :
    /\ \E i, j \in DOMAIN q : i # j /\ q[i].d = q[j].d
    /\ Step(BuildOp(<<Fd("a", "b1")>> \o q \o <<Fd("b", "b0"), Ask("b"), Ask("a")>>), TRUE)
DeclsFull == {Fd("a", "b2"), Fd("b", "b1"), Fd("c", "n1"), Fd("d", "n3"), Fd("e", "b0"), Fd("g", "n10"),
              Ed("a", "b"), Ed("b", "c"), Ed("b", "d"), Ed("c", "e"), Ed("r0", "a"), Ed("r0", "g"),
              Rl("a", "OR"), Rl("b", "ALT"), Rl("r0", "ALT"),
              Cd(Con("b", Bin("=>!", F("c"), F("d")))), Cd(Con("n", Bin("<", F("c"), F("d")))),
              Cd(ConX(Bin(">=", F("e"), F("g")), "none", "neg")),
              Cd(ConX(Bin("<=", F("a"), F("g")), "all", "pos")),
              Cd(Con("b", Bin("|", F("r0"), F("a")))),
              [d |-> "root", n |-> "r0"], Ask("b"), Ask("e"), Md("name", "N2"),
              Md("commit", "beef"), Md("path", "p/a.xml"), Lc("b", "L3"), Lc("r0", "L1"), Lc("g", "L5"), Lc("c", "L2")}
\* a sequence of declarations is only meaningful if no feature gets two parents
OneParent(q) == \A i, j \in DOMAIN q : i # j /\ q[i].d = "edge" /\ q[j].d = "edge"
                                          => q[i].c # q[j].c
RootsOk(q) == Cardinality({i \in DOMAIN q : q[i].d = "root"}) <= 1
Subs(S, k) == {T \in SUBSET S : Cardinality(T) <= k}
\* the order of declarations does not matter
Norm(s) == IF s.r # "OK" THEN "refused"
           ELSE [s.m EXCEPT !.cb = Range(@), !.cn = Range(@), !.cx = Range(@)]
BuildNext(S, k) ==
  n = 0 /\ \E T \in Subs(S, k) :
    /\ \E q \in PermsOf(T) : OneParent(q) /\ RootsOk(q)
    /\ Assert(Cardinality({Norm(Build(q)) : q \in PermsOf(T)}) = 1, <<"order matters", T>>)
    /\ \E q \in PermsOf(T) : Step(BuildOp(q), TRUE)
\* the full set in random order, some of it missing or repeated
RECURSIVE NoTwoParents(_)
NoTwoParents(q) == IF q = <<>> THEN <<>>
  ELSE LET r == NoTwoParents(SubSeq(q, 1, Len(q) - 1))  x == q[Len(q)] IN
       IF x.d = "edge" /\ \E i \in DOMAIN r : r[i].d = "edge" /\ r[i].c = x.c THEN r
       ELSE IF x.d = "root" /\ \E i \in DOMAIN r : r[i].d = "root" THEN r
       ELSE Append(r, x)
BuildRandNext ==
  n = 0 /\ \E k \in {RandomElement(1..6)} :
    \E q \in {RandPerm((DeclsFull \ {RandomElement(DeclsFull) : j \in 1..(IF k < 4 THEN 0 ELSE k - 3)})
                        \cup (IF k = 6 THEN {RandomElement(DeclsSmall)} ELSE {}))} :
      Step(BuildOp(NoTwoParents(q)), TRUE)

\* constraints of every shape, copied, cloned, merged and removed
Shapes ==
  LET Op1 == {"&", "|", "=>", "=>!", "<=>", "^", "=", "!=", "+", "-", "*", "/", "<", ">", "<=", ">="}
      X == {F("a"), F("b")} IN
  {Bin(o, F("a"), F("b")) : o \in Op1} \cup {Bin(o, F("a"), F("a")) : o \in {"=>", "=>!", "&"}}
  \cup {Bin(o, Not(F("a")), Bin(p, F("b"), F("c"))) : o \in {"=>", "=>!", "|"}, p \in {"&", "=>", "=>!"}}
  \cup {F("c"), Not(F("b")), [o |-> "~", x |-> F("c")], Bin("=>", F("a"), F("z")),
        Bin("=>!", F("z"), F("a")), Bin("&", Bin("|", F("a"), F("b")), Not(F("z"))), F("root"),
        Bin(">", Bin("+", F("a"), I(1)), F("b"))}
KnowNext ==
  \/ \E a \in Shapes, ck \in {"b", "n", "x"} :
       /\ DOMAIN w.M = {"A"}
       /\ n = 0 \/ (ck = "b" /\ a.o \in {"=>", "=>!", "f"})
       /\ LET e == [e |-> "addConstraint", ck |-> ck, a |-> a, req |-> "none", ek |-> "neg"] IN
          StepAll(IF ck = "n" THEN InTx("A", "copy", <<e>>, "A") ELSE Tx("A", e), TRUE)
  \/ /\ n \in 1..2 /\ DOMAIN w.M = {"A"}
     /\ \/ \E op \in {[op |-> "clone", m |-> "A", to |-> "C"],
                      [op |-> "merge", m |-> "A", m2 |-> "A", strict |-> TRUE, to |-> "C"]} :
             Loud(<<op, [op |-> "destroy", m |-> "A"]>>, TRUE)
        \/ StepAll(InTx("A", "copy", <<AddF("z", "b0", "")>>, "C"), TRUE)
        \/ \E e \in {RmF("a", TRUE, "name"), RmF("b", TRUE, "name"), Root("r1"),
                       RmF("c", FALSE, "name")} : StepAll(Tx("A", e), TRUE)

ShowNext == n = 0 /\ Step([op |-> "show"], TRUE)

\* random histories over several transactions and models
Slots == {"A", "B", "C"}
TN == {"t", "u"}
RandOp ==
  LET k == RandomElement(1..24)
      t == RandomElement(TN)
      m == RandomElement(Slots)
      m2 == RandomElement(Slots) IN
  CASE k \in 1..13 -> IF t \in DOMAIN w.T /\ w.T[t].m \in DOMAIN w.M /\ (w.T[t].open \/ k = 1)
                      THEN {e2 \in {EOp(t, RandEdit(n))} : CanEdit(t, e2)} ELSE {}
    [] k \in 14..16 -> IF t \notin DOMAIN w.T /\ m \in DOMAIN w.M
                       THEN {Open(t, m, RandomElement({"modify", "copy"}))} ELSE {}
    [] k \in 17..18 -> IF t \in DOMAIN w.T /\ w.T[t].m \in DOMAIN w.M /\
                          (w.T[t].mode = "copy" => OpenOn(m) = {})
                       THEN {Commit(t, m)} ELSE {}
    [] k = 19 -> IF t \in DOMAIN w.T THEN {Abort(t)} ELSE {}
    [] k = 20 -> IF t \in DOMAIN w.T THEN {[op |-> "move", t |-> t, m |-> w.T[t].m, to |-> x] : x \in TN \ (DOMAIN w.T)} ELSE {}
    [] k = 21 -> IF t \in DOMAIN w.T /\ (w.T[t].open => w.T[t].mode = "modify")
                       THEN {Drop(t)} ELSE {}
    [] k = 22 -> IF m \in DOMAIN w.M /\ m2 # m /\ OpenOn(m2) = {}
                 THEN {[op |-> "clone", m |-> m, to |-> m2]} ELSE {}
    [] k = 23 -> IF m # "A" /\ m \in DOMAIN w.M /\ OpenOn(m) = {}
                 THEN {[op |-> "destroy", m |-> m]} ELSE {}
    [] OTHER -> IF m \in DOMAIN w.M
                THEN {e2 @@ [op |-> "helper", m |-> m] :
                       e2 \in {e3 \in {RandomElement({RmF(x, TRUE, "name") : x \in BigNm}
                                       \cup {AddF(x, "b0", "") : x \in BigNm}
                                       \cup {Grp(x, "OR", "name") : x \in BigNm}
                                       \cup {Ungrp(x, "name") : x \in BigNm})} :
                               Pending = {}}}
                ELSE {}
\* no pending pointer may be invalidated by another transaction of the model
Safe(op) ==
  op.op \in {"commit", "drop"} =>
    LET t == w.T[op.t] IN
    (t.mode = "modify" /\ t.open) =>
      ((\E j \in DOMAIN t.q : Removes(t.q[j])) =>
         ~\E t2 \in Pending \ {op.t} : \E j \in DOMAIN w.T[t2].q : UsesPtr(w.T[t2].q[j]))
WalkNext ==
  /\ n < Depth
  /\ \E ops \in {RandOp} :
       IF ops = {} \/ \E op \in ops : ~Safe(op)
       THEN /\ UNCHANGED <<w, wid>> /\ n' = n + 1 /\ hist' = hist
            /\ (n = Depth - 1 => Emit(hist))
       ELSE \E op \in ops : Step(op, n = Depth - 1)

Next == CASE Profile \in {"tx1", "tx2"} -> n < Depth /\ TxNext("modify", SmallEdits, "")
          [] Profile = "ptr1" -> n < Depth /\ TxNext("modify", PtrEdits, "")
          [] Profile \in {"copy1", "copy2"} -> n < Depth /\ TxNext("copy", SmallEdits, "B")
          [] Profile = "cptr1" -> n < Depth /\ TxNext("copy", PtrEdits, "B")
          [] Profile = "moved" -> n < Depth /\ MovedNext
          [] Profile = "walk" -> WalkNext
          [] Profile = "clone" -> n < Depth /\ CloneNext
          [] Profile = "group" -> n < Depth /\ GroupNext
          [] Profile = "loc" -> n < Depth /\ LocNext
          [] Profile = "locset" -> n < Depth /\ LocSetNext
          [] Profile = "pairs" -> PairNext
          [] Profile = "bulk3" -> BulkNext({"a", "b", "c"}, 3)
          [] Profile = "bulk4" -> BulkNext({"a", "b", "c", "d"}, Depth)
          [] Profile = "bulkr" -> BulkRandNext
          [] Profile = "ord3" -> OrdNext({"Ab", "aC", "abd"})
          [] Profile = "ordr" -> OrdRandNext
          [] Profile = "curs" -> CursNext
          [] Profile = "merge" -> MergeNext
          [] Profile = "mpair" -> MPairNext
          [] Profile = "build1" -> BuildNext(DeclsSmall, Depth)
          [] Profile = "build2" -> BuildTwiceNext(Depth)
          [] Profile = "buildr" -> BuildRandNext
          [] Profile = "know" -> n < Depth /\ KnowNext
          [] Profile = "show" -> ShowNext
          [] Profile = "bigtx" -> n = 0 /\ BigNext("modify", BigEdits(w.M["A"]))
          [] Profile = "bigcopy" -> n = 0 /\ BigNext("copy", BigEdits(w.M["A"]))
          [] Profile = "biggrp" -> n = 0 /\ BigGrpNext
          [] Profile = "bigbulk" -> n = 0 /\ BigBulkNext
          [] Profile = "bigorder" -> n = 0 /\ BigOrdNext
          [] Profile = "bigmerge" -> n < Depth /\ BigMergeNext

Init == /\ n = 0
        /\ wid \in 0..Walks
        /\ \E s \in Seeds :
             /\ (Profile = "walk" => s = <<1, 2, 3, 4, 5, 6, 7, 10, 11, 12>>[1 + (wid % 10)])
             /\ hist = NewA(s)
             /\ w = Exec(EmptyWorld, NewA(s), 1)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what has to hold in every reached state and step
AllWF == \A k \in DOMAIN w.M : WF(w.M[k])
CopyWF == \A t \in DOMAIN w.T : w.T[t].c # <<>> => WF(w.T[t].c[1])
\* every traversal visits every feature once, and it is the order of features
Traversal == \A k \in DOMAIN w.M :
   LET d == Dfs(w.M[k]) IN
   /\ Len(d) = Cardinality(Feats(w.M[k])) /\ Range(d) = Feats(w.M[k])
   /\ \A i, j \in 1..Len(d) : i < j <=> Before(w.M[k], d[i], d[j])
\* grouping and ungrouping are inverses
GroupInverse == \A k \in DOMAIN w.M : \A x \in Feats(w.M[k]) :
  x \notin DOMAIN w.M[k].g =>
    RemoveRel(AddRel(w.M[k], Grp(x, "OR", "name")).m, Ungrp(x, "name")) = Done(w.M[k])
\* merging a model with itself changes nothing; what merging adds is well-formed
MergeLaws == \A k \in DOMAIN w.M :
  LET m == w.M[k] IN Mergeable(m, m, FALSE) /\ Merge(m, m) = m
MergeWF == \A j, k \in DOMAIN w.M :
  Mergeable(w.M[j], w.M[k], FALSE) =>
    LET r == Merge(w.M[j], w.M[k]) IN
    /\ (w.M[k].root = w.M[j].root => WF(r))
    /\ Feats(w.M[j]) \cup Feats(w.M[k]) = Feats(r)
    /\ \A x \in Feats(w.M[j]) : Range(w.M[j].f[x].locs) \subseteq Range(r.f[x].locs)
\* bulk removal: order cannot matter, the rest is closed upwards
BulkLaws == \A k \in DOMAIN w.M : \A S \in SUBSET Feats(w.M[k]) :
  Cardinality(Feats(w.M[k])) > 5 \/
  (/\ BulkRemoved(w.M[k], S, FALSE) \subseteq BulkRemoved(w.M[k], S, TRUE)
   /\ BulkRemoved(w.M[k], S, FALSE) \subseteq S
   /\ S \ {w.M[k].root} \subseteq BulkRemoved(w.M[k], S, TRUE)
   /\ WF(Without(w.M[k], BulkRemoved(w.M[k], S, TRUE)))
   /\ WF(Without(w.M[k], BulkRemoved(w.M[k], S, FALSE))))
LastOp == hist'[Len(hist')]
\* edits are invisible before commit; closed transactions have no effect
Invisible == [][(Len(hist') > Len(hist) /\
                 (LastOp.op \in {"open", "edit", "abort"} \/
                  (LastOp.op = "commit" /\ ~w.T[LastOp.t].open)))
                => w'.M = w.M]_vars
\* a copy transaction never changes the model it was opened on
CopyIsolated == [][(Len(hist') > Len(hist) /\ LastOp.op \in {"edit", "commit", "abort"} /\
                    w.T[LastOp.t].mode = "copy" /\ LastOp.m \in DOMAIN w.M
                    /\ (LastOp.op = "commit" => LastOp.to # LastOp.m))
                   => w'.M[LastOp.m] = w.M[LastOp.m]]_vars
=============================================================================
