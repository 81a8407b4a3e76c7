------------------------------ MODULE Gen_MC --------------------------------
(***************************************************************************)
(* Enumerates models the XML format can express and runs of                *)
(* config-generator on them.                                               *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS Profile, Depth, Walks
VARIABLES st, hist, n, wid
vars == <<st, hist, n, wid>>
S == INSTANCE Solver_MC
Run(q, o) == [op |-> "gen", root |-> "root", steps |-> q, file |-> "doc", want |-> "all", to |-> "given", via |-> "args"] @@ o
With(q, o) == o @@ Run(q, [z |-> 0])
Put(op) == st' = op /\ n' = n + 1 /\ hist' = hist /\ wid' = wid /\ PrintT("SCRIPT " \o ToJson(<<op>>))
Out(f, y) == f @@ [out |-> y]
Flag(x) == "-" \o x

----------------------------------------------------------------------------
\* small models: two features and every flag, group and constraint
Small(x, p) == {Out(f, y) : f \in {S!B(x, TRUE, p), S!B(x, FALSE, p), S!L(x, p, <<3, -1>>), S!RS(x, p, 1, 9, "*", 2, FALSE)},
                            y \in {"", Flag(x)}}
Under(f) == IF f.k = "bin" THEN {"root", f.n} ELSE {"root"}
SmallNext == n = 0 /\ \E f \in Small("a", "root") :
  \/ Put(Run(<<f>>, [z |-> 0]))
  \/ \E g \in UNION {Small("b", p) : p \in Under(f)} :
       \/ Put(Run(<<f, g>>, [z |-> 0]))
       \/ f.k = "bin" /\ g.k = "bin" /\ \E c \in {S!Bin(o, S!F("a"), S!F("b")) : o \in {"&", "|", "^", "=>", "<=>"}} \cup {S!Not(S!F("b"))} :
            Put(Run(<<f, g, S!CB(c)>>, [z |-> 0]))
       \/ f.k = "bin" /\ g.k = "bin" /\ ~f.opt /\ ~g.opt /\ g.p = "root" /\ Put(Run(<<f, g, S!G("root", "ALT")>>, [z |-> 0]))

----------------------------------------------------------------------------
\* the ways to call it
Model1 == <<Out(S!B("a", TRUE, "root"), "-a"), Out(S!L("x", "a", <<3, -1>>), "-x=")>>
Unsat == <<Out(S!B("a", FALSE, "root"), "-a"), S!CB(S!Not(S!F("a")))>>
Table1 == [cols |-> <<"a", "x">>, rows |-> <<<<1, 3>>, <<0, -1>>>>]
WayNext == n = 0 /\ \E q \in {Model1, Unsat} : \E f \in {"doc", "broken", "missing", "none", "two"} :
  \E w \in {"", "all", "sample", "strategy", "other"} : \E t \in {"", "given", "nowhere"} : \E v \in {"args", "env"} : \E c, old \in BOOLEAN :
    LET o == [op |-> "gen", root |-> "root", steps |-> q, file |-> f, want |-> w, to |-> t, via |-> v, old |-> old] IN
    Put(IF c THEN o @@ [csv |-> Table1] ELSE o)

----------------------------------------------------------------------------
\* tables
Model2 == <<Out(S!B("a", TRUE, "root"), "-a"), Out(S!B("b", FALSE, "a"), ""), Out(S!R("x", "root", 0, 9), "-x="),
            Out(S!L("y", "b", <<7, 8>>), "")>>
Cols == {<<"a">>, <<"x">>, <<"a", "x">>, <<"x", "a">>, <<"b", "x", "a">>, <<"other", "a">>, <<"root", "a", "x">>, <<"y", "x">>, <<"other">>}
Cell(x) == IF x = "x" THEN {0, 5} ELSE IF x = "y" THEN {8} ELSE {0, 1}
RECURSIVE Rows(_)
Rows(q) == IF q = <<>> THEN {<<>>} ELSE {<<v>> \o r : v \in Cell(q[1]), r \in Rows(Tail(q))}
TableNext == n = 0 /\ \E c \in Cols : \E rs \in {<<>>} \cup {<<r>> : r \in Rows(c)} \cup {<<r, t>> : r \in Rows(c), t \in Rows(c)} :
  Put(With(Model2, [want |-> "sample", csv |-> [cols |-> c, rows |-> rs], old |-> Len(rs) = 1]))

----------------------------------------------------------------------------
\* random models, brought into a shape the format can express: groups of two or
\* more mandatory binary features at the end, no stated exclusions
RECURSIVE RBool(_, _)
RBool(X, d) == LET k == RandomElement(1..(IF d = 0 THEN 1 ELSE 4)) IN
  CASE k = 1 -> S!F(RandomElement(X))
    [] k = 2 -> S!Not(RBool(X, d - 1))
    [] OTHER -> S!Bin(RandomElement({"&", "|", "^", "=>", "<=>"}), RBool(X, d - 1), RBool(X, d - 1))
Fits(q, g) == LET K == {q[j] : j \in {j \in DOMAIN q : q[j].e = "f" /\ q[j].p = g}} IN
  Cardinality(K) > 1 /\ \A f \in K : f.k = "bin"
Shape(q0) ==
  LET fs == SelectSeq(q0, LAMBDA s : s.e = "f")
      gs == {q0[j].n : j \in {j \in DOMAIN q0 : q0[j].e = "g" /\ q0[j].kind = "ALT" /\ Fits(q0, q0[j].n)}}
      f1 == [j \in DOMAIN fs |->
               LET f == IF fs[j].p \in gs THEN [fs[j] EXCEPT !.opt = FALSE] ELSE fs[j] IN
               Out(f, IF RandomElement(1..4) = 1 THEN "" ELSE IF f.k = "num" THEN "--" \o f.n \o "=" ELSE "-" \o f.n)] IN
  f1 \o [j \in 1..Cardinality(gs) |-> S!G(SetToSeq(gs)[j], "ALT")]
RCons(q) == LET z == RandomElement(1..5)  X == S!Inner(q)  N == S!Nums(q) IN
  CASE z <= 2 -> <<S!CB(RBool(X, 2))>>
    [] z = 3 /\ N # {} -> <<S!CN(S!RForm(N, 1))>>
    [] z = 4 -> <<S!CX(S!RForm(X \cup N, 1), RandomElement({"all", "none"}), RandomElement({"pos", "neg"}))>>
    [] OTHER -> <<>>
RTable(q) ==
  LET m == Model([root |-> "root", steps |-> q])
      all == SetToSeq(Names(m) \cup {"other"})
      k == RandomElement(1..Len(all))
      cols == SubSeq(all, k, Len(all)) \o SubSeq(all, 1, RandomElement(0..(k - 1)))
      nrow == RandomElement(0..12)
      val(x) == IF x \in Names(m) THEN RandomElement(IF DomOf(m, x) = {} THEN {4} ELSE DomOf(m, x)) ELSE RandomElement(0..3) IN
  [cols |-> cols, rows |-> [j \in 1..nrow |-> [h \in 1..Len(cols) |-> val(cols[h])]]]
RandNext == n = 0 /\ \E q0 \in {S!RSteps(<<>>, 1)} : \E q1 \in {TLCEval(Shape(q0))} : \E c \in {RCons(q1) \o RCons(q1)} :
  \E t \in {TLCEval(RTable(q1))} : \E w \in {RandomElement(1..3)} :
  \E old \in {RandomElement(BOOLEAN)} :
  Put(IF w < 3 THEN With(q1 \o c, [old |-> old]) ELSE With(q1 \o c, [want |-> "sample", csv |-> t, old |-> old]))

Init == st = <<>> /\ hist = <<>> /\ n = 0 /\ wid \in 0..Walks
Next == CASE Profile = "small" -> SmallNext
          [] Profile = "ways" -> WayNext
          [] Profile = "table" -> TableNext
          [] Profile = "rand" -> RandNext
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* laws: as many entries as configurations or lines, and the flags of a whole
\* assignment name every feature that is on and has one
Laws == n > 0 =>
  LET o == Outcome(st) IN
  /\ (o.r = "OK" => FoldSet(LAMBDA b, x : x + o.bag[b], 0, DOMAIN o.bag) = o.n)
  /\ (o.r = "FAILED" => o.n = 0)
  /\ (o.r = "OK" /\ st.want # "sample" =>
        \A a \in Configs(Model(st)) :
          Cardinality(FlagsOf(Model(st), a)) = Cardinality({x \in DOMAIN Model(st).F : Model(st).F[x].out # ""
                                                              /\ (KindOf(Model(st), x) = "i" \/ a[x] = 1)}))
=============================================================================
