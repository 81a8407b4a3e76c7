-------------------------------- MODULE Py_MC --------------------------------
(***************************************************************************)
(* Scripts for the Python bindings (C23).                                  *)
(***************************************************************************)
EXTENDS Xml_MC

PAts == {"b0", "b3"} \cup {k \in DOMAIN Tables.attr : Tables.attr[k].py}
PLocs == {k \in DOMAIN Tables.loc : Tables.plain[k]}
PHelp(e) == e @@ [op |-> "helper", m |-> "A"]
PAdd(x, at, p) == PHelp(AddF(x, at, p))
PRm(x, rec) == PHelp(RmF(x, rec, "ptr"))
PLoc(x, l) == PHelp(ALoc(x, l, "ptr"))
PUnloc(x, l) == PHelp(RLoc(x, l, "ptr"))
PUpd(x, l, k) == [op |-> "updateLoc", m |-> "A", n |-> x, loc |-> l, new |-> k]
PMerge(x, y, s, to) == [op |-> "merge", m |-> x, m2 |-> y, strict |-> s, to |-> to]
POrder == [op |-> "order", m |-> "A"]
PSave(m) == IF Expressible(m) THEN {[op |-> "xmlsave", m |-> "A", to |-> "B"]} ELSE {}

\* where scripts start: documents and declarations
PDecls == {Fd("a", "b0"), Fd("b", "b3"), Fd("c", "b0"), Ed("a", "b"), Ed("a", "c"), Ed("root", "a"), Ed("r0", "b"),
           Rl("a", "ALT"), Rl("a", "OR"), Rl("r0", "OR"), Cd(Con("b", Bin("=>!", F("b"), F("a")))),
           Cd(Con("n", Bin("<=", Bin("+", F("b"), I(3)), [o |-> "~", x |-> F("a")]))),
           Cd(Con("b", F("z"))), Md("root", "r0"), Md("name", "N 1"), Md("commit", "beef"), Md("path", "p/a b.xml")}
RootD(x) == [d |-> "root", n |-> x]
FixD(x) == IF x.d = "root" THEN RootD("r0") ELSE x
GroupOnce(q) == \A i, j \in DOMAIN q : i # j /\ q[i].d = "rel" /\ q[j].d = "rel" => q[i].n # q[j].n
PBuild(q) == BuildOp([j \in DOMAIN q |-> FixD(q[j])])
FullDecls == <<Fd("a", "b3"), Fd("b", "b0"), Fd("c", "b3"), Fd("d", "b0"), Fd("H", "b0"), Ed("a", "b"), Ed("a", "c"),
               Ed("b", "d"), Rl("a", "ALT"), Rl("b", "OR"), Cd(Con("b", Bin("=>", F("b"), Not(F("d"))))),
               Cd(Con("n", Bin(">", Bin("*", F("a"), I(2)), F("r0")))), RootD("r0"), Md("name", "full"),
               Md("path", "x/y.xml"), Md("commit", "c1")>>
AltDoc == Doc(<<Opt("root", "rl", "?"), Opt("a", "b0", "root"),
                [Opt("b", "b2", "a") EXCEPT !.excl = <<"c">>], [Opt("c", "n2", "a") EXCEPT !.excl = <<"b">>],
                Opt("two words", "x0", "c"), Opt("é ü", "x3", "c"), Opt("H", "n1", "root")>>)
Starts == {Read(FullDoc, 0), Read(AltDoc, 0), BuildOp(FullDecls)}
AllStarts ==
  Starts \cup {Read(Doc(<<Opt("root", r, "?"), Opt("a", at, "root"), Opt("b", "b0", "a")>>), 0) : at \in XAts, r \in {"r0", "rl"}}
  \cup {Read([FullDoc EXCEPT !.flaw = fl], 0) : fl \in Flaws \cup BadConstraints}
  \cup {Read([BaseDoc EXCEPT !.cb = IF k = "b" THEN <<a>> ELSE <<>>, !.cn = IF k = "n" THEN <<a>> ELSE <<>>,
                             !.cx = IF k = "x" THEN <<[a |-> a, req |-> "none", ek |-> "neg"]>> ELSE <<>>], 0)
        : a \in XShapes, k \in {"b", "n", "x"}}
  \cup {Read([FullDoc EXCEPT !.path = p, !.commit = c, !.name = "N & <M> \"q\""], 1) : p \in {"?", "", "x y.xml"}, c \in {"?", "c0ffee"}}

\* everything a script can do with model A
PEdits(m) ==
  {PAdd("z", at, x) : at \in PAts, x \in Feats(m)}
  \cup {PAdd(x, "b3", m.root) : x \in Feats(m)}
  \cup {PRm(x, rec) : x \in Feats(m), rec \in BOOLEAN}
  \cup {PLoc(x, l) : x \in Feats(m), l \in {"L1", "L4", "L8", "L9"}}
  \cup {PUnloc(x, l) : x \in Feats(m), l \in {"L1", "L2", "L11"}}
  \cup {PUpd(x, l, k) : x \in Feats(m), l \in {"L1", "L2"}, k \in {"L4", "L10"}}
  \cup {PHelp(Set("setCommit", v)) : v \in {"", "dead"}}
  \cup {PMerge("A", "A", s, "B") : s \in BOOLEAN} \cup PSave(m) \cup {POrder}
\* two documents with the same names: what strictness is about
Twins(x, y, p) ==
  <<Read(Doc(<<Opt("root", "r0", "?"), Opt("a", x, "root"), Opt("b", "b0", "a")>>), 0),
    [Read(Doc(<<Opt("root", "r0", "?"), Opt("a", y, "root"), Opt("c", "b0", "a"), Opt("b", "b0", p)>>), 0) EXCEPT !.m = "B"],
    PMerge("A", "B", TRUE, "C"), PMerge("A", "B", FALSE, "D")>>
OneNext ==
  \/ n = 0 /\ \E x, y \in XAts : \E p \in (IF x = y THEN {"root", "a", "c"} ELSE {"a"}) : StepAll(Twins(x, y, p), TRUE)
  \/ n = 0 /\ \E op \in AllStarts : Step(op, TRUE)
  \/ n = 1 /\ "A" \in DOMAIN w.M /\ "B" \notin DOMAIN w.M /\ \E op \in PEdits(w.M["A"]) : Step(op, TRUE)
\* two edits, another model, and both together
HistEdits(m) ==
  {PAdd("z", at, x) : at \in {"b3", "p4"}, x \in Feats(m) \cap {"a", "root", "r0"}}
  \cup {PRm(x, rec) : x \in Feats(m), rec \in BOOLEAN}
  \cup {PLoc("a", "L9"), PUnloc("a", "L1"), PUpd("a", "L1", "L4")} \cup PSave(m)
HistNext ==
  \/ n = 0 /\ \E op \in Starts : Step(op, FALSE)
  \/ n = 1 /\ \E op \in {o \in HistEdits(w.M["A"]) : "n" \notin DOMAIN o \/ o.n # "a" \/ "a" \in Feats(w.M["A"])} : Step(op, FALSE)
  \/ n = 2 /\ \E op \in {o \in HistEdits(w.M["A"]) : "n" \notin DOMAIN o \/ o.n # "a" \/ "a" \in Feats(w.M["A"])} : Step(op, TRUE)
  \/ n = 2 /\ \E op \in {PMerge("A", y, s, "C") : y \in DOMAIN w.M, s \in BOOLEAN} : Step(op, TRUE)
BuildPyNext ==
  n = 0 /\ \E T \in Subs(PDecls, Depth) : \E q \in PermsOf(T) :
    /\ OneParent(q) /\ RootsOk(q) /\ GroupOnce(q)
    /\ Step(PBuild(q), TRUE)
\* chains of calls
PBin == {"&", "|", "^", "=>", "=>!", "<=>", "=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/"}
PCall(k, v) == [k |-> k, v |-> v]
PAtoms == {PCall("id", "a"), PCall("num", "7"), PCall("!", ""), PCall("~", ""), PCall("(", ""), PCall(")", ""),
           PCall("()", ""), PCall("op", "&"), PCall("op", "*"), PCall("op", "=>!")}
RECURSIVE PChain(_)
PChain(d) ==
  LET k == RandomElement(1..(IF d = 0 THEN 2 ELSE 8)) IN
  CASE k <= 2 -> <<RandomElement({PCall("id", "a"), PCall("id", "b"), PCall("num", "7"), PCall("num", "-5")})>>
    [] k = 3 -> <<PCall(RandomElement({"!", "~"}), "")>> \o PChain(d - 1)
    [] k = 4 -> <<PCall("(", "")>> \o PChain(d - 1) \o <<PCall(")", "")>>
    [] OTHER -> PChain(d - 1) \o <<PCall("op", RandomElement(PBin))>> \o PChain(d - 1)
CallPyNext ==
  \/ n = 0 /\ wid = 0 /\ \E k \in 1..3 : \E q \in [1..k -> PAtoms] : Step([op |-> "cbuild", calls |-> q], TRUE)
  \/ n = 0 /\ wid = 0 /\ \E o1, o2 \in PBin : \E u \in {"!", "~", "("} :
       Step([op |-> "cbuild", calls |-> <<PCall("id", "a"), PCall("op", o1), PCall(u, ""), PCall("num", "3"), PCall("op", o2),
                                         PCall("id", "b")>> \o (IF u = "(" THEN <<PCall(")", "")>> ELSE <<PCall("()", "")>>)], TRUE)
  \/ n = 0 /\ wid > 0 /\ \E q \in {PChain(4)} : Step([op |-> "cbuild", calls |-> q], TRUE)
LocPyNext ==
  \/ n = 0 /\ \E x, y \in PLocs : Step([op |-> "locEq", x |-> x, y |-> y], TRUE)
  \/ n = 0 /\ \E x, y \in PLocs : Tables.shape[x] = Tables.shape[y] /\ Step([op |-> "pyloc", x |-> x, y |-> y], TRUE)

\* random documents, then random edits
RandEditP(z) ==
  LET m == w.M["A"]
      x == RandomElement(Feats(m))
      k == RandomElement(1..14) IN
  CASE k \in 1..4 -> PAdd(RandomElement(XNames), RandomElement(PAts), x)
    [] k \in 5..6 -> PRm(x, RandomElement(BOOLEAN))
    [] k = 7 -> PLoc(x, RandomElement(PLocs))
    [] k = 8 -> PUnloc(x, RandomElement(PLocs))
    [] k = 9 -> IF m.f[x].locs = <<>> THEN PLoc(x, RandomElement(PLocs)) ELSE PUpd(x, RandomElement({"L1", "L2", "L4"}), RandomElement(PLocs))
    [] k = 10 -> PHelp(Set("setCommit", RandomElement({"u", "v w", "&<>", "é"})))
    [] k = 11 /\ "B" \in DOMAIN w.M -> PMerge("A", "B", RandomElement(BOOLEAN), "A")
    [] k = 12 /\ "B" \in DOMAIN w.M -> PMerge("B", "A", RandomElement(BOOLEAN), "B")
    [] k = 13 /\ Expressible(m) -> [op |-> "xmlsave", m |-> "A", to |-> "B"]
    [] OTHER -> POrder
RandDeclsP == RandPerm({FullDecls[j] : j \in DOMAIN FullDecls} \ {FullDecls[RandomElement({1, 3, 7, 8, 9, 10, 11, 12})]})
RandPyNext ==
  \/ n = 0 /\ wid % 3 # 0 /\ RandDocNext
  \/ n = 0 /\ wid % 3 = 0 /\ \E q \in {RandDeclsP} : Step(BuildOp(q), TRUE)
  \/ n = 1 /\ "A" \in DOMAIN w.M /\ Step(PMerge("A", "A", TRUE, "B"), FALSE)
  \/ n \in 2..(Depth - 1) /\ \E op \in {RandEditP(n)} : Step(op, n = Depth - 1)

PNext == CASE Profile = "pyone" -> OneNext
           [] Profile = "pyhist" -> HistNext
           [] Profile = "pybuild" -> BuildPyNext
           [] Profile = "pycall" -> CallPyNext
           [] Profile = "pyloc" -> LocPyNext
           [] Profile = "pyrand" -> n < Depth /\ RandPyNext
PInit == XInit
=============================================================================
