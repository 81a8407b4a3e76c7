------------------------------- MODULE Xml_MC -------------------------------
(***************************************************************************)
(* Documents to read (C11) and models to write (C10). Every document or    *)
(* model printed here is given to the implementation.                      *)
(***************************************************************************)
EXTENDS FM_MC

Opt(x, at, par) == [n |-> x, at |-> at, par |-> par, kids |-> <<>>, impl |-> <<>>, excl |-> <<>>]
Doc(opts) == [name |-> "D", path |-> "p/q", commit |-> "?", opts |-> opts, cb |-> <<>>, cn |-> <<>>,
              cx |-> <<>>, flaw |-> ""]
Read(doc, deco) == [op |-> "xmlread", m |-> "A", doc |-> doc, deco |-> deco]

\* a document is read by the library (C11) or handed to the viewer (C26)
Tools(rd, pick, file, via) ==
  [op |-> "tool", m |-> "A", doc |-> rd.doc, deco |-> rd.deco, pick |-> SeqOfSet(pick), file |-> file, via |-> via, old |-> via = "env"]
Picks == {{"verify"}, {"dump"}, {"out"}, {"show"}, {"verify", "dump"}, {"verify", "out"}, {"dump", "out"},
          {"verify", "show"}, {"out", "show"}, {"dump", "show"}}
RandPick(z) == RandomElement({{"verify"}, {"dump"}, {"out"}, {"verify", "out"}, {"verify", "dump"}, {"dump", "out"}})
Given(rd, out) ==
  CASE Profile = "tone" -> \E p \in {{"verify"}, {"dump"}, {"out"}} : Step(Tools(rd, p, "doc", "args"), out)
    [] Profile = "trand" -> \E p \in {RandPick(n)} : \E v \in {RandomElement({"args", "env"})} :
                              Step(Tools(rd, p, "doc", v), out)
    [] OTHER -> Step(rd, out)

\* exhaustive: three options, every combination of stated parents and children
SmallDocNext ==
  n = 0 /\ \E given \in {"", "root", "base"} :
    \E pa \in {"?", "root", "base", "a", "b", "z"}, pb \in {"?", "root", "a", "b"} :
    \E kr \in {<<>>, <<"a">>, <<"b", "a">>}, ka \in {<<>>, <<"b">>}, kb \in {<<>>, <<"a">>, <<"z">>} :
      /\ given = "" => kr = <<>>
      /\ \E rev \in BOOLEAN :
           LET a == [Opt("a", "b1", pa) EXCEPT !.kids = ka]
               b == [Opt("b", "n0", pb) EXCEPT !.kids = kb]
               r == IF given = "" THEN <<>> ELSE <<[Opt(given, "r0", "?") EXCEPT !.kids = kr]>> IN
           Given(Read(Doc(IF rev THEN <<b, a>> \o r ELSE r \o <<a, b>>), 0), TRUE)
\* exhaustive: three siblings, every set of exclusions and optional siblings
PairsOf(S) == {p \in S \X S : p[1] # p[2]}
AltDocNext ==
  n = 0 /\ \E opts \in SUBSET {"a", "b", "c"}, X \in SUBSET PairsOf({"a", "b", "c"}) :
    /\ Cardinality(opts) <= 1
    /\ LET o(x) == [Opt(x, IF x \in opts THEN "b3" ELSE "b0", IF x = "c" /\ opts = {"b"} THEN "a" ELSE "root")
                    EXCEPT !.excl = SeqOfSet({p[2] : p \in {q \in X : q[1] = x}})] IN
       Given(Read(Doc(<<Opt("root", "r0", "?"), o("a"), o("b"), o("c")>>), 0), TRUE)
\* every attribute, every kind of constraint, every defect
XAts == {"b0", "b1", "b2", "b3", "n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7", "n8", "n9"}
        \cup {k \in DOMAIN Tables.attr : Tables.attr[k].x}
XRootAts == {"r0", "rl"}
XLocs == {k \in DOMAIN Tables.loc : Tables.placed[Tables.loc[k]]}
XShapes ==
  {Bin(o, F("a"), F("b")) : o \in {"&", "|", "=>", "=>!", "<=>", "^", "=", "!=", "+", "-", "*", "/", "<", ">", "<=", ">="}}
  \cup {F("a"), Not(F("a")), Not(Not(F("b"))), [o |-> "~", x |-> F("b")], Bin("=>", F("a"), F("a")),
        Bin("=>!", F("a"), F("a")), Bin("=>", Not(F("a")), F("b")), Bin("=>!", Bin("|", F("a"), F("b")), F("a")),
        Bin("=>", F("a"), Bin("=>", F("b"), F("a"))), Bin("&", Bin("=>", F("a"), F("b")), F("a")),
        Bin(">=", Bin("*", F("b"), I(3)), Bin("+", F("a"), I(0))), Bin("=>", F("root"), F("a"))}
BaseDoc == Doc(<<[Opt("root", "r0", "?") EXCEPT !.kids = <<"a">>], Opt("a", "b2", "?"),
                 [Opt("b", "n1", "a") EXCEPT !.impl = <<"a", "root">>, !.excl = <<"c">>], Opt("c", "b3", "a")>>)
FullDoc == [BaseDoc EXCEPT !.cb = <<Bin("=>", F("a"), F("b"))>>, !.cn = <<Bin("<", F("a"), F("b"))>>,
                           !.cx = <<[a |-> Bin(">", F("a"), F("b")), req |-> "all", ek |-> "neg"]>>]
ASSUME Import(FullDoc).r = "OK"
OneDocNext ==
  n = 0 /\
  \/ \E at \in XAts : \E deco \in 0..3 :
       Given(Read(Doc(<<Opt("root", "r0", "?"), Opt("a", at, "root"), Opt("b", "b0", "a")>>), deco), TRUE)
  \/ \E at \in XRootAts, r \in ReservedRoots : \E deco \in 0..3 :
       Given(Read(Doc(<<Opt("a", "b0", r), Opt(r, at, "?")>>), deco), TRUE)
  \/ \E a \in XShapes : \E k \in {"b", "n", "x"} : \E req, ek \in {"?", "all", "none", "pos", "neg"} :
       /\ (k # "x" => req = "?" /\ ek = "?") /\ req \notin {"pos", "neg"} /\ ek \notin {"all", "none"}
      
       /\ Given(Read([BaseDoc EXCEPT !.cb = IF k = "b" THEN <<a>> ELSE <<>>,
                                    !.cn = IF k = "n" THEN <<a>> ELSE <<>>,
                                    !.cx = IF k = "x" THEN <<[a |-> a, req |-> req, ek |-> ek]>> ELSE <<>>],
                    7), TRUE)
  \/ \E fl \in Flaws \cup BadConstraints \cup (IF Profile = "tone" THEN {} ELSE {"unspecified"}) : \E deco \in 0..23 :
       Given(Read([FullDoc EXCEPT !.flaw = fl], deco), TRUE)
  \/ \E p \in {"?", "", "x y.xml", "/abs/a&b.xml"}, c \in {"?", "", "c0ffee"}, nm \in {"D", "N & <M> \"q\""} :
       Given(Read([FullDoc EXCEPT !.path = p, !.commit = c, !.name = nm], 1), TRUE)
  \* one definition twice, one name not defined
  \/ \E k \in 1..4 : Given(Read([FullDoc EXCEPT !.opts = Append(@, @[k])], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.opts = Append(@, Opt("base", "r0", "?"))], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.opts = <<Opt("base", "r0", "?")>> \o @], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.cb = Append(@, Bin("|", F("a"), F("z")))], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.cn = Append(@, Bin("<", F("z"), I(3)))], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.cx = Append(@, [a |-> F("z"), req |-> "all", ek |-> "pos"])], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.opts[3].impl = <<"z">>], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.opts[2].excl = <<"z">>], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.opts[2].kids = <<"z">>], 0), TRUE)
  \/ Given(Read([FullDoc EXCEPT !.opts[2].par = "z"], 0), TRUE)

----------------------------------------------------------------------------
\* random documents
XNames == {"a", "b", "c", "d", "H", "x_1", "a<b&c", "é ü", "two words", "p.q"}
Ident == {"a", "b", "c", "d", "H", "x_1", "root", "base"}
Mandatory == {k \in XAts : ~Attr(k).opt}
RECURSIVE RandAstOver(_, _)
RandAstOver(S, d) ==
  LET k == RandomElement(1..(IF d = 0 THEN 1 ELSE 6)) IN
  CASE k = 1 -> F(RandomElement(S))
    [] k = 2 -> Not(RandAstOver(S, d - 1))
    [] k = 3 -> Bin(RandomElement({"<", ">=", "=", "!="}), F(RandomElement(S)), I(RandomElement(0..3)))
    [] OTHER -> Bin(RandomElement({"&", "|", "=>", "=>!", "<=>", "^"}),
                    RandAstOver(S, d - 1), RandAstOver(S, d - 1))
Weird(a) == a.o = "=>!"
RandSome(S, k) == RandPerm({RandomElement(S) : j \in 1..RandomElement(0..k)})
Kid(par, x) == {y \in DOMAIN par : par[y] = x}
\* how an edge is stated: by the child, by the parent, by both
MkOpt(x, at, par, side, rootGiven, alts, impl, excl) ==
  LET isroot == x \notin DOMAIN par
      ks == {y \in Kid(par, x) : side[y] \in {"k", "b"}} IN
  [n |-> x, at |-> at,
   par |-> IF isroot THEN "?" ELSE IF side[x] \in {"p", "b"} THEN par[x] ELSE "?",
   kids |-> RandPerm(ks),
   impl |-> impl,
   excl |-> IF isroot \/ par[x] \notin alts THEN excl
            ELSE RandPerm((Kid(par, par[x]) \ {x}) \cup Range(excl))]
Spoil(doc, k, x) ==
  LET os == doc.opts
      i == RandomElement(1..Len(os)) IN
  CASE k = 1 -> [doc EXCEPT !.opts = SubSeq(os, 1, i) \o <<os[RandomElement(1..Len(os))]>> \o SubSeq(os, i + 1, Len(os))]
    [] k = 2 -> [doc EXCEPT !.opts[i].par = x]
    [] k = 3 -> [doc EXCEPT !.opts[i].kids = Append(SelectSeq(@, LAMBDA u : u # x), x)]
    [] k = 4 -> [doc EXCEPT !.opts[i].impl = Append(@, "undefined")]
    [] k = 5 -> [doc EXCEPT !.opts[i].kids = Append(@, "undefined")]
    [] k = 6 -> [doc EXCEPT !.opts[i].par = "undefined"]
    [] k = 7 -> [doc EXCEPT !.cb = Append(@, Bin("&", F("a"), F("undefined")))]
    [] k = 8 -> [doc EXCEPT !.opts = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
    [] OTHER -> doc
RandDocNext ==
  n = 0 /\
  \E r \in {RandomElement({"root", "base"})}, k \in {RandomElement(1..8)}, q \in {RandPerm(XNames)} :
  \E par0 \in {RandTree(q, k)} :
  \E par \in {[x \in DOMAIN par0 |-> IF par0[x] = "root" THEN r ELSE par0[x]]} :
  \E given \in {r = "base" \/ RandomElement(1..4) > 1} :
  \E alts \in {RandSub(Parents(par))} :
  \E side \in {[x \in DOMAIN par |->
       IF par[x] = r /\ ~given THEN RandomElement({"p", "n"})
       ELSE IF par[x] = r THEN RandomElement({"p", "k", "b", "n"})
       ELSE RandomElement({"p", "k", "b"})]} :
  \E ids \in {(DOMAIN par \cup {r}) \cap Ident} :
  \E os \in {{MkOpt(x, IF x = r THEN RandomElement(XRootAts)
                       ELSE IF par[x] \in alts /\ RandomElement(1..6) > 1 THEN RandomElement(Mandatory)
                       ELSE RandomElement(XAts),
                    par, side, given, alts,
                    IF RandomElement(1..3) = 1 THEN RandSome(DOMAIN par, 2) ELSE <<>>,
                    IF RandomElement(1..3) = 1 THEN RandSome(DOMAIN par, 2) ELSE <<>>)
             : x \in DOMAIN par \cup (IF given THEN {r} ELSE {})}} :
  \E seq \in {RandPerm(os)} :
  \E doc \in {[name |-> RandomElement({"D", "N 2"}), path |-> RandomElement({"?", "a/b.xml"}),
               commit |-> RandomElement({"?", "1a2b"}), opts |-> seq,
               cb |-> IF ids = {} THEN <<>> ELSE [j \in 1..RandomElement(0..2) |-> RandAstOver(ids, 2)],
               cn |-> IF ids = {} THEN <<>> ELSE SelectSeq([j \in 1..RandomElement(0..1) |-> RandAstOver(ids, 2)],
                                                           LAMBDA a : ~Weird(a)),
               cx |-> IF ids = {} THEN <<>> ELSE SelectSeq([j \in 1..RandomElement(0..2) |->
                         [a |-> RandAstOver(ids, 2), req |-> RandomElement({"?", "all", "none"}),
                          ek |-> RandomElement({"?", "pos", "neg"})]], LAMBDA c : ~Weird(c.a)),
               flaw |-> ""]} :
  \E sp \in {RandomElement(1..20)} :
  \E d2 \in {IF doc.opts = <<>> THEN doc
             ELSE Spoil(doc, sp, RandomElement(XNames \cup {"root"}))} :
    Given(Read(d2, RandomElement(0..1000000)), TRUE)

----------------------------------------------------------------------------
\* models to write
Save == <<[op |-> "xmlsave", m |-> "A", to |-> "B"]>>
After(ops) == Exec(w, ops, 1).M["A"]
Saved(ops, out) ==
  LET m == After(ops) IN
  /\ Assert(NormalLaws(m), <<"normal form", m>>)
  /\ StepAll(ops \o (IF Expressible(m) THEN Save ELSE <<>>), out)
NewRoot(r) == <<[op |-> "new", m |-> "A", name |-> "M", root |-> r, path |-> "x.xml", commit |-> ""]>>
OneModelNext ==
  \/ n = 0 /\ \E at \in XAts, p \in {"root", "g"} :
       Saved(NewRoot("root") \o InTx("A", "modify", Flat(<<AddF("g", "b0", ""), AddF("a", at, p)>>, 1), ""), TRUE)
  \/ n = 0 /\ \E l \in DOMAIN Tables.loc, x \in {"base", "g"} :
       Saved(NewRoot("base") \o InTx("A", "modify", <<AddF("g", "b2", ""), ALoc(x, l, "name")>>, ""), TRUE)
  \/ n = 0 /\ \E a \in XShapes, k \in {"b", "n", "x"}, req \in {"all", "none"}, ek \in {"pos", "neg"} :
       /\ (k # "x" => req = "all" /\ ek = "pos")
       /\ Saved(NewRoot("root") \o InTx("A", "modify",
            <<AddF("a", "b0", ""), AddF("b", "n0", ""),
              [e |-> "addConstraint", ck |-> k, a |-> a, req |-> req, ek |-> ek]>>, ""), TRUE)
  \/ n = 0 /\ \E par \in Trees({"a", "b", "c", "d"}) : \E G \in SUBSET Parents(par) :
       Saved(NewRoot("root") \o TreeOps(par, G, "ALT"), TRUE)
  \/ n = 0 /\ \E v \in {"", "M 2", "a & <b> \"c\""} : \E e \in {"setName", "setPath", "setCommit"} :
       Saved(NewRoot("base") \o InTx("A", "modify", <<Set(e, v)>>, ""), TRUE)
RandTx == \* add several features and groups at once
  \E q \in {RandPerm(XNames)}, k \in {RandomElement(2..9)} :
  \E par \in {RandTree(q, k)} :
  \E alts \in {{x \in RandSub(Parents(par)) : Cardinality(Kid(par, x)) > 1}} :
  \E at \in {[x \in DOMAIN par |-> IF par[x] \in alts THEN RandomElement(Mandatory) ELSE RandomElement(XAts)]} :
  \E ids \in {(DOMAIN par \cup {"root"}) \cap Ident} :
  \E cs \in {[j \in 1..RandomElement(0..4) |->
       CASE RandomElement(1..3) = 1 -> Con("b", RandAstOver(ids, 2))
         [] RandomElement(1..2) = 1 -> Con("b", Bin(RandomElement({"=>", "=>!"}), F(RandomElement(ids)),
                                                    F(RandomElement(ids))))
         [] OTHER -> RandomElement({Con("n", Not(RandAstOver(ids, 2))),
                        ConX(Not(RandAstOver(ids, 2)), RandomElement({"all", "none"}), RandomElement({"pos", "neg"}))})]} :
  \E ls \in {[j \in 1..RandomElement(0..3) |-> ALoc(RandomElement(DOMAIN par \cup {"root"}), RandomElement(XLocs), "name")]} :
    Saved(NewRoot("root") \o InTx("A", "modify",
       [j \in 1..k |-> AddF(q[j], at[q[j]], "")]
       \o SeqOfSet({Move(x, par[x], FALSE, "name") : x \in DOMAIN par})
       \o SeqOfSet({Grp(x, "ALT", "name") : x \in alts}) \o cs \o ls, ""), FALSE)
XEdit(z) ==
  LET m == w.M["A"]
      x == RandomElement(Feats(m))
      y == RandomElement(Feats(m))
      ids == Feats(m) \cap Ident
      k == RandomElement(1..12) IN
  CASE k \in 1..3 -> AddF(RandomElement(XNames), RandomElement(XAts), "")
    [] k \in 4..5 -> Move(x, y, y \in DOMAIN m.g, "name")
    [] k = 6 -> Grp(x, "ALT", "name")
    [] k = 7 -> RandomElement({Ungrp(x, "name"), RmF(x, TRUE, "name")})
    [] k = 8 -> Root(RandomElement(ReservedRoots))
    [] k = 9 -> ALoc(x, RandomElement(XLocs), "name")
    [] k = 10 -> IF m.f[x].locs = <<>> THEN ALoc(x, "L3", "name")
                 ELSE RLoc(x, RandomElement(XLocs), "name")
    [] k = 11 /\ ids # {} -> Con("b", Bin(RandomElement({"=>", "=>!"}), F(RandomElement(ids)), F(RandomElement(ids))))
    [] OTHER -> Set(RandomElement({"setName", "setCommit", "setPath"}), RandomElement({"u", "v w", "&<>"}))
RandModelNext ==
  \/ n = 0 /\ RandTx
  \/ n \in 1..(Depth - 1) /\ \E e \in {XEdit(n)} :
       /\ CanMacro("A", e)
       /\ Saved(Tx("A", e), n = Depth - 1 \/ Expressible(After(Tx("A", e))))

----------------------------------------------------------------------------
\* every way to call the viewer
ToolNext ==
  n = 0 /\ \E doc \in {BaseDoc, FullDoc, [FullDoc EXCEPT !.flaw = "truncated"],
                       [FullDoc EXCEPT !.opts[2].par = "z"], [FullDoc EXCEPT !.flaw = "badcb"],
                       [FullDoc EXCEPT !.flaw = "badcategory"]} :
           \E p \in Picks \cup {{}}, f \in {"doc", "missing", "none", "two", "badflag"}, v \in {"args", "env"} :
             Step(Tools(Read(doc, 0), p \cup (IF p \cap {"dump", "out", "verify"} = {} THEN {"show"} ELSE {}), f, v), TRUE)
ToolDocNext == OneDocNext /\ hist'[1].doc.flaw # "unspecified"

XNext == CASE Profile = "xdocs" -> SmallDocNext
           [] Profile = "xalt" -> AltDocNext
           [] Profile = "xone" -> OneDocNext
           [] Profile \in {"xrand", "trand"} -> RandDocNext
           [] Profile = "tall" -> ToolNext
           [] Profile = "tone" -> ToolDocNext
           [] Profile = "sone" -> OneModelNext
           [] Profile = "srand" -> RandModelNext
XInit == /\ n = 0 /\ wid \in 0..Walks /\ hist = <<>> /\ w = EmptyWorld
=============================================================================
