-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The program fm-viewer: judges, dumps and draws the document of a file.  *)
(*                                                                         *)
(* how = [pick  which of the outputs is asked for (a set of flags),        *)
(*        file  "doc" | "missing" | "none" | "two": what is named,         *)
(*        via   "args" | "env": where the flags come from,                 *)
(*        old   there is a file where the graph would be written]          *)
(***************************************************************************)
EXTENDS Py, Nav

ToolFlags == {"verify", "dump", "out", "show"}
\* the one thing an accepted document is used for; judging comes before all
Use(pick) == IF "verify" \in pick THEN "judge"
             ELSE IF "dump" \in pick THEN "dump"
             ELSE IF "out" \in pick THEN "draw"
             ELSE "show"
Uses == {"judge", "dump", "draw", "show", "refuse"}
\* ASSUME: judging and dumping exit without any other effect
ASSUME \A p \in SUBSET ToolFlags : /\ "verify" \in p => Use(p) = "judge"
                                   /\ Use(p) = "draw" => p \subseteq {"out", "show"}
ToolOutcome(op) ==
  IF op.file # "doc" THEN [r |-> "FAILED", use |-> "refuse", m |-> EmptyFun]
  ELSE LET s == Import(op.doc) IN
       IF s.r # "OK" THEN [r |-> "FAILED", use |-> "refuse", m |-> EmptyFun]
       ELSE [r |-> "OK", use |-> Use(Range(op.pick)), m |-> s.m]
DoTool(w, op) ==
  LET o == ToolOutcome(op) IN
  RetX(w, o.r, [use |-> o.use,
                g |-> IF o.use \in {"draw", "show"} THEN Graph(o.m) ELSE EmptyFun,
                text |-> IF o.use = "dump" THEN TLCEval([x \in Feats(o.m) |-> Described(o.m, x)]) ELSE EmptyFun])
\* what was observed, e, against what is expected, x
SameDump(text, d) ==
  /\ Len(d) = Cardinality(DOMAIN text)
  /\ {d[j].name : j \in DOMAIN d} = DOMAIN text
  /\ \A j \in DOMAIN d : SameText(text[d[j].name], d[j])
SameTool(x, e) ==
  /\ IF x.use = "dump" THEN SameDump(x.text, e.dump) ELSE e.dump = <<>>
  \* the named file is written for drawing alone, a temporary one for showing
  /\ IF x.use = "draw" THEN SameGraph(x.g, e.graph) ELSE ~e.written
  /\ IF x.use = "show" THEN e.shown = 1 /\ e.viewed /\ SameGraph(x.g, e.temp) ELSE e.shown = 0 /\ ~e.viewed
  \* the input stays as it was
  /\ e.kept
=============================================================================
