------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* Everything that can happen to a world of feature models: the edits and  *)
(* queries of FM, and the documents they are read from and written to.     *)
(***************************************************************************)
EXTENDS Tool, Cursor

\* the viewer shows the model of a document
DoView(w, op) == RetX(w, "OK", [g |-> Graph(Normal(w.M[op.m]))])

Act(w, op) ==
  CASE op.op = "xmlread" -> DoXmlRead(w, op)
    [] op.op = "xmlsave" -> DoXmlSave(w, op)
    [] op.op = "sxfmread" -> DoSxfmRead(w, op)
    [] op.op = "dot" -> DoDot(w, op)
    [] op.op = "cursors" -> DoCursors(w, op)
    [] op.op = "nav" -> DoNav(w, op)
    [] op.op = "view" -> DoView(w, op)
    [] op.op = "tool" -> DoTool(w, op)
    [] op.op = "cbuild" -> DoChain(w, op)
    [] op.op = "pyloc" -> DoPyLoc(w, op)
    [] OTHER -> Do(w, op)
=============================================================================
