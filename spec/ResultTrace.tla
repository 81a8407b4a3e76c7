----------------------------- MODULE ResultTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of results against Result.                    *)
(***************************************************************************)
EXTENDS Result
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES sid, i, bad
vars == <<sid, i, bad>>
VView == vars
\* how a result shows itself
Shows(kind, x, o) ==
  CASE x.k = "none" -> ~o.there
    [] x.k = "gone" -> o.there /\ o.ok
    [] OTHER -> /\ o.there /\ (o.ok <=> x.k = "ok")
                /\ (Copies(kind) \/ x.k = "err" => o.v = x.v)
StepWhy(kind, w, a, e) ==
  LET u == Do(kind, w, a) IN
  IF ~Can(kind, w, a) THEN "script"
  ELSE IF e.out # Out(kind, w, a) THEN "yields"
  ELSE IF ~Shows(kind, u["p"], e.p) THEN "first result"
  ELSE IF ~Shows(kind, u["q"], e.q) THEN "second result" ELSE ""
RECURSIVE StepsWhy(_, _, _, _, _)
StepsWhy(kind, w, q, es, j) ==
  IF j > Len(q) THEN ""
  ELSE LET y == StepWhy(kind, w, q[j], es[j]) IN
       IF y # "" THEN y ELSE StepsWhy(kind, Do(kind, w, q[j]), q, es, j + 1)
Why(op, e) ==
  IF e.res \in {"CRASH", "EXCEPTION"} THEN "crash"
  ELSE StepsWhy(op.kind, Nothing, op.steps, e.ss, 1)

RECURSIVE Consume(_, _)
Consume(ev, j) ==
  IF j > Len(ev) THEN [i |-> j, bad |-> ""]
  ELSE LET y == Why(ev[j].op, ev[j]) IN
       IF y # "" THEN [i |-> j, bad |-> y] ELSE Consume(ev, j + 1)
Init == sid \in 1..Len(Trace) /\ i = 1 /\ bad = ""
Next ==
  /\ bad = "" /\ i <= Len(Trace[sid].ev)
  /\ \E c \in {Consume(Trace[sid].ev, i)} :
       /\ i' = c.i /\ bad' = c.bad
       /\ (c.bad # "" => PrintT(<<"MISMATCH", Trace[sid].id, c.i, c.bad, "see spec">>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
