------------------------------ MODULE GenTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of config-generator against Gen.                   *)
(***************************************************************************)
EXTENDS Gen
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES sid, i, bad
vars == <<sid, i, bad>>
VView == vars
Why(op, e) ==
  IF e.res \in {"CRASH", "EXCEPTION", "REFUSED", "NOTWRITTEN"} THEN "crash"
  ELSE LET o == Outcome(op) IN
       IF e.res # o.r THEN "result"
       ELSE IF ~SameRun(o, e) THEN "written" ELSE ""
RECURSIVE Consume(_, _)
Consume(ev, j) ==
  IF j > Len(ev) THEN [i |-> j, bad |-> ""]
  ELSE LET y == Why(ev[j].op, ev[j]) IN
       IF y # "" THEN [i |-> j, bad |-> y] ELSE Consume(ev, j + 1)
Init == sid \in 1..Len(Trace) /\ i = 1 /\ bad = ""
Next ==
  /\ bad = "" /\ i <= Len(Trace[sid].ev)
  /\ \E c \in {Consume(Trace[sid].ev, i)} :
       /\ i' = c.i /\ bad' = c.bad
       /\ (c.bad # "" => PrintT(<<"MISMATCH", Trace[sid].id, c.i, c.bad, "see spec">>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
