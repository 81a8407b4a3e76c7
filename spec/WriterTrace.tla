---------------------------- MODULE WriterTrace -----------------------------
(***************************************************************************)
(* Checks written sample sets against Writer.                              *)
(***************************************************************************)
EXTENDS Writer
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES sid, i, bad
vars == <<sid, i, bad>>
VView == vars
Why(op, e) ==
  IF e.res # "OK" THEN "crash"
  ELSE IF Len(e.out) # Len(op.confs) THEN "entries"
  ELSE IF \E j \in DOMAIN op.confs :
            LET x == SelectSeq(e.out, LAMBDA r : r[1] = Number(j)) IN
            Len(x) # 1 \/ x[1][2] # Flags(op.steps, op.confs[j]) THEN "flags" ELSE ""
RECURSIVE Consume(_, _)
Consume(ev, j) ==
  IF j > Len(ev) THEN [i |-> j, bad |-> ""]
  ELSE LET y == Why(ev[j].op, ev[j]) IN
       IF y # "" THEN [i |-> j, bad |-> y] ELSE Consume(ev, j + 1)
Init == sid \in 1..Len(Trace) /\ i = 1 /\ bad = ""
Next ==
  /\ bad = "" /\ i <= Len(Trace[sid].ev)
  /\ \E c \in {Consume(Trace[sid].ev, i)} :
       /\ i' = c.i /\ bad' = c.bad
       /\ (c.bad # "" => PrintT(<<"MISMATCH", Trace[sid].id, c.i, c.bad, "see spec">>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
