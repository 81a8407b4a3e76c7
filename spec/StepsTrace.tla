----------------------------- MODULE StepsTrace -----------------------------
(***************************************************************************)
(* Checks recorded step functions and value enumerations against Steps.    *)
(***************************************************************************)
EXTENDS Steps
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES sid, i, bad
vars == <<sid, i, bad>>
VView == vars
\* both the real and the integral successor, where they are exact
NextOk(f, v, q) ==
  LET s == Succ(f, v) IN
  s = Unknown \/ (/\ q[1] = s
                  /\ (Dyadic(f.c) \/ f.o = "+" => q[2] = Trunc(s)))
\* "+" with a constant no double holds: the truncation is still exact unless
\* the sum is integral
ShownAs(f, pc) ==
  LET g == StepOf(pc) IN
  /\ g.ok /\ g.o = f.o /\ g.left = f.left
  /\ (Len(f.c.ip) + Len(f.c.fp) <= 15 => g.c = f.c)
Describes(f, op, e) ==
  IF ~ShownAs(f, e.pc) THEN "print"
  ELSE IF ~e.same THEN "reread"
  ELSE IF \E j \in 1..Len(op.at) : ~NextOk(f, op.at[j], e.nx[j]) THEN "successor" ELSE ""
Why(op, e) ==
  IF e.res \in {"CRASH", "EXCEPTION"} THEN "crash"
  ELSE CASE op.op = "step" ->
         LET f == StepOf(op.cs) IN
         IF e.res # (IF f.ok THEN "OK" ELSE "NULL") THEN "accepted"
         ELSE IF f.ok THEN Describes(f, op, e) ELSE ""
    [] op.op = "stepmk" ->
         Describes([ok |-> TRUE, o |-> op.o, left |-> op.left, c |-> Canon(Num(op.c).v), x |-> "x"], op, e)
    [] op.op = "numvals" ->
         LET V == Range(IF op.cs = <<>> THEN Plus1 ELSE StepOf(op.cs), op.lo, op.hi) IN
         IF e.res # "OK" THEN "result"
         ELSE IF {e.vals[j] : j \in DOMAIN e.vals} # V THEN "values"
         ELSE IF Len(e.vals) # Cardinality(V) THEN "duplicates" ELSE ""
    [] OTHER -> "crash"

RECURSIVE Consume(_, _)
Consume(ev, j) ==
  IF j > Len(ev) THEN [i |-> j, bad |-> ""]
  ELSE LET y == Why(ev[j].op, ev[j]) IN
       IF y # "" THEN [i |-> j, bad |-> y] ELSE Consume(ev, j + 1)
Init == sid \in 1..Len(Trace) /\ i = 1 /\ bad = ""
Next ==
  /\ bad = "" /\ i <= Len(Trace[sid].ev)
  /\ \E c \in {Consume(Trace[sid].ev, i)} :
       /\ i' = c.i /\ bad' = c.bad
       /\ (c.bad # "" => PrintT(<<"MISMATCH", Trace[sid].id, c.i, c.bad, "see spec">>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
