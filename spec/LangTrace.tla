----------------------------- MODULE LangTrace -----------------------------
(***************************************************************************)
(* Checks recorded parses and builds against Lang.                         *)
(***************************************************************************)
EXTENDS Lang
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES sid, i, bad
vars == <<sid, i, bad>>
VView == vars

\* a built constraint prints to a text that means the same; what only the
\* builder can write has no text of its own
RECURSIVE Textual(_)
Textual(a) == CASE a.o \in {"f"} -> a
               [] a.o = "i" -> a
               [] a.o \in {"!", "~"} -> [a EXCEPT !.x = Textual(@)]
               [] a.o = "=>!" -> [o |-> "=>", l |-> Textual(a.l), r |-> [o |-> "!", x |-> Textual(a.r)]]
               [] OTHER -> [a EXCEPT !.l = Textual(@), !.r = Textual(@)]
RECURSIVE HasNegative(_)
HasNegative(a) == CASE a.o = "f" -> FALSE
               [] a.o = "i" -> a.v = "-5"
               [] a.o \in {"!", "~"} -> HasNegative(a.x)
               [] OTHER -> HasNegative(a.l) \/ HasNegative(a.r)
PrintOk(a, e) == HasNegative(a) \/ (LET p == Parse(e.pc) IN p.ok /\ p.a = Textual(a) /\ e.again = Textual(a))
Why(op, e) ==
  IF e.res \in {"CRASH", "EXCEPTION"} THEN "crash"
  ELSE IF op.op = "parse"
  THEN LET p == Parse(op.cs) IN
       IF e.res # (IF p.ok THEN "OK" ELSE "NULL") THEN "accepted"
       ELSE IF ~p.ok THEN ""
       ELSE IF e.a # p.a THEN "tree"
       ELSE IF ~PrintOk(p.a, e) THEN "print" ELSE IF ~e.links THEN "links" ELSE ""
  ELSE LET p == Built(op.calls) IN
       IF e.res # (IF p.ok THEN "OK" ELSE "NULL") THEN "accepted"
       ELSE IF ~p.ok THEN ""
       ELSE IF e.a # p.a THEN "tree"
       ELSE IF ~PrintOk(p.a, e) THEN "print" ELSE IF ~e.links THEN "links"
       \* a builder that has built starts over
       ELSE LET q == Built(op.next) IN
            IF e.next.res # (IF q.ok THEN "OK" ELSE "NULL") THEN "accepted later"
            ELSE IF ~q.ok THEN ""
            ELSE IF e.next.a # q.a THEN "tree later" ELSE ""

RECURSIVE Consume(_, _)
Consume(ev, j) ==
  IF j > Len(ev) THEN [i |-> j, bad |-> ""]
  ELSE LET y == Why(ev[j].op, ev[j]) IN
       IF y # "" THEN [i |-> j, bad |-> y] ELSE Consume(ev, j + 1)
Init == sid \in 1..Len(Trace) /\ i = 1 /\ bad = ""
Next ==
  /\ bad = "" /\ i <= Len(Trace[sid].ev)
  /\ \E c \in {Consume(Trace[sid].ev, i)} :
       /\ i' = c.i /\ bad' = c.bad
       /\ (c.bad # "" => PrintT(<<"MISMATCH", Trace[sid].id, c.i, c.bad, "see spec">>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
