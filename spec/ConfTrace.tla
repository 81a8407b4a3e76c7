----------------------------- MODULE ConfTrace ------------------------------
(***************************************************************************)
(* Checks recorded configuration sessions against Conf.                    *)
(***************************************************************************)
EXTENDS Conf
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES sid, i, bad
vars == <<sid, i, bad>>
VView == vars
Items(q) == {[n |-> q[j].n, k |-> q[j].k, v |-> q[j].v] : j \in DOMAIN q}
Holds(q, conf) == Items(q) = conf /\ Len(q) = Cardinality(conf)
\* the accessors of one option agree with its kind
Shown(x) == /\ x.flags = (CASE x.k = "b" -> "b" [] x.k = "i" -> "i" [] OTHER -> "s")
            /\ x.typed = x.v /\ x.text = x.n \o <<":", "SP">> \o x.v
StepWhy(conf, a, e) ==
  LET next == Do(conf, a) IN
  IF a.k = "parse" /\ e.ok # Read(a.t).ok THEN "accepted"
  ELSE IF ~Holds(e.it, next) THEN "options"
  ELSE IF ~Holds(e.ci, next) THEN "read-only"
  ELSE IF \E j \in DOMAIN e.it : ~Shown(e.it[j]) THEN "accessors"
  ELSE IF \E j \in DOMAIN e.get :
            LET g == e.get[j]  o == {p \in next : p.n = g.n} IN
            IF o = {} THEN g.has ELSE ~g.has \/ g.v # (CHOOSE p \in o : TRUE).v THEN "lookup"
  ELSE IF Read(e.dump) # [ok |-> TRUE, known |-> TRUE, conf |-> next] THEN "dump"
  ELSE IF ~Holds(e.rp, next) THEN "reparse" ELSE ""
RECURSIVE StepsWhy(_, _, _, _)
StepsWhy(conf, q, es, j) ==
  IF j > Len(q) THEN ""
  ELSE LET y == StepWhy(conf, q[j], es[j]) IN
       IF y # "" THEN y ELSE StepsWhy(Do(conf, q[j]), q, es, j + 1)
Why(op, e) ==
  IF e.res \in {"CRASH", "EXCEPTION"} THEN "crash"
  ELSE StepsWhy(Empty, op.steps, e.ss, 1)

RECURSIVE Consume(_, _)
Consume(ev, j) ==
  IF j > Len(ev) THEN [i |-> j, bad |-> ""]
  ELSE LET y == Why(ev[j].op, ev[j]) IN
       IF y # "" THEN [i |-> j, bad |-> y] ELSE Consume(ev, j + 1)
Init == sid \in 1..Len(Trace) /\ i = 1 /\ bad = ""
Next ==
  /\ bad = "" /\ i <= Len(Trace[sid].ev)
  /\ \E c \in {Consume(Trace[sid].ev, i)} :
       /\ i' = c.i /\ bad' = c.bad
       /\ (c.bad # "" => PrintT(<<"MISMATCH", Trace[sid].id, c.i, c.bad, "see spec">>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
