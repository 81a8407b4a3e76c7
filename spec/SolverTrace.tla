---------------------------- MODULE SolverTrace ----------------------------
(***************************************************************************)
(* Checks recorded solver sessions against Solver.                         *)
(***************************************************************************)
EXTENDS Solver
CONSTANTS TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES sid, i, bad, S
vars == <<sid, i, bad, S>>
VView == <<sid, i, bad>>

AsSet(q) == ToSet(q)
\* the assignment a recorded configuration stands for, if it is one
Read(c, kind) ==
  IF DOMAIN c # DOMAIN kind \/ \E x \in DOMAIN c : Len(c[x]) # 2 \/ c[x][1] # kind[x] THEN {}
  ELSE {[x \in DOMAIN c |-> c[x][2]]}
Shows(c, kind, P) == Read(c, kind) # {} /\ Read(c, kind) \subseteq P
The(S1) == CHOOSE a \in S1 : TRUE

No(st, w) == [st |-> st, why |-> w]
Ok(st) == No(st, "")
\* the next configuration of solver s, stored with function put
Advance(st, s, e, put(_)) ==
  IF s.rem = {} THEN No(st, IF e.res = "UNSAT" THEN "" ELSE "result")
  ELSE IF e.res # "OK" THEN No(st, "result")
  ELSE IF ~Shows(e.cfg, s.kind, s.rem) THEN No(st, "configuration")
  ELSE Ok(put(Take(s, The(Read(e.cfg, s.kind)))))
SetS(st, s) == [st EXCEPT !.s = s]
Same(e, res) == IF res = "ERR" THEN e.res \notin {"OK", "CRASH", "EXCEPTION"} ELSE e.res = res
Grow(st, e, r) == IF Same(e, r.res) THEN Ok(SetS(st, r.s)) ELSE No(st, "result")

Do(st, op, e) ==
  IF e.res \in {"CRASH", "EXCEPTION"} THEN No(st, "crash")
  ELSE CASE op.op = "smodel" ->
         IF e.res # "OK" THEN No(st, "result")
         ELSE Ok([st EXCEPT !.m = Model(op), !.all = OfModel(Model(op))])
    [] op.op = "qall" ->
         IF st.all.rem = {} THEN No(st, IF e.res = "UNSAT" THEN "" ELSE "result")
         ELSE IF e.res # "OK" THEN No(st, "result")
         ELSE IF {Read(c, st.all.kind) : c \in ToSet(e.cfgs)} # {{a} : a \in st.all.rem} THEN No(st, "configurations")
         ELSE No(st, IF Len(e.cfgs) = Cardinality(st.all.rem) THEN "" ELSE "duplicates")
    [] op.op = "qn" ->
         LET want == Min({op.k, Cardinality(st.all.rem)}) IN
         IF e.res # "OK" THEN No(st, "result")
         ELSE IF Len(e.cfgs) # want \/ Cardinality(ToSet(e.cfgs)) # want THEN No(st, "number")
         ELSE No(st, IF \A c \in ToSet(e.cfgs) : Shows(c, st.all.kind, st.all.rem) THEN "" ELSE "configurations")
    [] op.op = "qnum" ->
         IF st.all.rem = {} THEN No(st, IF e.res = "UNSAT" THEN "" ELSE "result")
         ELSE IF e.res # "OK" THEN No(st, "result")
         ELSE No(st, IF e.v = Cardinality(st.all.rem) THEN "" ELSE "number")
    [] op.op = "qvalid" ->
         IF e.res # "OK" THEN No(st, "result") ELSE No(st, IF e.v = (st.all.rem # {}) THEN "" ELSE "value")
    \* iterators: pos counts the steps, an element may pass unread
    [] op.op = "itnew" -> Ok([st EXCEPT !.it = [seen |-> {}, pos |-> 1, cur |-> {}]])
    [] op.op \in {"itend", "itget", "itinc"} ->
         LET c == st.all
             over == st.it.pos > Max({1, Cardinality(c.rem)}) IN
         CASE op.op = "itend" -> No(st, IF e.v = over THEN "" ELSE "value")
           [] over -> No(st, IF e.res = "END" THEN "" ELSE "result")
           [] op.op = "itinc" ->
                IF e.res # "OK" THEN No(st, "result") ELSE Ok([st EXCEPT !.it.pos = @ + 1, !.it.cur = {}])
           [] c.rem = {} -> No(st, IF e.res = "UNSAT" THEN "" ELSE "result")
           [] e.res # "OK" -> No(st, "result")
           [] st.it.cur # {} -> No(st, IF Shows(e.cfg, c.kind, st.it.cur) THEN "" ELSE "moved")
           [] ~Shows(e.cfg, c.kind, c.rem \ st.it.seen) -> No(st, "configuration")
           [] OTHER -> LET a == The(Read(e.cfg, c.kind)) IN
                Ok([st EXCEPT !.it.seen = @ \cup {a}, !.it.cur = {a}])
    [] op.op = "snew" ->
         IF e.res # "OK" THEN No(st, "result")
         ELSE Ok(SetS(st, IF "model" \in DOMAIN op /\ op.model THEN st.all ELSE EmptySolver))
    [] op.op = "saddF" -> Grow(st, e, AddFeat(st.s, st.m, op.n, "alt" \in DOMAIN op /\ op.alt))
    [] op.op = "saddO" ->
         \* a binary feature in no model has no parent to hang below
         No(st, IF e.res \in {"PARENT_NOT_PRESENT", "ALREADY_PRESENT", "NOT_SUPPORTED"} THEN "" ELSE "result")
    [] op.op = "saddB" -> Grow(st, e, AddVar(st.s, op.n, "b", {0, 1}))
    [] op.op = "saddN" -> Grow(st, e, AddVar(st.s, op.n, "i", ToSet(op.list)))
    [] op.op = "srem" -> No(st, IF e.res = "OK" THEN "result" ELSE "")
    [] op.op = "saddR" -> Grow(st, e, AddClause(st.s, GroupClause(st.m, op.n)))
    [] op.op = "saddC" -> Grow(st, e, AddClause(st.s, [t |-> "con", a |-> op.a]))
    [] op.op = "saddM" -> Grow(st, e, AddClause(st.s, [t |-> "mix", a |-> op.a, req |-> op.req, ek |-> op.ek]))
    [] op.op = "svalid" ->
         IF st.s.cur # {} THEN No(st, IF e.res = "ILLEGAL_STATE" THEN "" ELSE "result")
         ELSE IF e.res # "OK" THEN No(st, "result")
         ELSE No(st, IF e.v = (st.s.rem # {}) THEN "" ELSE "value")
    [] op.op = "snext" -> Advance(st, st.s, e, LAMBDA s : SetS(st, s))
    [] op.op = "scur" ->
         IF st.s.cur = {} THEN Advance(st, st.s, e, LAMBDA s : SetS(st, s))
         ELSE IF e.res # "OK" THEN No(st, "result")
         \* after an addition the old configuration says nothing about the new features
         ELSE IF ~st.s.clean THEN Ok(st)
         ELSE No(st, IF Shows(e.cfg, st.s.kind, st.s.cur) THEN "" ELSE "moved")
    [] op.op = "end" -> No(st, "crash")

Start == [m |-> "", all |-> "", s |-> "", it |-> ""]
Init == sid \in 1..Len(Trace) /\ i = 1 /\ bad = "" /\ S = Start
Next ==
  /\ bad = "" /\ i <= Len(Trace[sid].ev)
  /\ \E r \in {Do(S, Trace[sid].ev[i].op, Trace[sid].ev[i])} :
       /\ bad' = r.why /\ S' = r.st
       /\ i' = IF r.why = "" THEN i + 1 ELSE i
       /\ (r.why # "" => PrintT(<<"MISMATCH", Trace[sid].id, i, r.why, "see spec">>))
  /\ sid' = sid
Spec == Init /\ [][Next]_vars
=============================================================================
