-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The program config-generator: all configurations of the model in a file *)
(* or those of a table, written as lists of flags.                         *)
(*                                                                         *)
(* op = [root, steps   the model (as in Solver; features carry a flag out) *)
(*       file          "doc" | "broken" | "missing" | "none" | "two"       *)
(*       want          "" | "all" | "sample" | "strategy" | "other"        *)
(*       csv           [cols, rows], if there is a table                   *)
(*       to            "" | "given" | "nowhere": where to                  *)
(*       via           "args" | "env"                                      *)
(*       old]          there is a file where it writes                     *)
(***************************************************************************)
EXTENDS Solver

\* the flags of one assignment (of part of the features)
FlagOf(m, a, x) ==
  IF x \notin DOMAIN a \/ x \notin DOMAIN m.F \/ m.F[x].out = "" THEN {}
  ELSE IF KindOf(m, x) = "i" THEN {m.F[x].out \o ToString(a[x])}
  ELSE IF a[x] = 0 THEN {} ELSE {m.F[x].out}
FlagsOf(m, a) == UNION {FlagOf(m, a, x) : x \in DOMAIN a}
\* a line of a table: what is not a feature is no part of the configuration,
\* and everything but 0 selects a feature
LineOf(m, cols, row) ==
  [x \in {cols[j] : j \in DOMAIN cols} \cap Names(m) |->
     row[CHOOSE j \in DOMAIN cols : cols[j] = x /\ \A k \in 1..(j - 1) : cols[k] # x]]
\* what is written: for every set of flags, how often it occurs
AsBag(m, q) == [S \in {FlagsOf(m, q[j]) : j \in DOMAIN q} |-> Cardinality({j \in DOMAIN q : FlagsOf(m, q[j]) = S})]
SetBag(m, C) == LET fl == TLCEval([a \in C |-> FlagsOf(m, a)]) IN
  [S \in {fl[a] : a \in C} |-> Cardinality({a \in C : fl[a] = S})]
NoBag == [S \in {} |-> 0]
Fails == [r |-> "FAILED", bag |-> NoBag, n |-> 0]
Outcome(op) ==
  IF op.file # "doc" \/ op.want \in {"strategy", "other"} THEN Fails
  ELSE LET m == Model(op) IN
    IF op.want = "sample"
    THEN IF "csv" \notin DOMAIN op \/ op.to = "nowhere" THEN Fails
         ELSE LET q == [j \in DOMAIN op.csv.rows |-> LineOf(m, op.csv.cols, op.csv.rows[j])] IN
              [r |-> "OK", bag |-> AsBag(m, q), n |-> Len(q)]
    ELSE LET C == Configs(m) IN
         IF C = {} \/ op.to = "nowhere" THEN Fails ELSE [r |-> "OK", bag |-> SetBag(m, C), n |-> Cardinality(C)]

\* a recorded run e
SameRun(o, e) ==
  /\ e.res = o.r
  /\ e.readable /\ e.kept /\ e.others = 0
  \* a refused run leaves what is there as it is
  /\ (o.r = "FAILED" /\ "old" \in DOMAIN e.op /\ e.op.old) => e.stale
  /\ Len(e.entries) = o.n
  /\ {e.entries[j][1] : j \in DOMAIN e.entries} = {ToString(j) : j \in 0..(o.n - 1)}
  /\ \A j \in DOMAIN e.entries : Cardinality(ToSet(e.entries[j][2])) = Len(e.entries[j][2])
  /\ LET got == TLCEval([j \in DOMAIN e.entries |-> ToSet(e.entries[j][2])]) IN
     /\ {got[j] : j \in DOMAIN got} = DOMAIN o.bag
     /\ \A S \in DOMAIN o.bag : Cardinality({j \in DOMAIN got : got[j] = S}) = o.bag[S]
=============================================================================
