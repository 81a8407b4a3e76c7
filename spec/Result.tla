------------------------------- MODULE Result --------------------------------
(***************************************************************************)
(* What operations report: a result holds either the value or the error it *)
(* was made from, through every copy, move and assignment, tells which of  *)
(* the two it is, and prints it. Two named results, each                    *)
(*   [k |-> "none"]            not there (not made yet, or moved away)     *)
(*   [k |-> "ok", v |-> x]     holds the value x                           *)
(*   [k |-> "err", v |-> e]    holds the error e                           *)
(*   [k |-> "gone"]            held a value that was taken out             *)
(* Kinds name what values and errors are in the real code.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Kinds == {"void", "bool", "num", "str", "ptr", "vec", "raw", "own"}
EditCodes == [ABORTED |-> "Transaction aborted.", ALREADY_PRESENT |-> "Node already present.", ERROR |-> "Error.",
              INCONSISTENT |-> "Inconsistent feature model.", MISSING_FEATURE |-> "Missing feature.",
              MISSING_MODEL |-> "Missing a feature model.", MISSING_PARENT |-> "Missing parent of node.",
              MISSING_CHILD |-> "Missing child of node.", NON_LEAF_NODE |-> "Not a leaf node.",
              RECURSIVE_EDGE |-> "Recursive edge."]
SolverCodes == [NOT_IMPLEMENTED |-> "This method is not implemented yet.", NOT_SUPPORTED |-> "This method is not supported.",
                UNSAT |-> "The current model is unsatisfiable.", ALREADY_PRESENT |-> "Variable is already present.",
                NOT_ALL_CONSTRAINTS_PROCESSED |-> "Not all constraints have been processed yet; are there variables missing?",
                PARENT_NOT_PRESENT |-> "Parent feature of a feature is not present.",
                ILLEGAL_STATE |-> "The solver is in an illegal state for this operation."]
Edits(kind) == kind \in {"void", "str", "vec", "raw"}
Codes(kind) == CASE kind = "own" -> {"", "bad", "OK"} [] Edits(kind) -> DOMAIN EditCodes [] OTHER -> DOMAIN SolverCodes
CodeText(kind, e) == CASE kind = "own" -> e [] Edits(kind) -> EditCodes[e] [] OTHER -> SolverCodes[e]
Values(kind) ==
  CASE kind = "void" -> {"-"} [] kind = "bool" -> {"true", "false"} [] kind = "num" -> {"0", "1", "42", "18446744073709551615"}
    [] kind = "str" -> {"", "a", "OK"} [] kind = "ptr" -> {"", "x"} [] kind = "vec" -> {"", "0", "1 2 3"}
    [] kind = "raw" -> {"null", "first", "second"} [] OTHER -> {"0", "1", "-5"}
\* values and errors can be given as they are where this is unambiguous
BareValue(kind) == kind # "void"
BareCode(kind) == kind \in {"void", "str", "ptr", "raw", "own"}
Copies(kind) == kind # "ptr"
Prints(kind) == kind \in {"void", "bool", "num", "str", "own"}
ValueText(kind, v) ==
  CASE kind = "void" -> "OK" [] kind = "bool" -> (IF v = "true" THEN "1" ELSE "0") [] OTHER -> v

Slots == {"p", "q"}
Nothing == [x \in Slots |-> [k |-> "none", v |-> ""]]
Made(x) == x.k \in {"ok", "err"}

Can(kind, w, a) ==
  CASE a.k = "ok" -> a.via # "bare" \/ BareValue(kind)
    [] a.k = "err" -> a.via # "bare" \/ BareCode(kind)
    [] a.k = "copy" -> Copies(kind) /\ Made(w[a.s]) /\ (a.via = "assign" => w[a.to].k # "none") /\ (a.s = a.to => a.via = "assign")
    [] a.k = "move" -> Made(w[a.s]) /\ a.s # a.to /\ (a.via = "assign" => w[a.to].k # "none")
    [] a.k = "get" -> w[a.s].k = "ok" /\ kind # "void" /\ (a.via = "read" => Copies(kind))
    [] a.k = "code" -> w[a.s].k = "err"
    [] OTHER -> Made(w[a.s]) /\ Prints(kind)
Do(kind, w, a) ==
  CASE a.k = "ok" -> [w EXCEPT ![a.s] = [k |-> "ok", v |-> a.v]]
    [] a.k = "err" -> [w EXCEPT ![a.s] = [k |-> "err", v |-> a.v]]
    [] a.k = "copy" -> [w EXCEPT ![a.to] = w[a.s]]
    [] a.k = "move" -> [w EXCEPT ![a.to] = w[a.s], ![a.s] = [k |-> "none", v |-> ""]]
    [] a.k = "get" /\ a.via # "read" -> [w EXCEPT ![a.s] = [k |-> "gone", v |-> ""]]
    [] a.k = "code" /\ kind = "own" /\ a.via # "read" -> [w EXCEPT ![a.s] = [k |-> "none", v |-> ""]]
    [] OTHER -> w
\* what the step itself yields
Out(kind, w, a) ==
  CASE a.k \in {"get", "code"} -> w[a.s].v
    [] a.k = "text" -> (IF w[a.s].k = "ok" THEN ValueText(kind, w[a.s].v) ELSE CodeText(kind, w[a.s].v))
    [] OTHER -> ""
RECURSIVE DoAll(_, _, _)
DoAll(kind, w, q) == IF q = <<>> THEN w ELSE DoAll(kind, Do(kind, w, q[1]), Tail(q))

\* laws
TellsApart == \A kind \in Kinds \ {"own"} : \A c, d \in Codes(kind) : c # d => CodeText(kind, c) # CodeText(kind, d)
CopyKeeps(kind, w) == \A x, y \in Slots : Copies(kind) /\ Made(w[x]) =>
   LET u == Do(kind, w, [k |-> "copy", s |-> x, to |-> y, via |-> "make"]) IN u[y] = w[x] /\ u[x] = w[x]
MoveKeeps(kind, w) == \A x, y \in Slots : x # y /\ Made(w[x]) =>
   Do(kind, Do(kind, w, [k |-> "move", s |-> x, to |-> y, via |-> "make"]), [k |-> "move", s |-> y, to |-> x, via |-> "make"])[x] = w[x]
Typed(kind, w) == \A x \in Slots : /\ w[x].k \in {"none", "ok", "err", "gone"}
                                   /\ (w[x].k = "ok" => w[x].v \in Values(kind)) /\ (w[x].k = "err" => w[x].v \in Codes(kind))
=============================================================================
