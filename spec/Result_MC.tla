------------------------------ MODULE Result_MC -----------------------------
(***************************************************************************)
(* Enumerates histories of two results of every kind, checks the laws and  *)
(* prints the histories for execution.                                     *)
(***************************************************************************)
EXTENDS Result
CONSTANTS Profile, Depth, Walks
VARIABLES kind, s, w, wid
vars == <<kind, s, w, wid>>
Emit(q) == PrintT("SCRIPT " \o ToJson(<<[op |-> "result", kind |-> kind, steps |-> q]>>))
Makes(S, V, C) == {[k |-> "ok", s |-> x, v |-> v, via |-> t] : x \in S, v \in V, t \in {"bare", "made", "named", "copied", "assign"}}
             \cup {[k |-> "err", s |-> x, v |-> e, via |-> t] : x \in S, e \in C, t \in {"bare", "made", "named", "copied", "assign"}}
Uses == {[k |-> "copy", s |-> x, to |-> y, via |-> t] : x \in Slots, y \in Slots, t \in {"make", "const", "brace", "assign"}}
   \cup {[k |-> "move", s |-> x, to |-> y, via |-> t] : x \in Slots, y \in Slots, t \in {"make", "assign"}}
   \cup {[k |-> "get", s |-> x, via |-> t] : x \in Slots, t \in {"read", "take", "last"}}
   \cup {[k |-> "code", s |-> x, via |-> t] : x \in Slots, t \in {"read", "take", "last"}}
   \cup {[k |-> "text", s |-> x, via |-> "read"] : x \in Slots}
Step(A, last) == \E a \in A : /\ Can(kind, w, a) /\ s' = Append(s, a) /\ w' = Do(kind, w, a) /\ UNCHANGED <<kind, wid>>
                              /\ (last => Emit(s'))
\* every value and every error made in every way, then every use
EachNext == \/ s = <<>> /\ Step(Makes({"p"}, Values(kind), Codes(kind)), FALSE)
            \/ Len(s) \in 1..(Depth - 1) /\ Step(Uses, Len(s) + 1 = Depth)
\* histories that make results again and again
Some(S, k) == LET x == CHOOSE x \in S : TRUE IN IF k = 0 \/ S = {} THEN {} ELSE {x} \cup (IF k = 1 \/ S = {x} THEN {} ELSE {CHOOSE y \in S : y # x})
HistNext == Len(s) < Depth /\ Step({a \in Makes(Slots, Some(Values(kind), 2), Some(Codes(kind), 1)) : a.via \in {"made", "assign"}} \cup
                                   {a \in Uses : a.via # "brace"}, Len(s) + 1 = Depth)
Useful == {a \in Uses : Can(kind, w, a)}
RandNext == Len(s) < Depth /\ \E z \in {RandomElement(1..10)} :
   IF z > 3 /\ Useful # {} THEN \E a \in {RandomElement(Useful)} : Step({a}, Len(s) + 1 = Depth)
   ELSE \E a \in {RandomElement({b \in Makes(Slots, Values(kind), Codes(kind)) : Can(kind, w, b)})} : Step({a}, Len(s) + 1 = Depth)
Next == CASE Profile = "each" -> EachNext [] Profile = "hist" -> HistNext [] Profile = "rand" -> RandNext
Init == kind \in Kinds /\ s = <<>> /\ w = Nothing /\ wid \in 0..Walks
Spec == Init /\ [][Next]_vars
Laws == Typed(kind, w) /\ CopyKeeps(kind, w) /\ MoveKeeps(kind, w) /\ (s = <<>> => TellsApart)
=============================================================================
