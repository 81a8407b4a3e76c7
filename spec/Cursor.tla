------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* Cursors that walk over a model: a walk is a sequence, a cursor is a     *)
(* place in it, from 1 to one past the end, and moving, copying and        *)
(* comparing cursors is moving, copying and comparing places.              *)
(*                                                                         *)
(* op.seq is a sequence of [o, c]:                                         *)
(*   "next"  cursor c moves on, and is read                                *)
(*   "post"  cursor c moves on, and is read where it was                   *)
(*   "read"  cursor c is read                                              *)
(*   "copy"  cursor c becomes a copy of the other one, and is read         *)
(***************************************************************************)
EXTENDS FM

Twin(c) == 3 - c
\* a cursor past the end stays there
Moved(p, n) == IF p > n THEN p ELSE p + 1
\* pl[c]: place of cursor c
Place(pl, s, n) ==
  CASE s.o \in {"next", "post"} -> [pl EXCEPT ![s.c] = Moved(@, n)]
    [] s.o = "copy" -> [pl EXCEPT ![s.c] = pl[Twin(s.c)]]
    [] OTHER -> pl
RECURSIVE CurPlaces(_, _, _, _)
CurPlaces(seq, j, pl, n) ==
  IF j > Len(seq) THEN <<>>
  ELSE LET nx == Place(pl, seq[j], n) IN
       <<[at |-> IF seq[j].o = "post" THEN pl[seq[j].c] ELSE nx[seq[j].c],
          eq |-> nx[1] = nx[2], end |-> nx[seq[j].c] = n + 1]>> \o CurPlaces(seq, j + 1, nx, n)

\* the walks of a model, and how long each is
WalkLens(m) == [dfs |-> Cardinality(Feats(m)), map |-> Cardinality(Feats(m)), cons |-> Len(m.cb)]
DoCursors(w, op) ==
  LET m == w.M[op.m] IN
  RetX(w, "OK", [m |-> m,
                 at |-> [k \in {"dfs", "map", "cons"} |-> TLCEval(CurPlaces(op.seq, 1, <<1, 1>>, WalkLens(m)[k]))]])

\* what was seen, e, against the places expected, x; e.base is the whole walk
SameCursors(m, x, e) ==
  \A k \in DOMAIN x :
    LET b == e.kinds[k].base s == e.kinds[k].steps IN
    /\ Len(b) = WalkLens(m)[k]
    /\ k = "dfs" => b = Dfs(m)
    /\ k = "map" => Range(b) = Feats(m)
    /\ Len(s) = Len(x[k])
    /\ \A j \in DOMAIN s : /\ s[j].seen = (IF x[k][j].at > Len(b) THEN "" ELSE b[x[k][j].at])
                           /\ s[j].eq = x[k][j].eq
                           /\ s[j].end = x[k][j].end
                           /\ s[j].same

\* laws: a cursor only moves on; two cursors are equal after a copy; a cursor
\* that is moved on n times from anywhere is at the end
Moves == [o : {"next", "post", "read", "copy"}, c : {1, 2}]
ASSUME \A n \in 0..3 : \A seq \in [1..3 -> Moves] :
  LET q == CurPlaces(seq, 1, <<1, 1>>, n) IN
  \A j \in DOMAIN q : /\ q[j].at \in 1..(n + 1)
                      /\ seq[j].o = "copy" => q[j].eq
                      /\ seq[j].o \notin {"post", "copy"} => (q[j].end <=> q[j].at = n + 1)
=============================================================================
