------------------------------- MODULE Answers -------------------------------
(***************************************************************************)
(* What the answer to a search must be, given the distances of the data.   *)
(* The same predicates judge what the model's searches arrive at (System)  *)
(* and what the code answered (Trace).                                     *)
(*                                                                         *)
(* a is the question and its answer: k and R asked (k = -1: no limit), r   *)
(* the outcome, ids and ds the data and distances returned.  n counts the  *)
(* items yielded after the end, and the ways of consuming an iterator      *)
(* (nth, count, fold, size_hint, ...) that disagree with calling next.     *)
(* M is the set of data that can be measured, dd their distances, known    *)
(* up to tol; Le(i, j) unless i is certainly further away than j.  A cell  *)
(* may seem to be further away than what it holds by a rounding error, so  *)
(* the distances (not those of the plane, whose tol is less than 4) come   *)
(* in order up to that.  must and may bound the data within the radius:    *)
(* those that certainly are, and those that possibly are.                  *)
(***************************************************************************)
EXTENDS Planar

Inf == 99998
Searches == {"find", "findr", "knn", "knnr", "sorted"}

SetOf(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOf(s)) = Len(s)
NonDecreasing(s, slack) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1] + slack
Near2(a, b, tol) == Abs(a - b) <= tol

NearestOk(a, dd, M, tol, Le(_, _)) ==
  /\ a.r = "ok" /\ Len(a.ids) = 1 /\ Len(a.ds) = 1
  /\ a.ids[1] \in M
  /\ Near2(a.ds[1], dd[a.ids[1]], tol)
  /\ \A i \in M : Le(a.ids[1], i)

FindROk(a, dd, M, tol, Le(_, _), must, may) ==
  \/ NearestOk(a, dd, M, tol, Le) /\ a.ids[1] \in may
  \/ a.r = "NoneInRadius" /\ must = {}

\* Data nearest first, each once.
RankedOk(a, dd, M, tol, Le(_, _)) ==
  /\ a.r = "ok" /\ Len(a.ids) = Len(a.ds)
  /\ NoDup(a.ids) /\ SetOf(a.ids) \subseteq M
  /\ \A j \in DOMAIN a.ids : Near2(a.ds[j], dd[a.ids[j]], tol)
  /\ NonDecreasing(a.ds, tol \div 4)
  /\ \A j \in 1..(Len(a.ids) - 1) : Le(a.ids[j], a.ids[j + 1])

\* None of Cand that is left out is nearer than the last returned.
LeftOutOk(a, Cand, Le(_, _)) ==
  a.ids # <<>> => \A i \in Cand \ SetOf(a.ids) : Le(a.ids[Len(a.ids)], i)

Wanted(k, n) == IF k < 0 THEN n ELSE Min2(k, n)

KnnOk(a, dd, M, tol, Le(_, _)) ==
  /\ RankedOk(a, dd, M, tol, Le)
  /\ Len(a.ids) = Wanted(a.k, Cardinality(M))
  /\ LeftOutOk(a, M, Le)

KnnROk(a, dd, M, tol, Le(_, _), must, may) ==
  /\ RankedOk(a, dd, M, tol, Le)
  /\ SetOf(a.ids) \subseteq may
  /\ a.k >= 0 => Len(a.ids) <= a.k
  /\ IF a.k >= 0 /\ Len(a.ids) = a.k THEN LeftOutOk(a, must, Le) ELSE must \subseteq SetOf(a.ids)

SortedOk(a, dd, M, tol, Le(_, _)) == a.n = 0 /\ KnnOk(a, dd, M, tol, Le)

SearchOk(a, dd, M, tol, Le(_, _), must, may) ==
  CASE a.op = "find" -> NearestOk(a, dd, M, tol, Le)
    [] a.op = "findr" -> FindROk(a, dd, M, tol, Le, must, may)
    [] a.op = "knn" -> KnnOk(a, dd, M, tol, Le)
    [] a.op = "knnr" -> KnnROk(a, dd, M, tol, Le, must, may)
    [] a.op = "sorted" -> SortedOk(a, dd, M, tol, Le)

\* Of S, only the data in M can be measured.
PartlyOk(a, dd, S, M, tol, Le(_, _), must, may) ==
  CASE a.op = "sorted" -> SortedOk(a, dd, M, tol, Le)
    [] a.op = "find" ->
         \/ a.r = "InvalidDistance"
         \/ M # {} /\ NearestOk(a, dd, M, tol, Le)
    [] a.op = "knn" ->
         \/ a.r = "InvalidDistance" /\ a.k # 0
         \/ (a.k >= 0 /\ a.k < Cardinality(S)) /\ KnnOk(a, dd, M, tol, Le)
    [] a.op = "findr" -> a.r = "InvalidDistance" \/ FindROk(a, dd, M, tol, Le, must, may)
    [] a.op = "knnr" ->
         \/ a.r = "InvalidDistance" /\ a.k # 0
         \/ KnnROk(a, dd, M, tol, Le, must, may)

-----------------------------------------------------------------------------
(* Questions that have no answer.                                          *)

Empties(a) == a.r = "ok" /\ a.ids = <<>> /\ a.n = 0

NoMethodSearchOk(a) == IF a.op = "sorted" THEN Empties(a) ELSE a.r = "CalcMethodNotSet"
OutsideOk(a) == IF a.op = "sorted" THEN Empties(a) ELSE a.r = "OutOfBounds"
EmptyOk(a) == IF a.op \in {"find", "findr"} THEN a.r = "Empty" ELSE Empties(a)
UnsearchableOk(a) == IF a.op = "sorted" THEN Empties(a) ELSE a.r = "InvalidDistance"
=============================================================================
