------------------------------ MODULE BestFirst ------------------------------
(***************************************************************************)
(* The best-first machine of System (knn, knn_r, sorted) without geometry: *)
(* a quadtree is any tree of cells and data with any distances, as long as *)
(* a cell is no further away than what is in it (LowerBound there, Nearer  *)
(* in Lemmas).  Apalache shows that Inv is inductive and that what has     *)
(* been produced at the end is right: for all distances, radii and limits, *)
(* all orders among equals, and all trees of up to N cells and data.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

N == 6
Items == 1..N

VARIABLES
  \* @type: Int -> Int;
  up,       \* the cell that an item is in
  \* @type: Int -> Bool;
  datum,    \* is it a datum?
  \* @type: Int -> Int;
  d,        \* its distance from the comparator
  \* @type: Int;
  K,        \* how many are wanted
  \* @type: Int;
  R,        \* the radius
  \* @type: Set(Int);
  work,     \* what is pending
  \* @type: Set(Int);
  gone,     \* cells expanded and data produced
  \* @type: Int;
  last,     \* the distance of the last datum produced
  \* @type: Bool;
  over

Given == <<up, datum, d, K, R>>
vars == <<up, datum, d, K, R, work, gone, last, over>>

Out == {i \in gone : datum[i]}
Data == {i \in Items : datum[i]}

\* The root is item 1; d is a lower bound for all that is below.
Shape ==
  /\ ~datum[1] /\ up[1] = 0
  /\ \A i \in 2..N : up[i] >= 1 /\ up[i] < i /\ ~datum[up[i]] /\ d[up[i]] <= d[i]
  /\ d[1] >= 0 /\ K >= 1

Types ==
  /\ up \in [Items -> 0..N] /\ datum \in [Items -> BOOLEAN] /\ d \in [Items -> Int]
  /\ K \in Int /\ R \in Int

Init ==
  /\ Types /\ Shape
  /\ work = {1} /\ gone = {} /\ last = 0 /\ over = FALSE

Nearest(i) == i \in work /\ \A j \in work : d[i] <= d[j]

Emit(i) ==
  /\ ~over /\ Nearest(i) /\ datum[i] /\ d[i] <= R
  /\ work' = work \ {i} /\ gone' = gone \cup {i} /\ last' = d[i]
  /\ over' = (Cardinality(Out) + 1 >= K)
  /\ UNCHANGED Given
Expand(i) ==
  /\ ~over /\ Nearest(i) /\ ~datum[i] /\ d[i] <= R
  /\ work' = (work \ {i}) \cup {j \in Items : up[j] = i}
  /\ gone' = gone \cup {i}
  /\ UNCHANGED <<up, datum, d, K, R, last, over>>
End ==
  /\ ~over /\ (\A i \in work : d[i] > R)
  /\ over' = TRUE
  /\ UNCHANGED <<up, datum, d, K, R, work, gone, last>>
Next == (\E i \in Items : Emit(i) \/ Expand(i)) \/ End

-----------------------------------------------------------------------------
Inv ==
  /\ Shape
  \* An item is pending or gone once its cell is gone, and not both.
  /\ \A i \in Items : (i \in work \/ i \in gone) <=> (i = 1 \/ up[i] \in gone)
  /\ work \cap gone = {}
  \* What is pending is no nearer than what is gone.
  /\ last >= 0
  /\ \A i \in work : d[i] >= last \/ Out = {}
  /\ \A i \in Out : d[i] <= last /\ d[i] <= R
  /\ Out # {} => \E i \in Out : d[i] = last
  /\ Cardinality(Out) <= K
  /\ over = (Cardinality(Out) >= K \/ (over /\ \A i \in work : d[i] > R))

\* Any state in which Inv holds.
Any ==
  /\ Types
  /\ work \in SUBSET Items /\ gone \in SUBSET Items /\ last \in Int /\ over \in BOOLEAN
  /\ Inv

\* The answer is right: never more than wanted, all within the radius, none left out that is nearer,
\* and if fewer than wanted, none within the radius left out.
Answer ==
  over =>
    /\ Cardinality(Out) <= K
    /\ \A i \in Out : d[i] <= R
    /\ \A i \in Data \ Out : d[i] > R \/ (Cardinality(Out) = K /\ \A j \in Out : d[j] <= d[i])
\* Something is left to do until it is over.
Enabled == over \/ (\E i \in Items : Nearest(i) /\ d[i] <= R) \/ (\A i \in work : d[i] > R)
\* What comes next is no nearer than the last.
InOrder == \A i \in work : Nearest(i) => (d[i] >= last \/ Out = {})

Right == Answer /\ Enabled /\ InOrder
=============================================================================
