------------------------------ MODULE DepthFirst -----------------------------
(***************************************************************************)
(* The depth-first machine of System (find, find_r) without geometry, as   *)
(* BestFirst is for the others: any tree of up to N cells and data, any    *)
(* distances such that a cell is no further away than what is in it, any   *)
(* order of visiting.                                                      *)
(***************************************************************************)
EXTENDS Integers

N == 6
Items == 1..N

VARIABLES
  \* @type: Int -> Int;
  up,
  \* @type: Int -> Bool;
  datum,
  \* @type: Int -> Int;
  d,
  \* @type: Int;
  R,
  \* @type: Set(Int);
  work,     \* cells to visit
  \* @type: Set(Int);
  gone,     \* cells visited or passed over, and all that was below the latter
  \* @type: Int;
  best,     \* the distance to beat
  \* @type: Int;
  item      \* the datum found, or 0

Given == <<up, datum, d, R>>
vars == <<up, datum, d, R, work, gone, best, item>>

Cells == {i \in Items : ~datum[i]}
Data == {i \in Items : datum[i]}
\* @type: (Int, Int) => Bool;
In(i, c) == up[i] = c

Shape ==
  /\ ~datum[1] /\ up[1] = 0
  /\ \A i \in 2..N : up[i] >= 1 /\ up[i] < i /\ ~datum[up[i]] /\ d[up[i]] <= d[i]
Types == up \in [Items -> 0..N] /\ datum \in [Items -> BOOLEAN] /\ d \in [Items -> Int] /\ R \in Int

Init == Types /\ Shape /\ work = {1} /\ gone = {} /\ best = R /\ item = 0

\* A cell that is too far away is passed over with all that is in it.
Skip(c) ==
  /\ c \in work /\ d[c] > best
  /\ work' = work \ {c} /\ gone' = gone \cup {c}
  /\ UNCHANGED <<up, datum, d, R, best, item>>
\* Otherwise one of its own data becomes the best, if any is as good, and its cells are to be visited.
Visit(c) ==
  /\ c \in work /\ d[c] <= best
  /\ work' = (work \ {c}) \cup {j \in Cells : In(j, c)} /\ gone' = gone \cup {c}
  /\ \/ /\ \A j \in Data : In(j, c) => d[j] > best
        /\ UNCHANGED <<best, item>>
     \/ \E i \in Data : /\ In(i, c) /\ d[i] <= best /\ (\A j \in Data : In(j, c) => d[i] <= d[j])
                        /\ best' = d[i] /\ item' = i
  /\ UNCHANGED Given
Next == \E c \in Items : Skip(c) \/ Visit(c)

-----------------------------------------------------------------------------
\* Cells whose own cell was visited; the rest are below one that is pending or was passed over.
Inv ==
  /\ Shape
  /\ work \subseteq Cells /\ gone \subseteq Cells /\ work \cap gone = {}
  /\ \A c \in Cells : (c \in work \/ c \in gone) => (c = 1 \/ up[c] \in gone)
  /\ 1 \in work \cup gone
  /\ best <= R
  /\ IF item = 0 THEN best = R ELSE item \in Data /\ d[item] = best /\ up[item] \in gone
  \* Whatever is in a cell that is gone is pending or gone itself, or no better than the best;
  \* a cell that was passed over is further away than the best.
  /\ \A i \in 2..N : up[i] \in gone =>
       IF datum[i] THEN d[i] > best \/ (item # 0 /\ d[i] >= best)
       ELSE i \in work \/ i \in gone \/ d[i] > best

Any ==
  /\ Types
  /\ work \in SUBSET Items /\ gone \in SUBSET Items /\ best \in Int /\ item \in 0..N
  /\ Inv

Right ==
  work = {} =>
    IF item = 0 THEN \A i \in Data : d[i] > R
    ELSE item \in Data /\ d[item] = best /\ best <= R /\ \A i \in Data : d[i] >= best
=============================================================================
