-------------------------------- MODULE QTree --------------------------------
(***************************************************************************)
(* The tree of cells of a quadtree.  A tree is a nested record             *)
(*   [b |-> box, d |-> depth, kids |-> ids, stuck |-> ids, subs |-> trees] *)
(* kids are the data of a leaf, stuck the data that fit in no quadrant of  *)
(* a subdivided cell, subs is <<>> for a leaf and four trees otherwise.    *)
(* The order of data within a cell is not part of the specification, so    *)
(* they are sets of ids.                                                   *)
(*                                                                         *)
(* T is the configuration [kind, int, md, mc]: kind "pt" or "bd", int for  *)
(* integer coordinates (midpoints rounded down), and the limits.  B gives  *)
(* the box of each id, a degenerate one in a point quadtree.               *)
(***************************************************************************)
EXTENDS Planar, FiniteSetsExt

Quad(T, cell, b) == QuadOf(T.int, cell, b)

Leaf(cell, depth) == [b |-> cell, d |-> depth, kids |-> {}, stuck |-> {}, subs |-> <<>>]
Split(n) == [q \in 1..4 |-> Leaf(QuadBox(n.b, q), n.d + 1)]

\* Does a datum of box b descend from a cell into its quadrant q?
Descends(T, cell, q, b) == T.kind = "pt" \/ Within(b, QuadBox(cell, q))

Accepts(bounds, b) == Within(b, bounds)

-----------------------------------------------------------------------------
(* Insertion, as the code does it.                                         *)

RECURSIVE Ins(_, _, _, _)
Ins(T, B, n, i) ==
  IF n.subs # <<>> THEN
    LET q == Quad(T, n.b, B[i]) IN
    IF Descends(T, n.b, q, B[i])
    THEN [n EXCEPT !.subs[q] = Ins(T, B, @, i)]
    ELSE [n EXCEPT !.stuck = @ \cup {i}]
  ELSE IF Cardinality(n.kids) >= T.mc /\ n.d < T.md THEN
    LET parted == [n EXCEPT !.kids = {}, !.subs = Split(n)]
    IN FoldSet(LAMBDA j, acc : Ins(T, B, acc, j), parted, n.kids \cup {i})
  ELSE [n EXCEPT !.kids = @ \cup {i}]

-----------------------------------------------------------------------------
(* The tree a set of data has, whatever the order it came in.              *)

RECURSIVE Canon(_, _, _, _, _)
Canon(T, B, cell, depth, S) ==
  IF depth >= T.md \/ Cardinality(S) <= T.mc
  THEN [Leaf(cell, depth) EXCEPT !.kids = S]
  ELSE LET down(i) == Descends(T, cell, Quad(T, cell, B[i]), B[i])
           part(q) == {i \in S : Quad(T, cell, B[i]) = q /\ down(i)}
       IN [b |-> cell, d |-> depth, kids |-> {}, stuck |-> {i \in S : ~down(i)},
           subs |-> [q \in 1..4 |-> Canon(T, B, QuadBox(cell, q), depth + 1, part(q))]]

-----------------------------------------------------------------------------
(* Observations.                                                           *)

Own(n) == n.kids \cup n.stuck

RECURSIVE Preorder(_)
Preorder(n) ==
  <<[d |-> n.d, x |-> n.b[1], y |-> n.b[2], ids |-> Own(n)]>> \o
  (IF n.subs = <<>> THEN <<>>
   ELSE Preorder(n.subs[1]) \o Preorder(n.subs[2]) \o Preorder(n.subs[3]) \o Preorder(n.subs[4]))

RECURSIVE All(_)
All(n) == Own(n) \cup (IF n.subs = <<>> THEN {} ELSE UNION {All(n.subs[q]) : q \in 1..4})

\* The data in the cells on the way to the leaf of a position (point quadtree: in the leaf).
RECURSIVE LeafOf(_, _, _)
LeafOf(T, n, b) == IF n.subs = <<>> THEN n.kids ELSE LeafOf(T, n.subs[Quad(T, n.b, b)], b)

\* Bounds quadtree: own data of the cells on the way down to the smallest cell that holds box b,
\* and everything in those quadrants of that cell which b touches.
RECURSIVE Near(_, _, _)
Near(T, n, b) ==
  IF n.subs = <<>> THEN Own(n)
  ELSE LET q == Quad(T, n.b, b) IN
       Own(n) \cup
       (IF Within(b, n.subs[q].b) THEN Near(T, n.subs[q], b)
        ELSE UNION {All(n.subs[s]) : s \in {s \in 1..4 : Touches(n.subs[s].b, b)}})

Retrieved(T, n, b) ==
  IF ~Within(b, n.b) THEN {} ELSE IF T.kind = "pt" THEN LeafOf(T, n, b) ELSE Near(T, n, b)

\* What a retrieve must yield at the least.
MustRetrieve(T, B, S, bounds, b) ==
  IF ~Within(b, bounds) THEN {}
  ELSE IF T.kind = "pt" THEN {i \in S : B[i] = b} ELSE {i \in S : Overlaps(B[i], b)}

=============================================================================
