-------------------------------- MODULE Lemmas --------------------------------
(***************************************************************************)
(* The steps from a cell to its quadrants on which the guarantees of a     *)
(* quadtree rest, for all integers and so for trees of any extent, depth   *)
(* and contents: Apalache shows that no state of Init breaks them.         *)
(***************************************************************************)
EXTENDS Boxes

VARIABLES
  \* @type: <<Int, Int, Int, Int>>;
  cell,
  \* @type: <<Int, Int, Int, Int>>;
  a,      \* the box of a datum
  \* @type: <<Int, Int, Int, Int>>;
  q,      \* that of a query or comparator
  \* @type: Bool;
  int

\* @type: (<<Int, Int, Int, Int>>) => Bool;
IsBox(b) == b[1] <= b[3] /\ b[2] <= b[4]

Init ==
  /\ \E x1, y1, x2, y2 \in Int : cell = <<x1, y1, x2, y2>>
  /\ \E x1, y1, x2, y2 \in Int : a = <<x1, y1, x2, y2>>
  /\ \E x1, y1, x2, y2 \in Int : q = <<x1, y1, x2, y2>>
  /\ int \in BOOLEAN
  /\ IsBox(cell) /\ IsBox(a) /\ IsBox(q)
Next == UNCHANGED <<cell, a, q, int>>

Qa == QuadOf(int, cell, a)
Qq == QuadOf(int, cell, q)
\* @type: (<<Int, Int, Int, Int>>) => Bool;
IsPoint(b) == b[1] = b[3] /\ b[2] = b[4]

\* Quadrants lie in their cell and are boxes; what lies in the cell touches one.
Quadrants ==
  /\ \A i \in 1..4 : Within(QuadBox(cell, i), cell) /\ IsBox(QuadBox(cell, i))
  /\ (Touches(q, cell)) => \E i \in 1..4 : Touches(q, QuadBox(cell, i))
\* They share at most a border, if the cell has any width and height.
Disjoint ==
  (cell[1] < cell[3] /\ cell[2] < cell[4]) =>
    \A i \in 1..4 : \A j \in 1..4 : i # j => ~Overlaps(QuadBox(cell, i), QuadBox(cell, j))
\* A point in a cell is in the quadrant it descends into.
PointDescends == (IsPoint(a) /\ Within(a, cell)) => Within(a, QuadBox(cell, Qa))
\* Equal boxes take the same way.
SameWay == a = q => Qa = Qq
\* A datum that went into one quadrant does not overlap a query that went into another.
Apart ==
  (Within(a, cell) /\ Within(q, cell) /\ Within(a, QuadBox(cell, Qa)) /\ Within(q, QuadBox(cell, Qq)) /\ Qa # Qq)
  => ~Overlaps(a, q)
\* A datum in a quadrant that a query does not touch does not overlap it.
Untouched == (Within(a, QuadBox(cell, Qa)) /\ ~Touches(QuadBox(cell, Qa), q)) => ~Overlaps(a, q)
\* A cell is no further away than what it holds, on either axis.
Nearer ==
  Within(a, cell) =>
    /\ Gap(cell[1], cell[3], q[1], q[3]) <= Gap(a[1], a[3], q[1], q[3])
    /\ Gap(cell[2], cell[4], q[2], q[4]) <= Gap(a[2], a[4], q[2], q[4])
\* Boxes at no distance are those that touch.
Zero == (Gap(a[1], a[3], q[1], q[3]) = 0 /\ Gap(a[2], a[4], q[2], q[4]) = 0) <=> Touches(a, q)

\* What each property rests on.  Retrieved from the cells down to q's are their own data; what else is
\* retrieved is decided below the last of them (Apart, Untouched).
PointRetrieve == PointDescends /\ SameWay
BoundsRetrieve == Quadrants /\ SameWay /\ Apart /\ Untouched
Subdivision == Quadrants /\ Disjoint /\ PointDescends
Searching == Quadrants /\ Nearer /\ Zero
=============================================================================
