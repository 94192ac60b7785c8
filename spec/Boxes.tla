-------------------------------- MODULE Boxes --------------------------------
(***************************************************************************)
(* Boxes <<x1, y1, x2, y2>>, cells and their quadrants.  Nothing here is   *)
(* recursive, so that what is proved of it (Lemmas) holds for all integers.*)
(***************************************************************************)
EXTENDS Integers

\* @type: (Int, Int) => Int;
Min2(a, b) == IF a <= b THEN a ELSE b
\* @type: (Int, Int) => Int;
Max2(a, b) == IF a >= b THEN a ELSE b

\* Closed containment of box a in box b.
\* @type: (<<Int, Int, Int, Int>>, <<Int, Int, Int, Int>>) => Bool;
Within(a, b) == b[1] <= a[1] /\ b[2] <= a[2] /\ a[3] <= b[3] /\ a[4] <= b[4]
\* The closed boxes share a point.
\* @type: (<<Int, Int, Int, Int>>, <<Int, Int, Int, Int>>) => Bool;
Touches(a, b) == a[1] <= b[3] /\ b[1] <= a[3] /\ a[2] <= b[4] /\ b[2] <= a[4]
\* They share more than a border: on each axis the open intervals cross, one (degenerate) lies
\* strictly inside the other, or they are equal.
\* @type: (Int, Int, Int, Int) => Bool;
AxisOverlap(l1, h1, l2, h2) == (l1 < h2 /\ l2 < h1) \/ (l1 = l2 /\ h1 = h2)
\* @type: (<<Int, Int, Int, Int>>, <<Int, Int, Int, Int>>) => Bool;
Overlaps(a, b) == AxisOverlap(a[1], a[3], b[1], b[3]) /\ AxisOverlap(a[2], a[4], b[2], b[4])

\* How far apart two intervals are.
\* @type: (Int, Int, Int, Int) => Int;
Gap(l1, h1, l2, h2) == IF h1 < l2 THEN l2 - h1 ELSE IF h2 < l1 THEN l1 - h2 ELSE 0

\* Midpoint of lo..hi.  Floating-point quadtrees are only specified where cells have exact
\* (integer) midpoints, or hold only points, for which rounding down changes no decision.
\* @type: (Int, Int) => Int;
Mid(lo, hi) == lo + (hi - lo) \div 2

\* Is the centre of lo..hi on the low side of m?  The centre of a datum is rounded down in an
\* integer quadtree and exact (a half) otherwise.
\* @type: (Bool, Int, Int, Int) => Bool;
LowSideOf(int, lo, hi, m) == IF int THEN Mid(lo, hi) <= m ELSE lo + hi <= 2 * m

TL == 1   TR == 2   BR == 3   BL == 4    \* low/low, high/low, high/high, low/high

\* @type: (Bool, <<Int, Int, Int, Int>>, <<Int, Int, Int, Int>>) => Int;
QuadOf(int, cell, b) ==
  LET left == LowSideOf(int, b[1], b[3], Mid(cell[1], cell[3]))
      top  == LowSideOf(int, b[2], b[4], Mid(cell[2], cell[4]))
  IN IF top THEN (IF left THEN TL ELSE TR) ELSE (IF left THEN BL ELSE BR)

\* @type: (<<Int, Int, Int, Int>>, Int) => <<Int, Int, Int, Int>>;
QuadBox(cell, q) ==
  LET mx == Mid(cell[1], cell[3])  my == Mid(cell[2], cell[4]) IN
  IF q = TL THEN <<cell[1], cell[2], mx, my>>
  ELSE IF q = TR THEN <<mx, cell[2], cell[3], my>>
  ELSE IF q = BR THEN <<mx, my, cell[3], cell[4]>>
  ELSE <<cell[1], my, mx, cell[4]>>
=============================================================================
