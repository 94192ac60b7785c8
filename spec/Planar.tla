------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* Exact plane geometry on an integer grid, for the five kinds of geometry *)
(* a quadtree holds.  A geometry is a record                               *)
(*    [k |-> kind, c |-> coordinates, h |-> hole rings]                    *)
(* with kind "pt" (one coordinate), "ln" (start, end), "ls" (vertices),    *)
(* "pg" (exterior ring, closed or not; h its interior rings) and "rc" (two *)
(* opposite corners).  Squared distances are rationals <<num, den>>.       *)
(* All arithmetic but that of Exact is within TLC's 32 bits for            *)
(* coordinates differing by at most 100, for points and rectangles by at   *)
(* most 30000.                                                             *)
(***************************************************************************)
EXTENDS Boxes, Exact, Sequences, FiniteSets, SequencesExt

MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
Abs(a) == IF a < 0 THEN -a ELSE a

Geom(k, c) == [k |-> k, c |-> c, h |-> <<>>]
PtG(x, y) == Geom("pt", << <<x, y>> >>)
RcG(b) == Geom("rc", << <<b[1], b[2]>>, <<b[3], b[4]>> >>)

-----------------------------------------------------------------------------
(* The box of a geometry.                                                  *)

HasBox(g) == g.c # <<>>

Box(g) ==
  IF Len(g.c) = 1 THEN <<g.c[1][1], g.c[1][2], g.c[1][1], g.c[1][2]>>
  ELSE IF Len(g.c) = 2
  THEN <<Min2(g.c[1][1], g.c[2][1]), Min2(g.c[1][2], g.c[2][2]),
         Max2(g.c[1][1], g.c[2][1]), Max2(g.c[1][2], g.c[2][2])>>
  ELSE LET X == {g.c[i][1] : i \in DOMAIN g.c}
           Y == {g.c[i][2] : i \in DOMAIN g.c}
       IN <<MinSet(X), MinSet(Y), MaxSet(X), MaxSet(Y)>>

-----------------------------------------------------------------------------
(* Segments, and the pieces a geometry is made of.                         *)

Closed(r) == IF r = <<>> \/ r[1] = r[Len(r)] THEN r ELSE Append(r, r[1])
Path(r) == {<<r[i], r[i + 1]>> : i \in 1..(Len(r) - 1)}
Ring(r) == Path(Closed(r))

RectRing(g) ==
  LET b == Box(g) IN
  << <<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>, <<b[1], b[2]>> >>

\* A point counts as one degenerate segment.
Segs(g) ==
  CASE g.k = "pt" -> {<<g.c[1], g.c[1]>>}
    [] g.k \in {"ln", "ls"} -> Path(g.c)
    [] g.k = "rc" -> Path(RectRing(g))
    [] g.k = "pg" -> Ring(g.c) \cup UNION {Ring(g.h[i]) : i \in DOMAIN g.h}

Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0

OnSeg(p, s) ==
  /\ Cross(s[1], s[2], p) = 0
  /\ Min2(s[1][1], s[2][1]) <= p[1] /\ p[1] <= Max2(s[1][1], s[2][1])
  /\ Min2(s[1][2], s[2][2]) <= p[2] /\ p[2] <= Max2(s[1][2], s[2][2])

SegsMeet(s, t) ==
  LET o1 == Sgn(Cross(s[1], s[2], t[1]))   o2 == Sgn(Cross(s[1], s[2], t[2]))
      o3 == Sgn(Cross(t[1], t[2], s[1]))   o4 == Sgn(Cross(t[1], t[2], s[2]))
  IN \/ o1 * o2 < 0 /\ o3 * o4 < 0
     \/ OnSeg(t[1], s) \/ OnSeg(t[2], s) \/ OnSeg(s[1], t) \/ OnSeg(s[2], t)

OnRing(p, R) == \E s \in R : OnSeg(p, s)
\* Even-odd rule, for p not on the ring: a ray to the right crosses an odd number of segments.
InsideRing(p, R) ==
  LET crosses(s) ==
        LET a == s[1]  b == s[2] IN
        /\ (a[2] > p[2]) # (b[2] > p[2])
        /\ IF b[2] > a[2] THEN Cross(a, b, p) > 0 ELSE Cross(a, b, p) < 0
  IN Cardinality({s \in R : crosses(s)}) % 2 = 1

\* p belongs to g: borders and insides do, the insides of holes do not.
Covers(g, p) ==
  CASE g.k = "pt" -> g.c[1] = p
    [] g.k \in {"ln", "ls"} -> \E s \in Segs(g) : OnSeg(p, s)
    [] g.k = "rc" -> LET b == Box(g) IN b[1] <= p[1] /\ p[1] <= b[3] /\ b[2] <= p[2] /\ p[2] <= b[4]
    [] g.k = "pg" ->
         /\ OnRing(p, Ring(g.c)) \/ InsideRing(p, Ring(g.c))
         /\ \A i \in DOMAIN g.h : OnRing(p, Ring(g.h[i])) \/ ~InsideRing(p, Ring(g.h[i]))

IsBoxy(g) == g.k \in {"pt", "rc"}

\* The two share a point.  If no borders meet, one lies wholly inside the other or they are apart,
\* so one vertex of each decides.
Meets(g, h) ==
  IF IsBoxy(g) /\ IsBoxy(h) THEN Touches(Box(g), Box(h))
  ELSE \/ Covers(g, h.c[1]) \/ Covers(h, g.c[1])
       \/ \E s \in Segs(g), t \in Segs(h) : SegsMeet(s, t)

\* All coordinates of a geometry, as the code lists them: ring, x, y.
Coords(g) ==
  LET row(ring, p) == <<ring, p[1], p[2]>>
      rr(ring, r) == [i \in DOMAIN r |-> row(ring, r[i])]
  IN CASE g.k = "rc" -> LET b == Box(g) IN << <<0, b[1], b[2]>>, <<0, b[3], b[4]>> >>
       [] g.k = "pg" -> FoldLeft(LAMBDA acc, i : acc \o rr(i, Closed(g.h[i])), rr(0, Closed(g.c)), [i \in 1..Len(g.h) |-> i])
       [] OTHER -> rr(0, g.c)

-----------------------------------------------------------------------------
(* Squared distances.                                                      *)

RatMin(S) == CHOOSE a \in S : \A b \in S : RatLe(a, b)

PtPt2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])

PtSeg2(p, s) ==
  LET a == s[1]  b == s[2]
      L == PtPt2(a, b)
      dot == (p[1] - a[1]) * (b[1] - a[1]) + (p[2] - a[2]) * (b[2] - a[2])
  IN IF dot <= 0 THEN <<PtPt2(p, a), 1>>          \* includes a = b
     ELSE IF dot >= L THEN <<PtPt2(p, b), 1>>
     ELSE <<Cross(a, b, p) * Cross(a, b, p), L>>

\* For segments that do not meet an end of one of them is nearest.
SegSeg2(s, t) ==
  RatMin({PtSeg2(s[1], t), PtSeg2(s[2], t), PtSeg2(t[1], s), PtSeg2(t[2], s)})

BoxBox2(a, b) ==
  LET dx == Gap(a[1], a[3], b[1], b[3])  dy == Gap(a[2], a[4], b[2], b[4])
  IN <<dx * dx + dy * dy, 1>>

Dist2(g, h) ==
  IF IsBoxy(g) /\ IsBoxy(h) THEN BoxBox2(Box(g), Box(h))
  ELSE IF Meets(g, h) THEN <<0, 1>>
  ELSE RatMin({SegSeg2(s, t) : s \in Segs(g), t \in Segs(h)})

-----------------------------------------------------------------------------
(* Distances in fixed point: u units per grid unit, rounded down.          *)

Dist(g, h, u) == Root(Dist2(g, h), u)

=============================================================================
