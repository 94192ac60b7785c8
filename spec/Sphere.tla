-------------------------------- MODULE Sphere -------------------------------
(***************************************************************************)
(* Spherical distances between geometries given on a grid of degrees/den,  *)
(* in 1e-8 radians.  Unsupported pairs are NoDist.                         *)
(***************************************************************************)
EXTENDS Planar, Trig

NoDist == -10

GcPt(p, q, den) == Gc(p[1], p[2], den, q[1], q[2], den)

\* The point of a segment nearest in longitude/latitude, then its great circle distance.
GcSeg(p, s, den) ==
  LET a == s[1]  b == s[2]
      L == PtPt2(a, b)
      dot == (p[1] - a[1]) * (b[1] - a[1]) + (p[2] - a[2]) * (b[2] - a[2])
  IN IF dot <= 0 THEN GcPt(p, a, den)
     ELSE IF dot >= L THEN GcPt(p, b, den)
     ELSE Gc(p[1], p[2], den, a[1] * L + dot * (b[1] - a[1]), a[2] * L + dot * (b[2] - a[2]), den * L)

GcSegs(p, S, den) == MinSet({GcSeg(p, s, den) : s \in S})

\* Exact distance to the nearest point of a rectangle.
GcRect(p, b, den) ==
  IF b[1] <= p[1] /\ p[1] <= b[3] THEN
    IF p[2] < b[2] THEN Rad(b[2] - p[2], den) ELSE IF p[2] > b[4] THEN Rad(p[2] - b[4], den) ELSE 0
  ELSE Min2(Mer(p[1], p[2], den, b[1], b[2], b[4]), Mer(p[1], p[2], den, b[3], b[2], b[4]))

\* The longitude difference the short way around the globe.
Wrap(dx, den) == LET m == Abs(dx) % (360 * den) IN Min2(m, 360 * den - m)

GcRectRect(a, b, den) ==
  LET lngs == a[1] <= b[3] /\ b[1] <= a[3]
      lats == a[2] <= b[4] /\ b[2] <= a[4]
      dlng == Min2(Wrap(b[1] - a[3], den), Wrap(a[1] - b[3], den))
      lo == Max2(a[2], b[2])  hi == Min2(a[4], b[4])       \* shared latitudes
      lat == IF Abs(lo) > Abs(hi) THEN lo ELSE hi
      la == IF a[4] < b[2] THEN a[4] ELSE a[2]             \* facing corners
      lb == IF a[4] < b[2] THEN b[2] ELSE b[4]
  IN IF lngs /\ lats THEN 0
     ELSE IF lngs THEN Rad(Abs(la - lb), den)
     ELSE IF lats THEN Gc(0, lat, den, dlng, lat, den)
     ELSE Gc(0, la, den, dlng, lb, den)

\* Exact distance between the nearest points of two rectangles, which is what a search may prune by.
GcRectNearest(a, b, den) ==
  IF a[1] <= b[3] /\ b[1] <= a[3] THEN GcRectRect(a, b, den)
  ELSE LET sides(p, q) ==      \* a meridian side of p against one of q: nearest at an end of one
             MinSet({Mer(p[1], p[2], den, q[1], q[2], q[3]), Mer(p[1], p[3], den, q[1], q[2], q[3]),
                     Mer(q[1], q[2], den, p[1], p[2], p[3]), Mer(q[1], q[3], den, p[1], p[2], p[3])})
       IN MinSet({sides(<<a[i], a[2], a[4]>>, <<b[j], b[2], b[4]>>) : i \in {1, 3}, j \in {1, 3}})

GcPtTo(p, g, den) ==
  CASE g.k = "pt" -> GcPt(p, g.c[1], den)
    [] g.k \in {"ln", "ls"} -> GcSegs(p, Segs(g), den)
    [] g.k = "rc" -> GcRect(p, Box(g), den)
    [] g.k = "pg" -> IF Covers(g, p) THEN 0 ELSE GcSegs(p, Segs(g), den)

\* From g to h.  A line string is only measured from a point to it, not from it to a point.
GcDist(g, h, den) ==
  CASE g.k = "pt" -> GcPtTo(g.c[1], h, den)
    [] g.k \in {"ln", "pg", "rc"} /\ h.k = "pt" -> GcPtTo(h.c[1], g, den)
    [] g.k = "rc" /\ h.k = "rc" -> GcRectRect(Box(g), Box(h), den)
    [] OTHER -> NoDist

\* Line string to point has no documented distance; were one given it must be the right one.
MayMeasure(g, h) == g.k = "ls" /\ h.k = "pt"

\* A comparator can be used in a search if it can be measured against a bounding box.
Searchable(g) == g.k \in {"pt", "rc"}
=============================================================================
