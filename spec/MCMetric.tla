------------------------------ MODULE MCMetric ------------------------------
(***************************************************************************)
(* The distances of the specification, held against what a distance is:    *)
(* every pair of geometries from a pool, one chosen after the other.       *)
(***************************************************************************)
EXTENDS Sphere, TLC, FiniteSetsExt, Json

CONSTANTS Side,     \* "plane" or "sphere"
          N,        \* extent of the plane grid
          Show     \* print pairs, to be replayed
VARIABLES g, h
vars == <<g, h>>

None == [k |-> "none", c |-> <<>>, h |-> <<>>]
Pg(c) == Geom("pg", c)
Grid == {<<x, y>> : x \in 0..N, y \in 0..N}
R4(a, b, c, d) == RcG(<<a, b, c, d>>)

PlanePool ==
  {Geom("pt", <<p>>) : p \in Grid}
  \cup {Geom("ln", <<p, q>>) : p \in Grid, q \in Grid}
  \cup {RcG(b) : b \in {b \in (0..N) \X (0..N) \X (0..N) \X (0..N) : b[1] <= b[3] /\ b[2] <= b[4]}}
  \cup {Geom("ls", <<p, q, r>>) : p \in {<<0, 0>>, <<1, 2>>}, q \in Grid, r \in {<<N, 0>>, <<1, 1>>, <<0, N>>}}
  \cup {Pg(<<p, q, r>>) : p \in {<<0, 0>>, <<N, 1>>}, q \in {<<N, N>>, <<1, 2>>}, r \in {<<0, N>>, <<1, 0>>}}
  \cup {[k |-> "pg", c |-> << <<0, 0>>, <<N, 0>>, <<N, N>>, <<0, N>> >>, h |-> << << <<1, 1>>, <<N - 1, 1>>, <<N - 1, N - 1>>, <<1, N - 1>> >> >>]}
  \cup {Pg(<< <<0, 0>>, <<N, 0>>, <<N, N>>, <<N - 1, N>>, <<N - 1, 1>>, <<1, 1>>, <<1, N>>, <<0, N>> >>)}      \* a U
  \cup {[k |-> "pg", c |-> << <<0, -1>>, <<8, -1>>, <<8, 4>>, <<0, 4>> >>,                                       \* two holes
          h |-> << << <<4, 0>>, <<7, 0>>, <<7, 3>> >>, << <<1, 0>>, <<1, 3>>, <<3, 3>>, <<3, 0>> >> >>]}

Lngs == {-180, -135, -90, -10, 0, 45, 90, 170, 180}
Lats == {-90, -60, 0, 45, 80, 90}
SpherePool ==
  {PtG(x, y) : x \in Lngs, y \in Lats}
  \cup {RcG(b) : b \in {b \in {-180, -90, 10, 170} \X {-90, 0, 60} \X {-170, 0, 100, 180} \X {-60, 45, 90} : b[1] <= b[3] /\ b[2] <= b[4]}}
  \cup {Geom("ln", << <<x, y>>, <<z, 60>> >>) : x \in {-180, 0, 120}, y \in {-60, 0}, z \in {-90, 0, 180}}
  \cup {Geom("ls", << <<-90, 0>>, <<0, 45>>, <<90, 0>> >>), Pg(<< <<-90, 0>>, <<0, 60>>, <<90, 0>> >>)}
  \cup {[k |-> "pg", c |-> << <<-100, -70>>, <<100, -70>>, <<100, 70>>, <<-100, 70>> >>,
          h |-> << << <<20, -40>>, <<60, -40>>, <<60, 60>>, <<20, 60>> >>, << <<-60, -20>>, <<-60, 50>>, <<8, 50>>, <<5, -20>> >> >>]}

Init == g = None /\ h = None
Next ==
  \/ g = None /\ g' \in (IF Side = "plane" THEN PlanePool ELSE SpherePool) /\ h' = h
  \/ g # None /\ h = None /\ h' \in (IF Side = "plane" THEN PlanePool ELSE SpherePool) /\ g' = g
Spec == Init /\ [][Next]_vars
Printed == (Show /\ g # None /\ h # None) => PrintT("VEC " \o ToJson([g |-> g, h |-> h]))
Pair == g # None /\ h # None

-----------------------------------------------------------------------------
(* The plane.                                                              *)

D2 == Dist2(g, h)
RatEq(a, b) == a[1] * b[2] = b[1] * a[2]

Symmetric == (Pair /\ Side = "plane") => RatEq(D2, Dist2(h, g))
\* Zero exactly when they share a point, never negative.
ZeroIffMeets == (Pair /\ Side = "plane") => D2[2] > 0 /\ D2[1] >= 0 /\ (D2[1] = 0) = Meets(g, h)
\* No points of the two are nearer.
NoNearer ==
  (Pair /\ Side = "plane") =>
    \A p \in {p \in Grid : Covers(g, p)}, q \in {q \in Grid : Covers(h, q)} : RatLe(D2, <<PtPt2(p, q), 1>>)
\* Some points of the two are as near, where one of them is a vertex or grid points decide.
Attained ==
  (Pair /\ Side = "plane" /\ IsBoxy(g) /\ IsBoxy(h)) =>
    \E p \in {p \in Grid : Covers(g, p)}, q \in {q \in Grid : Covers(h, q)} : RatEq(D2, <<PtPt2(p, q), 1>>)
\* A box is no further away than what is in it.
BoxBelow == (Pair /\ Side = "plane") => RatLe(Dist2(g, RcG(Box(h))), D2)
\* Moving, mirroring and turning both changes nothing.
Map(F(_), x) == [x EXCEPT !.c = [i \in DOMAIN @ |-> F(@[i])], !.h = [j \in DOMAIN @ |-> [i \in DOMAIN @[j] |-> F(@[j][i])]]]
Isometries ==
  (Pair /\ Side = "plane") =>
    /\ LET F(p) == <<p[1] + 3, p[2] - 5>> IN RatEq(D2, Dist2(Map(F, g), Map(F, h)))
    /\ LET F(p) == <<-p[1], p[2]>> IN RatEq(D2, Dist2(Map(F, g), Map(F, h)))
    /\ LET F(p) == <<p[2], p[1]>> IN RatEq(D2, Dist2(Map(F, g), Map(F, h)))
\* Twice the size, twice as far.
Scales ==
  (Pair /\ Side = "plane") =>
    LET F(p) == <<2 * p[1], 2 * p[2]>>  d == Dist2(Map(F, g), Map(F, h)) IN d[1] * D2[2] = 4 * D2[1] * d[2]
\* The distance to what is made of parts is that to the nearest part.
MinDist2(S, x) == RatMin({Dist2(p, x) : p \in S})
Donut == [k |-> "pg", c |-> << <<0, 0>>, <<5, 0>>, <<5, 4>>, <<0, 4>> >>, h |-> << << <<1, 1>>, <<3, 1>>, <<3, 3>>, <<1, 3>> >> >>]
Frame == {R4(0, 0, 5, 1), R4(0, 3, 5, 4), R4(0, 0, 1, 4), R4(3, 0, 5, 4)}
Ushape == Pg(<< <<0, 0>>, <<4, 0>>, <<4, 4>>, <<3, 4>>, <<3, 1>>, <<1, 1>>, <<1, 4>>, <<0, 4>> >>)
Uparts == {R4(0, 0, 4, 1), R4(0, 0, 1, 4), R4(3, 0, 4, 4)}
Parts ==
  (Side = "plane" /\ g # None /\ h = None) =>
    /\ RatEq(Dist2(Donut, g), MinDist2(Frame, g)) /\ RatEq(Dist2(Ushape, g), MinDist2(Uparts, g))
    /\ RatEq(Dist2(g, Donut), MinDist2(Frame, g)) /\ RatEq(Dist2(g, Ushape), MinDist2(Uparts, g))
    /\ g.k = "rc" => RatEq(Dist2(Pg(RectRing(g)), Donut), Dist2(g, Donut))
    /\ g.k = "ls" => RatEq(Dist2(g, Donut), MinDist2({Geom("ln", s) : s \in Segs(g)}, Donut))
FixedPoint ==
  (Pair /\ Side = "plane") =>
    LET d == Dist(g, h, 10) IN d * d * D2[2] <= 100 * D2[1] /\ 100 * D2[1] < (d + 1) * (d + 1) * D2[2]

-----------------------------------------------------------------------------
(* The sphere.  Distances are rounded, hence the ones and twos.            *)

D == GcDist(g, h, 1)
PiUp == 2 * HalfPi + 1
Ball == Pair /\ Side = "sphere"
Some(d) == d # NoDist

InRange == Ball /\ Some(D) => D >= 0 /\ D <= PiUp
Mutual == Ball /\ Some(D) /\ Some(GcDist(h, g, 1)) => Abs(D - GcDist(h, g, 1)) <= 2
\* Only these pairs are measured.
Supported ==
  Ball => (Some(D) <=> (g.k = "pt" \/ (h.k = "pt" /\ g.k \in {"ln", "pg", "rc"}) \/ (g.k = "rc" /\ h.k = "rc")))
\* A full turn, or mirroring both at the equator or a meridian, changes nothing.
Turn(x, by) == Map(LAMBDA p : <<p[1] + by, p[2]>>, x)
SphereIsometries ==
  Ball /\ Some(D) =>
    /\ Abs(D - GcDist(Turn(g, 360), Turn(h, 360), 1)) <= 2
    /\ Abs(D - GcDist(Map(LAMBDA p : <<p[1], -p[2]>>, g), Map(LAMBDA p : <<p[1], -p[2]>>, h), 1)) <= 2
    /\ Abs(D - GcDist(Map(LAMBDA p : <<-p[1], p[2]>>, g), Map(LAMBDA p : <<-p[1], p[2]>>, h), 1)) <= 2
\* Nor does a full turn of one of them, where longitudes are not shared.
ApartLng(a, b) == Box(a)[3] < Box(b)[1] \/ Box(b)[3] < Box(a)[1]
TurnOne ==
  Ball /\ Some(D) /\ IsBoxy(g) /\ IsBoxy(h) =>
    \A by \in {-360, 360} : (ApartLng(g, h) /\ ApartLng(g, Turn(h, by))) => Abs(D - GcDist(g, Turn(h, by), 1)) <= 2
\* Nothing in a rectangle is nearer than the distance to it, and something is about as near.
InRect(b, step) ==
  {<<x, y>> : x \in {x \in b[1]..b[3] : (x - b[1]) % step = 0 \/ x = b[3]},
              y \in {y \in b[2]..b[4] : (y - b[2]) % step = 0 \/ y = b[4]}}
NearestInRect ==
  Ball /\ g.k = "pt" /\ h.k = "rc" =>
    LET d == {GcPt(g.c[1], q, 1) : q \in InRect(Box(h), 5)} IN
    /\ \A v \in d : D <= v + 1
    /\ MinSet(d) <= D + 13100000        \* the half diagonal of a 5 x 5 degrees cell, and more
\* A rectangle is no further than its content, for the bound searches use.
BoundBelow ==
  Ball /\ h.k = "rc" /\ g.k \in {"pt", "rc"} =>
    LET bound(b) == IF g.k = "pt" THEN GcRect(g.c[1], b, 1) ELSE GcRectNearest(Box(g), b, 1) IN
    /\ bound(Box(h)) <= D + 2
    /\ g.k = "rc" =>
         \A p \in InRect(Box(g), 30), q \in InRect(Box(h), 30) : bound(Box(h)) <= GcPt(p, q, 1) + 2
LineBelow ==
  Ball /\ g.k = "pt" /\ h.k \in {"ln", "ls", "pg"} => GcRect(g.c[1], Box(h), 1) <= D + 2
ZeroOnSphere ==
  Ball /\ Some(D) /\ (IsBoxy(g) /\ IsBoxy(h)) => (Meets(g, h) => D = 0)

\* Right angles, where distances are known.
TrigLattice ==
  /\ \A n \in -4..4 : Rad(90 * n, 1) = HalfPi * n + (IF n % 2 = 0 THEN -(n \div 2) ELSE 0) \/ Abs(Rad(90 * n, 1) - HalfPi * n) <= 2
  /\ Gc(0, 0, 1, 90, 0, 1) = HalfPi /\ Gc(-45, 0, 1, 45, 0, 1) = HalfPi
  /\ \A x \in {-180, -77, 0, 33, 180}, z \in {-120, 5, 180} :
       /\ Gc(x, 90, 1, z, 0, 1) = HalfPi /\ Gc(x, -90, 1, z, 0, 1) = HalfPi
       /\ Gc(x, 90, 1, z, 90, 1) = 0
       /\ Abs(Gc(x, 90, 1, z, -90, 1) - 2 * HalfPi) <= 1
  /\ Gc(180, 0, 1, -180, 0, 1) = 0 /\ Gc(180, 45, 1, -180, 45, 1) = 0
  /\ Abs(Gc(0, 0, 1, 180, 0, 1) - 2 * HalfPi) <= 1
  /\ \A a \in {0, 10, 45, 90}, b \in {-90, -20, 0, 60} : Abs(Gc(7, a, 1, 7, b, 1) - Rad(Abs(a - b), 1)) <= 1
  \* 60 degrees: three mutually perpendicular points, halved
  /\ Abs(Gc(0, 0, 1, 45, 45, 1) - Rad(60, 1)) <= 1
  /\ \A d \in {1, 7, 90} : Gc(45 * d, 45 * d, d, 0, 0, d) = Gc(45, 45, 1, 0, 0, 1)
  /\ Mer(0, 0, 1, 90, -90, 90) = HalfPi /\ Mer(0, 0, 1, 0, 10, 20) = Rad(10, 1)
  /\ \A lat \in {-60, 0, 45} : Mer(10, lat, 1, 10, -90, 90) = 0
  \* a meridian's nearest point to one at longitude 45 is further towards the pole
  /\ Mer(45, 45, 1, 0, 0, 90) < Gc(45, 45, 1, 0, 45, 1)
  /\ Abs(Mer(45, 45, 1, 0, 0, 90) - Rad(30, 1)) <= 1
\* Degrees to radians is additive, odd and increasing.
RadLinear ==
  /\ \A a \in -180..180 : Abs(Rad(a, 1) + Rad(-a, 1)) <= 1 /\ Rad(a, 1) < Rad(a + 1, 1)
  /\ \A a \in {-180, -45, 0, 1, 30, 77, 90}, b \in {-90, -3, 5, 60} : Abs(Rad(a, 1) + Rad(b, 1) - Rad(a + b, 1)) <= 2
  /\ \A a \in -20..20, d \in {2, 10} : Rad(a * d, d) = Rad(a, 1)

-----------------------------------------------------------------------------
(* Conversions act on coordinates one by one, and so on boxes.  (C19)      *)

InRadians(x) == Map(LAMBDA p : <<Rad(p[1], 1), Rad(p[2], 1)>>, x)
Converts ==
  Ball =>
    LET r == InRadians(g) IN
    /\ r.k = g.k /\ Len(Coords(r)) = Len(Coords(g))
    /\ \A i \in DOMAIN Coords(g) :
         Coords(r)[i] = <<Coords(g)[i][1], Rad(Coords(g)[i][2], 1), Rad(Coords(g)[i][3], 1)>>
    /\ Box(r) = [i \in 1..4 |-> Rad(Box(g)[i], 1)]
    /\ RcG(Box(g)) = RcG(Box(RcG(Box(g))))
ASSUME Side = "sphere" => TrigLattice /\ RadLinear

\* The definitions of Exact once more, which TLC does not override here.
Overrides ==
  \A n \in 0..40, m \in {1, 2, 5, 13} :
    /\ \A a \in 0..12, b \in 1..5 : RatLe(<<n, m>>, <<a, b>>) = (n * b <= a * m)
    /\ \A u \in {1, 10, 100} :
         /\ LET d == Root(<<n, m>>, u) IN d >= 0 /\ d * d * m <= n * u * u /\ n * u * u < (d + 1) * (d + 1) * m
         /\ \A R \in 0..30 : RootCmp(<<n, m>>, R, u) = Sgn(n * u * u - R * R * m)
ASSUME Side = "plane" => Overrides
=============================================================================
