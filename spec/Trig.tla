-------------------------------- MODULE Trig ---------------------------------
(***************************************************************************)
(* The numeric primitives of spherical geometry.  TLC evaluates them by    *)
(* the Java module override java/Trig.java (3D vectors and atan2, not the  *)
(* haversine formula of the code).  Angles are given in degrees as         *)
(* rationals, results are integers in 1e-8 radians, rounded.               *)
(* The definitions below state the exact values on the lattice of right    *)
(* angles, where they are rational multiples of pi; TrigLattice (checked   *)
(* by MCMetric) holds the override against them.                           *)
(***************************************************************************)
EXTENDS Integers

HalfPi == 157079633

\* (n / d) degrees in radians
Rad(n, d) == IF n % (90 * d) = 0 THEN HalfPi * (n \div (90 * d)) ELSE CHOOSE v \in Int : TRUE

\* Great circle distance from (x1/d1, y1/d1) to (x2/d2, y2/d2)
Gc(x1, y1, d1, x2, y2, d2) == CHOOSE v \in Int : TRUE

\* Great circle distance from (x/d, y/d) to the meridian segment at lng/d from lat1/d to lat2/d
Mer(x, y, d, lng, lat1, lat2) == CHOOSE v \in Int : TRUE
=============================================================================
