-------------------------------- MODULE Exact --------------------------------
(***************************************************************************)
(* Squares and products beyond TLC's 32 bits.  TLC evaluates these by the  *)
(* override java/Exact.java, with the same meaning in whole numbers of any *)
(* size; Overrides (checked by MCMetric) holds the two together where the  *)
(* definitions stay within 32 bits.  r is a rational <<num, den>>, den > 0.*)
(***************************************************************************)
EXTENDS Integers

RatLe(a, b) == a[1] * b[2] <= b[1] * a[2]

\* The square root of r in units of 1/u, rounded down.
RECURSIVE RootIn(_, _, _, _)
RootIn(r, u, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF m * m * r[2] <= r[1] * u * u THEN RootIn(r, u, m, hi) ELSE RootIn(r, u, lo, m - 1)
Root(r, u) == RootIn(r, u, 0, 1000)

\* Is the square root of r less (-1) or more (1) than R/u (R >= 0), by more than floating-point
\* arithmetic in double precision could mistake?  0 if it is not.
RootCmp(r, R, u) ==
  LET a == r[1] * u * u  b == R * R * r[2]
      d == IF a < b THEN b - a ELSE a - b
  IN IF d * 100000 <= b \div 1000000 THEN 0 ELSE IF a < b THEN -1 ELSE 1
=============================================================================
