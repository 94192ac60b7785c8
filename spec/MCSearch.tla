------------------------------- MODULE MCSearch -------------------------------
(* Searches, step by step, over every tree of a few data, with ties taken in any order. *)
EXTENDS System, Json
CONSTANTS Scene,     \* "pt", "bd" (plane), "spt", "sbd", "smix" (sphere), "none" (no method)
          Ops, Ks, Rs, Depths, Children,
          Show      \* print the trees and the searches, to be replayed

Planes == {"pt", "bd"}
Calc == IF Scene \in Planes THEN "E" ELSE IF Scene = "none" THEN "N" ELSE "S"
MCConfigs ==
  [kind : {IF Scene \in {"pt", "spt"} THEN "pt" ELSE "bd"}, int : {FALSE},
   b : {IF Calc = "S" THEN <<-180, -90, 180, 90>> ELSE <<0, 0, 4, 4>>},
   md : Depths, mc : Children, calc : {Calc}, u : {10}, den : {1}]

L(a, b, c, d) == Geom("ln", << <<a, b>>, <<c, d>> >>)
R4(a, b, c, d) == RcG(<<a, b, c, d>>)
Donut == [k |-> "pg", c |-> << <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 4>> >>,
          h |-> << << <<1, 1>>, <<3, 1>>, <<3, 3>>, <<1, 3>> >> >>]
Tri(a, b, c) == Geom("pg", <<a, b, c, a>>)

\* In a fixed order, in which data is offered.
PoolSeq ==
  CASE Scene = "pt" -> << PtG(0, 0), PtG(0, 4), PtG(1, 1), PtG(2, 0), PtG(2, 2), PtG(3, 1), PtG(3, 3), PtG(4, 2), PtG(4, 4) >>
    [] Scene \in {"bd", "none"} ->
         << PtG(0, 4), PtG(2, 2), R4(0, 0, 1, 1), R4(1, 1, 3, 3), R4(2, 0, 4, 1), R4(3, 3, 3, 4), L(0, 0, 4, 4),
            L(1, 3, 1, 4), Donut, Tri(<<3, 0>>, <<4, 0>>, <<4, 2>>), Geom("ls", << <<0, 2>>, <<1, 3>>, <<0, 4>> >>) >>
    [] Scene = "spt" ->
         << PtG(-180, 0), PtG(-175, 60), PtG(-135, -45), PtG(-10, 85), PtG(0, -90), PtG(45, 0), PtG(90, 75), PtG(170, 89),
            PtG(175, 60), PtG(180, -45) >>
    [] Scene = "sbd" ->
         << PtG(-175, 80), R4(-180, -90, -90, 0), R4(-180, 10, -170, 80), R4(-45, -45, 45, 45), R4(10, 60, 20, 85),
            R4(90, -80, 100, -60), R4(170, 20, 180, 80), R4(100, 80, 150, 89), R4(-150, -90, -140, -86) >>
    [] Scene = "smix" ->
         << PtG(-175, 80), R4(-180, 10, -170, 80), L(0, 0, 90, 45), L(170, -80, 180, 80),
            Geom("ls", << <<-90, 0>>, <<0, 45>>, <<10, 60>> >>), Tri(<<10, 60>>, <<40, 60>>, <<20, 85>>), R4(90, -80, 100, -60) >>
MCPool == SetOf(PoolSeq)
MCRank(g) == CHOOSE i \in DOMAIN PoolSeq : PoolSeq[i] = g

Comparators ==
  CASE Scene = "pt" -> { PtG(0, 0), PtG(2, 1), PtG(4, 4), PtG(5, 0), R4(1, 2, 3, 3), L(0, 3, 3, 0), Donut, R4(-2, 4, 0, 5) }
    [] Scene \in {"bd", "none"} ->
         { PtG(1, 0), PtG(2, 2), PtG(4, 4), PtG(5, 5), R4(0, 3, 2, 4), R4(-1, -1, 0, 0), L(3, 0, 3, 4), L(-1, 1, 1, -1),
           L(-2, 1, 1, -2), Donut, Tri(<<0, 1>>, <<2, 4>>, <<0, 4>>) }
    [] Scene \in {"spt", "sbd"} ->
         { PtG(-179, 50), PtG(180, 80), PtG(0, 0), PtG(60, -90), PtG(15, 70), R4(160, 50, 179, 89), R4(-20, -10, 20, 10),
           R4(-180, -90, -120, -80), R4(-180, 70, 180, 75), R4(60, 10, 80, 85), R4(40, -40, 50, 20) }
    [] Scene = "smix" -> { PtG(-179, 50), PtG(15, 70), R4(160, 50, 179, 89), R4(-20, -10, 20, 10), L(0, 0, 10, 10), Tri(<<0, 0>>, <<9, 0>>, <<9, 9>>) }

\* A radius is asked for and a number of results where the operation takes them.
MCAsks ==
  LET qs(op, ks, rs) == IF op \in Ops THEN [op : {op}, g : Comparators, k : ks, R : rs] ELSE {}
      some == {IF k = 99 THEN -1 ELSE k : k \in Ks}
  IN qs("find", {1}, {Inf}) \cup qs("findr", {1}, Rs) \cup qs("knn", some, {Inf})
     \cup qs("knnr", some, Rs) \cup qs("sorted", {-1}, {Inf})
Printed == (Show /\ m.st = "idle") => PrintT("VEC " \o ToJson([cfg |-> cfg, data |-> data]))
ASSUME Show => PrintT("ASK " \o ToJson(MCAsks))
=============================================================================
