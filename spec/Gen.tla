--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Behaviours of System to replay in the code: random walks (TLC           *)
(* -simulate) with geometries drawn at random, whose operations are        *)
(* printed once Steps of them have been made.                              *)
(***************************************************************************)
EXTENDS System, Json

CONSTANTS Scene,    \* "pt", "bd", "int" (plane), "spt", "sbd", "smix" (sphere), "none" (no method)
          Want,     \* the operations to make besides insertions
          Steps

VARIABLE hist
gvars == <<vars, hist>>

Rnd(S) == RandomElement(S)
Sphere == Scene \in {"spt", "sbd", "smix"}

\* Coordinates, more often on borders and mid-lines; some out of bounds where `out`.
X(lo, hi, out, n) ==
  LET w == hi - lo
      d == Rnd({2, 4, 8})
  IN CASE Rnd(1..10) \in {1, 2, 3} -> lo + (w \div d) * Rnd(0..d)
       [] Rnd(1..10) = 1 /\ out -> IF Rnd(1..2) = 1 THEN lo - Rnd(1..3) ELSE hi + Rnd(1..3)
       [] OTHER -> Rnd(lo..hi)

Pos(out, n) == <<X(cfg.b[1], cfg.b[3], out, n), X(cfg.b[2], cfg.b[4], out, n)>>
\* An earlier position once in a while.
At(out, n) == IF data # <<>> /\ Rnd(1..5) = 1 THEN Rnd(SetOf(data[Rnd(Ids)].c)) ELSE Pos(out, n)

R4(a, b, c, d) == RcG(<<a, b, c, d>>)
RectOf(p, q) == R4(Min2(p[1], q[1]), Min2(p[2], q[2]), Max2(p[1], q[1]), Max2(p[2], q[2]))
Small(p, n) == <<Max2(cfg.b[1], Min2(cfg.b[3], p[1] + Rnd(-2..2))), Max2(cfg.b[2], Min2(cfg.b[4], p[2] + Rnd(-2..2)))>>

Draw(kind, out, n) ==
  LET p == At(out, n) IN
  CASE kind = "pt" -> Geom("pt", <<p>>)
    [] kind = "ln" -> Geom("ln", <<p, IF Rnd(1..2) = 1 THEN Small(p, n) ELSE At(out, n)>>)
    [] kind = "ls" -> Geom("ls", <<p, Small(p, n), At(out, n)>>)
    [] kind = "rc" -> RectOf(p, IF Rnd(1..2) = 1 THEN Small(p, n) ELSE At(out, n))
    [] kind = "pg" ->       \* an axis-parallel triangle or rectangle
         LET q == At(out, n)
             x1 == Min2(p[1], q[1])  y1 == Min2(p[2], q[2])
             x2 == Max2(x1 + 1, Max2(p[1], q[1]))  y2 == Max2(y1 + 1, Max2(p[2], q[2]))
         IN IF Rnd(1..2) = 1 THEN Geom("pg", << <<x1, y1>>, <<x2, y1>>, <<x1, y2>> >>)
            ELSE Geom("pg", << <<x1, y1>>, <<x1, y2>>, <<x2, y2>>, <<x2, y1>>, <<x1, y1>> >>)

DataKinds == IF cfg.kind = "pt" THEN {"pt"} ELSE IF Scene = "sbd" THEN {"rc", "pt"}
             ELSE IF Scene = "int" THEN {"rc", "ln", "pt"} ELSE {"pt", "ln", "ls", "rc", "pg"}
CmpKinds == IF Scene = "smix" THEN Rnd({{"rc"}, {"rc", "pt"}, {"ln", "pg", "ls"}})
            ELSE IF Sphere THEN {"pt", "rc"} ELSE {"pt", "ln", "ls", "rc", "pg"}
Radius(n) == IF Sphere THEN Rnd({0, 1000003, 30000007, 100000009}) ELSE Rnd({0, 1000, 2000, 2500, 6700, 10000})

Logged(e) == hist' = Append(hist, e)
Rec(op, g, k, R) == [op |-> op, g |-> g, k |-> k, R |-> R]
Full == Len(data) >= MaxN

GOffer(g) == (Accept(g) \/ Refuse(g)) /\ Logged(Rec("ins", g, 0, 0))
GQuery(op, g) == UNCHANGED vars /\ Logged(Rec(op, g, 0, 0))
GAsk(q) == Ask(q) /\ Logged(q)

\* One operation, drawn at random; n makes TLC draw again in every state.
Drawn(n) ==
  LET op == IF ~Full /\ Rnd(1..2) = 1 THEN "ins" ELSE Rnd(Want)
      out == ~Sphere /\ Rnd(1..5) = 1
  IN Rec(op,
         IF op \in Searches THEN Draw(Rnd(CmpKinds), out, n)
         ELSE IF op \in {"ins", "retr"} THEN Draw(Rnd(DataKinds), out, n)
         ELSE PtG(0, 0),
         IF op \in {"knn", "knnr"} THEN Rnd({0, 1, 2, 3, 5, -1}) ELSE -1,
         IF op \in {"findr", "knnr"} THEN Radius(n) ELSE Inf)

GInit == Init /\ hist = <<>>
GNext ==
  \/ /\ m.st = "idle" /\ Len(hist) < Steps
     /\ \E e \in {Drawn(Len(hist))} :
          IF e.op = "ins" THEN GOffer(e.g)
          ELSE IF e.op \in Searches THEN GAsk(e) ELSE GQuery(e.op, e.g)
  \/ SearchStep /\ UNCHANGED hist
  \/ Return /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_gvars

GConfigs ==
  IF Sphere
  THEN [kind : {IF Scene = "spt" THEN "pt" ELSE "bd"}, int : {FALSE}, b : {<<-180, -90, 180, 90>>, <<-160, 0, 160, 80>>},
        md : {1, 2, 3}, mc : {0, 1, 2}, calc : {"S"}, u : {1}, den : {1}]
  ELSE [kind : IF Scene \in {"pt", "bd"} THEN {Scene} ELSE {"pt", "bd"}, int : {Scene = "int"},
        b : IF Scene = "int" THEN {<<0, 0, 16, 16>>, <<-7, 3, 6, 14>>} ELSE {<<0, 0, 16, 16>>, <<-8, -8, 8, 8>>},
        md : {0, 1, 2, 3, 4}, mc : {0, 1, 2, 3, 4}, calc : {IF Scene = "none" THEN "N" ELSE "E"}, u : {1000}, den : {0}]
GRank(g) == 0

\* Evaluated in every state of a walk.
Printed ==
  (Len(hist) = Steps /\ m.st = "idle") => PrintT("VEC " \o ToJson([cfg |-> cfg, hist |-> hist]))
\* The model's searches are right here, too.
GDoneOk == DoneOk
=============================================================================
