-------------------------------- MODULE System --------------------------------
(***************************************************************************)
(* A quadtree as a state machine: data is offered, and searches run over   *)
(* the tree step by step, the way the code does it, one node or one datum  *)
(* at a time, ties in any order.  Retrieval and iteration are functions of *)
(* the tree (QTree) and constrained by invariants in every state.          *)
(*                                                                         *)
(* cfg   the configuration: [kind, int, b, md, mc, calc, u, den]           *)
(* data  the geometries accepted so far; ids are indices                   *)
(* tree  the tree of cells                                                 *)
(* m     the search: idle, running, or done with an answer                 *)
(***************************************************************************)
EXTENDS QTree, Sphere, Answers, SequencesExt, TLC

CONSTANTS
  Configs,     \* configurations to start from
  Pool,        \* geometries that may be offered
  MaxN,        \* data accepted at most
  Asks,        \* searches that may be made: [op, g, k, R]
  InOrder,     \* data offered only in the order of Rank (for searches, where order is immaterial)
  Rank(_),
  Variant      \* "" for the specification; otherwise the name of a seeded mistake

VARIABLES cfg, data, tree, m
vars == <<cfg, data, tree, m>>

Idle == [st |-> "idle"]
Far == 2147483647
Limit(R) == IF R = Inf THEN Far ELSE R

B == [i \in DOMAIN data |-> Box(data[i])]
Ids == DOMAIN data

-----------------------------------------------------------------------------
(* Insertion.                                                              *)

Acceptable(g) == HasBox(g) /\ Accepts(cfg.b, Box(g))

Accept(g) ==
  /\ m.st = "idle" /\ Len(data) < MaxN
  /\ Acceptable(g)
  /\ InOrder /\ data # <<>> => Rank(data[Len(data)]) <= Rank(g)
  /\ data' = Append(data, g)
  /\ tree' = Ins(cfg, [i \in DOMAIN data' |-> Box(data'[i])], tree, Len(data'))
  /\ UNCHANGED <<cfg, m>>

Refuse(g) ==
  /\ m.st = "idle" /\ ~Acceptable(g)
  /\ UNCHANGED vars

-----------------------------------------------------------------------------
(* Searches.                                                               *)

Measured(g, d) == IF cfg.calc = "S" THEN GcDist(g, d, cfg.den) ELSE Dist(g, d, cfg.u)

\* How near a cell's content can be at the least.
Bound(g, cell) ==
  IF cfg.calc = "E" THEN Dist(g, RcG(cell), cfg.u)
  ELSE IF g.k = "pt" THEN
    IF Variant = "corners"
    THEN MinSet({GcPt(g.c[1], <<cell[i], cell[j]>>, cfg.den) : i \in {1, 3}, j \in {2, 4}})
    ELSE GcRect(g.c[1], cell, cfg.den)
  ELSE IF Variant = "facing" THEN GcRectRect(Box(g), cell, cfg.den)
  ELSE GcRectNearest(Box(g), cell, cfg.den)

\* The cells in preorder, for searches to refer to: [b, own, subs] with subs indices.
RECURSIVE Cells(_, _)
Cells(n, at) ==
  IF n.subs = <<>> THEN << [b |-> n.b, own |-> Own(n), subs |-> <<>>] >>
  ELSE LET c1 == Cells(n.subs[1], at + 1)               a2 == at + 1 + Len(c1)
           c2 == Cells(n.subs[2], a2)                   a3 == a2 + Len(c2)
           c3 == Cells(n.subs[3], a3)                   a4 == a3 + Len(c3)
           c4 == Cells(n.subs[4], a4)
       IN << [b |-> n.b, own |-> Own(n), subs |-> <<at + 1, a2, a3, a4>>] >> \o c1 \o c2 \o c3 \o c4

Question(q) == [op |-> q.op, g |-> q.g, k |-> q.k, R |-> q.R]
Answer(q, r, ids, ds) == [op |-> q.op, g |-> q.g, k |-> q.k, R |-> q.R, r |-> r, ids |-> ids, ds |-> ds, n |-> 0]
Done(a) == [st |-> "done", a |-> a]

Failing(q, r) == IF q.op = "sorted" THEN Answer(q, "ok", <<>>, <<>>) ELSE Answer(q, r, <<>>, <<>>)

Ask(q) ==
  /\ m.st = "idle"
  /\ m' =
       IF cfg.calc = "N" THEN Done(Failing(q, "CalcMethodNotSet"))
       ELSE IF cfg.calc = "S" /\ ~Searchable(q.g) THEN Done(Failing(q, "InvalidDistance"))
       ELSE IF Bound(q.g, cfg.b) # 0 THEN Done(Failing(q, "OutOfBounds"))
       ELSE IF data = <<>> /\ q.op \in {"find", "findr"} THEN Done(Failing(q, "Empty"))
       ELSE IF q.k = 0 /\ Variant # "k0" THEN Done(Answer(q, "ok", <<>>, <<>>))
       ELSE LET cells == TLCEval(Cells(tree, 1)) IN
            [st |-> "run", q |-> Question(q), cells |-> cells,
             nd |-> TLCEval([i \in DOMAIN cells |-> Bound(q.g, cells[i].b)]),
             dd |-> TLCEval([i \in Ids |-> Measured(q.g, data[i])]),
             work |-> IF q.op \in {"find", "findr"} THEN <<1>> ELSE { <<"cell", 1>> },
             best |-> Limit(q.R), ids |-> <<>>]
  /\ UNCHANGED <<cfg, data, tree>>

Run(ops) == m.st = "run" /\ m.q.op \in ops
Same == UNCHANGED <<cfg, data, tree>>
Unmeasured(cell) == \E i \in m.cells[cell].own : m.dd[i] = NoDist

\* find: depth first, keeping the best so far.
FindSkip ==
  /\ Run({"find", "findr"}) /\ m.work # <<>>
  /\ LET c == Last(m.work) IN
     /\ IF Variant = "eager" THEN m.nd[c] >= m.best ELSE m.nd[c] > m.best
     /\ m' = [m EXCEPT !.work = Front(@)]
  /\ Same

FindVisit ==
  /\ Run({"find", "findr"}) /\ m.work # <<>>
  /\ LET c == Last(m.work)
         near == {i \in m.cells[c].own : m.dd[i] <= m.best}
         v == MinSet({m.dd[i] : i \in near})
         next == [m EXCEPT !.work = Front(@) \o Reverse(m.cells[c].subs)]
     IN
     /\ IF Variant = "eager" THEN m.nd[c] < m.best ELSE m.nd[c] <= m.best
     /\ IF Unmeasured(c) THEN m' = Done(Failing(m.q, "InvalidDistance"))
        ELSE IF near = {} THEN m' = next
        ELSE \E i \in {i \in near : m.dd[i] = v} : m' = [next EXCEPT !.best = v, !.ids = <<i>>]
  /\ Same

FindEnd ==
  /\ Run({"find", "findr"}) /\ m.work = <<>>
  /\ m' = Done(IF m.ids = <<>> THEN Answer(m.q, "NoneInRadius", <<>>, <<>>)
               ELSE Answer(m.q, "ok", m.ids, <<m.best>>))
  /\ Same

\* knn and sorted: nearest first among the cells and data reached so far.
BestFirst == {"knn", "knnr", "sorted"}
DistOf(w) == IF w[1] = "cell" THEN m.nd[w[2]] ELSE m.dd[w[2]]
Nearest(w) == w \in m.work /\ (Variant = "unsorted" \/ \A x \in m.work : DistOf(w) <= DistOf(x))
Ranked(r) == Answer(m.q, r, m.ids, [j \in DOMAIN m.ids |-> m.dd[m.ids[j]]])
Beyond(w) == m.q.op # "sorted" /\ DistOf(w) > Limit(m.q.R)

Emit(w) ==
  /\ Run(BestFirst) /\ w[1] = "datum" /\ Nearest(w) /\ ~Beyond(w)
  /\ LET next == [m EXCEPT !.work = @ \ {w}, !.ids = Append(@, w[2])] IN
     m' = IF m.q.k >= 0 /\ Len(next.ids) >= m.q.k
          THEN Done(Answer(m.q, "ok", next.ids, [j \in DOMAIN next.ids |-> m.dd[next.ids[j]]]))
          ELSE next
  /\ Same

Expand(w) ==
  /\ Run(BestFirst) /\ w[1] = "cell" /\ Nearest(w) /\ ~Beyond(w)
  /\ LET c == m.cells[w[2]] IN
     m' = IF Unmeasured(w[2]) /\ m.q.op # "sorted" THEN Done(Failing(m.q, "InvalidDistance"))
          ELSE [m EXCEPT !.work = (@ \ {w})
                    \cup {<<"datum", i>> : i \in {i \in c.own : m.dd[i] # NoDist}}
                    \cup {<<"cell", i>> : i \in SetOf(c.subs)}]
  /\ Same

BestFirstEnd ==
  /\ Run(BestFirst)
  /\ {w \in m.work : Nearest(w) /\ ~Beyond(w)} = {}
  /\ m' = Done(Ranked("ok"))
  /\ Same

\* The answer has been read.
Return == m.st = "done" /\ m' = Idle /\ Same

SearchStep ==
  \/ FindSkip \/ FindVisit \/ FindEnd \/ BestFirstEnd
  \/ m.st = "run" /\ m.q.op \in BestFirst /\ \E w \in m.work : Emit(w) \/ Expand(w)

-----------------------------------------------------------------------------

Init ==
  /\ cfg \in Configs
  /\ data = <<>>
  /\ tree = Leaf(cfg.b, 0)
  /\ m = Idle

Next ==
  \/ \E g \in Pool : Accept(g) \/ Refuse(g)
  \/ \E q \in Asks : Ask(q)
  \/ SearchStep
  \/ Return

Spec == Init /\ [][Next]_vars /\ WF_vars(SearchStep)

-----------------------------------------------------------------------------
(* C01, C05, C06, C17: the tree.                                           *)

RECURSIVE Nodes(_)
Nodes(n) == {n} \cup (IF n.subs = <<>> THEN {} ELSE UNION {Nodes(n.subs[q]) : q \in 1..4})

\* Every accepted datum is in exactly one cell.
Conserved ==
  /\ All(tree) = Ids
  /\ FoldLeft(LAMBDA acc, c : acc + Cardinality(c.ids), 0, Preorder(tree)) = Len(data)

\* Capacity, depth, and what has a reason to be subdivided.
Capacity ==
  \A n \in Nodes(tree) :
    /\ n.d <= cfg.md
    /\ n.subs = <<>> => n.stuck = {} /\ (n.d < cfg.md => Cardinality(n.kids) <= cfg.mc)
    /\ n.subs # <<>> => n.kids = {} /\ n.d < cfg.md /\ Cardinality(All(n)) > cfg.mc

\* A cell is covered by its quadrants, which meet only at the mid-lines.
Tiling ==
  \A n \in Nodes(tree) : n.subs # <<>> =>
    LET q == n.subs  mx == Mid(n.b[1], n.b[3])  my == Mid(n.b[2], n.b[4]) IN
    /\ q[1].b = <<n.b[1], n.b[2], mx, my>> /\ q[2].b = <<mx, n.b[2], n.b[3], my>>
    /\ q[3].b = <<mx, my, n.b[3], n.b[4]>> /\ q[4].b = <<n.b[1], my, mx, n.b[4]>>
    /\ \A i \in 1..4 : q[i].d = n.d + 1 /\ Within(q[i].b, n.b)

\* Data lie in their cells; a datum is stuck only if it fits no quadrant of its position.
Placed ==
  \A n \in Nodes(tree) :
    /\ \A i \in Own(n) : Within(B[i], n.b)
    /\ \A i \in n.stuck : cfg.kind = "bd" /\ ~Within(B[i], QuadBox(n.b, Quad(cfg, n.b, B[i])))

\* The tree is that of the data, whatever the order it came in.
OrderFree == tree = Canon(cfg, B, cfg.b, 0, Ids)

\* Preorder: own data first, then the quadrants in their order.
RECURSIVE Under(_)
Under(n) == IF n.subs = <<>> THEN <<n>>
            ELSE <<n>> \o Under(n.subs[1]) \o Under(n.subs[2]) \o Under(n.subs[3]) \o Under(n.subs[4])
WalkOk ==
  LET P == Preorder(tree)  U == Under(tree) IN
  /\ Len(P) = Len(U)
  /\ \A i \in DOMAIN P : P[i].ids = Own(U[i]) /\ P[i].d = U[i].d
  /\ \A i \in 2..Len(P) : P[i].d <= P[i - 1].d + 1

-----------------------------------------------------------------------------
(* C03, C04: retrieval, for every query the pool offers.                   *)

Queries == {Box(g) : g \in {g \in Pool : HasBox(g)}}

RetrieveMust == \A b \in Queries : MustRetrieve(cfg, B, Ids, cfg.b, b) \subseteq Retrieved(cfg, tree, b)
RetrieveWithin == \A b \in Queries : ~Within(b, cfg.b) => Retrieved(cfg, tree, b) = {}

\* A position's leaf holds it, and holds what is retrieved there and nothing else.
Leaves == {n \in Nodes(tree) : n.subs = <<>>}
OneLeaf ==
  cfg.kind = "pt" =>
    \A b \in Queries : Within(b, cfg.b) =>
      \E n \in Leaves : Within(b, n.b) /\ Retrieved(cfg, tree, b) = n.kids
\* Each datum is retrieved by its own geometry.
FindsItself == \A i \in Ids : i \in Retrieved(cfg, tree, B[i])
\* Nothing is retrieved that is neither on the way to the query box nor in a quadrant it touches.
RetrieveBounded ==
  \A b \in Queries : \A i \in Retrieved(cfg, tree, b) :
    \E n \in Nodes(tree) : i \in All(n) /\ (Within(b, n.b) \/ Touches(b, n.b))

-----------------------------------------------------------------------------
(* C07 - C12, C15, C16: searches.                                          *)

DoneOk ==
  m.st = "done" =>
    LET a == m.a
        inb == IF cfg.calc = "S" THEN Touches(Box(a.g), cfg.b) ELSE Meets(a.g, RcG(cfg.b))
        dd == TLCEval([i \in Ids |-> Measured(a.g, data[i])])
        M == {i \in Ids : dd[i] # NoDist}
        within == {i \in M : dd[i] <= Limit(a.R)}
        le(i, j) == dd[i] <= dd[j]
    IN IF cfg.calc = "N" THEN NoMethodSearchOk(a)
       ELSE IF cfg.calc = "S" /\ ~Searchable(a.g) THEN UnsearchableOk(a)
       ELSE IF ~inb THEN OutsideOk(a)
       ELSE IF Ids = {} THEN EmptyOk(a)
       ELSE IF M = Ids THEN SearchOk(a, dd, Ids, 0, le, within, within)
       ELSE PartlyOk(a, dd, Ids, M, 0, le, within, within)

\* A cell is never further away than what it holds.
LowerBound ==
  m.st = "run" =>
    \A c \in DOMAIN m.cells :
      /\ \A i \in m.cells[c].own : m.dd[i] # NoDist => m.nd[c] <= m.dd[i]
      /\ \A s \in SetOf(m.cells[c].subs) : m.nd[c] <= m.nd[s]

\* What a best-first search has not produced it still has in reach, and no nearer than what it has.
RECURSIVE Below(_, _)
Below(cells, c) == cells[c].own \cup UNION {Below(cells, s) : s \in SetOf(cells[c].subs)}
InReach ==
  Run(BestFirst) =>
    LET reach == {w[2] : w \in {w \in m.work : w[1] = "datum"}}
                 \cup UNION {Below(m.cells, w[2]) : w \in {w \in m.work : w[1] = "cell"}}
    IN /\ {i \in Ids : m.dd[i] # NoDist} \subseteq SetOf(m.ids) \cup reach
       /\ SetOf(m.ids) \cap reach = {}
       /\ m.ids # <<>> => \A w \in m.work : DistOf(w) >= m.dd[m.ids[Len(m.ids)]]

\* What a depth-first search has passed over is no better than what it has.
PassedOver ==
  Run({"find", "findr"}) =>
    LET reach == UNION {Below(m.cells, c) : c \in SetOf(m.work)} IN
    \A i \in Ids \ reach : m.dd[i] # NoDist /\ m.dd[i] >= m.best

\* Every step of a search leaves less to do: cells not visited and data not produced.  (C20)
RECURSIVE Weight(_, _)
Weight(cells, c) ==
  1 + Cardinality(cells[c].own) + FoldLeft(LAMBDA n, s : n + Weight(cells, s), 0, cells[c].subs)
ToDo(x) ==
  IF x.q.op \in BestFirst
  THEN FoldSet(LAMBDA w, n : n + (IF w[1] = "cell" THEN Weight(x.cells, w[2]) ELSE 1), 0, x.work)
  ELSE FoldLeft(LAMBDA n, c : n + Weight(x.cells, c), 0, x.work)
Progress == [][(m.st = "run" /\ m'.st = "run") => ToDo(m') < ToDo(m)]_vars
\* A search that runs can take a step, so it ends.
Enabled == m.st = "run" => ENABLED SearchStep

\* Every search ends.  (C20)
Ends == (m.st = "run") ~> (m.st = "done")
\* Queries change nothing.  (C17)
QueriesPure == [][(m # m') => UNCHANGED <<cfg, data, tree>>]_vars
\* Refused data change nothing, accepted data add exactly themselves.  (C01, C02)
Grows ==
  [][(data # data') => /\ Len(data') = Len(data) + 1 /\ SubSeq(data', 1, Len(data)) = data
                       /\ Within(Box(data'[Len(data')]), cfg.b)
                       /\ All(tree') = All(tree) \cup {Len(data')}]_vars
TreeFollows == [][(tree # tree') => data # data']_vars
=============================================================================
