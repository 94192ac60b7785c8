-------------------------------- MODULE MCTree --------------------------------
(* Trees: every sequence of positions or boxes on a small grid, those on borders and mid-lines, *)
(* degenerate ones, and ones outside the bounds included.                                       *)
EXTENDS System, Json
CONSTANTS Kind, Depths, Children, Ints,
          Xs, Ys,        \* the coordinates used
          W,             \* the bounds are (0,0) to (W,W)
          Show          \* print the longest histories, to be replayed

MCConfigs ==
  [kind : {Kind}, int : Ints, b : {<<0, 0, W, W>>}, md : Depths, mc : Children,
   calc : {"E"}, u : {1}, den : {0}]

Positions == {PtG(x, y) : x \in Xs, y \in Ys} \cup {PtG(-1, 2), PtG(W, W + 1), PtG(W + 1, -1)}
Rects ==
  {RcG(b) : b \in {b \in Xs \X Ys \X Xs \X Ys : b[1] <= b[3] /\ b[2] <= b[4]}}
  \cup {RcG(<<-1, 0, 1, 1>>), RcG(<<0, 0, W, W + 1>>), RcG(<<-1, -1, W + 1, W + 1>>), [k |-> "ls", c |-> <<>>, h |-> <<>>]}

MCPool == IF Kind = "pt" THEN Positions ELSE Rects
MCRank(g) == 0
Printed == (Show /\ Len(data) = MaxN) => PrintT("VEC " \o ToJson([cfg |-> cfg, data |-> data]))
=============================================================================
