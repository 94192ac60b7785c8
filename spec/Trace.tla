-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance.  Reads traces recorded from the real code, one per line of *)
(* File, and consumes each event by event from its own initial state.      *)
(* A trace has the data offered (ids are indices), one or more quadtrees   *)
(* (handles), and events: the operation, its arguments, what the code      *)
(* answered.  The abstract state of a handle is its tree of cells and the  *)
(* set of ids it accepted.                                                 *)
(*                                                                         *)
(* Focus names the property being decided.  Every event is consumed;       *)
(* one whose answer the property does not allow makes `bad` non-zero.      *)
(***************************************************************************)
EXTENDS QTree, Sphere, Answers, SequencesExt, Json, TLC, TLCExt

CONSTANTS File, Focus

Traces == ndJsonDeserialize(File)

VARIABLES t,      \* index of the trace
          l,      \* next event
          st,     \* handle -> [tree, S]
          snaps,  \* event -> set of data the handle it asked held when it was asked
          bad     \* the first event the property does not allow, or 0
vars == <<t, l, st, snaps, bad>>

tr == Traces[t]
Ev == tr.ev
NoBoxAt == <<900000, 900000, 900000, 900000>>
BoxOf(g) == IF HasBox(g) THEN Box(g) ELSE NoBoxAt
Boxes == [i \in DOMAIN tr.data |-> BoxOf(tr.data[i])]

H(e) == tr.hs[e.h]
State(e) == st[e.h]
Stored(e) == IF e.h = 0 THEN {} ELSE st[e.h].S

NeedTree == Focus \in {"C03", "C04", "C05", "C06", "C15", "C18"}

-----------------------------------------------------------------------------
(* Helpers on answers.                                                     *)

IsBag(s, S) == Len(s) = Cardinality(S) /\ SetOf(s) = S
SeqNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near2(a[i], b[i], tol)
Crash(e) == e.r \in {"panic", "abort", "hang", "endless"}

-----------------------------------------------------------------------------
(* Insertion.                                                              *)

InsResult(e, i) ==
  IF ~HasBox(tr.data[i]) THEN "CannotMakeBbox"
  ELSE IF Accepts(H(e).b, Box(tr.data[i])) THEN "ok" ELSE "OutOfBounds"

InsOk(e) ==
  CASE e.op = "ins" -> e.r = InsResult(e, e.i)
    [] e.op = "bulk" -> e.r = "ok" /\ SetOf(e.ids) = {i \in e.i..e.j : InsResult(e, i) # "ok"}

-----------------------------------------------------------------------------
(* Size, iteration, retrieval, structure.                                  *)

SizeOk(e, S) == e.r = "ok" /\ e.n = Cardinality(S)
IterBagOk(e, S) == e.r = "ok" /\ e.n = 0 /\ IsBag(e.ids, S) /\ IsBag(e.ids2, S)

\* ids is a walk through cells: for each in turn its data, in some order.
Walk(ids, cells) ==
  LET step(acc, c) ==
        LET n == Cardinality(c.ids) IN
        IF ~acc.ok \/ acc.off + n > Len(ids) THEN [ok |-> FALSE, off |-> acc.off]
        ELSE [ok |-> {ids[k] : k \in (acc.off + 1)..(acc.off + n)} = c.ids, off |-> acc.off + n]
      end == FoldLeft(step, [ok |-> TRUE, off |-> 0], cells)
  IN end.ok /\ end.off = Len(ids)

IterOk(e, tree) ==
  LET P == TLCEval(SelectSeq(Preorder(tree), LAMBDA c : c.ids # {}))
  IN e.r = "ok" /\ e.n = 0 /\ Walk(e.ids, P) /\ Walk(e.ids2, P)

DispOk(e, tree) ==
  LET P == TLCEval(Preorder(tree))  h == H(e) IN
  /\ e.r = "ok"
  /\ Len(e.rows) = Len(P)
  /\ \A i \in DOMAIN P :
       /\ e.rows[i][1] = P[i].d
       /\ e.rows[i][4] = Cardinality(P[i].ids)
       /\ P[i].d <= h.cdep =>
            e.rows[i][2] = h.eo + h.es * P[i].x /\ e.rows[i][3] = h.eo + h.es * P[i].y

\* H(e).rough: the grid is embedded in a way that midpoints of cells are rounded, so that which side
\* of a mid-line a datum falls on is not specified.
RetrOk(e, tree, S) ==
  LET b == BoxOf(e.g) IN
  /\ e.r = "ok" /\ e.n = 0
  /\ NoDup(e.ids)
  /\ MustRetrieve(H(e), Boxes, S, H(e).b, b) \subseteq SetOf(e.ids)
  /\ IF H(e).rough THEN SetOf(e.ids) \subseteq (IF Within(b, H(e).b) THEN S ELSE {})
     ELSE IF H(e).kind = "pt" THEN SetOf(e.ids) = Retrieved(H(e), tree, b)
     ELSE SetOf(e.ids) \subseteq Retrieved(H(e), tree, b)

-----------------------------------------------------------------------------
(* Searches, against the distances of all stored data.                     *)

Measure(h, g, d) == IF h.calc = "S" THEN GcDist(g, d, tr.den) ELSE Dist(g, d, tr.u)
Dists(e, S) == TLCEval([i \in S |-> Measure(H(e), e.g, tr.data[i])])

InBounds(e) ==
  IF H(e).calc = "S" THEN Touches(Box(e.g), H(e).b) ELSE Meets(e.g, RcG(H(e).b))
\* On the sphere a comparator across the antimeridian from the bounds, or at a pole, may count as
\* touching them or not.
BoundsUnclear(e) ==
  /\ H(e).calc = "S" /\ Searchable(e.g) /\ ~InBounds(e)
  /\ LET c == e.g.c IN
     \E p \in SetOf(c) \cup {<<c[1][1], c[Len(c)][2]>>, <<c[Len(c)][1], c[1][2]>>} :
        GcRect(p, H(e).b, tr.den) <= H(e).tol
  
\* Exactly at radius R, in a setting where the code's floating-point arithmetic is exact too. It is
\* for points and rectangles that touch, however the grid is embedded.
ExactAt(e, i) ==
  /\ H(e).calc = "E" /\ e.R # Inf /\ e.R >= 0 /\ e.R % tr.u = 0
  /\ LET d == tr.data[i]  q == e.R \div tr.u IN
     /\ H(e).exact \/ (q = 0 /\ IsBoxy(e.g) /\ IsBoxy(d))
     /\ q = 0 \/ (e.g.k = d.k /\ d.k \in {"pt", "rc"})
     /\ Dist2(e.g, d)[1] = q * q * Dist2(e.g, d)[2]

\* Double precision tells all distances apart that differ (and are measured without rounding the
\* coordinates), so their order and which are within the radius is known exactly.
Sharp(e) == H(e).calc = "E" /\ H(e).exact /\ H(e).num = "f64"
Squares(e, S) == IF Sharp(e) THEN TLCEval([i \in S |-> Dist2(e.g, tr.data[i])]) ELSE <<>>

\* e.dr: the radius asked with is the next number below (-1) or above (1) that of R.
MustIn(e, dd, d2, i) ==
  \/ e.R = Inf
  \/ IF Sharp(e) THEN e.R >= 0 /\ RootCmp(d2[i], e.R, tr.u) < 0 ELSE dd[i] < e.R - H(e).tol
  \/ e.dr >= 0 /\ ExactAt(e, i)
MayIn(e, dd, d2, i) ==
  \/ e.R = Inf
  \/ /\ IF Sharp(e) THEN e.R >= 0 /\ RootCmp(d2[i], e.R, tr.u) <= 0 ELSE dd[i] <= e.R + H(e).tol
     /\ ~(e.dr < 0 /\ ExactAt(e, i))

NoFurther(e, dd, d2, i, j) == IF Sharp(e) THEN RatLe(d2[i], d2[j]) ELSE dd[i] <= dd[j] + H(e).tol

\* Searches whose answer is a matter of distances: a method is set, the comparator touches the
\* bounds, and every datum can be measured.
Plain(e, S, calc) ==
  /\ e.op \in Searches /\ H(e).calc = calc
  /\ calc = "S" => Searchable(e.g)
  /\ InBounds(e)
  /\ S # {} \/ e.op \in {"knn", "knnr", "sorted"}

PlainOk(e, S, calc) ==
  Plain(e, S, calc) =>
    LET dd == Dists(e, S)
        d2 == Squares(e, S)
        le(i, j) == NoFurther(e, dd, d2, i, j)
    IN (\A i \in S : dd[i] # NoDist) =>
         SearchOk(e, dd, S, H(e).tol, le, {i \in S : MustIn(e, dd, d2, i)}, {i \in S : MayIn(e, dd, d2, i)})

-----------------------------------------------------------------------------
(* C15, C16.                                                               *)

ContractOk(e, S, tree) ==
  LET h == H(e) IN
  IF h.calc = "N" THEN
    CASE e.op \in Searches -> NoMethodSearchOk(e)
      [] e.op = "size" -> SizeOk(e, S)
      [] e.op = "iter" -> IterBagOk(e, S)
      [] e.op = "retr" -> RetrOk(e, tree, S)
      [] e.op \in {"ins", "bulk"} -> InsOk(e)
      [] OTHER -> TRUE
  ELSE IF e.op \notin Searches \/ (h.calc = "S" /\ ~Searchable(e.g)) THEN TRUE
  ELSE IF ~InBounds(e) THEN
    BoundsUnclear(e) \/ OutsideOk(e)
  ELSE IF S = {} THEN EmptyOk(e)
  ELSE e.r \notin {"CalcMethodNotSet", "OutOfBounds", "Empty", "CannotCastInfinity", "CannotMakeBbox"}

UnmeasurableOk(e, S) ==
  LET h == H(e) IN
  (e.op \in Searches /\ h.calc = "S") =>
    IF ~Searchable(e.g) THEN UnsearchableOk(e)
    ELSE IF ~InBounds(e) \/ S = {} THEN TRUE
    ELSE LET dd == Dists(e, S)
             M == {i \in S : dd[i] # NoDist}
             le(i, j) == NoFurther(e, dd, <<>>, i, j)
         IN M # S =>
              PartlyOk(e, dd, S, M, h.tol, le, {i \in M : MustIn(e, dd, <<>>, i)}, {i \in M : MayIn(e, dd, <<>>, i)})

-----------------------------------------------------------------------------
(* C02, C17, C18: the same question asked twice.                           *)

SameQuestion(a, b) == a.op = b.op /\ a.g = b.g /\ a.k = b.k /\ a.R = b.R /\ a.dr = b.dr

\* Radii for which rounding cannot matter.
RadiusClear(e, S) ==
  e.op \in {"findr", "knnr"} =>
    \A i \in S : LET d == Measure(H(e), e.g, tr.data[i]) IN
      e.R = Inf \/ d < e.R - H(e).tol \/ d > e.R + H(e).tol

SameAnswer(a, b, tol, rows) ==
  /\ a.r = b.r
  /\ a.op = "size" => a.n = b.n
  /\ a.op \in {"iter", "retr"} => Len(a.ids) = Len(b.ids) /\ SetOf(a.ids) = SetOf(b.ids) /\ a.n = b.n
  /\ (a.op = "disp" /\ rows) => a.rows = b.rows
  /\ a.op \in Searches => SeqNear(a.ds, b.ds, tol)
  
Question(e) == e.op \in Searches \cup {"size", "iter", "retr", "disp"}

\* Answers already given to the question, in the same situation, by handles P.
Priors(e, S, P(_)) ==
  {j \in 1..(l - 1) : Ev[j].h # 0 /\ SameQuestion(Ev[j], e) /\ snaps[j] = S /\ P(Ev[j].h)}

AsBefore(e, S, P(_)) ==
  Question(e) => \A j \in Priors(e, S, P) : SameAnswer(Ev[j], e, 2 * H(e).tol, TRUE)

FailedBetween(h) == \E j \in 1..(l - 1) : Ev[j].h = h /\ Ev[j].op = "ins" /\ Ev[j].r # "ok"

SameKind(a, b) == 
  tr.hs[a].kind = tr.hs[b].kind /\ tr.hs[a].b = tr.hs[b].b /\ tr.hs[a].md = tr.hs[b].md
  /\ tr.hs[a].mc = tr.hs[b].mc /\ tr.hs[a].calc = tr.hs[b].calc

AsOthers(e, S) ==
  Question(e) =>
    \A j \in Priors(e, S, LAMBDA h : SameKind(h, e.h)) :
      LET a == tr.hs[Ev[j].h]  b == H(e)
          alike == a.num = b.num \/ (~a.int /\ ~b.int)
      IN IF ~alike THEN (e.op \in {"size", "iter"} => SameAnswer(Ev[j], e, 0, FALSE))
         ELSE (e.op \in Searches => RadiusClear(e, S)) =>
                SameAnswer(Ev[j], e, 2 * Max2(a.tol, b.tol), TRUE)

-----------------------------------------------------------------------------
(* Operations without a quadtree.                                          *)

DistSpec(e) == IF e.calc = "S" THEN GcDist(e.g, e.g2, tr.den) ELSE Dist(e.g, e.g2, tr.u)

EuclidOk(e) ==
  (e.op = "dist" /\ e.calc = "E") =>
    LET d == DistSpec(e) IN
    e.r = "ok" /\ \A i \in DOMAIN e.ds :
      IF Meets(e.g, e.g2) THEN e.ds[i] = 0 ELSE e.ds[i] > 0 /\ Near2(e.ds[i], d, e.tol)

\* The number of ways to ask that measure geometry to geometry; a further one, to a bounding
\* box, is only tied to the nearest point.
HaversineOk(e) ==
  (e.op = "dist" /\ e.calc = "S") =>
    LET d == DistSpec(e) IN
    e.r = "ok" /\ \A i \in 1..Min2(8, Len(e.ds)) :
      \/ d = NoDist /\ e.ds[i] = NoDist
      \/ d # NoDist /\ e.ds[i] >= 0 /\ Near2(e.ds[i], d, e.tol)
      \/ MayMeasure(e.g, e.g2) /\ Near2(e.ds[i], GcDist(e.g2, e.g, tr.den), e.tol)

NoMethodOk(e) ==
  (e.op = "dist" /\ e.calc = "N") => e.r = "ok" /\ \A i \in DOMAIN e.ds : e.ds[i] = -11

WrappersOk(e) ==
  e.op = "dist" =>
    /\ e.r = "ok"
    /\ \A i \in 1..Min2(8, Len(e.ds)) : Near2(e.ds[i], e.ds[1], e.tol)
    /\ \A j \in 1..(l - 1) :
         (Ev[j].op = "dist" /\ Ev[j].calc = e.calc /\ Ev[j].g = e.g /\ Ev[j].g2 = e.g2
          /\ Ev[j].r = "ok" /\ Ev[j].ds # <<>> /\ e.ds # <<>>)
         => Near2(Ev[j].ds[1], e.ds[1], 2 * Max2(Ev[j].tol, e.tol))

RadiansOk(e) ==
  e.op = "torad" =>
    LET c == Coords(e.g) IN
    /\ e.r = e.g.k /\ e.n = 0 /\ Len(e.rows) = Len(c)
    /\ \A i \in DOMAIN c :
         /\ e.rows[i][1] = c[i][1]
         /\ Near2(e.rows[i][2], Rad(c[i][2], tr.den), e.tol)
         /\ Near2(e.rows[i][3], Rad(c[i][3], tr.den), e.tol)

Kinds == {"pt", "ln", "ls", "pg", "rc"}
ConvOk(e) ==
  e.op = "conv" =>
    IF e.what \in Kinds
    THEN /\ e.r = e.g.k /\ e.n = 0 /\ e.rows = Coords(e.g)
         /\ e.ds = IF HasBox(e.g) THEN Box(e.g) \o Box(e.g) ELSE <<>>
    ELSE e.r = "UnsupportedGeometry"

-----------------------------------------------------------------------------
(* What the property in focus allows.  tree and S are those of the handle  *)
(* before the event.                                                       *)

Ok(e) ==
  LET S == Stored(e)
      tree == IF NeedTree /\ e.h # 0 THEN st[e.h].tree ELSE <<>>
      on(op) == e.h # 0 /\ e.op = op
  IN
  CASE Focus = "C01" -> (on("size") => SizeOk(e, S)) /\ (on("iter") => IterBagOk(e, S))
    [] Focus = "C02" ->
         /\ (on("ins") \/ on("bulk")) => InsOk(e)
         /\ (e.h # 0 /\ FailedBetween(e.h)) => AsBefore(e, S, LAMBDA h : h = e.h)
    [] Focus = "C03" -> (on("retr") /\ H(e).kind = "pt") => RetrOk(e, tree, S)
    [] Focus = "C04" -> (on("retr") /\ H(e).kind = "bd") => RetrOk(e, tree, S)
    [] Focus = "C05" -> on("disp") => DispOk(e, tree)
    [] Focus = "C06" -> on("iter") => IterOk(e, tree)
    [] Focus = "C07" -> on("find") => PlainOk(e, S, "E")
    [] Focus = "C08" -> on("findr") => PlainOk(e, S, "E")
    [] Focus = "C09" -> on("knn") => PlainOk(e, S, "E")
    [] Focus = "C10" -> on("knnr") => PlainOk(e, S, "E")
    [] Focus = "C11" -> on("sorted") => PlainOk(e, S, "E")
    [] Focus = "C12" -> e.h # 0 => PlainOk(e, S, "S")
    [] Focus = "C13" -> EuclidOk(e)
    [] Focus = "C14" -> HaversineOk(e)
    [] Focus = "C15" -> IF e.h = 0 THEN NoMethodOk(e) ELSE ContractOk(e, S, tree)
    [] Focus = "C16" -> e.h # 0 => UnmeasurableOk(e, S)
    [] Focus = "C17" -> e.h # 0 => AsBefore(e, S, LAMBDA h : SameKind(h, e.h))
    [] Focus = "C18" ->
         IF e.h = 0 THEN WrappersOk(e) /\ (e.op = "conv" => e.n = 0 /\ ~Crash(e))
         ELSE /\ AsOthers(e, S)
              /\ H(e).int =>
                   CASE e.op = "retr" -> RetrOk(e, tree, S)
                     [] e.op = "iter" -> IterOk(e, tree)
                     [] e.op = "disp" -> DispOk(e, tree)
                     [] e.op = "size" -> SizeOk(e, S)
                     [] OTHER -> TRUE
    [] Focus = "C19" -> RadiansOk(e) /\ ConvOk(e)
    [] Focus = "C20" -> ~Crash(e)

-----------------------------------------------------------------------------

Init ==
  /\ t \in 1..Len(Traces)
  /\ l = 1
  /\ st = [h \in DOMAIN tr.hs |-> [tree |-> Leaf(tr.hs[h].b, 0), S |-> {}]]
  /\ snaps = <<>>
  /\ bad = 0

Judge(e) == bad' = IF bad # 0 \/ Ok(e) THEN bad ELSE l

\* What a handle holds is what it said it accepted.
Insert(e, ids) ==
  st' = [st EXCEPT ![e.h] =
    [tree |-> IF NeedTree THEN FoldSet(LAMBDA i, acc : Ins(H(e), Boxes, acc, i), @.tree, ids) ELSE @.tree,
     S |-> @.S \cup ids]]

InsertAccepted(e) == e.op = "ins" /\ e.r = "ok" /\ Insert(e, {e.i})
InsertRefused(e)  == e.op = "ins" /\ e.r # "ok" /\ UNCHANGED st
InsertMany(e)     == e.op = "bulk" /\ Insert(e, IF e.r = "ok" THEN (e.i..e.j) \ SetOf(e.ids) ELSE {})
Query(e)          == e.op \notin {"ins", "bulk"} /\ UNCHANGED st

Next ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l] IN
     /\ InsertAccepted(e) \/ InsertRefused(e) \/ InsertMany(e) \/ Query(e)
     /\ Judge(e)
     /\ snaps' = Append(snaps, Stored(e))
  /\ l' = l + 1
  /\ UNCHANGED t

Spec == Init /\ [][Next]_vars

Allowed == bad = 0
\* Every event of every trace was consumed.
Consumed == TLCGet("stats").distinct = FoldLeft(LAMBDA n, x : n + Len(x.ev) + 1, 0, Traces)

Short == [trace |-> tr.id, event |-> bad, op |-> IF bad = 0 THEN "" ELSE Ev[bad].op]
=============================================================================
