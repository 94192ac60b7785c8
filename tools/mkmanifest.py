#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "TLA+ specification checked with TLC, bound to the code by replay of model behaviours and trace validation"
NOTE = {
 "C01": "Model: Conserved and Grows over every tree of up to 3 data on a grid with borders and mid-lines. Code: sizes and iterations of replayed and seeded histories.",
 "C02": "Model: offers on, in and outside the bounds; refused data change nothing (Grows, TreeFollows). Code: outcome of each insertion, and answers before and after refused ones.",
 "C03": "Lemma: PointRetrieve for all integers (Apalache). Model: OneLeaf, RetrieveMust, RetrieveWithin, FindsItself. Code: each retrieve equals the leaf of the specification's tree.",
 "C04": "Lemma: BoundsRetrieve for all integers (Apalache). Model: RetrieveMust, RetrieveWithin, RetrieveBounded, FindsItself. Code: each retrieve lies between what must and what may be retrieved.",
 "C05": "Lemma: Subdivision for all integers (Apalache). Model: Capacity, Tiling, Placed. Code: display rows against the specification's tree; corners only to the depth at which they are exact.",
 "C06": "Model: WalkOk. Code: two iterations after a partial one, against the preorder of the specification's tree.",
 "C07": "Lemma: DepthFirst by induction (Apalache). Model: the step machine of find on all small trees (DoneOk, LowerBound, PassedOver). Code: answers against exact rational distances.",
 "C08": "Lemma: DepthFirst by induction (Apalache). Model: the step machine of find_r, radii on and off distances. Code: as C07; exactly-at-radius where floating point is exact.",
 "C09": "Lemma: BestFirst by induction (Apalache). Model: the best-first machine of knn, ties in any order (DoneOk, InReach). Code: answers against exact distances.",
 "C10": "Lemma: BestFirst by induction (Apalache). Model: the best-first machine of knn_r. Code: answers against exact distances.",
 "C11": "Lemma: BestFirst by induction (Apalache). Model: the best-first machine of sorted. Code: answers against exact distances; exhausted iterators asked again.",
 "C12": "Model: the same machines with great-circle distances and cell bounds (LowerBound). Code: answers against great-circle distances, up to rounding.",
 "C13": "Model: the distance operator against what a distance is, on all pairs of a pool. Code: those and seeded pairs in every representation.",
 "C14": "Model: the distance operator against isometries, sampled nearest points and known angles. Code: those and seeded pairs in every representation.",
 "C15": "Model: machines without a method, outside the bounds and empty. Code: the outcome of each search.",
 "C16": "Model: the machines over data some of which has no distance. Code: the outcome of each search.",
 "C17": "Model: OrderFree (the tree is that of the set of data) and QueriesPure. Code: the same questions to quadtrees filled in different orders.",
 "C18": "Model: integer trees. Code: the same operations in every representation and numeric type.",
 "C19": "Model: coordinate-wise conversion commutes with boxes. Code: conversions of enumerated and seeded geometries.",
 "C20": "Model: every search step leaves less to do, some step is always possible, every search ends. Code: no panic, abort, overflow or hang, also in extreme shapes.",
}
checks = [dict(property=p, quick_cmd=f"python3 tools/check.py {p} --tier quick", thorough_cmd=f"python3 tools/check.py {p} --tier thorough",
               technique=T, level="model_checking", level_note=NOTE[p]) for p in sorted(NOTE)]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=[]), f, indent=1)
    f.write("\n")
