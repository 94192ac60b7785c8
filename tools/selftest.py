#!/usr/bin/env python3
"""Tests of the machinery itself (not a check of /repo): selftest.py [model|lemmas|trace].

model: mistakes put into the specification, each of which TLC has to find;
trace: true recordings with one answer falsified, each of which spec/Trace.tla has to refuse."""
import copy, json, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, gen
from plans import ALLQ, BALL_INV, PLANE_INV, SEARCH, TREE_INV, metric, search, tree

RETR = ["RetrieveMust", "RetrieveWithin", "OneLeaf", "FindsItself", "RetrieveBounded"]
FIND = ["DoneOk", "LowerBound", "InReach", "PassedOver", "Enabled"]
PT = lambda: tree("pt", 3, TREE_INV + RETR, ("Grows", "TreeFollows"), depths=(0, 2), children=(0, 1), xs="{0, 2, 3}", ys="{0, 2, 4}")
BD = lambda: tree("bd", 2, TREE_INV + RETR, ("Grows", "TreeFollows"), depths=(0, 2), children=(0, 1), xs="{0, 2, 3, 4}", ys="{0, 2, 4}")
S = lambda scene, ops, variant="", **kw: search(scene, ops, 3, FIND, ("QueriesPure", "Progress"), variant=variant, **kw)

# name, module, configuration, file, text, replacement
MODEL = [
    ("eager", "MCSearch", S("pt", ["findr"], "eager"), "", "", ""),
    ("k0", "MCSearch", S("pt", ["knn"], "k0", rs="{99998}"), "", "", ""),
    ("unsorted", "MCSearch", S("pt", ["sorted"], "unsorted", rs="{99998}"), "", "", ""),
    ("corners", "MCSearch", S("spt", ["find"], "corners", ks=(99,)), "", "", ""),
    ("facing", "MCSearch", S("sbd", ["find"], "facing", ks=(99,)), "", "", ""),
    ("full leaf not split", "MCTree", PT(), "QTree.tla", "Cardinality(n.kids) >= T.mc /\\ n.d < T.md", "Cardinality(n.kids) > T.mc /\\ n.d < T.md"),
    ("too deep", "MCTree", PT(), "QTree.tla", "Cardinality(n.kids) >= T.mc /\\ n.d < T.md", "Cardinality(n.kids) >= T.mc /\\ n.d <= T.md"),
    ("split loses data", "MCTree", PT(), "QTree.tla", "parted, n.kids \\cup {i})", "parted, {i})"),
    ("quadrants swapped", "MCTree", PT(), "Boxes.tla", "ELSE IF q = BR THEN <<mx, my, cell[3], cell[4]>>", "ELSE IF q = BR THEN <<cell[1], my, mx, cell[4]>>"),
    ("mid-line on the other side", "MCTree", PT(), "System.tla", "q[1].b = <<n.b[1], n.b[2], mx, my>>", "q[1].b = <<n.b[1], n.b[2], mx + 1, my>>"),
    ("stuck data sent down", "MCTree", BD(), "QTree.tla", "T.kind = \"pt\" \\/ Within(b, QuadBox(cell, q))", "TRUE"),
    ("retrieves one quadrant only", "MCTree", BD(), "QTree.tla", "s \\in {s \\in 1..4 : Touches(n.subs[s].b, b)}", "s \\in {q}"),
    ("retrieves outside", "MCTree", BD(), "QTree.tla", "IF ~Within(b, n.b) THEN {} ELSE IF T.kind", "IF T.kind"),
    ("retrieves all", "MCTree", PT(), "QTree.tla", "RECURSIVE LeafOf(_, _, _)\nLeafOf(T, n, b) == IF n.subs = <<>> THEN n.kids", "RECURSIVE LeafOf(_, _, _)\nLeafOf(T, n, b) == IF n.subs # <<>> THEN All(n) ELSE IF n.subs = <<>> THEN n.kids"),
    ("children last", "MCTree", PT(), "QTree.tla",
     "Preorder(n.subs[1]) \\o Preorder(n.subs[2]) \\o Preorder(n.subs[3])", "Preorder(n.subs[2]) \\o Preorder(n.subs[1]) \\o Preorder(n.subs[3])"),
    ("accepts what overlaps", "MCTree", BD(), "QTree.tla", "Accepts(bounds, b) == Within(b, bounds)", "Accepts(bounds, b) == Touches(b, bounds)"),
    ("visits twice", "MCSearch", S("pt", ["knn"], rs="{99998}"), "System.tla", "[m EXCEPT !.work = (@ \\ {w})", "[m EXCEPT !.work = (@)"),
    ("ends at the first", "MCSearch", S("pt", ["knnr"]), "System.tla", "Len(next.ids) >= m.q.k", "Len(next.ids) >= 1"),
    ("radius open", "MCSearch", S("pt", ["findr"]), "System.tla", "m.dd[i] <= m.best}", "m.dd[i] < m.best}"),
    ("skips own data", "MCSearch", S("bd", ["sorted"], rs="{99998}"), "System.tla", "own |-> Own(n), subs |-> <<at + 1", "own |-> {}, subs |-> <<at + 1"),
    ("outside not noticed", "MCSearch", S("pt", ["find"]), "System.tla", "ELSE IF Bound(q.g, cfg.b) # 0 THEN", "ELSE IF FALSE THEN"),
    ("no method not noticed", "MCSearch", S("none", ["find"]), "System.tla", "IF cfg.calc = \"N\" THEN Done", "IF FALSE THEN Done"),
    ("empty not noticed", "MCSearch", S("pt", ["find"]), "System.tla", "ELSE IF data = <<>> /\\ q.op \\in", "ELSE IF FALSE /\\ q.op \\in"),
    ("end of a segment only", "MCMetric", metric("plane", 2, PLANE_INV), "Planar.tla", "ELSE IF dot >= L THEN <<PtPt2(p, b), 1>>", "ELSE IF dot >= 0 THEN <<PtPt2(p, b), 1>>"),
    ("holes are inside", "MCMetric", metric("plane", 2, PLANE_INV), "Planar.tla", "\\A i \\in DOMAIN g.h : OnRing(p, Ring(g.h[i])) \\/ ~InsideRing(p, Ring(g.h[i]))", "TRUE"),
    ("one gap only", "MCMetric", metric("plane", 2, PLANE_INV), "Planar.tla", "<<dx * dx + dy * dy, 1>>", "<<Max2(dx * dx, dy * dy), 1>>"),
    ("no way across the antimeridian", "MCMetric", metric("sphere", 2, BALL_INV), "Sphere.tla", "IN Min2(m, 360 * den - m)", "IN m"),
    ("nearest corner of a rectangle", "MCMetric", metric("sphere", 2, BALL_INV), "Sphere.tla",
     "ELSE Min2(Mer(p[1], p[2], den, b[1], b[2], b[4]), Mer(p[1], p[2], den, b[3], b[2], b[4]))",
     "ELSE MinSet({GcPt(p, <<b[i], b[j]>>, den) : i \\in {1, 3}, j \\in {2, 4}})"),
    ("facing corners as a bound", "MCMetric", metric("sphere", 2, BALL_INV), "Sphere.tla",
     "ELSE LET sides(p, q) ==", "ELSE IF TRUE THEN GcRectRect(a, b, den) ELSE LET sides(p, q) =="),
    ("unmeasured counted", "MCSearch", S("smix", ["knn"], ks=(2, 99)), "System.tla", "IF Unmeasured(w[2]) /\\ m.q.op # \"sorted\" THEN", "IF FALSE THEN"),
]


# lemma, file, text, replacement
LEMMAS = [
    ("PointRetrieve", "Boxes.tla", "ELSE lo + hi <= 2 * m", "ELSE lo + hi <= 2 * m + 2"),
    ("BoundsRetrieve", "Lemmas.tla", "(q, QuadBox(cell, Qq)) /\\ Qa # Qq)\n  => ~Overlaps", "(q, QuadBox(cell, Qq)) /\\ Qa # Qq)\n  => ~Touches"),
    ("BoundsRetrieve", "Boxes.tla", "ELSE IF q = BR THEN <<mx, my,", "ELSE IF q = BR THEN <<mx - 1, my,"),
    ("Subdivision", "Boxes.tla", "Mid(lo, hi) == lo + (hi - lo) \\div 2", "Mid(lo, hi) == (lo + hi + 3) \\div 2"),
    ("Searching", "Boxes.tla", "IF h2 < l1 THEN l1 - h2 ELSE 0", "IF h2 < l1 THEN h1 - h2 ELSE 0"),
    ("BestFirst", "BestFirst.tla", "i \\in work /\\ \\A j \\in work : d[i] <= d[j]", "i \\in work"),
    ("BestFirst", "BestFirst.tla", "(work \\ {i}) \\cup {j \\in Items : up[j] = i}", "(work \\ {i}) \\cup {j \\in Items : up[j] = i /\\ d[j] > d[i]}"),
    ("BestFirst", "BestFirst.tla", "/\\ datum[i] /\\ d[i] <= R", "/\\ datum[i]"),
    ("BestFirst", "BestFirst.tla", "/\\ ~datum[up[i]] /\\ d[up[i]] <= d[i]", "/\\ ~datum[up[i]]"),
    ("BestFirst", "BestFirst.tla", "(\\A i \\in work : d[i] > R)\n  /\\ over'", "(\\A i \\in work : d[i] >= R)\n  /\\ over'"),
    ("DepthFirst", "DepthFirst.tla", "c \\in work /\\ d[c] > best", "c \\in work /\\ d[c] >= best"),
    ("DepthFirst", "DepthFirst.tla", "d[up[i]] <= d[i]\nTypes", "TRUE\nTypes"),
    ("DepthFirst", "DepthFirst.tla", "d[i] <= best /\\ (\\A j \\in Data : In(j, c) => d[i] <= d[j])", "d[i] <= best"),
]


def lemmas():
    bad = 0
    for inv, f, old, new in LEMMAS:
        work = tempfile.mkdtemp(prefix="qt-self-")
        try:
            mutate(work, f, old, new)
            r = engine.lemma(work, inv)
            print(f"{'found ' if r['violated'] else 'MISSED'} lemma {inv} ({r['wall']:.0f} s)", flush=True)
            bad += not r["violated"]
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return bad


def mutate(work, f, old, new):
    p = os.path.join(engine.stage(work), f)
    t = open(p).read()
    assert t.count(old) >= 1, (f, old)
    with open(p, "w") as o:
        o.write(t.replace(old, new))


def model():
    bad = 0
    for name, module, cfg, f, old, new in MODEL:
        work = tempfile.mkdtemp(prefix="qt-self-")
        try:
            if f:
                mutate(work, f, old, new)
            r = engine.tlc(work, module, cfg, timeout=900)
            found = bool(r["violated"]) or "is violated" in r["out"] or "Attempted to" in r["out"]
            print(f"{'found ' if found else 'MISSED'} {name}: {(r['violated'] or '')[:90]} ({r['wall']:.0f} s)", flush=True)
            bad += not found
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return bad


# ------------------------------------------------------------------ traces

def falsify(rng, s, prop):
    """Changes one answer so that it cannot be right, or returns None."""
    t = copy.deepcopy(s)
    if prop == "C20":
        i = rng.randrange(len(t.ev))
        t.ev[i]["r"] = rng.choice(["panic", "abort", "hang", "endless"])
        return t, i, ("C20",)
    if prop == "C15":
        idx = [i for i, e in enumerate(t.ev) if e["r"] in ("CalcMethodNotSet", "OutOfBounds", "Empty") and e["h"] and e["op"] in SEARCH]
        if idx:
            i = rng.choice(idx)
            t.ev[i]["r"] = rng.choice([r for r in ("CalcMethodNotSet", "OutOfBounds", "NoneInRadius") if r != t.ev[i]["r"]])
            return t, i, ("C15",)
    if prop in ("C13", "C14"):
        idx = [i for i, e in enumerate(t.ev) if e["op"] == "dist" and e["ds"] and e["ds"][0] >= 0]
        if idx:
            i = rng.choice(idx)
            t.ev[i]["ds"][rng.randrange(min(8, len(t.ev[i]["ds"])))] += t.ev[i]["tol"] * 4 + 20
            return t, i, (prop,)
    if prop == "C12":
        idx = [i for i, e in enumerate(t.ev) if e["op"] in SEARCH and e["ds"] and t.hs[e["h"] - 1]["calc"] == "S"]
        if idx:
            i = rng.choice(idx)
            t.ev[i]["ds"][-1] += t.hs[t.ev[i]["h"] - 1]["tol"] * 4
            return t, i, (prop,)
    if prop == "C19":
        idx = [i for i, e in enumerate(t.ev) if e["op"] == "torad" and e["rows"]]
        if idx:
            i = rng.choice(idx)
            rng.choice(t.ev[i]["rows"])[rng.choice([1, 2])] += t.ev[i]["tol"] * 4 + 20
            return t, i, (prop,)
    idx = [i for i, e in enumerate(t.ev) if e["r"] == "ok" and e["h"] and not t.hs[e["h"] - 1]["calc"] == "S"]
    rng.shuffle(idx)
    for i in idx:
        e, h = t.ev[i], t.hs[t.ev[i]["h"] - 1]
        op = e["op"]
        if op == "size":
            e["n"] += rng.choice([-1, 1])
            return t, i, ("C01",)
        if op == "iter" and e["ids"]:
            k = rng.randrange(len(e["ids"]))
            if rng.random() < 0.5:
                e["ids"].pop(k)
            else:
                e["ids"].insert(k, e["ids"][k])
            return t, i, ("C01", "C06")
        if op == "disp" and e["rows"]:
            k = rng.randrange(len(e["rows"]))
            e["rows"][k][rng.choice([0, 3])] += 1
            return t, i, ("C05",)
        if op == "retr" and e["ids"] and h["kind"] == "pt" and not h["rough"]:
            e["ids"].pop()
            return t, i, ("C03",)
        if op == "ins":
            e["r"] = "OutOfBounds"
            return t, i, ("C02",)
        if op in ("knn", "knnr", "sorted") and len(e["ids"]) >= 1:
            if rng.random() < 0.5 and e["k"] < 0:
                e["ids"].pop(), e["ds"].pop()
            else:
                e["ds"][-1] += 50
            return t, i, ({"knn": "C09", "knnr": "C10", "sorted": "C11"}[op],)
        if op in ("find", "findr") and e["ids"]:
            e["ds"][0] += 50
            return t, i, ({"find": "C07", "findr": "C08"}[op],)
    return None


def trace():
    engine.build()
    rng = random.Random(7)
    bad = n = 0
    work = tempfile.mkdtemp(prefix="qt-self-")
    try:
        for prop in ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C20"):
            scns = [s for s in gen.generate(prop, 3, 0.1) if s.ev][:12]
            engine.execute(scns, work)
            for s in scns:
                for _ in range(40):
                    got = falsify(rng, s, prop)
                    if got and prop in got[2]:
                        break
                else:
                    continue
                t, i, _ = got
                n += 1
                _, v = engine.validate([t], prop, work)
                if not v:
                    bad += 1
                    print(f"MISSED {prop} {s.id} event {i + 1}: {json.dumps(t.ev[i])[:300]}")
            print(f"{prop} done ({n} so far)", flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return bad


if __name__ == "__main__":
    what = sys.argv[1:] or ["model", "lemmas", "trace"]
    engine.build()
    sys.exit(1 if sum(globals()[w]() for w in what) else 0)
