"""For each property: what TLC checks on the model, which of the model's behaviours are replayed in
the code, and how much is drawn at random.

  scale    how many seeded scenarios (tools/gen.py), 1 being that profile's own number
  walks    random walks of spec/Gen.tla to replay: (scene, operations, number, steps, mode)
  replays  small-scope enumerations to replay: (name, module, cfg, take at most, how)
  models   model runs without a replay: (name, module, cfg, options)
  lemmas   invariants of spec/Lemmas.tla and inductions of BestFirst and DepthFirst, by Apalache"""

ALLQ = ["size", "iter", "disp", "retr"]
SEARCH = ["find", "findr", "knn", "knnr", "sorted"]
PLANE_RS = "{0, 10, 14, 99998}"
BALL_RS = "{0, 78539816, 157079633, 99998}"


def sset(xs):
    return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in xs) + "}"


def rng(s):
    """A set for a configuration file, which knows no a..b."""
    if ".." not in s:
        return s
    a, b = map(int, s.split(".."))
    return sset(range(a, b + 1))


def cfg(consts, invs, props=(), live=False):
    out = "SPECIFICATION Spec\nCONSTANTS\n" + "".join(f"  {c}\n" for c in consts)
    if invs:
        out += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        out += "PROPERTIES " + " ".join(props) + "\n"
    return out + "CHECK_DEADLOCK FALSE\n"


SYS = ["Configs <- MCConfigs", "Pool <- MCPool", "Rank <- MCRank"]
BOOL = {True: "TRUE", False: "FALSE"}


def tree(kind, n, invs, props=(), depths=(0, 1, 2), children=(0, 1, 2), ints=(False,), xs="0..4", ys="0..4", w=4,
         show=False, variant=""):
    return cfg(SYS + ["Asks = {}", "InOrder = FALSE", f'Variant = "{variant}"', f"MaxN = {n}", f'Kind = "{kind}"',
                      f"Depths = {sset(depths)}", f"Children = {sset(children)}",
                      "Ints = {" + ", ".join(BOOL[i] for i in ints) + "}", f"Xs = {rng(xs)}", f"Ys = {rng(ys)}", f"W = {w}",
                      f"Show = {BOOL[show]}"], list(invs) + (["Printed"] if show else []), props)


def search(scene, ops, n, invs, props=(), ks=(0, 1, 2, 99), rs=None, depths=(2,), children=(1,), show=False, variant=""):
    rs = rs or (BALL_RS if scene in ("spt", "sbd", "smix") else PLANE_RS)
    return cfg(SYS + ["Asks <- MCAsks", "InOrder = TRUE", f'Variant = "{variant}"', f"MaxN = {n}", f'Scene = "{scene}"',
                      f"Ops = {sset(ops)}", f"Ks = {sset(ks)}", f"Rs = {rs}", f"Depths = {sset(depths)}",
                      f"Children = {sset(children)}", f"Show = {BOOL[show]}"],
               list(invs) + (["Printed"] if show else []), props)


PLANE_INV = ["Symmetric", "ZeroIffMeets", "NoNearer", "Attained", "BoxBelow", "Isometries", "Scales", "Parts", "FixedPoint"]
BALL_INV = ["InRange", "Mutual", "Supported", "SphereIsometries", "TurnOne", "NearestInRect", "BoundBelow", "LineBelow", "ZeroOnSphere"]


def metric(side, n, invs, show=False):
    return cfg([f'Side = "{side}"', f"N = {n}", f"Show = {BOOL[show]}"], list(invs) + (["Printed"] if show else []))


# ------------------------------------------------------------------ by property

GEOMETRY = "geometries are drawn from grids (whole degrees/den on the sphere); polygons are simple, holes lie inside"
ROUNDING = "answers are compared up to the stated rounding of distances (1e-3 of a grid unit; 2e-7 rad, f32 more)"
SCOPE = "exhaustive only within the stated small scopes; beyond them behaviours are sampled with the seed"
BASE = [SCOPE, GEOMETRY, "the executor (/verif/harness) reports the code's answers faithfully; TLC is sound"]

TREE_INV = ["Conserved", "Capacity", "Tiling", "Placed", "OrderFree", "WalkOk"]


def trees(invs, props, obs, kinds=("pt", "bd")):
    """Trees of few data, replayed, and deeper ones checked on the model."""
    ys = {"pt": "0..4", "bd": "{0, 2, 4}"}

    def replays(tier):
        deep = tier == "thorough"
        out = []
        for k in kinds:
            out.append((f"{k} trees", "MCTree", tree(k, 2, invs, props, xs="{0, 1, 2, 4}" if not deep else "0..4",
                                                     ys="{0, 2, 4}" if not deep else ys[k], show=True),
                        4000 if deep else 260, ("tree", obs)))
        return out

    def models(tier):
        out = []
        for k in kinds:
            if tier == "thorough":
                out.append((f"{k} trees of {3 if k == 'pt' else 2}", "MCTree",
                            tree(k, 3 if k == "pt" else 2, invs, props, depths=(0, 1, 2), children=(0, 1, 2, 3),
                                 ints=(False,), xs="0..4", ys=ys[k]), dict(timeout=3000)))
                out.append((f"{k} integer trees", "MCTree",
                            tree(k, 3 if k == "pt" else 2, invs, props, depths=(1, 2, 3), children=(0, 1), ints=(True,), xs="0..3",
                                 ys="0..3" if k == "pt" else "{0, 1, 3}", w=3), dict(timeout=3000)))
                if k == "bd":
                    out.append(("bd trees of 3", "MCTree",
                                tree(k, 3, invs, props, depths=(2,), children=(0, 1, 2), xs="{0, 2, 3, 4}", ys="{0, 4}"), dict(timeout=3000)))
            else:
                out.append((f"{k} trees of 3", "MCTree",
                            tree(k, 3, invs, props, depths=(0, 2), children=(0, 1, 2), xs="{0, 1, 2, 4}" if k == "pt" else "{0, 2, 3}",
                                 ys="{0, 2, 3}" if k == "pt" else "{0, 4}"), {}))
        return out
    return replays, models


def searches(scenes, ops, invs=("DoneOk", "LowerBound", "InReach", "PassedOver"), props=("QueriesPure",), n=3, big=None, **kw):
    heavy = "knnr" in ops or "knn" in ops

    def replays(tier):
        deep = tier == "thorough"
        out = []
        for s in scenes:
            k = dict(kw)
            if not deep:
                if heavy:
                    k.setdefault("rs", "{14, 99998}" if s in ("pt", "bd", "none") else "{78539816, 99998}")
                    k.setdefault("ks", (0, 2, 99))
                out.append((f"{s} searches", "MCSearch", search(s, ops, 2, invs, props, show=True, depths=(2,) if heavy or len(ops) > 1 else (0, 2),
                                                                   children=(0, 1), **k),
                            120, ("search", 0.15 if heavy or len(ops) > 1 else 0.5)))
            else:
                out.append((f"{s} searches", "MCSearch", search(s, ops, n, invs, props, show=True, depths=(0, 1, 2), children=(0, 1, 2), **k),
                            3000, ("search", 0.3)))
        return out

    def models(tier):
        out = []
        for s in scenes if big is None or tier == "thorough" else big:
            k = dict(kw)
            if tier == "thorough":
                out.append((f"{s} searches of 4", "MCSearch", search(s, ops, 4, invs, props, **k), dict(timeout=3000)))
            else:
                if heavy:
                    k.setdefault("rs", "{14, 99998}" if s in ("pt", "bd", "none") else "{78539816, 99998}")
                    k.setdefault("ks", (1, 2))
                out.append((f"{s} searches of 3", "MCSearch",
                            search(s, ops, 3, invs, props, **k), {}))
        return out
    return replays, models


def pairs(side, invs, calc, conv, qn=2):
    def replays(tier):
        deep = tier == "thorough"
        return [(f"{side} pairs", "MCMetric", metric(side, 3 if deep else qn, invs, True),
                 40000 if deep else 2400, ("pair", calc, conv))]
    return replays, lambda tier: []


def plan(rm, walks, assume=(), scale=4.0, always=(), deep=()):
    """always, deep: lemmas of every run, of thorough runs only."""
    return dict(scale=scale, walks=walks, replays=rm[0], models=rm[1], assumptions=BASE + list(assume),
                lemmas=lambda tier: list(always) + (list(deep) if tier == "thorough" else []))


def both(a, b):
    return (lambda t: a[0](t) + b[0](t)), (lambda t: a[1](t) + b[1](t))


def planar(op):
    return plan(searches(("pt", "bd"), [op]), [("pt", [op], 60, 24, ""), ("bd", [op], 80, 24, "")], [ROUNDING],
                always=["DepthFirst" if op in ("find", "findr") else "BestFirst"], deep=["Searching"])


def reps():
    invs, obs = TREE_INV + ["RetrieveMust", "RetrieveWithin", "FindsItself"], ["iter", "disp", "retr"]

    def replays(tier):
        n = 4000 if tier == "thorough" else 200
        return [(f"{k} integer trees", "MCTree",
                 tree(k, 2, invs, ("Grows",), depths=(1, 2, 3), children=(0, 1), ints=(True,), xs="0..3" if tier == "thorough" else "{0, 1, 3}",
                      ys="{0, 1, 3}", w=3, show=True), n, ("tree", obs)) for k in ("pt", "bd")]

    def models(tier):
        return [] if tier != "thorough" else \
            [("pt integer trees of 3", "MCTree", tree("pt", 3, invs, ("Grows",), depths=(1, 2, 3), children=(0, 1, 2), ints=(True,),
                                                      xs="0..4", ys="0..3", w=3), dict(timeout=3000))]
    return replays, models


def endings():
    ops = SEARCH
    invs, props = ["Enabled", "DoneOk"], ["Progress", "QueriesPure"]

    def replays(tier):
        return [("deep trees", "MCTree",
                 tree(k, 2, ["Capacity", "Conserved"], ("Grows",), depths=(0, 2), children=(0, 1), xs="{0, 2, 3, 4}", ys="{0, 4}", show=True),
                 2000 if tier == "thorough" else 150, ("tree", ALLQ)) for k in ("pt", "bd")] + \
            [(f"{s} searches", "MCSearch",
              search(s, ops, 2 if tier != "thorough" or s != "pt" else 3, invs, props, ks=(0, 2, 99), rs="{14, 99998}" if s != "spt" else "{78539816, 99998}",
                     depths=(2,), children=(0, 1), show=True), 1500 if tier == "thorough" else 60, ("search", 0.2)) for s in ("pt", "spt")]

    def models(tier):
        return [("every search ends", "MCSearch",
                 search("pt", ops, 1 if tier != "thorough" else 2, [], ["Ends"], ks=(2,), rs="{14}", children=(0,)), dict(timeout=3000))]
    return replays, models


PLANS = {
    "C01": plan(trees(["Conserved"], ("Grows",), ["size", "iter"]),
                [("pt", ["size", "iter", "retr", "knn"], 80, 40, ""), ("bd", ["size", "iter", "retr", "sorted"], 80, 40, ""),
                 ("int", ["size", "iter", "retr"], 60, 40, "")]),
    "C02": plan(trees(["Conserved"], ("Grows", "TreeFollows"), ["size", "disp"]),
                [("pt", ["size", "disp", "retr", "find"], 80, 30, ""), ("bd", ["size", "disp", "iter", "knn"], 80, 30, ""),
                 ("int", ["size", "disp", "retr"], 60, 30, "")]),
    "C03": plan(trees(["RetrieveMust", "RetrieveWithin", "OneLeaf", "FindsItself"], ("Grows",), ["retr"], ("pt",)),
                [("pt", ["retr"], 120, 40, ""), ("int", ["retr"], 80, 40, "")], always=["PointRetrieve"]),
    "C04": plan(trees(["RetrieveMust", "RetrieveWithin", "FindsItself", "RetrieveBounded"], ("Grows",), ["retr"], ("bd",)),
                [("bd", ["retr"], 120, 40, ""), ("int", ["retr"], 80, 40, "")], always=["BoundsRetrieve"]),
    "C05": plan(trees(["Capacity", "Tiling", "Placed"], ("TreeFollows",), ["disp"]),
                [("pt", ["disp"], 80, 30, ""), ("bd", ["disp"], 80, 30, ""), ("int", ["disp"], 60, 30, "")], always=["Subdivision"]),
    "C06": plan(trees(["WalkOk", "Conserved"], ("TreeFollows",), ["iter"]),
                [("pt", ["iter"], 80, 30, ""), ("bd", ["iter"], 80, 30, ""), ("int", ["iter"], 60, 30, "")]),
    "C07": planar("find"), "C08": planar("findr"), "C09": planar("knn"), "C10": planar("knnr"), "C11": planar("sorted"),
    "C12": plan(searches(("spt", "sbd"), SEARCH, ks=(2, 99), rs="{78539816, 99998}"),
                [("spt", SEARCH, 80, 16, ""), ("sbd", SEARCH, 80, 16, "")], [ROUNDING], deep=["BestFirst", "DepthFirst"]),
    "C13": plan(pairs("plane", PLANE_INV, "E", False), [], [ROUNDING]),
    "C14": plan(pairs("sphere", BALL_INV, "S", False), [],
                [ROUNDING, "trigonometry of the specification is that of spec/java/Trig.java (BigDecimal-free double arithmetic), held to known angles by TrigLattice"]),
    "C15": plan(searches(("none", "pt", "bd"), SEARCH, invs=("DoneOk",), big=("none",), ks=(0, 99), rs="{14}"),
                [("none", ALLQ + SEARCH, 60, 24, ""), ("pt", SEARCH, 50, 16, ""), ("bd", SEARCH, 50, 16, ""), ("spt", SEARCH, 40, 12, "")]),
    "C16": plan(searches(("smix",), SEARCH, ks=(0, 2, 99), rs="{78539816, 99998}"),
                [("smix", SEARCH, 120, 20, "")], [ROUNDING]),
    "C17": plan(trees(["OrderFree", "Conserved"], ("TreeFollows", "QueriesPure"), ["disp", "retr"]),
                [("pt", ALLQ + SEARCH, 60, 30, "order"), ("bd", ALLQ + SEARCH, 80, 30, "order"), ("int", ALLQ, 50, 30, "order"),
                 ("sbd", ALLQ + ["knn", "sorted"], 30, 16, "order")], [ROUNDING]),
    "C18": plan(reps(), [("pt", ALLQ + SEARCH, 50, 20, "reps"), ("bd", ALLQ + SEARCH, 60, 20, "reps"), ("int", ALLQ, 60, 30, "reps"),
                         ("sbd", ["iter", "find", "sorted"], 30, 14, "reps")], [ROUNDING]),
    "C19": plan(pairs("sphere", ["Converts"], "S", True), []),
    "C20": plan(endings(), [("pt", ALLQ + SEARCH, 60, 40, ""), ("bd", ALLQ + SEARCH, 60, 40, ""), ("int", ALLQ, 40, 40, ""),
                            ("smix", SEARCH, 40, 16, "")],
                ["a hang is an operation that takes more than 30 s, on inputs that take well under one"]),
}
