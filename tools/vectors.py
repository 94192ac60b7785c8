"""Scenarios to run on the real code: behaviours printed by TLC, and seeded random ones."""
import json, random
import engine, gen
from scn import *

ALLQ = ["size", "iter", "disp", "retr"]
SEARCH = ["find", "findr", "knn", "knnr", "sorted"]
CREP = ("raw", "own", "ref", "cu")


def printed(out, tag="VEC "):
    res = []
    for line in out.splitlines():
        if line.startswith(f'"{tag}'):
            res.append(json.loads(line)[len(tag):])
    return [json.loads(x) for x in sorted(set(res))]


# ------------------------------------------------------------------ what TLC prints

def walks(scene, want, n, steps, seed, work):
    """Random walks of spec/Gen.tla, in processes of their own so that the seed decides them."""
    from concurrent.futures import ThreadPoolExecutor
    procs = min(4, engine.CPUS)
    cfg = f"""SPECIFICATION GSpec
CONSTANTS
  Configs <- GConfigs
  Pool = {{}}
  Asks = {{}}
  Rank <- GRank
  MaxN = 12
  InOrder = FALSE
  Variant = ""
  Scene = "{scene}"
  Want = {{{", ".join(f'"{w}"' for w in want)}}}
  Steps = {steps}
INVARIANTS Printed DoneOk OrderFree Conserved
CHECK_DEADLOCK FALSE
"""

    def one(i):
        return engine.tlc(work, "Gen", cfg, workers=1, heap="2g",
                          extra=("-simulate", f"num={max(1, n // procs)}", "-depth", "4000", "-seed", str(seed * 100 + i)))
    engine.stage(work)
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, range(procs)))
    vs = []
    for r in rs:
        if "Error:" in r["out"] or r["rc"] != 0:
            raise engine.ToolError("walks: " + r["out"][-4000:])
        vs += printed(r["out"])
    if len(vs) < n // 2:
        raise engine.ToolError(f"{len(vs)} walks of {n}\n" + rs[0]["out"][-3000:])
    return vs


def enumerated(module, cfg, work):
    r = engine.tlc(work, module, cfg, timeout=800)
    if not r["ok"]:
        raise engine.ToolError(f"{module}: " + r["out"][-5000:])
    asks = printed(r["out"], "ASK ")
    return printed(r["out"]), (asks[0] if asks else []), r


# ------------------------------------------------------------------ into scenarios

def fix(g):
    return dict(k=g["k"], c=[list(p) for p in g["c"]], h=[[list(p) for p in r] for r in g["h"]])


def plant(sid, cfg, rng, num=None, rep=None, s=None, plain=False):
    """A quadtree of the model's configuration, in some embedding and representation."""
    sphere = cfg["calc"] == "S"
    s = s or (Scn(sid, 1, cfg["den"]) if sphere else Scn(sid, 1000))
    if num is None:
        num = rng.choice(gen.INTS) if cfg["int"] else "f64" if sphere or rng.random() < 0.75 else "f32"
    off, sc = (0, 1) if sphere or plain else gen.emb(rng, num)
    if rep is None:
        if cfg["kind"] == "pt":
            rep = rng.choice(["cu", "raw"])
        else:
            rep = rng.choice(["cu", "own"] if cfg["int"] else ["cu", "cu", "own", "ref"])
    h = s.tree(cfg["kind"], num, cfg["calc"], tuple(cfg["b"]), cfg["md"], cfg["mc"], rep, "new", off, sc)
    return s, h


def ask(s, h, e, rng, rep=None):
    g, k, R, op = fix(e["g"]), e["k"], e["R"], e["op"]
    rep = rep or rng.choice(CREP)
    if op == "find":
        s.find(h, g, rep)
    elif op == "findr":
        s.findr(h, g, R, rep)
    elif op == "knn":
        s.knn(h, g, k, rep)
    elif op == "knnr":
        s.knnr(h, g, k, R, rep)
    elif op == "sorted":
        s.sorted(h, g, k, rep)
    elif op == "retr":
        s.retr(h, g)
    elif op == "iter":
        s.iter(h, rng.choice([-1, -1, 1, 3]))
    else:
        getattr(s, op)(h)


def walk_scn(sid, v, rng, mode):
    """mode: "" as is; "order": a second quadtree gets the data in another order; "reps": other
    representations and numeric types get the same operations."""
    cfg, hist = v["cfg"], v["hist"]
    floats = not cfg["int"]
    s, h = plant(sid, cfg, rng, num="f64" if mode == "reps" and floats else None, plain=mode == "reps")
    first = s.lines[0].split()
    hs = [h]
    if mode == "reps":
        if floats:
            reps = ["cu", "raw"] if cfg["kind"] == "pt" else ["cu", "own", "ref"]
            hs += [s.tree(cfg["kind"], num, cfg["calc"], tuple(cfg["b"]), cfg["md"], cfg["mc"], r)
                   for r, num in [(r, "f64") for r in reps] + [(rng.choice(reps), "f32")]]
        else:
            hs += [s.tree(cfg["kind"], num, cfg["calc"], tuple(cfg["b"]), cfg["md"], cfg["mc"], "cu")
                   for num in rng.sample(gen.INTS, 2)]
    elif mode == "order":
        hs.append(s.tree(cfg["kind"], first[3], cfg["calc"], tuple(cfg["b"]), cfg["md"], cfg["mc"], "cu", "new",
                         s_off(first, 5), s_off(first, 6)))
    ids = []
    for e in hist:
        if e["op"] == "ins":
            i = s.datum(fix(e["g"]))
            ids.append(i)
            for x in hs if mode == "reps" else hs[:1]:
                s.ins(x, i)
        else:
            if cfg["int"] and e["op"] in SEARCH:
                continue
            for x in hs if mode == "reps" else hs[:1]:
                ask(s, x, e, rng)
    if mode == "order":
        rng.shuffle(ids)
        qs = [e for e in hist if e["op"] != "ins" and not (cfg["int"] and e["op"] in SEARCH)]
        for i in ids:
            s.ins(hs[1], i)
            if qs and rng.random() < 0.3:
                ask(s, hs[1], rng.choice(qs), rng)
        for e in qs:
            for x in hs:
                ask(s, x, e, rng, "raw")
    return s


def s_off(tok, i):
    v = float(tok[i])
    return int(v) if v == int(v) and tok[3] not in FLOATS else v


def tree_scn(sid, v, rng, obs, pool):
    """A history of the small-scope enumeration, observed after every insertion."""
    cfg = v["cfg"]
    s, h = plant(sid, cfg, rng)

    def look():
        for o in obs:
            if o == "retr":
                for g in rng.sample(pool, min(len(pool), 6)):
                    s.retr(h, fix(g))
                if s.data:
                    s.retr(h, rng.choice(s.data))
            elif o == "iter":
                s.iter(h, rng.choice([-1, 1]))
            else:
                getattr(s, o)(h)
    look()
    for g in v["data"]:
        s.add(h, fix(g))
        look()
    return s


def search_scn(sid, v, rng, asks, share):
    cfg = v["cfg"]
    scale = 1 if cfg["calc"] == "S" else 1000 // cfg["u"]
    s, h = plant(sid, cfg, rng)
    for g in v["data"]:
        s.add(h, fix(g))
    for q in asks if share >= 1 else rng.sample(asks, max(1, int(len(asks) * share))):
        ask(s, h, dict(q, R=q["R"] if q["R"] == INF else q["R"] * scale), rng)
    return s


def pair_scns(vs, rng, calc, conv):
    out = []
    for lo in range(0, len(vs), 12):
        sphere = calc == "S"
        s = Scn(f"p{lo}", 1 if sphere else 1000, 1 if sphere else 0)
        for v in vs[lo:lo + 12]:
            g, h = fix(v["g"]), fix(v["h"])
            if conv:
                s.torad(rng.choice(FLOATS), g)
                s.conv(rng.choice(FLOATS), g["k"], g)
                s.torad("f64", h)
            else:
                off, sc = (0, 1) if sphere else rng.choice([(0, 1), (0, 1), (0, 0.5), (16, 2), (-8, 0.25)])
                s.dist(calc, "f32" if rng.random() < 0.25 else "f64", g, h, off, sc)
        out.append(s)
    return out


def batches(prop, plan, tier, seed, work, cov):
    """Yields (origin, scenarios), cheapest and most telling first."""
    thorough = tier == "thorough"
    scale = 12 if thorough else 1
    rng = random.Random(f"{prop}/{seed}/v")
    yield "seeded scenarios", gen.generate(prop, seed, plan.get("scale", 1) * (4 if thorough else 1))
    for (scene, want, n, steps, mode) in plan.get("walks", []):
        vs = walks(scene, want, n * scale, steps, seed, work)
        yield f"walks of the model ({scene}{' ' + mode if mode else ''})", \
            [walk_scn(f"w{scene}{i}", v, rng, mode) for i, v in enumerate(vs)]
    for (name, module, cfg, take, how) in plan["replays"](tier):
        vs, asks, r = enumerated(module, cfg, work)
        if not vs:
            raise engine.ToolError(f"{name}: nothing printed")
        cov["model_runs"].append(dict(model=name, module=module, states=r["distinct"], transitions=r["generated"],
                                      wall_s=round(r["wall"], 1), printed=len(vs)))
        cov["states"] += r["distinct"]
        cov["transitions"] += r["generated"]
        pick = vs if len(vs) <= take else rng.sample(vs, take)
        if how[0] == "tree":
            seen = {json.dumps(g, sort_keys=True): g for v in vs[:4000] for g in v["data"]}
            pool = [seen[k] for k in sorted(seen)]
            scns = [tree_scn(f"t{i}", v, rng, how[1], pool) for i, v in enumerate(pick)]
        elif how[0] == "search":
            scns = [search_scn(f"s{i}", v, rng, asks, how[1]) for i, v in enumerate(pick)]
        else:
            scns = pair_scns(pick, rng, how[1], how[2])
        yield f"enumeration of the model ({name}: {len(pick)} of {len(vs)})", scns
    if thorough:
        for k in range(1, 6):
            yield f"seeded scenarios {k}", gen.generate(prop, seed * 1000 + k, plan.get("scale", 1) * 4)
