#!/usr/bin/env python3
"""Decides one property: check.py C01 [--tier quick|thorough] [--seed N].

1. builds the executor against /repo's working tree;
2. runs behaviours of the model (TLC's own walks and small-scope enumerations), and seeded random
   scenarios, on the real code, and has TLC check every recorded event against spec/Trace.tla;
3. has TLC check the model (spec/System.tla, spec/MCMetric.tla) itself.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: tool error."""
import argparse, json, os, random, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, gen, vectors
from plans import PLANS

VERIF = engine.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(prop):
    """Unfixed findings: lines `finding: property=<id> match=<json> <what fails>`."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith(f"finding: property={prop} "):
                rest = line[len(f"finding: property={prop} "):].strip()
                assert rest.startswith("match="), line
                js, end = json.JSONDecoder().raw_decode(rest[6:])
                out.append((js, rest[6 + end:].strip()))
    return out


def sample(s):
    return {"scenario": s.text()[:1500],
            "answers": [{k: v[:50] if isinstance(v := e.get(k), list) else v for k in ("op", "r", "n", "ids", "ds")} for e in s.ev[:6]]}


def report(prop, seed, tier, s, event, origin):
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    path = os.path.join(VERIF, "out", f"{prop}-{tier}-{seed}-{s.id}.json")
    e = s.ev[event - 1]
    with open(path, "w") as f:
        json.dump(dict(property=prop, seed=seed, tier=tier, origin=origin, event=event, refused_event=e,
                       quadtree=s.hs[e["h"] - 1] if e["h"] else None, scenario=s.text(), trace=json.loads(s.trace()),
                       how="python3 /verif/tools/replay.py THIS_FILE"), f, indent=1)
    print(f"the specification refuses event {event} of scenario {s.id} ({origin}): op {e['op']} answered {e['r']}"
          f" {json.dumps({k: e[k] for k in ('n', 'ids', 'ds')})[:400]}")
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier if a.tier == "thorough" else "quick", a.seed
    t0 = time.time()
    engine.build()
    work = tempfile.mkdtemp(prefix=f"qt-{prop}-")
    plan = PLANS[prop]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events_checked=0, model_runs=[],
               trace_runs=[], operations={}, lemmas=[])
    findings = known(prop)
    path = None
    try:
        def conform(scns, origin):
            scns = [s for s in scns if s.ev]
            rng = random.Random(f"{prop}{seed}{origin}")
            for lo in range(0, len(scns), 4000):
                part = scns[lo:lo + 4000]
                engine.execute(part, work)
                while True:
                    r, v = engine.validate(part, prop, work)
                    if not v:
                        break
                    s = next(x for x in part if x.id == v[0])
                    for js, what in findings:
                        if all(s.ev[v[1] - 1].get(k) == w for k, w in js.items()):
                            part = [x for x in part if x is not s]
                            break
                    else:
                        return report(prop, seed, tier, s, v[1], origin)
                n = sum(len(s.ev) for s in part)
                for s in part:
                    for e in s.ev:
                        cov["operations"][e["op"]] = cov["operations"].get(e["op"], 0) + 1
                cov["states"] += r["distinct"]
                cov["transitions"] += n
                cov["events_checked"] += n
                cov["traces_validated_against_impl"] += len(part)
                cov["trace_runs"].append(dict(origin=origin, traces=len(part), events=n, wall_s=round(r["wall"], 1)))
                if part and len(cov["samples"]) < 4:
                    cov["samples"].append(dict(origin=origin, **sample(rng.choice(part))))
            return None

        def run():
            for origin, scns in vectors.batches(prop, plan, tier, seed, work, cov):
                p = conform(scns, origin)
                if p:
                    return p
            return None

        path = run()
        if not path:
            for name, module, cfg, opts in plan["models"](tier):
                r = engine.tlc(work, module, cfg, timeout=opts.get("timeout", 900))
                if not r["ok"]:
                    raise engine.ToolError(f"model {name}: {r['violated'] or ''}\n" + r["out"][-6000:])
                if r["distinct"] < opts.get("at_least", 50):
                    raise engine.ToolError(f"model {name} is vacuous: {r['distinct']} states")
                cov["states"] += r["distinct"]
                cov["transitions"] += r["generated"]
                cov["model_runs"].append(dict(model=name, module=module, constants=opts.get("constants", ""),
                                              states=r["distinct"], transitions=r["generated"], wall_s=round(r["wall"], 1)))
            for inv in plan["lemmas"](tier):
                r = engine.lemma(work, inv, 9 if tier == "thorough" else 6)
                if not r["ok"]:
                    raise engine.ToolError(f"lemma {inv}:\n" + r["out"][-3000:])
                cov["lemmas"].append(dict(lemma=inv, scope=r["scope"], wall_s=round(r["wall"], 1)))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=plan["assumptions"],
              wall_s=round(time.time() - t0, 1), violations=1 if path else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for js, what in findings:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if path:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(f"{prop} held: {cov['traces_validated_against_impl']} traces, {cov['events_checked']} events, "
          f"{cov['states']} states, {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        traceback.print_exc()
        print(f"ERROR {e}"[:8000])
        sys.exit(2)
