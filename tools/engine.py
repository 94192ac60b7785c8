"""Builds the executor, runs scenarios on the real code, and runs TLC."""
import hashlib, itertools, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def repo_hash():
    """Of the sources of the library: cargo goes by times of change, which need not tell."""
    h = hashlib.sha256()
    for d, ds, fs in os.walk("/repo"):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                h.update(p.encode() + b"\0")
                with open(p, "rb") as s:
                    h.update(s.read() + b"\0")
    return h.hexdigest()


def build():
    """The executor from /repo's working tree, and the TLC override. Both are quick when up to date."""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), RUSTFLAGS="-Awarnings",
               CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    env.pop("RUSTC_WRAPPER", None)
    mark, now = os.path.join(BUILD, "repo.sha256"), repo_hash()
    man = os.path.join(VERIF, "harness/Cargo.toml")
    if not os.path.exists(mark) or open(mark).read() != now:
        if os.path.isdir(os.path.join(BUILD, "target")):
            sh(["cargo", "clean", "--offline", "--manifest-path", man, "-p", "quadtree"], env=env, timeout=300)
    r = sh(["cargo", "build", "--offline", "--locked", "--manifest-path", man],
           env=env, timeout=800)
    if r.returncode:
        raise ToolError("cargo build failed:\n" + r.stdout[-4000:])
    with open(mark, "w") as f:
        f.write(now)
    cls = os.path.join(BUILD, "cls")
    src = [os.path.join(SPEC, "java", m + ".java") for m in ("Trig", "Exact")]
    out = [os.path.join(cls, m + ".class") for m in ("Trig", "Exact")]
    if not all(os.path.exists(o) and os.path.getmtime(o) >= os.path.getmtime(s) for s, o in zip(src, out)):
        os.makedirs(cls, exist_ok=True)
        r = sh(["javac", "-cp", JARS, "-d", cls, *src], timeout=120)
        if r.returncode:
            raise ToolError("javac failed:\n" + r.stdout[-4000:])


EXE = os.path.join(BUILD, "target/debug/qtexec")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_chunk(scns, work, tag):
    """Runs scenarios in order; a crash of the process is the result of the operation that was
    running, and the scenarios after it run in a new process."""
    results = {}
    todo = list(scns)
    n = 0
    hangs = 0
    while todo and n < 25 and hangs < 2:     # enough is known by then; the rest is left out
        n += 1
        path = os.path.join(work, f"{tag}-{n}.scn")
        with open(path, "w") as f:
            for s in todo:
                f.write(s.text())
        out_path = path + ".out"
        with open(out_path, "w") as out, open(path + ".err", "w") as err:
            try:
                rc = subprocess.run([EXE, path], stdout=out, stderr=err, timeout=600, preexec_fn=_limits).returncode
            except subprocess.TimeoutExpired:
                rc = -1
        done = False
        for line in open(out_path, errors="replace"):
            if line.startswith("R ") and line.endswith("\n"):
                _, name, i, js = line.rstrip("\n").split(" ", 3)
                results.setdefault(name, {})[int(i)] = js
            elif line.startswith("DONE"):
                done = True
        if done:
            break
        if rc == 2 or rc == 101:
            raise ToolError("executor error: " + open(path + ".err").read()[-2000:])
        # the first scenario with an operation missing is the one that died
        k = next((k for k, s in enumerate(todo) if len(results.get(s.id, {})) < len(s.ev)), None)
        if k is None:
            break
        s = todo[k]
        got = results.setdefault(s.id, {})
        if '"hang"' in got.get(len(got), ""):
            hangs += 1
        else:
            got[len(got) + 1] = '{"r":"abort","n":0,"ids":[],"ids2":[],"ds":[],"rows":[]}'
        todo = todo[k + 1:]
    return results


def execute(scns, work):
    """Runs scenarios on the real code and merges the answers into their events. A scenario whose
    process died is cut after the operation that killed it."""
    from concurrent.futures import ThreadPoolExecutor
    n = min(CPUS, max(1, len(scns) // 4))
    chunks = [scns[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda a: _run_chunk(a[1], work, f"c{a[0]}"), enumerate(chunks)))
    allr = {}
    for p in parts:
        allr.update(p)
    for s in scns:
        got = allr.get(s.id, {})
        ev = []
        for i, e in enumerate(s.ev, 1):
            if i not in got:
                break
            e.update(json.loads(got[i]))
            ev.append(e)
        s.ev = ev
    return scns


def java(args, cwd, timeout, heap="8g"):
    env = dict(os.environ)
    env.pop("JAVA_TOOL_OPTIONS", None)
    tmp = tempfile.mkdtemp(dir=cwd)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", f"-Djava.io.tmpdir={tmp}",
           "-cp", f"{os.path.join(BUILD, 'cls')}:{JARS}"] + args
    try:
        return sh(cmd, cwd=cwd, timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        raise ToolError(f"timeout: {' '.join(args)[:300]}\n{(e.stdout or b'')[-1000:]}")


def stage(work):
    d = os.path.join(work, "spec")
    if not os.path.exists(d):
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
    return d


_runs = itertools.count()


def tlc(work, module, cfg_text, timeout=600, workers=None, extra=(), heap="8g"):
    """Runs TLC; returns dict(ok, out, generated, distinct, violated)."""
    d = stage(work)
    tag = f"{module}_{next(_runs)}"
    cfg = os.path.join(d, tag + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    t0 = time.time()
    r = java(["tlc2.TLC", "-workers", str(workers or CPUS), "-metadir", os.path.join(d, tag + ".states"),
              "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"], d, timeout, heap)
    o = r.stdout
    m = re.findall(r"(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found", o)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    viol = re.search(r"Error: (Invariant|Action property|Temporal properties|.*) ?(\w*) (?:is|was|were) violated", o)
    finished = "Model checking completed. No error has been found" in o
    return dict(ok=finished and r.returncode == 0, rc=r.returncode, out=o, generated=gen, distinct=dist,
                violated=viol.group(0) if viol else None, wall=time.time() - t0)


def apalache(work, module, inv, timeout=900, length=0, init="Init"):
    """Shows with Apalache (SMT, unbounded integers) that no state within length steps of init breaks inv."""
    d = stage(work)
    tmp = tempfile.mkdtemp(dir=work)
    t0 = time.time()
    try:
        r = sh(["apalache-mc", "check", f"--init={init}", f"--length={length}", f"--inv={inv}", f"--out-dir={tmp}", module + ".tla"],
               cwd=d, timeout=timeout, env=dict(os.environ, TMPDIR=tmp))
    except subprocess.TimeoutExpired:
        raise ToolError(f"timeout: apalache {module} {inv}")
    return dict(ok=r.returncode == 0 and "The outcome is: NoError" in r.stdout, out=r.stdout,
                violated="The outcome is: Error" in r.stdout, wall=time.time() - t0)


# Inv holds at first, every step keeps it, and it implies Right.
INDUCTION = [("Init", "Inv", 0), ("Any", "Inv", 1), ("Any", "Right", 0)]


def lemma(work, name, size=6):
    """Lemmas.tla's invariant of that name, or the induction of the module of that name with N = size."""
    if name not in ("BestFirst", "DepthFirst"):
        return dict(apalache(work, "Lemmas", name), scope="all integers (Apalache, SMT)")
    p = os.path.join(stage(work), name + ".tla")
    t = open(p).read()
    with open(p, "w") as f:
        f.write(re.sub(r"(?m)^N == \d+$", f"N == {size}", t))
    wall = 0
    for init, inv, length in INDUCTION:
        r = apalache(work, name, inv, length=length, init=init)
        wall += r["wall"]
        if not r["ok"]:
            break
    return dict(r, wall=wall, scope=f"inductive (Apalache, SMT): all distances, radii and limits, all trees of up to {size} cells and data")


TRACE_CFG = """SPECIFICATION Spec
CONSTANTS
  File = "{file}"
  Focus = "{focus}"
INVARIANT Allowed
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
ALIAS Short
"""


def validate(scns, focus, work, timeout=700):
    """Checks traces against the specification. Returns (stats, violation or None)."""
    path = os.path.join(work, f"traces-{focus}-{len(os.listdir(work))}.ndjson")
    with open(path, "w") as f:
        for s in scns:
            f.write(s.trace() + "\n")
    r = tlc(work, "Trace", TRACE_CFG.format(file=path, focus=focus), timeout)
    want = sum(len(s.ev) + 1 for s in scns)
    if r["ok"]:
        if r["distinct"] != want:
            raise ToolError(f"trace states {r['distinct']} of {want}\n" + r["out"][-2000:])
        return r, None
    if "Invariant Allowed is violated" in r["out"]:
        ms = re.findall(r'trace\s*\|->\s*"([^"]+)",\s*event\s*\|->\s*(\d+)', r["out"])
        ms = [m for m in ms if m[1] != "0"] or [
            (re.findall(r'trace = "([^"]+)"', r["out"])[-1], re.findall(r"event = (\d+)", r["out"])[-1])]
        return r, (ms[-1][0], int(ms[-1][1]))
    raise ToolError("TLC: " + r["out"][-5000:])
