"""Seeded scenario generators, one profile per property. Only inputs are made here: what the answers
should be is decided by spec/Trace.tla."""
import math, random
from scn import *

# ------------------------------------------------------------------ geometry


def clampi(v, lo, hi):
    return max(lo, min(hi, v))


class Geo:
    """Random geometry on a grid, drawn towards borders, mid-lines and earlier points."""

    def __init__(self, rng, b):
        self.r, self.b, self.seen = rng, b, []

    def coord(self, ax):
        lo, hi = self.b[ax], self.b[ax + 2]
        w = hi - lo
        r = self.r
        k = r.random()
        if k < 0.12:
            return lo
        if k < 0.24:
            return hi
        if k < 0.5 and w >= 2:  # mid-lines, the lower levels too
            step = w
            v = lo
            for _ in range(r.randint(1, 4)):
                step //= 2
                if step < 1:
                    break
                v += step * r.randint(0, 1)
            return clampi(v, lo, hi)
        return r.randint(lo, hi)

    def xy(self):
        if self.seen and self.r.random() < 0.2:
            return self.r.choice(self.seen)
        p = (self.coord(0), self.coord(1))
        self.seen.append(p)
        return p

    def pt(self):
        return pt(*self.xy())

    def ln(self):
        a, b = self.xy(), self.xy()
        if self.r.random() < 0.3:
            b = (a[0], b[1]) if self.r.random() < 0.5 else (b[0], a[1])
        return ln(a, b)

    def ls(self):
        n = self.r.randint(2, 5)
        c = [self.xy() for _ in range(n)]
        if self.r.random() < 0.15:
            c.append(c[0])
        return geom("ls", c)

    def rc(self, small=None):
        r = self.r
        a, b = self.xy(), self.xy()
        if small or (small is None and r.random() < 0.5):
            m = r.choice([0, 1, 2, 3, 4])
            b = (clampi(a[0] + r.randint(0, m), self.b[0], self.b[2]), clampi(a[1] + r.randint(0, m), self.b[1], self.b[3]))
        if r.random() < 0.1:
            b = (a[0], b[1])
        if r.random() < 0.1:
            b = (b[0], a[1])
        return rc(min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]))

    def pg(self):
        """Simple polygons with an inside: hulls, L and U shapes, and rectangles with holes."""
        r = self.r
        for _ in range(40):
            k = r.random()
            if k < 0.4:
                h = hull([self.xy() for _ in range(r.randint(3, 6))])
                if len(h) >= 3:
                    c, holes = h, []
                    break
                continue
            a, b = self.xy(), self.xy()
            x1, x2, y1, y2 = min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1])
            w, h = x2 - x1, y2 - y1
            if k < 0.6 and w >= 2 and h >= 2:  # L
                mx, my = r.randint(x1 + 1, x2 - 1), r.randint(y1 + 1, y2 - 1)
                c, holes = [(x1, y1), (x2, y1), (x2, my), (mx, my), (mx, y2), (x1, y2)], []
                break
            if k < 0.7 and w >= 3 and h >= 2:  # U
                m1 = r.randint(x1 + 1, x2 - 2)
                m2 = r.randint(m1 + 1, x2 - 1)
                my = r.randint(y1 + 1, y2 - 1)
                c = [(x1, y1), (x2, y1), (x2, y2), (m2, y2), (m2, my), (m1, my), (m1, y2), (x1, y2)]
                holes = []
                break
            if k >= 0.7 and w >= 3 and h >= 3:  # holes
                c = [(x1, y1), (x2, y1), (x2, y2), (x1, y2)]
                holes = []
                if w >= 7 and r.random() < 0.5:  # two of them
                    mx = r.randint(x1 + 3, x2 - 3)
                    parts = [(x1, mx), (mx, x2)]
                else:
                    parts = [(x1, x2)]
                for (p, q) in parts:
                    if q - p >= 3:
                        hx1 = r.randint(p + 1, q - 2)
                        hx2 = r.randint(hx1 + 1, q - 1)
                        hy1 = r.randint(y1 + 1, y2 - 2)
                        hy2 = r.randint(hy1 + 1, y2 - 1)
                        if r.random() < 0.4:  # as large as it gets
                            hx1, hx2, hy1, hy2 = p + 1, q - 1, y1 + 1, y2 - 1
                        hole = [(hx1, hy1), (hx2, hy1), (hx2, hy2), (hx1, hy2)]
                        if r.random() < 0.3:
                            hole.pop()
                        if r.random() < 0.5:
                            hole.reverse()
                        holes.append(hole)
                break
        else:
            x, y = self.b[0], self.b[1]
            c, holes = [(x, y), (x + 2, y), (x, y + 2)], []
        if r.random() < 0.5:
            c = c[::-1]
        if r.random() < 0.5:
            c = c + [c[0]]
        return geom("pg", c, holes)

    def any(self, kinds=("pt", "ln", "ls", "rc", "pg")):
        return getattr(self, self.r.choice(kinds))()


def hull(ps):
    ps = sorted(set(ps))
    if len(ps) < 3:
        return ps
    cr = lambda o, a, b: (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    lo, up = [], []
    for p in ps:
        while len(lo) >= 2 and cr(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    for p in reversed(ps):
        while len(up) >= 2 and cr(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]


def shift(b, dx, dy):
    return (b[0] + dx, b[1] + dy, b[2] + dx, b[3] + dy)


ALL = ("pt", "ln", "ls", "rc", "pg")
REPS_BD = ("cu", "own", "ref")
# (offset, scale) of the grid in the numeric type; integers only at scale 1, near their ends too
EMB_F64 = [(0, 1), (0, 1), (0, 0.5), (0, 0.25), (-8, 1), (1000, 2), (-100000, 0.5), (0, 1024), (0, 2.0 ** -40), (0, 2.0 ** 40),
           (0, 2.0 ** -60), (2.0 ** 44, 1), (-2.0 ** 40, 0.25)]
EMB_F32 = [(0, 1), (0, 0.5), (-8, 1), (0, 4), (64, 0.25), (0, 2.0 ** -20), (0, 2.0 ** 20)]
EMB_INT = {"i16": [(0, 1), (-8, 1), (-100, 1), (-16384, 1), (32500, 1), (-32500, 1)],
           "i32": [(0, 1), (-8, 1), (1003, 1), (-1000001, 1), (2 ** 31 - 260, 1), (260 - 2 ** 31, 1)],
           "i64": [(0, 1), (-5, 1), (3000000000, 1), (2 ** 63 - 1024, 1), (1024 - 2 ** 63, 1)],
           "i128": [(0, 1), (-41, 1), (2 ** 62, 1)], "isize": [(0, 1), (-7, 1), (2 ** 63 - 1024, 1)]}
MANY = 1000000000  # as a maximum of children: the largest there is
INTS = tuple(EMB_INT)
# where midpoints of cells are rounded, the last ones to the grid itself
ROUGH = [("f64", 0, 0.1), ("f64", 0, 1 / 3), ("f64", 0, 0.7), ("f64", 0, 1e-3), ("f64", 1000.1, 0.1), ("f64", 123456.789, 0.01),
         ("f64", -7.3, 0.9), ("f32", 100.1, 0.1), ("f32", 0, 0.1), ("f32", 0, 1 / 3), ("f32", 2.0 ** 23, 1), ("f32", 512 - 2.0 ** 24, 1),
         ("f64", 2.0 ** 52, 1), ("f64", 512 - 2.0 ** 53, 1), ("f64", 2.0 ** 53, 2)]


def emb(rng, num, md=0):
    near = EMB_F64 if md <= 8 else EMB_F64[:-2]  # deep cells far away are too small for their midpoints
    return rng.choice({"f64": near, "f32": EMB_F32}.get(num) or EMB_INT[num])


def bounds(rng, sizes=(16,)):
    w, h = rng.choice(sizes), rng.choice(sizes)
    dx, dy = rng.choice([(0, 0), (0, 0), (-w // 2, -h // 2), (rng.randint(-20, 20), rng.randint(-20, 20))])
    return shift((0, 0, w, h), dx, dy)


def outside(rng, b):
    """A point outside the bounds, often only just, on one axis or both."""
    x, y = rng.randint(b[0], b[2]), rng.randint(b[1], b[3])
    d = rng.choice([1, 1, 1, 2, 50])
    k = rng.randint(0, 5)
    if k in (0, 4):
        x = b[0] - d
    if k in (1, 5):
        x = b[2] + d
    if k in (2, 4):
        y = b[1] - d
    if k in (3, 5):
        y = b[3] + d
    return (x, y)


def straddle(rng, b):
    """A rectangle or line that crosses or surrounds the bounds' border."""
    x, y = rng.randint(b[0], b[2]), rng.randint(b[1], b[3])
    k = rng.randint(0, 4)
    d = rng.choice([1, 1, 3])
    if k == 0:
        return rc(b[0] - d, y, x, b[3])
    if k == 1:
        return rc(x, y, b[2] + d, b[3])
    if k == 2:
        return rc(x, b[1] - d, b[2], y)
    if k == 3:
        return rc(b[0], y, x, b[3] + d)
    return rc(b[0] - d, b[1] - d, b[2] + d, b[3] + d)


def limits(rng, md=(0, 1, 2, 3, 4), mc=(0, 1, 1, 2, 2, 3, 4, 8)):
    return rng.choice(md), rng.choice(mc)


# ------------------------------------------------------------------ histories

class Hist:
    """A quadtree being filled, for the structural properties."""

    def __init__(self, sid, rng, kind=None, num=None, calc="E", md=None, mc=None, b=None, rep=None,
                 kinds=None, u=1000, sizes=None, ctor="new", off=None, s=None, rough=False):
        self.rng = rng
        if rough:
            num, off, s = rng.choice(ROUGH)
        self.s = Scn(sid, u)
        self.kind = kind or rng.choice(["pt", "bd"])
        self.num = num or rng.choice(["f64", "f64", "f32", "i32", "i16", "i64", "i128", "isize"])
        flt = self.num in FLOATS
        self.ctor = ctor
        if md is None:
            md = rng.choice([0, 1, 2, 3, 4])
            if self.kind == "pt" and rng.random() < 0.2:
                md = rng.choice([5, 6, 8, 12, 30 if self.num != "f32" else 12])
            if ctor == "from":
                md = 4
        if mc is None:
            mc = 4 if ctor == "from" else MANY if rng.random() < 0.03 else rng.choice([0, 1, 1, 2, 2, 3, 4, 8])
        if b is None:
            if sizes is None:
                sizes = (16, 16, 32, 64) if flt else (16, 15, 13, 9, 7, 32, 5, 1, 0)
                if flt and self.kind == "bd":
                    sizes = tuple(x for x in sizes if x % (1 << md) == 0) or (1 << md,)
            b = bounds(rng, sizes)
        self.b, self.md, self.mc = b, md, mc
        if off is None:
            off, s = emb(rng, self.num, md)
        if self.kind == "pt":
            self.rep = rep or (rng.choice(["cu", "cu", "raw", "coord"]) if flt else rng.choice(["cu", "raw"]))
            self.kinds = ("pt",)
        else:
            self.rep = rep or rng.choice(["cu", "cu", "own", "ref"] if flt else ["cu", "own"])
            self.kinds = kinds or rng.choice([ALL, ALL, ("rc",), ("pt", "rc"), ("rc", "ln")])
            if self.rep in ALL:
                self.kinds = (self.rep,)
        self.off, self.sc = off, s
        self.h = self.s.tree(self.kind, self.num, calc, b, md, mc, self.rep, ctor, off, s, rough=rough)
        self.g = Geo(rng, b)
        self.n = 0

    def new(self):
        r = self.rng
        if self.s.data and r.random() < 0.12:
            return r.choice(self.s.data)
        return self.g.any(self.kinds)

    def bad_datum(self):
        """A datum the quadtree must refuse."""
        r = self.rng
        if self.kind == "pt":
            if self.num in FLOATS and r.random() < 0.15:
                v = r.choice([NAN, INF, -INF])
                return pt(*r.choice([(v, self.b[1]), (self.b[0], v), (v, v)]))
            return pt(*outside(r, self.b))
        kind = r.choice(self.kinds)
        p, q = outside(r, self.b), self.g.xy()
        if kind == "pt":
            return pt(*p)
        if kind == "rc":
            if r.random() < 0.7:
                return straddle(r, self.b)
            return rc(min(p[0], q[0]), min(p[1], q[1]), max(p[0], q[0]), max(p[1], q[1]))
        if kind == "ln":
            return ln(p, q) if r.random() < 0.5 else ln(q, p)
        if kind == "ls":
            if r.random() < 0.3:
                return geom("ls", [])
            c = [self.g.xy() for _ in range(r.randint(1, 4))]  # one vertex outside, most often in the middle
            c.insert(r.choice([r.randint(0, len(c)), r.randint(min(1, len(c)), len(c) - 1) if len(c) > 1 else 0]), p)
            return geom("ls", c)
        if r.random() < 0.3:
            return geom("pg", [])
        for _ in range(20):
            c = hull([p] + [self.g.xy() for _ in range(r.randint(2, 4))])
            if len(c) >= 3 and p in c:
                i = r.randint(0, len(c) - 1)
                c = c[i:] + c[:i]
                return geom("pg", c[::-1] if r.random() < 0.5 else c)
        return geom("pg", [p, (p[0] + 1, p[1]), (p[0], p[1] + 1)])

    def insert(self):
        self.n += 1
        return self.s.add(self.h, self.new())

    def insert_bad(self):
        return self.s.add(self.h, self.bad_datum())

    def query_geom(self):
        r = self.rng
        if self.s.data and r.random() < 0.35:
            g = r.choice(self.s.data)
            if g["c"]:
                return g
        k = r.random()
        if k < 0.1:
            return self.bad_datum()
        if k < 0.15 and "rc" in self.kinds:
            return rc(*self.b)
        return self.g.any(self.kinds)

    def observe(self, what):
        s, h, r = self.s, self.h, self.rng
        if what == "size":
            s.size(h)
        elif what == "iter":
            s.iter(h, r.choice([-1, -1, 1, 2, 5, self.n]))
        elif what == "disp":
            s.disp(h)
        elif what == "retr":
            s.retr(h, self.query_geom())


def cluster(hist, n):
    """n data close together, to drive subdivision deep."""
    r, b = hist.rng, hist.b
    c = hist.g.xy()
    for _ in range(n):
        x = clampi(c[0] + r.randint(-1, 1), b[0], b[2])
        y = clampi(c[1] + r.randint(-1, 1), b[1], b[3])
        if "pt" in hist.kinds:
            g = pt(x, y)
        elif "rc" in hist.kinds:
            g = rc(x, y, clampi(x + r.randint(0, 1), b[0], b[2]), clampi(y + r.randint(0, 1), b[1], b[3]))
        else:
            g = hist.g.any(hist.kinds)
        hist.s.add(hist.h, g)
        hist.n += 1


def structural(sid, rng, obs, n=(3, 24), bad=0.08, queries=1, final=3, kind=None, search=False, **kw):
    """Insertions with observations in between."""
    h = Hist(sid, rng, kind=kind, **kw)
    if rng.random() < 0.1:
        h.observe(rng.choice(obs))
    for _ in range(rng.randint(*n)):
        if rng.random() < bad:
            h.insert_bad()
        elif rng.random() < 0.08:
            cluster(h, rng.randint(2, 6))
        else:
            h.insert()
        for _ in range(queries):
            if rng.random() < 0.45:
                h.observe(rng.choice(obs))
    for o in obs:
        for _ in range(final if o == "retr" else 1):
            h.observe(o)
    return h


def big(sid, rng, obs, n, **kw):
    """One large quadtree, filled at once, then a few more insertions."""
    kw.setdefault("md", rng.choice([4, 5, 8]) if kw.get("kind") == "pt" else 4)
    h = Hist(sid, rng, **kw)
    ids = [h.s.datum(h.new()) for _ in range(n)]
    h.s.bulk(h.h, ids[0], ids[-1])
    h.n += n
    for o in obs:
        h.observe(o)
    for _ in range(3):
        h.insert()
    for o in obs:
        for _ in range(4 if o == "retr" else 1):
            h.observe(o)
    return h


def crowd(sid, rng, obs, kind, wide):
    """Thousands of data, in one cell or over many; in a bounds quadtree some of them stuck."""
    h = Hist(sid, rng, kind=kind, num="f64", md=rng.choice([5, 7]) if wide else 0, mc=rng.choice([1, 2, 4]), rep="cu", off=0, s=1,
             b=(0, 0, 512, 512), kinds=("pt",) if kind == "pt" else ("rc", "pt"))
    def one(k):
        x, y = rng.randint(0, 512), rng.randint(0, 512)
        return pt(x, y) if kind == "pt" or k else rc(x, y, min(512, x + rng.randint(0, 9)), min(512, y + rng.randint(0, 9)))
    ids = [h.s.datum(one(rng.randint(0, 1))) for _ in range(3000)]
    if kind == "bd":
        ids += [h.s.datum(rc(256 - rng.randint(0, 9), rng.randint(0, 500), 257, 512)) for _ in range(600)]
    h.s.bulk(h.h, ids[0], ids[-1])
    h.n += len(ids)
    for o in obs:
        for _ in range(3 if o == "retr" else 1):
            h.observe(o)
        if o == "retr":
            h.s.retr(h.h, h.s.data[rng.choice(ids) - 1])
    h.s.add(h.h, pt(513, 0))
    h.s.add(h.h, one(1))
    for o in obs:
        h.observe(o)
    return h


def deep(sid, rng, obs, kind=None):
    """A deep quadtree on a fine grid: data of every extent about a few places, mid-lines among them."""
    kind = kind or rng.choice(["pt", "bd", "bd"])
    num = rng.choice(["f64", "f64", "f32", "i32", "i64"])
    w = rng.choice([256, 512, 1024])
    h = Hist(sid, rng, kind=kind, num=num, b=shift((0, 0, w, rng.choice([w, w, 256])), *rng.choice([(0, 0), (-w // 2, -128)])),
             md=rng.choice([5, 6, 7, 8]), mc=rng.choice([0, 1, 1, 2, 3, 5]), off=0, s=1, rep="cu",
             kinds=("pt",) if kind == "pt" else rng.choice([("rc",), ("rc", "pt"), ("rc", "pt", "ln")]))
    b = h.b
    places = [h.g.xy() for _ in range(3)] + [((b[0] + b[2]) // 2, (b[1] + b[3]) // 2)]

    def near(m):
        c = rng.choice(places)
        return (clampi(c[0] + rng.randint(-m, m), b[0], b[2]), clampi(c[1] + rng.randint(-m, m), b[1], b[3]))

    def one():
        m = rng.choice([0, 1, 2, 4, 16, 64])
        k = rng.choice(h.kinds)
        p = near(m)
        if k == "pt":
            return pt(*p)
        e = rng.choice([0, 1, 2, 8, 32, 128])
        q = (clampi(p[0] + rng.randint(0, e), b[0], b[2]), clampi(p[1] + rng.randint(0, e), b[1], b[3]))
        return rc(*p, *q) if k == "rc" else ln(q, p)

    for _ in range(rng.randint(20, 60)):
        h.s.add(h.h, one() if rng.random() < 0.9 or not h.s.data else rng.choice(h.s.data))
        h.n += 1
        if rng.random() < 0.08:
            o = rng.choice(obs)
            h.s.retr(h.h, one()) if o == "retr" else h.observe(o)
    for o in obs:
        if o == "retr":
            for _ in range(14):
                h.s.retr(h.h, one())
            for g in rng.sample(h.s.data, 8):
                h.s.retr(h.h, g)
        else:
            h.observe(o)
    return h


def rough(sid, rng, obs, kind=None, n=(4, 24)):
    """Cells whose midpoints are rounded. Coordinates at the mid-lines of the grid, on one side or
    the other of those of the cells, and deep trees that run out of numbers."""
    h = Hist(sid, rng, kind=kind, rough=True, md=rng.choice([1, 2, 3, 4, 4, 6, 10, 60, 255]), mc=rng.choice([0, 1, 1, 2, 4]),
             sizes=(16, 16, 15, 10, 7, 6, 3, 1), kinds=("pt",) if kind == "pt" else rng.choice([ALL, ("rc",), ("pt", "rc"), ("pt",)]))
    for _ in range(rng.randint(*n)):
        if rng.random() < 0.06:
            h.insert_bad()
        elif rng.random() < 0.08:
            cluster(h, rng.randint(2, 5))
        else:
            h.insert()
        if rng.random() < 0.3:
            h.observe(rng.choice(obs))
    for o in obs:
        h.observe(o)
    if "retr" in obs:
        for g in list(h.s.data)[:12]:
            h.s.retr(h.h, g)
        for _ in range(5):
            h.s.retr(h.h, h.query_geom())
    return h


def p_c01(rng, n):
    out = []
    for i in range(n // 8):
        out.append(rough(f"r{i}", rng, ["size", "iter"]).s)
        if i % 2:
            out.append(deep(f"g{i}", rng, ["size", "iter"]).s)
    for i in range(n):
        h = structural(f"a{i}", rng, ["size", "iter"], ctor=rng.choice(["new", "new", "new", "from"]))
        if rng.random() < 0.3:
            h.observe("retr")
            h.observe("disp")
            h.observe("iter")
        out.append(h.s)
    for i in range(max(2, n // 20)):
        out.append(big(f"b{i}", rng, ["size", "iter"], rng.choice([150, 400])).s)
    for i in range(2):  # many data in one cell
        h = Hist(f"m{i}", rng, kind=("pt", "bd")[i], md=rng.choice([0, 1, 3]), mc=rng.choice([0, 4, 300]), kinds=("pt",), rep="cu")
        g = h.g.pt()
        ids = [h.s.datum(g if rng.random() < 0.98 else h.g.pt()) for _ in range(rng.choice([300, 600]))]
        h.s.bulk(h.h, ids[0], ids[-1])
        h.s.size(h.h)
        h.s.iter(h.h)
        out.append(h.s)
    # more than 2^16, spread out or in one cell
    for kind, wide, m in (("pt", 0, 66000), ("bd", 1, 66000), ("pt", 1, 12000), ("bd", 0, 12000)):
        h = Hist(f"h{kind}{wide}", rng, kind=kind, md=rng.choice([4, 8]) if wide else 0, mc=rng.choice([1, 4]), kinds=("pt",), rep="cu",
                 num="f64", off=0, s=1, b=(0, 0, 4096, 4096))
        ids = [h.s.datum(pt(rng.randint(0, 4096), rng.randint(0, 4096))) for _ in range(m)]
        h.s.bulk(h.h, ids[0], ids[-2])
        h.s.size(h.h)
        h.s.iter(h.h)
        h.s.ins(h.h, ids[-1])
        h.s.size(h.h)
        out.append(h.s)
    return out


def p_c02(rng, n):
    out = []
    for i in range(n):
        rgh = rng.random() < 0.12
        h = Hist(f"a{i}", rng, num=rng.choice(["f64", "f64", "f32", "i32", "i16", "i64"]),
                 rep=None, ctor=rng.choice(["new", "new", "from"]), rough=rgh, sizes=(16, 9, 5, 1) if rgh else None)
        s = h.s
        searchable = not rgh and h.num in FLOATS and h.rep != "coord" and h.b[2] - h.b[0] <= 24 and h.b[3] - h.b[1] <= 24
        for _ in range(rng.randint(0, 12)):
            h.insert()
        for _ in range(rng.randint(1, 4)):
            qs = [h.query_geom() for _ in range(2)]
            cs = [h.g.any() for _ in range(2)]

            def ask():
                s.size(h.h)
                s.iter(h.h)
                s.disp(h.h)
                for q in qs:
                    s.retr(h.h, q)
                if searchable:
                    s.find(h.h, cs[0])
                    s.knn(h.h, cs[1], 3)
                    s.sorted(h.h, cs[0])
            ask()
            for _ in range(rng.randint(1, 3)):
                h.insert_bad()
            ask()
            for _ in range(rng.randint(0, 4)):
                # borders and corners are inside
                b = h.b
                c = rng.choice([(b[0], b[1]), (b[2], b[3]), (b[0], b[3]), (b[2], b[1]), (b[0], h.g.coord(1)),
                                (b[2], h.g.coord(1)), (h.g.coord(0), b[1]), (h.g.coord(0), b[3])])
                if "pt" in h.kinds and rng.random() < 0.7:
                    s.add(h.h, pt(*c))
                elif "rc" in h.kinds:
                    p = h.g.xy()
                    s.add(h.h, rc(min(p[0], c[0]), min(p[1], c[1]), max(p[0], c[0]), max(p[1], c[1])))
                elif "ln" in h.kinds:
                    s.add(h.h, ln(c, h.g.xy()))
                else:
                    h.insert()
        out.append(s)
    return out


def p_c03(rng, n):
    out = []
    for i in range(n // 10):
        out.append(deep(f"g{i}", rng, ["retr"], "pt").s)
    for i in range(n // 6):
        out.append(rough(f"r{i}", rng, ["retr"], "pt").s)
    for i in range(n):
        h = structural(f"a{i}", rng, ["retr"], kind="pt", final=10, n=(2, 24))
        # every stored position, and the whole grid of a small tree
        for g in list(h.s.data)[:12]:
            h.s.retr(h.h, g)
        for _ in range(3):
            h.s.retr(h.h, h.bad_datum())
        out.append(h.s)
    for i in range(max(2, n // 20)):
        out.append(big(f"b{i}", rng, ["retr"], rng.choice([150, 300]), kind="pt").s)
    out += [crowd(f"x{w}", rng, ["retr"], "pt", w).s for w in (0, 1)]
    return out


def p_c04(rng, n):
    out = []
    for i in range(n // 10):
        out.append(deep(f"g{i}", rng, ["retr"], "bd").s)
    for i in range(n // 6):
        out.append(rough(f"r{i}", rng, ["retr"], "bd").s)
    for i in range(n):
        h = structural(f"a{i}", rng, ["retr"], kind="bd", final=12, n=(2, 24))
        for g in list(h.s.data)[:10]:
            h.s.retr(h.h, g)
        for _ in range(2):
            h.s.retr(h.h, h.bad_datum())
        if "rc" in h.kinds:
            # boxes that straddle a mid-line of some level
            for _ in range(6):
                x, y = h.g.coord(0), h.g.coord(1)
                h.s.retr(h.h, rc(max(h.b[0], x - rng.randint(0, 2)), max(h.b[1], y - rng.randint(0, 2)),
                                 min(h.b[2], x + rng.randint(0, 2)), min(h.b[3], y + rng.randint(0, 2))))
        out.append(h.s)
    for i in range(max(2, n // 20)):
        out.append(big(f"b{i}", rng, ["retr"], rng.choice([150, 300]), kind="bd").s)
    out += [crowd(f"x{w}", rng, ["retr"], "bd", w).s for w in (0, 1)]
    return out


def p_c05(rng, n):
    out = []
    for i in range(n // 10):
        out.append(deep(f"g{i}", rng, ["disp"], None).s)
    for i in range(n):
        h = structural(f"a{i}", rng, ["disp"], n=(2, 20), ctor=rng.choice(["new", "new", "new", "new", "from"]))
        out.append(h.s)
    for i in range(max(3, n // 25)):  # coincident data, to the maximum depth
        num = rng.choice(["f64", "i32"])  # within the precision of f64: midpoints are exact
        md = rng.choice([16, 31] if num == "f64" else [16, 64, 100, 254, 255])
        h = Hist(f"d{i}", rng, kind="pt", num=num, md=md, mc=rng.choice([0, 1, 2]),
                 sizes=(16,), rep="cu")
        g = h.g.pt()
        for _ in range(h.mc + 2):
            h.s.add(h.h, g)
            h.observe("disp")
        h.insert()
        h.observe("disp")
        out.append(h.s)
    for i in range(max(2, n // 25)):
        out.append(big(f"b{i}", rng, ["disp"], rng.choice([150, 300])).s)
    out += [crowd(f"x{k}{w}", rng, ["disp"], k, w).s for k in ("pt", "bd") for w in (0, 1)]
    return out


def p_c06(rng, n):
    out = []
    for i in range(n // 10):
        out.append(deep(f"g{i}", rng, ["iter"], None).s)
    for i in range(n):
        h = structural(f"a{i}", rng, ["iter"], n=(2, 24), final=2)
        for lim in (1, 3, h.n - 1):
            h.s.iter(h.h, lim)
        out.append(h.s)
    for i in range(max(2, n // 20)):
        out.append(big(f"b{i}", rng, ["iter"], rng.choice([150, 400])).s)
    out += [crowd(f"x{k}{w}", rng, ["iter"], k, w).s for k in ("pt", "bd") for w in (0, 1)]
    for i in range(2):
        h = Hist(f"d{i}", rng, kind="pt", num="f64", md=rng.choice([40, 255]), mc=1, sizes=(16,), rep="cu")
        for _ in range(3):
            h.s.add(h.h, pt(h.b[0], h.b[1]))
        h.insert()
        h.s.iter(h.h, 2)
        out.append(h.s)
    return out


# ------------------------------------------------------------------ searches in the plane

CREP = ("raw", "raw", "own", "ref", "cu")


def search_tree(sid, rng, kind=None, num=None, kinds=None, md=None, mc=None, sizes=(16,), calc="E", rep=None, u=1000, rough=False):
    kind = kind or rng.choice(["pt", "bd", "bd"])
    num = num or rng.choice(["f64", "f64", "f64", "f32"])
    if md is None:
        md = rng.choice([0, 1, 2, 3, 4, 4, 5, 8])
    if rep is None:
        rep = rng.choice(["cu", "cu", "raw"]) if kind == "pt" else rng.choice(["cu", "cu", "own", "ref"])
    if kinds is None:
        kinds = rng.choice([ALL, ALL, ("rc",), ("pt",), ("ln", "ls"), ("pg",), ("rc", "pt")])
    h = Hist(sid, rng, kind=kind, num=num, calc=calc, md=md, mc=mc, rep=rep, kinds=kinds, u=u, b=bounds(rng, sizes), rough=rough)
    return h


def comparator(h, kinds=ALL):
    """One that touches the bounds: inside, on the border, or reaching in from outside."""
    r, b = h.rng, h.b
    k = r.random()
    if k < 0.15 and h.s.data:
        g = r.choice(h.s.data)
        if g["c"] and g["k"] in kinds:
            return g
    if k < 0.3 and "rc" in kinds:
        g = straddle(r, (b[0], b[1], b[2], b[3]))
        c = g["c"]
        lim = 3
        return rc(max(c[0][0], b[0] - lim), max(c[0][1], b[1] - lim), min(c[1][0], b[2] + lim), min(c[1][1], b[3] + lim))
    if k < 0.34 and "rc" in kinds:  # long and narrow, through cells without a corner in them
        x1, x2 = sorted((r.choice([b[0] - 2, b[0], h.g.coord(0)]), r.choice([b[2] + 2, b[2], h.g.coord(0)])))
        y1, y2 = sorted((r.choice([b[1] - 2, b[1], h.g.coord(1)]), r.choice([b[3] + 2, b[3], h.g.coord(1)])))
        x, y = h.g.xy()
        return rc(x1, y, x2, y + r.randint(0, 1)) if r.random() < 0.5 else rc(x, y1, x + r.randint(0, 1), y2)
    if k < 0.38 and "ln" in kinds:
        o = r.choice([(b[0] - 3, h.g.coord(1)), (b[2] + 3, h.g.coord(1)), (h.g.coord(0), b[1] - 2), (h.g.coord(0), b[3] + 2)])
        return ln(o, h.g.xy())
    return h.g.any([x for x in ("pt", "pt", "ln", "ls", "rc", "pg") if x in kinds])


TRIPLES = [(0, 1), (1, 0), (0, 2), (2, 0), (0, 5), (5, 0), (3, 4), (4, 3), (6, 8), (8, 6), (5, 12), (12, 5), (0, 0), (7, 0)]


def exact_pair(h):
    """Adds a datum at an exactly representable distance from a comparator; returns (cmp, distance)."""
    r, b = h.rng, h.b
    for _ in range(40):
        dx, dy = r.choice(TRIPLES)
        x, y = h.g.xy()
        sx, sy = r.choice([-1, 1]), r.choice([-1, 1])
        q = (x + sx * dx, y + sy * dy)
        if not (b[0] <= q[0] <= b[2] and b[1] <= q[1] <= b[3]):
            continue
        R = int(math.isqrt(dx * dx + dy * dy))
        if "pt" in h.kinds and (h.kind == "pt" or r.random() < 0.5):
            return pt(x, y), pt(*q), R
        if "rc" in h.kinds:
            def grow(p, sx, sy):
                w, v = r.randint(0, 3), r.randint(0, 3)
                return rc(min(p[0], clampi(p[0] + sx * w, b[0], b[2])), min(p[1], clampi(p[1] + sy * v, b[1], b[3])),
                          max(p[0], clampi(p[0] + sx * w, b[0], b[2])), max(p[1], clampi(p[1] + sy * v, b[1], b[3])))
            # each grows away from the other
            return grow((x, y), -sx, -sy), grow(q, sx, sy), R
        return None
    return None


def crude(g1, g2):
    """Roughly how far apart, to draw radii."""
    a, b = box(g1), box(g2)
    dx = max(0, a[0] - b[2], b[0] - a[2])
    dy = max(0, a[1] - b[3], b[1] - a[3])
    return math.hypot(dx, dy)


def radius(h, g):
    r = h.rng
    k = r.random()
    u = h.s.u
    if k < 0.15:
        return 0
    if k < 0.2:
        return -r.choice([1, 5]) * u
    if k < 0.26:
        return INF
    if k < 0.3:
        return 50 * u
    if k < 0.75 and h.s.data:
        d = r.choice(h.s.data)
        if d["c"]:
            return int(crude(g, d) * u) + r.choice([0, -60, 60, 500, -500])
    return r.randint(0, 20) * u + r.choice([0, 0, u // 2])


FINE = 10 ** 7  # distance units per grid unit, on small grids

# x, y, a, b with a * a + b * b = x * x + y * y + 1
SUMS = [
    (21408, 27104, 15391, 30920), (25140, 25572, 18028, 30999), (28088, 20965, 13719, 32253), (28134, 21320, 15599, 31666), (26580, 29002, 22711, 32122),
    (24552, 22243, 10277, 31495), (26804, 25878, 19174, 31945), (29652, 22987, 24965, 28007), (26560, 21019, 21171, 26439), (21152, 23407, 20445, 24027),
    (30060, 26164, 23209, 32396), (27768, 22012, 19945, 29288), (23362, 28654, 21405, 30144), (27588, 26576, 23636, 30145), (20451, 22476, 6597, 29663),
    (22530, 31732, 25274, 29593), (25218, 21510, 7840, 32205), (24430, 32382, 26987, 30284), (21465, 24572, 91, 32627), (21186, 24406, 10597, 30532),
    (24332, 21993, 2843, 32675), (24750, 27302, 19117, 31504), (20907, 21384, 19441, 22725), (27304, 20059, 18783, 28197), (21384, 29594, 24658, 26927),
    (20685, 22180, 5051, 29905), (23362, 23780, 8841, 32142), (20286, 24744, 11697, 29782), (27519, 21252, 17379, 30115), (24580, 21846, 8201, 31846),
    (26162, 25178, 18648, 31155), (32667, 26116, 28739, 30385), (27008, 20475, 12539, 31487), (24878, 24190, 12048, 32541), (23910, 24928, 21634, 26927),
    (29017, 23604, 20945, 30991), (27075, 25112, 20963, 30401), (32530, 27492, 29561, 30662), (22058, 23810, 5037, 32064), (23781, 27620, 22039, 29029),
]
# (a, b, c), (d, e, f): c/|(a, b)| and f/|(d, e)| agree in eleven digits, but are not the same
NEAR = [
    ((1, 62, 4261), (71, 49, 5928)), ((7, 87, 6267), (83, 61, 7396)), ((31, 85, 3791), (67, 24, 2982)),
    ((34, 91, 4718), (93, 28, 4717)), ((37, 81, 6343), (86, 23, 6341)), ((66, 91, 6319), (80, 79, 6320)),
    ((69, 80, 5220), (38, 71, 3979)), ((77, 8, 3417), (59, 91, 4787)), ((77, 80, 6164), (78, 79, 6163)),
    ((78, 89, 5725), (79, 89, 5757)), ((79, 82, 6482), (80, 81, 6481)), ((83, 66, 7676), (57, 52, 5585)),
    ((84, 55, 5041), (62, 79, 5042)), ((85, 38, 4334), (72, 59, 4333)), ((87, 28, 4177), (79, 46, 4178)),
    ((93, 67, 4186), (43, 76, 3189)), ((95, 2, 5523), (89, 28, 5423)), ((95, 2, 7030), (60, 11, 4513)),
    ((95, 16, 4640), (94, 21, 4639)), ((95, 56, 6080), (69, 86, 6079)),
]


def beside(rng, x, y, a, b, c):
    """A point across from the line from (x, y) along (a, b), at c/|(a, b)| from it."""
    n = a * a + b * b
    while True:
        u = rng.randint(-80, 80) if abs(b) > 1 else rng.choice([-1, 1]) * (c // max(1, abs(a)) + rng.randint(-80, 80))
        for w in rng.sample([-c, c], 2):
            # a * v - b * u = w
            if (w + b * u) % a == 0:
                v = (w + b * u) // a
                if 0 <= a * u + b * v <= n:
                    return (x + u, y + v)


def nearly(sid, rng, op):
    """Distances to lines that differ in the twelfth digit."""
    kind = rng.choice(["pt", "bd"])
    h = Hist(sid, rng, kind=kind, num="f64", md=rng.choice([0, 2, 4]), mc=rng.choice([1, 2, 4]), kinds=("pt",) if kind == "pt" else ("ln",),
             rep="cu", u=10 ** 6, b=(-256, -256, 256, 256), off=0, s=rng.choice([1, 2.0 ** -30, 2.0 ** 20]))
    for _ in range(3):
        turn = lambda v: (v[0] * rng.choice([-1, 1]), v[1] * rng.choice([-1, 1]), v[2])
        one, two = rng.sample([turn(v) for v in rng.choice(NEAR)], 2)
        x, y = rng.randint(-9, 9), rng.randint(-9, 9)
        if kind == "bd":
            g = pt(x, y)
            for a, b, c in (one, two):
                p = beside(rng, 0, 0, a, b, c)
                h.s.add(h.h, ln((x - p[0], y - p[1]), (x - p[0] + a, y - p[1] + b)))
        else:
            v = [(x, y), (x + one[0], y + one[1]), (x + one[0] + two[0], y + one[1] + two[1])]
            g = geom("ls", v)
            for p in [beside(rng, *v[0], *one), beside(rng, *v[1], *two)]:
                if max(abs(p[0]), abs(p[1])) <= 256:
                    h.s.add(h.h, pt(*p))
        h.n += 2
        for k in (1, 2, h.n):
            R = rng.choice([INF, 200 * h.s.u])
            {"find": lambda: h.s.find(h.h, g), "findr": lambda: h.s.findr(h.h, g, R), "knn": lambda: h.s.knn(h.h, g, k),
             "knnr": lambda: h.s.knnr(h.h, g, k, R), "sorted": lambda: h.s.sorted(h.h, g)}[op]()
    return h.s


def precise(sid, rng, op):
    """Distances that differ in the tenth digit, and radii next to them."""
    kind = rng.choice(["pt", "bd"])
    h = Hist(sid, rng, kind=kind, num="f64", md=rng.choice([0, 2, 4, 8]), mc=rng.choice([1, 2, 4]), kinds=("pt",), rep="cu", u=10000,
             b=(-65536, -65536, 65536, 65536), off=0, s=rng.choice([1, 2.0 ** -30, 2.0 ** 20]))
    q = (rng.randint(-9000, 9000), rng.randint(-9000, 9000))
    pairs = rng.sample(SUMS, rng.randint(2, 5))
    new = []
    for x, y, a, b in pairs:
        for d in ((x, y), (a, b)):
            d = rng.choice([d, d[::-1]])
            new.append(pt(q[0] + rng.choice([-1, 1]) * d[0], q[1] + rng.choice([-1, 1]) * d[1]))
    rng.shuffle(new)
    for g in new:
        h.s.add(h.h, g)
    h.n = len(new)
    for _ in range(4):
        k = rng.choice([1, 2, 3, 5, h.n - 1, h.n])
        R = rng.choice([INF, 50000 * h.s.u])
        {"find": lambda: h.s.find(h.h, pt(*q)), "findr": lambda: h.s.findr(h.h, pt(*q), R),
         "knn": lambda: h.s.knn(h.h, pt(*q), k), "knnr": lambda: h.s.knnr(h.h, pt(*q), k, R),
         "sorted": lambda: h.s.sorted(h.h, pt(*q))}[op]()
    # a radius that one is at, exactly or nearly
    if op in ("findr", "knnr"):
        s = h.s
        t = s.tree(kind, "f64", "E", h.b, h.md, h.mc, "cu", "new", 0, h.sc)
        m = rng.choice([1, 7, 500, 1500])
        a, b, c = rng.choice([(3, 4, 5), (5, 12, 13), (0, 1, 1)])
        d = (m * a + rng.choice([0, 0, 1]), m * b + rng.choice([0, 0, 1]))
        s.add(t, pt(q[0] + d[0], q[1] - d[1]))
        for dr in (0, -1, 1):
            if op == "findr":
                s.findr(t, pt(*q), m * c * s.u, "raw", dr)
            else:
                s.knnr(t, pt(*q), -1, m * c * s.u, "raw", dr)
    return h.s


def fill(h, n):
    for _ in range(n):
        if h.rng.random() < 0.12:
            cluster(h, h.rng.randint(2, 5))
        else:
            h.insert()


def search_profile(op, rng, n, asks=7):
    out = []
    for i in range(n):
        h = search_tree(f"a{i}", rng, **(dict(num="f64", u=FINE) if rng.random() < 0.5 else {}))
        s = h.s
        for _ in range(rng.randint(1, 3)):
            fill(h, rng.choice([1, 2, 4, 6, 10]))
            for _ in range(asks // 2):
                ask(h, op, comparator(h))
            if op in ("findr", "knnr"):
                e = exact_pair(h)
                if e:
                    g, d, R = e
                    s.add(h.h, d)
                    h.n += 1
                    for R, dr in ((R, 0), (R, -1), (R, 1), (max(0, R - 1), 0)):
                        if op == "findr":
                            s.findr(h.h, g, R * s.u, rng.choice(CREP), dr)
                        else:
                            s.knnr(h.h, g, rng.choice([-1, 1, 2, 5]), R * s.u, rng.choice(CREP), dr)
        out.append(s)
    out += [precise(f"p{i}", rng, op) for i in range(max(6, n // 12))]
    out += [nearly(f"n{i}", rng, op) for i in range(max(6, n // 12))]
    # cells whose midpoints are rounded
    for i in range(n // 5):
        kind = rng.choice(["pt", "bd"])
        h = search_tree(f"r{i}", rng, kind=kind, kinds=("pt",) if kind == "pt" else rng.choice([("rc",), ("pt", "rc"), ("pt",)]),
                        md=rng.choice([1, 2, 3, 4, 4, 6, 10, 60]), mc=rng.choice([0, 1, 1, 2, 4]), sizes=(16, 15, 10, 6, 3), rough=True)
        fill(h, rng.choice([3, 8, 14]))
        for g in rng.sample(h.s.data, min(4, len(h.s.data))):  # data at no distance from itself
            if op in ("findr", "knnr"):
                ask0(h, op, g)
            else:
                ask(h, op, g)
        for _ in range(6):
            ask(h, op, comparator(h, ("pt", "rc")))
        out.append(h.s)
    # larger point quadtrees and rectangles, on a finer grid
    for i in range(max(4, n // 10)):
        kind = rng.choice(["pt", "bd"])
        h = search_tree(f"b{i}", rng, kind=kind, kinds=("pt",) if kind == "pt" else ("rc", "pt"), md=rng.choice([4, 6, 9]),
                        mc=rng.choice([1, 2, 4, 6]), sizes=(256, 512), num="f64", u=30)
        fill(h, rng.choice([40, 80]))
        for _ in range(10):
            ask(h, op, comparator(h, ("pt", "rc")))
        out.append(h.s)
    # many cells and data pending at a time
    for i in range(max(2, n // 40)):
        kind = rng.choice(["pt", "bd"])
        h = search_tree(f"w{i}", rng, kind=kind, kinds=("pt",) if kind == "pt" else ("rc", "pt"), md=rng.choice([6, 8, 8]),
                        mc=rng.choice([0, 1, 2, 50]), sizes=(256, 512), num="f64", u=30, rep="cu")
        ids = [h.s.datum(h.new()) for _ in range(rng.choice([180, 280]))]
        h.s.bulk(h.h, ids[0], ids[-1])
        h.n += len(ids)
        for j in range(6):
            g = comparator(h, ("pt", "rc")) if j else rc(h.b[0], h.b[1], h.b[2] - rng.randint(0, 40), h.b[3] - rng.randint(0, 40))
            ask(h, op, g)
        ask(h, op, pt(*h.b[:2]))
        out.append(h.s)
    # thousands of them
    for kind, md in (("pt", 0), ("bd", 0), ("pt", 7), ("bd", 8)):
        h = Hist(f"x{kind}{md}", rng, kind=kind, num="f64", calc="E", md=md, mc=rng.choice([0, 1, 2]), kinds=("pt",), rep="cu",
                 u=10, b=(0, 0, 512, 512), off=0, s=1)
        ids = [h.s.datum(pt(rng.randint(0, 512), rng.randint(0, 512))) for _ in range(5000)]
        h.s.bulk(h.h, ids[0], ids[-1])
        h.n += len(ids)
        far = [pt(*h.b[rng.choice([slice(0, 2), slice(2, 4)])]), pt(256 + rng.randint(-9, 9), 256)]
        for g in far + [rc(0, 0, 512, rng.choice([300, 512]))]:
            if op in ("find", "findr"):
                ask(h, op, g)
            elif op == "knn":
                h.s.knn(h.h, g, rng.choice([4900, 5000, 6000]), rng.choice(CREP))
            elif op == "knnr":
                h.s.knnr(h.h, g, -1, rng.choice([INF, 5000]), rng.choice(CREP))
            else:
                h.s.sorted(h.h, g, -1, rng.choice(CREP))
        out.append(h.s)
    # subdivided to a great depth
    for i in range(max(2, n // 40)):
        h = search_tree(f"d{i}", rng, kind=rng.choice(["pt", "bd"]), kinds=("pt",), md=rng.choice([40, 255]), mc=rng.choice([0, 1]))
        p = h.g.xy()
        for _ in range(3):
            h.s.add(h.h, pt(*p))
        fill(h, 3)
        for _ in range(4):
            ask(h, op, comparator(h, ("pt", "rc")))
        out.append(h.s)
    # clusters, where whole cells are skipped
    for i in range(max(4, n // 8)):
        h = search_tree(f"c{i}", rng, md=rng.choice([3, 4, 5]), mc=rng.choice([1, 1, 2]), num="f64")
        for _ in range(3):
            cluster(h, rng.randint(3, 6))
        for _ in range(8):
            ask(h, op, comparator(h))
        out.append(h.s)
    return out


def ask0(h, op, g):
    if op == "findr":
        h.s.findr(h.h, g, 0, h.rng.choice(CREP))
    else:
        h.s.knnr(h.h, g, -1, 0, h.rng.choice(CREP))


def ask(h, op, g):
    r, s = h.rng, h.s
    rep = r.choice(CREP)
    k = r.choice([0, 1, 1, 2, 3, 5, h.n, h.n + 1, max(0, h.n - 1), -1])
    if op == "find":
        s.find(h.h, g, rep)
    elif op == "findr":
        s.findr(h.h, g, radius(h, g), rep)
    elif op == "knn":
        s.knn(h.h, g, k, rep)
    elif op == "knnr":
        s.knnr(h.h, g, r.choice([k, -1, -1]), radius(h, g), rep)
    elif op == "sorted":
        s.sorted(h.h, g, r.choice([-1, -1, -1, 0, 1, 3]), rep)


# ------------------------------------------------------------------ the sphere

def sph_bounds(rng, den):
    k = rng.random()
    if k < 0.45:
        b = (-180, -90, 180, 90)
    elif k < 0.55:
        b = (-180, -60, 180, 60)
    elif k < 0.7:
        x, y = rng.randint(-180, 120), rng.randint(-90, 40)
        b = (x, y, x + rng.randint(20, 60), y + rng.randint(20, 50))
    elif k < 0.8:
        b = (-180, rng.choice([-90, 20, 60]), 180, 90)
    elif k < 0.9:
        b = (rng.choice([-180, 100]), -80, 180, 80)
    else:
        b = (-10, -10, 10, 10)
    return tuple(v * den for v in b)


class Sph:
    def __init__(self, rng, b, den):
        self.r, self.b, self.den, self.seen = rng, b, den, []

    def xy(self):
        r, b = self.r, self.b
        if self.seen and r.random() < 0.15:
            x, y = r.choice(self.seen)
            return (clampi(x + r.randint(-2, 2), b[0], b[2]), clampi(y + r.randint(-2, 2), b[1], b[3]))
        if self.seen and r.random() < 0.15:  # the same place, or the same across a seam, or the antipode
            x, y = r.choice(self.seen)
            k, half = r.random(), 180 * self.den
            if k < 0.5 and b[0] == -half and b[2] == half:
                x, y = r.choice([(r.choice([-half, half]), y), (-x, y), (x - half if x > 0 else x + half, -y)])
            if b[1] <= y <= b[3]:
                self.seen.append((x, y))
                return (x, y)
        k = r.random()
        x, y = r.randint(b[0], b[2]), r.randint(b[1], b[3])
        if k < 0.2:  # near the antimeridian
            x = r.choice([b[0] + r.randint(0, 8), b[2] - r.randint(0, 8)])
        elif k < 0.32:  # near the poles
            y = r.choice([b[1] + r.randint(0, 6), b[3] - r.randint(0, 6)])
        elif k < 0.4:
            x, y = r.choice([b[0], b[2]]), r.randint(b[1], b[3])
        elif k < 0.45:
            y = r.choice([b[1], b[3], 0 if b[1] <= 0 <= b[3] else b[1]])
        x, y = clampi(x, b[0], b[2]), clampi(y, b[1], b[3])
        self.seen.append((x, y))
        return (x, y)

    def near(self, p, m):
        b, r = self.b, self.r
        return (clampi(p[0] + r.randint(-m, m), b[0], b[2]), clampi(p[1] + r.randint(-m, m), b[1], b[3]))

    def pt(self):
        return pt(*self.xy())

    def span(self):
        return self.r.choice([2, 5, 10, 20, 40, 90]) * self.den

    def ln(self):
        a = self.xy()
        return ln(a, self.near(a, self.span()))

    def ls(self):
        c = [self.xy()]
        m = self.span()
        for _ in range(self.r.randint(1, 4)):
            c.append(self.near(c[-1], m))
        return geom("ls", c)

    def rc(self):
        if self.r.random() < 0.2:
            return self.band()
        a = self.xy()
        b = self.near(a, self.span()) if self.r.random() < 0.85 else self.xy()
        return rc(min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]))

    def band(self):
        """Long and narrow, through cells without a corner in them."""
        b, r = self.b, self.r
        x, y = self.xy()
        m = r.choice([0, 2, 5, 12]) * self.den
        if r.random() < 0.5:
            x1, x2 = sorted(r.choice([(b[0], b[2]), (r.randint(b[0], b[2]), r.randint(b[0], b[2])), (x, b[2]), (b[0], x)]))
            return rc(x1, y, x2, clampi(y + r.randint(0, m), b[1], b[3]))
        y1, y2 = sorted(r.choice([(b[1], b[3]), (r.randint(b[1], b[3]), r.randint(b[1], b[3])), (y, b[3]), (b[1], y)]))
        return rc(x, y1, clampi(x + r.randint(0, m), b[0], b[2]), y2)

    def pg(self):
        for _ in range(20):
            a = self.xy()
            m = max(4, self.span())
            if self.r.random() < 0.55:
                c = hull([self.near(a, m) for _ in range(5)])
                if len(c) >= 3:
                    break
            else:
                b = self.near(a, m)
                x1, x2, y1, y2 = min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1])
                if x2 - x1 >= 3 and y2 - y1 >= 3:
                    c = [(x1, y1), (x2, y1), (x2, y2), (x1, y2)]
                    w, h = max(1, (x2 - x1) // 3), max(1, (y2 - y1) // 3)
                    hole = [(x1 + w, y1 + h), (x2 - w, y1 + h), (x2 - w, y2 - h), (x1 + w, y2 - h)]
                    holes = [hole]
                    if x2 - x1 >= 7 and self.r.random() < 0.6:  # two of them, side by side
                        q, e = (x2 - x1) // 7, self.r.randint(1, 2)
                        holes = [[(x1 + e * q, y1 + h), (x1 + 3 * q, y1 + h), (x1 + 3 * q, y2 - h), (x1 + e * q, y2 - h)],
                                 [(x1 + 4 * q, y1 + h), (x1 + 6 * q, y1 + h), (x1 + 6 * q, y2 - h), (x1 + 4 * q, y2 - h)]]
                        self.r.shuffle(holes)
                    if hole[0][0] < hole[1][0] and hole[0][1] < hole[2][1]:
                        for o in holes:  # and places in them to be drawn later
                            if self.r.random() < 0.7:
                                self.seen.append(((o[0][0] + o[1][0]) // 2, self.r.randint(o[0][1], o[2][1])))
                        return geom("pg", c + ([c[0]] if self.r.random() < 0.5 else []), holes)
                    break
        else:
            return geom("pg", [(0, 0), (4, 0), (0, 4)])
        if self.r.random() < 0.5:
            c = c[::-1]
        return geom("pg", c)

    def any(self, kinds):
        return getattr(self, self.r.choice(kinds))()


def sph_tree(sid, rng, kind, kinds, den=1, num="f64", b=None, md=None, mc=None):
    s = Scn(sid, 1, den)
    b = b or sph_bounds(rng, den)
    md = rng.choice([0, 1, 2, 3, 4, 5, 6, 8]) if md is None else md
    h = s.tree(kind, num, "S", b, md, rng.choice([0, 1, 1, 2, 4]) if mc is None else mc,
               rng.choice(["cu", "cu", "raw"]) if kind == "pt" else rng.choice(["cu", "own", "ref"]))
    return s, h, Sph(rng, b, den)


def sph_ask(s, h, g, n, rng, ops=("find", "findr", "knn", "knnr", "sorted")):
    op = rng.choice(ops)
    rep = rng.choice(CREP)
    k = rng.choice([0, 1, 1, 2, 3, 5, n, n + 1, max(0, n - 1), -1])
    R = rng.choice([0, INF, -1000000, rng.randint(0, 40000000), rng.randint(0, 314159265), rng.randint(0, 3000000)])
    if op == "find":
        s.find(h, g, rep)
    elif op == "findr":
        s.findr(h, g, R, rep)
    elif op == "knn":
        s.knn(h, g, k, rep)
    elif op == "knnr":
        s.knnr(h, g, rng.choice([k, -1]), R, rep)
    else:
        s.sorted(h, g, rng.choice([-1, -1, 1, 4]), rep)


def p_c12(rng, n):
    out = []
    for i in range(n):
        kind = rng.choice(["pt", "bd", "bd"])
        cmps = rng.choice([("pt",), ("pt",), ("rc",), ("pt", "rc")])
        den = rng.choice([1, 1, 2, 10])
        if kind == "pt":
            kinds = ("pt",)
        elif "rc" in cmps:
            kinds = rng.choice([("pt",), ("rc",), ("rc", "pt")])
        else:
            kinds = rng.choice([ALL, ("rc",), ("ln", "ls"), ("pg", "rc"), ("pt", "rc")])
        if den > 1 and any(k in kinds for k in ("ln", "ls", "pg")):
            den = 1
        num = "f32" if rng.random() < 0.08 else "f64"
        s, h, g = sph_tree(f"a{i}", rng, kind, kinds, den, num)
        m = 0
        for _ in range(rng.randint(1, 3)):
            k = rng.choice([1, 3, 6, 10])
            for _ in range(k):
                s.add(h, g.any(kinds))
            m += k
            for _ in range(5):
                sph_ask(s, h, g.any(cmps), m, rng)
        out.append(s)
    for k in ("pt", "bd"):  # thousands
        s, h, g = sph_tree(f"x{k}", rng, k, ("pt",), 2, md=rng.choice([0, 5, 7]), mc=rng.choice([0, 1, 4]))
        ids = [s.datum(g.pt()) for _ in range(2500)]
        s.bulk(h, ids[0], ids[-1])
        for _ in range(5):
            sph_ask(s, h, g.any(("pt", "rc") if k == "pt" else ("pt",)), 2500, rng)
        s.sorted(h, g.pt(), -1)
        s.knn(h, g.pt(), 2500)
        out.append(s)
    for i in range(max(3, n // 15)):  # more data, deeper
        s, h, g = sph_tree(f"b{i}", rng, "pt", ("pt",), 2, md=rng.choice([4, 6, 8]), mc=rng.choice([1, 4]))
        for _ in range(50):
            s.add(h, g.pt())
        for _ in range(12):
            sph_ask(s, h, g.any(("pt", "rc")), 50, rng)
        out.append(s)
    return out


def p_c14(rng, n):
    out = []
    for i in range(n):
        den = rng.choice([1, 1, 1, 2])
        s = Scn(f"a{i}", 1, den)
        g = Sph(rng, rng.choice([(-180 * den, -90 * den, 180 * den, 90 * den), (-20 * den, -20 * den, 20 * den, 20 * den),
                                 (100 * den, 30 * den, 180 * den, 90 * den)]), den)
        g2 = Sph(rng, (-180 * den, -90 * den, 180 * den, 90 * den), den)
        g2.seen = g.seen
        for _ in range(14):
            a, b = g.any(ALL), rng.choice([g, g2]).any(ALL)
            if den > 1 and (a["k"] in ("ln", "ls", "pg") or b["k"] in ("ln", "ls", "pg")) and rng.random() < 0.3:
                a = g.pt()
            if rng.random() < 0.5:
                a = rng.choice([g.pt, g.rc])()
            k = rng.random()
            if k < 0.1:
                b = a if a["k"] != "ls" else g.pt()
            elif k < 0.22:  # rectangles facing each other in various ways
                a, b = g.rc(), g2.rc()
            elif k < 0.3 and a["k"] == "pt":  # inside and on things
                v = rng.choice(g.any(ALL)["c"])
                a = pt(*v)
            elif k < 0.42:  # in the middle of a polygon or a hole of it
                b = g.pg()
                ring = rng.choice(b["h"] + [b["c"]])
                x, y = [c[0] for c in ring], [c[1] for c in ring]
                a = pt(rng.randint(min(x), max(x)), rng.randint(min(y), max(y)))
            num = rng.choice(["f64", "f64", "f64", "f32"])
            s.dist("S", num, a, b)
            s.dist("S", num, b, a)
        out.append(s)
    for i in range(max(4, n // 12)):  # antipodes, poles, seams
        s = Scn(f"e{i}", 1, 1)
        for _ in range(20):
            x, y = rng.randint(-180, 180), rng.choice([rng.randint(-90, 90), 0, 90, -90])
            o = pt(x - 180 if x > 0 else x + 180, -y)
            if rng.random() < 0.4:
                o = pt(rng.choice([-180, 180]), rng.choice([y, -y, 90, -90]))
            s.dist("S", rng.choice(["f64", "f32"]), pt(x, y), o)
            w = rng.randint(0, 30)
            x1, y1 = rng.choice([-180, 180 - w, -90, 0]), rng.choice([-90, 60, 90 - w, 0])
            q = rc(x1, y1, min(180, x1 + w), min(90, y1 + rng.randint(0, 40)))
            s.dist("S", "f64", pt(x, y), q)
            q2 = rc(max(-180, 180 - rng.randint(0, 20)) if x1 < 0 else -180, max(-90, y1 - 10),
                    180 if x1 < 0 else -180 + rng.randint(0, 20), min(90, y1 + 5))
            s.dist("S", "f64", q, q2)
            s.dist("S", "f64", q2, q)
        out.append(s)
    return out


def within(rng, g):
    """A rectangle or polygon with something in the middle of it, its holes included."""
    a = g.rc(False) if rng.random() < 0.35 else g.pg()
    for _ in range(6 if rng.random() < 0.6 else 0):
        a = a if a["h"] else g.pg()
    ring = rng.choice(a["h"]) if a["h"] and rng.random() < 0.7 else a["c"]
    if not ring:
        return a, g.any()
    x1, x2 = min(c[0] for c in ring), max(c[0] for c in ring)
    y1, y2 = min(c[1] for c in ring), max(c[1] for c in ring)
    m = rng.randint(0, 1)
    if x2 - x1 > 2 * m and y2 - y1 > 2 * m:
        x1, x2, y1, y2 = x1 + m, x2 - m, y1 + m, y2 - m
    return a, Geo(rng, (x1, y1, x2, y2)).any()


def p_c13(rng, n):
    out = []
    for i in range(n):
        s = Scn(f"a{i}", rng.choice([1000, FINE]))
        m = rng.choice([4, 6, 8, 12, 20])
        g = Geo(rng, (0, 0, m, m))
        for _ in range(16):
            a, b = g.any(), g.any()
            k = rng.random()
            if k < 0.15:
                a, b = g.rc(), g.rc()
            elif k < 0.45:  # one within the other, or in a hole of it
                a, b = within(rng, g)
            elif k < 0.55:  # in a wide hole
                x, y = rng.randint(1, m // 2), rng.randint(1, m // 2)
                a = geom("pg", [(0, 0), (m, 0), (m, m), (0, m)], [[(x, y), (m - 1, y), (m - 1, m - 1), (x, m - 1)]])
                b = Geo(rng, (x, y, m - 1, m - 1)).any(("rc", "rc", "ln", "ls", "pg", "pt"))
            num = rng.choice(["f64", "f64", "f32"]) if s.u != FINE else "f64"
            off, sc = emb(rng, num)
            s.dist("E", num, a, b, off, sc)
            s.dist("E", num, b, a, off, sc)
        out.append(s)
    return out


# ------------------------------------------------------------------ contracts

def p_c15(rng, n):
    out = []
    ops = ("find", "findr", "knn", "knnr", "sorted")
    for i in range(n):
        calc = rng.choice(["N", "N", "E", "E", "E", "S"])
        if calc == "S":
            b = (-60, -60, 60, 60)
            kind = rng.choice(["pt", "bd"])
            s, h, g = sph_tree(f"a{i}", rng, kind, ("pt",), 1, rng.choice(["f64", "f32"]), b=b)
            m = 0
            for rnd in range(2):
                for _ in range(10):
                    q = g.any(("pt", "rc"))
                    if rng.random() < 0.6:
                        p = outside(rng, b)
                        q = rng.choice([pt(*p), rc(min(p[0], p[0] + 1), p[1], p[0] + 1, p[1] + 1) if rng.random() < 0.5 else pt(*p)])
                    q = pt(*[clampi(v, -170, 170) for v in q["c"][0]]) if q["k"] == "pt" and abs(q["c"][0][0]) > 170 else q
                    if q["k"] == "pt":
                        q = pt(q["c"][0][0], clampi(q["c"][0][1], -85, 85))
                    sph_ask(s, h, q, m, rng, ops)
                for _ in range(rng.choice([0, 3])):
                    s.add(h, g.pt())
                    m += 1
            out.append(s)
            continue
        h = search_tree(f"a{i}", rng, calc=calc, md=rng.choice([0, 1, 2, 3, 4]), mc=rng.choice([0, 1, 2, 4]),
                        sizes=rng.choice([(16,), (16,), (16, 0)]) if calc == "E" else (16,))
        s = h.s
        far = h.b
        for rnd in range(rng.randint(1, 3)):
            for _ in range(9):
                k = rng.random()
                if calc == "N" and k < 0.3:
                    h.observe(rng.choice(["size", "iter", "retr"]))
                    continue
                if k < 0.3:
                    g = comparator(h)
                elif k < 0.5:
                    p = outside(rng, far)
                    g = pt(clampi(p[0], far[0] - 4, far[2] + 4), clampi(p[1], far[1] - 4, far[3] + 4))
                elif k < 0.7:  # next to the bounds, or passing a corner
                    x, y = far[0], far[1]
                    g = rng.choice([
                        rc(far[0] - 3, far[1] - 3, far[0] - 1, far[3] + 2), rc(far[2] + 1, far[1], far[2] + 2, far[3]),
                        ln((far[0] - 3, far[1] + 2), (far[0] + 2, far[1] - 3)), ln((far[0] - 2, far[1] + 2), (far[0] + 2, far[1] - 2)),
                        geom("ls", [(far[0] - 1, far[1] - 1), (far[2] + 1, far[1] - 1), (far[2] + 1, far[3] + 1)]),
                        geom("pg", [(far[0] - 3, far[1] - 3), (far[0] - 1, far[1] - 3), (far[0] - 1, far[1])]),
                        geom("pg", [(far[0] - 3, far[1] - 3), (far[2] + 3, far[1] - 3), (far[2] + 3, far[3] + 3), (far[0] - 3, far[3] + 3)],
                             [[(far[0] - 1, far[1] - 1), (far[2] + 1, far[1] - 1), (far[2] + 1, far[3] + 1), (far[0] - 1, far[3] + 1)]]),
                        geom("pg", [(far[0] - 3, far[1] - 3), (far[2] + 3, far[1] - 3), (far[2] + 3, far[3] + 3), (far[0] - 3, far[3] + 3)]),
                    ])
                else:  # touching from outside
                    y = h.g.coord(1)
                    g = rng.choice([rc(far[0] - 2, y, far[0], y), rc(far[2], far[3], far[2] + 2, far[3] + 2), pt(far[0], y),
                                    pt(far[2], far[3]), ln((far[0] - 2, y), (far[0], y)), ln((far[0] - 2, far[1] + 2), (far[0] + 2, far[1] - 2))])
                ask(h, rng.choice(ops), g)
            fill(h, rng.choice([0, 1, 4, 8]))
        out.append(s)
    for i in range(max(3, n // 15)):
        s = Scn(f"n{i}", 1000)
        g = Geo(rng, (0, 0, 8, 8))
        for _ in range(8):
            s.dist("N", rng.choice(["f64", "f32"]), g.any(), g.any())
        out.append(s)
    return out


def p_c16(rng, n):
    out = []
    for i in range(n):
        mixed = rng.random() < 0.75
        kinds = rng.choice([("rc", "ln"), ("rc", "pt", "ls"), ("pg", "rc"), ("pt", "pg", "ln"), ("ln",), ("ls", "pg"), ALL])
        s, h, g = sph_tree(f"a{i}", rng, "bd", kinds, 1, "f64", mc=rng.choice([0, 1, 2, 4]))
        m = 0
        if rng.random() < 0.2:
            sph_ask(s, h, g.any(("ln", "ls", "pg")), m, rng)
        for _ in range(rng.randint(1, 3)):
            k = rng.choice([1, 2, 4, 8])
            for _ in range(k):
                s.add(h, g.any(kinds))
            m += k
            for _ in range(7):
                q = g.any(("rc",)) if mixed and rng.random() < 0.8 else g.any(("ln", "ls", "pg", "pt"))
                sph_ask(s, h, q, m, rng)
            s.sorted(h, g.rc())
            s.knn(h, g.rc(), -1)
            s.find(h, g.rc())
        out.append(s)
    for i in range(2):  # a few among thousands
        s, h, g = sph_tree(f"x{i}", rng, "bd", ALL, 1, md=rng.choice([0, 5]), mc=4)
        ids = [s.datum(g.rc() if rng.random() < 0.998 else g.any(("ln", "ls", "pg"))) for _ in range(1500)]
        s.bulk(h, ids[0], ids[-1])
        for _ in range(8):
            sph_ask(s, h, g.rc(), 1500, rng)
        s.sorted(h, g.rc())
        s.knn(h, g.rc(), -1)
        out.append(s)
    return out


# ------------------------------------------------------------------ relations between histories

def p_c17(rng, n):
    out = []
    for i in range(n // 8):  # a deep quadtree filled again in other orders
        h = deep(f"g{i}", rng, ["disp", "retr"])
        s = h.s
        qs = [e["g"] for e in s.ev if e["op"] == "retr"][-8:]
        for _ in range(2):
            t = s.tree(h.kind, h.num, "E", h.b, h.md, h.mc, "cu", "new", h.off, h.sc)
            order = [e["i"] for e in s.ev if e["op"] == "ins" and e["h"] == h.h]
            rng.shuffle(order)
            for j, x in enumerate(order):
                s.ins(t, x)
                if rng.random() < 0.05:
                    rng.choice([lambda: s.retr(t, rng.choice(qs)), lambda: s.iter(t, -1), lambda: s.disp(t)])()
            s.disp(t)
            for q in qs:
                s.retr(t, q)
            s.iter(t, -1)
            s.disp(t)
        out.append(s)
    for k in ("pt", "bd"):  # thousands, backwards
        h = crowd(f"x{k}", rng, ["disp", "iter"], k, 1)
        s = h.s
        t = s.tree(h.kind, h.num, "E", h.b, h.md, h.mc, "cu", "new", h.off, h.sc)
        s.bulk(t, 1, len(s.data) - 2, rng.choice([len(s.data) - 3, 17, 1001]))
        s.add(t, s.data[-1])
        s.disp(t)
        s.iter(t, -1)
        out.append(s)
    for i in range(n):
        rgh = rng.random() < 0.2
        h = Hist(f"a{i}", rng, num=rng.choice(["f64", "f64", "f32", "i32", "i64"]), rep="cu",
                 sizes=(16, 15, 10, 6, 1) if rgh else None, rough=rgh)
        s = h.s
        searchable = not rgh and h.num in FLOATS and h.b[2] - h.b[0] <= 24 and h.b[3] - h.b[1] <= 24
        gs = []
        for _ in range(rng.randint(2, 16)):
            gs.append(h.new())
            s.data.append(gs[-1])  # so that duplicates are drawn
        s.data.clear()
        ids = [s.datum(g) for g in gs]
        copies = [h.h]
        for _ in range(rng.randint(1, 3)):
            copies.append(s.tree(h.kind, h.num, "E", h.b, h.md, h.mc, rng.choice(["cu", "cu", "own"] if h.kind == "bd" else ["cu", "raw"]),
                                 "new", h.off, h.sc, rough=rgh))
        qs = [h.query_geom() for _ in range(5)]
        cs = [(h.g.any(), rng.choice([0, 500, 2000, 7000]), rng.choice([1, 2, 4, -1])) for _ in range(3)]
        if rng.random() < 0.6:  # outside the bounds, before and after others
            cs.insert(rng.randint(0, 3), (pt(*outside(rng, h.b)), 1000, 2))

        def asks(t):
            s.disp(t)
            s.size(t)
            for q in qs:
                s.retr(t, q)
            s.iter(t, rng.choice([-1, 1, 2]))
            if searchable:
                for (c, R, k) in rng.sample(cs, len(cs)):
                    s.find(t, c, rng.choice(CREP))
                    s.knn(t, c, k)
                    s.sorted(t, c)
            s.disp(t)
        for c in copies:
            order = ids[:]
            rng.shuffle(order)
            part = rng.randint(0, len(order))
            for j, x in enumerate(order):
                s.ins(c, x)
                if j == part and rng.random() < 0.6:
                    asks(c)
                elif rng.random() < 0.15:
                    s.retr(c, rng.choice(qs))
                    if searchable:
                        s.sorted(c, cs[0][0], 1)
            asks(c)
            if rng.random() < 0.5:
                asks(c)
        out.append(s)
    return out


def p_c18(rng, n):
    out = []
    for i in range(n):
        k = rng.random()
        if k < 0.3:  # integers
            h = structural(f"i{i}", rng, ["size", "iter", "retr", "disp"], num=rng.choice(INTS), queries=2, n=(2, 20))
            out.append(h.s)
            continue
        if k < 0.5:  # distances through the wrappers
            s = Scn(f"d{i}", 1000, 0)
            g = Geo(rng, (0, 0, 12, 12))
            for _ in range(8):
                a, b = g.any(), g.any()
                s.dist("E", "f64", a, b)
                s.dist("E", "f32", a, b)
                s.conv(rng.choice(FLOATS), a["k"], a)
            out.append(s)
            s = Scn(f"ds{i}", 1, 1)
            g = Sph(rng, (-170, -80, 170, 80), 1)
            for _ in range(8):
                a, b = g.any(ALL), g.any(("pt", "pt", "rc", "ln", "pg"))
                for num in FLOATS:
                    s.dist("S", num, a, b)
                    s.dist("S", num, b, a)
            out.append(s)
            continue
        # the same history in several representations
        kind = rng.choice(["pt", "bd", "bd"])
        sph = rng.random() < 0.25
        s = Scn(f"r{i}", 1 if sph else 1000, 1 if sph else 0)
        md, mc = rng.choice([0, 1, 2, 3, 4]), rng.choice([0, 1, 2, 4])
        hom = rng.choice(["rc", "ln", "ls", "pg", "pt"])
        if sph:
            # data off the mid-lines of the bounds in both precisions
            b, calc = (-64, -64, 64, 64), "S"
            if kind == "bd":
                hom = rng.choice(["rc", "pt"])
            g = Sph(rng, b, 1)
            hom_g = lambda: g.any(("pt",) if kind == "pt" else (hom,))
        else:
            b, calc = bounds(rng), "E"
            g = Geo(rng, b)
            hom_g = lambda: g.any(("pt",) if kind == "pt" else (hom,))
        hs = []
        reps = ["cu", "raw", "coord"] if kind == "pt" else ["cu", "own", "ref", hom]
        for rep in reps:
            hs.append((s.tree(kind, "f64", calc, b, md, mc, rep), rep, "f64"))
        hs.append((s.tree(kind, "f32", calc, b, md, mc, rng.choice(reps)), "x", "f32"))
        if not sph and all((b[j + 2] - b[j]) % (1 << md) == 0 for j in (0, 1)):
            hs.append((s.tree(kind, rng.choice(["i32", "i64", "i16"]), calc, b, md, mc, "cu"), "cu", "int"))
        ids = [s.datum(hom_g()) for _ in range(rng.randint(1, 10))]
        for (h, rep, num) in hs:
            for x in ids:
                s.ins(h, x)
        kinds = ("pt", "rc") if sph else ALL
        qs = [hom_g() for _ in range(4)]
        cs = [(g.any(kinds), rng.choice([1, 2, -1])) for _ in range(3)]
        for (h, rep, num) in hs:
            s.size(h)
            s.iter(h)
            if not sph:
                s.disp(h)
                for q in qs:
                    s.retr(h, q)
            if num != "int" and s.lines[h - 1].split()[-2] != "coord":
                for (c, kk) in cs:
                    for cr in rng.sample(("raw", "own", "ref", "cu"), 2):
                        s.find(h, c, cr)
                        s.knn(h, c, kk, cr)
                    R = rng.choice([0, 3]) * (10000000 if sph else 1000) + (0 if sph else 377)
                    s.findr(h, c, 0 if sph else 3377, rng.choice(CREP))
                    s.knnr(h, c, -1, 0 if sph else 5377, rng.choice(CREP))
                    s.sorted(h, c, -1, rng.choice(CREP))
        out.append(s)
    return out


def p_c19(rng, n):
    out = []
    for i in range(n):
        den = rng.choice([1, 2, 10, 1])
        s = Scn(f"a{i}", 1, den)
        m = 180 * den
        g = Geo(rng, (-m, -m // 2, m, m // 2))
        for _ in range(12):
            s.torad(rng.choice(["f64", "f64", "f32"]), g.any())
        s.torad("f64", geom("ls", []))
        g2 = Geo(rng, (-8, -8, 8, 8))
        for _ in range(6):
            x = g2.any()
            s.conv(rng.choice(FLOATS), x["k"], x, rng.choice([0, 5]), rng.choice([1, 2, 0.5]))
        for w in ("mpt", "mls", "mpg", "gc", "tri"):
            s.conv(rng.choice(FLOATS), w, geom("ls", [(0, 0), (3, 0), (0, 3)]))
        s.conv("f64", "ls", geom("ls", []))
        s.conv("f64", "pg", geom("pg", []))
        out.append(s)
    return out


# ------------------------------------------------------------------ totality

def p_c20(rng, n):
    out = []
    ops = ("find", "findr", "knn", "knnr", "sorted")
    for i in range(n):
        kind = rng.choice(["pt", "bd"])
        num = rng.choice(["f64", "f64", "f32", "i32", "i16", "i64", "i128", "isize"])
        flt = num in FLOATS
        md = rng.choice([0, 1, 2, 4, 8, 31, 40, 64, 254, 255])
        mc = rng.choice([0, 0, 1, 1, 2, 3, 4])
        w, hh = rng.choice([(16, 16), (16, 16), (0, 16), (16, 0), (0, 0), (1, 1), (3, 5), (1000, 1)])
        b = shift((0, 0, w, hh), rng.choice([0, 0, -7]), rng.choice([0, 0, 3]))
        if flt:
            sc = rng.choice([1, 1, 1, 0.1, 1e-3, 1e6, 1e140, 1e-140, 1e300, 5e-324, 1e-310] if num == "f64" else [1, 0.1, 1e15, 1e-15, 1e30, 1e-40])
            off = rng.choice([0, 0, 1000]) if 1e-6 < sc < 1e9 else 0
        else:
            off, sc = emb(rng, num) if w < 100 else (0, 1)
        kinds = ("pt",) if kind == "pt" else rng.choice([ALL, ("rc",), ("pt",), ("rc", "ln")])
        # the squares of the smallest and largest extents are normal numbers
        measurable = flt and (sc * 2.0 ** -md > 1e-150 and sc < 1e200 if num == "f64" else sc * 2.0 ** -md > 1e-17 and sc < 1e16)
        h = Hist(f"a{i}", rng, kind=kind, num=num, calc=rng.choice(["E", "E", "E", "N"]), md=md, mc=mc, b=b, kinds=kinds,
                 rep="cu" if not flt else rng.choice(["cu", "raw"] if kind == "pt" else ["cu", "own", "ref"]), off=off, s=sc)
        s = h.s
        for rnd in range(2):
            p = h.new()
            for _ in range(rng.randint(0, 6)):
                if rng.random() < 0.5:
                    s.add(h.h, p)
                    h.n += 1
                elif rng.random() < 0.1:
                    h.insert_bad()
                else:
                    h.insert()
            for _ in range(6):
                if measurable and rng.random() < 0.7:
                    ask(h, rng.choice(ops), comparator(h) if w < 100 else h.g.any())
                else:
                    h.observe(rng.choice(["size", "iter", "retr", "disp"]))
        out.append(s)
    for i in range(n // 5):
        h = rough(f"r{i}", rng, ["size", "iter", "retr", "disp"])
        if h.rep != "coord":
            for _ in range(8):
                ask(h, rng.choice(ops), h.g.any())
        out.append(h.s)
    for i in range(max(3, n // 25)):  # spherical, degenerate bounds and great depths
        b = rng.choice([(-180, -90, 180, 90), (10, 10, 10, 10), (-180, 0, 180, 0), (180, -90, 180, 90)])
        kinds = rng.choice([("pt",), ALL])
        s, h, g = sph_tree(f"s{i}", rng, "bd" if kinds == ALL else "pt", kinds, 1, rng.choice(FLOATS), b=b,
                           md=rng.choice([0, 8, 60, 255]), mc=rng.choice([0, 1, 2]))
        for _ in range(8):
            s.add(h, g.any(kinds))
        for _ in range(12):
            sph_ask(s, h, g.any(ALL), 8, rng)
        out.append(s)
    # large trees: many cells, and many data in one cell
    for i in range(max(4, n // 25)):
        kind = ("pt", "bd")[i % 2]
        m = rng.choice([300, 700])
        w = rng.choice([4096, 100000])
        b = (0, 0, w, w)
        h = Hist(f"l{i}", rng, kind=kind, num="f64", md=rng.choice([4, 12, 60 if m < 500 else 16]), mc=rng.choice([0, 1, 4, 8]), b=b,
                 kinds=("pt",) if kind == "pt" else ("rc", "pt"), rep="cu", off=0, s=rng.choice([1, 0.3]))
        mode = rng.random()
        ids = []
        c = (rng.randint(0, w), rng.randint(0, w))
        for _ in range(m):
            if mode < 0.4:
                g = pt(rng.randint(0, w), rng.randint(0, w))
            elif mode < 0.7:  # a far corner, and everything else next to one point
                g = pt(clampi(c[0] + rng.randint(-40, 40), 0, w), clampi(c[1] + rng.randint(-40, 40), 0, w))
            else:
                g = pt(*c)
            ids.append(h.s.datum(g))
        h.s.bulk(h.h, ids[0], ids[-1])
        h.n = m
        s = h.s
        s.size(h.h)
        s.iter(h.h, 7)
        s.disp(h.h)
        q = pt(0, 0)
        s.find(h.h, q)
        s.findr(h.h, q, 5)
        s.knn(h.h, q, 3)
        s.knn(h.h, q, -1)
        s.knnr(h.h, q, -1, 100000)
        s.sorted(h.h, q)
        s.retr(h.h, g)
        out.append(s)
    # data passed over: unmeasurable or empty cells before any result
    for i in range(2):
        s = Scn(f"u{i}", 1, 1)
        h = s.tree("bd", "f64", "S", (-180, -90, 180, 90), rng.choice([6, 8]), 0, "cu")
        g = Sph(rng, (-180, -90, 180, 90), 1)
        ids = [s.datum(g.ln()) for _ in range(400)]
        s.bulk(h, ids[0], ids[-1])
        s.sorted(h, rc(-10, -10, 10, 10))
        s.sorted(h, rc(-10, -10, 10, 10), 1)
        s.knn(h, rc(-10, -10, 10, 10), 2)
        s.find(h, pt(0, 0))
        s.iter(h)
        out.append(s)
    s = Scn("v0", 1000, 0)  # a full tree of empty cells around one datum
    h = s.tree("pt", "f64", "E", (0, 0, 65536, 65536), 16, 0, "cu")
    ids = [s.datum(pt(rng.randint(32768, 65536), rng.randint(32768, 65536))) for _ in range(1200)]
    s.bulk(h, ids[0], ids[-1])
    s.sorted(h, pt(0, 0), 1)
    s.sorted(h, pt(0, 0))
    s.knn(h, pt(0, 0), 1)
    s.find(h, pt(0, 0))
    s.iter(h, 1)
    out.append(s)
    return out


PROFILES = {
    "C01": (p_c01, 220), "C02": (p_c02, 160), "C03": (p_c03, 200), "C04": (p_c04, 200), "C05": (p_c05, 220),
    "C06": (p_c06, 200),
    "C07": (lambda r, n: search_profile("find", r, n), 110), "C08": (lambda r, n: search_profile("findr", r, n), 110),
    "C09": (lambda r, n: search_profile("knn", r, n), 110), "C10": (lambda r, n: search_profile("knnr", r, n), 110),
    "C11": (lambda r, n: search_profile("sorted", r, n), 110),
    "C12": (p_c12, 160), "C13": (p_c13, 110), "C14": (p_c14, 120), "C15": (p_c15, 180), "C16": (p_c16, 140),
    "C17": (p_c17, 110), "C18": (p_c18, 160), "C19": (p_c19, 80), "C20": (p_c20, 120),
}


def generate(prop, seed, scale=1.0):
    f, n = PROFILES[prop]
    rng = random.Random(f"{prop}/{seed}")
    return f(rng, max(4, int(n * scale)))
