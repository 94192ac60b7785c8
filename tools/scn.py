"""Scenarios: what is asked of the real code, and, once run, the trace given to TLC."""
import math, json

NAN, INF = 99999, 99998
NOG = {"k": "no", "c": [], "h": []}


def geom(k, c, h=()):
    return {"k": k, "c": [list(p) for p in c], "h": [[list(p) for p in r] for r in h]}


def pt(x, y):
    return geom("pt", [(x, y)])


def ln(a, b):
    return geom("ln", [a, b])


def rc(x1, y1, x2, y2):
    return geom("rc", [(x1, y1), (x2, y2)])


def gtok(g):
    out = [g["k"], str(len(g["c"]))]
    for p in g["c"]:
        out += [str(p[0]), str(p[1])]
    out.append(str(len(g["h"])))
    for r in g["h"]:
        out.append(str(len(r)))
        for p in r:
            out += [str(p[0]), str(p[1])]
    return " ".join(out)


def box(g):
    xs = [p[0] for p in g["c"]]
    ys = [p[1] for p in g["c"]]
    return [min(xs), min(ys), max(xs), max(ys)]


FLOATS = ("f64", "f32")
TOL = {("E", "f64"): 2, ("E", "f32"): 3, ("S", "f64"): 20, ("S", "f32"): 120000, ("N", "f64"): 2, ("N", "f32"): 3}


class Scn:
    """One scenario. u: distance units per grid unit; den: 0 for a plane grid, otherwise the grid is
    degrees/den on the sphere."""

    def __init__(self, sid, u=1000, den=0):
        self.id, self.u, self.den = sid, u, den
        self.data, self.hs, self.ev, self.lines = [], [], [], []

    # -- quadtrees and data
    def tree(self, kind="pt", num="f64", calc="E", b=(0, 0, 16, 16), md=4, mc=4, rep="cu", ctor="new",
             off=0, s=1, cdep=None, exact=None, rough=False):
        w, h = b[2] - b[0], b[3] - b[1]
        pow2 = lambda n: n > 0 and n & (n - 1) == 0
        if exact is None:
            exact = pow2(w) and pow2(h) and self.den == 0
        if cdep is None:
            cdep = 0
            while cdep < md and w % (2 << cdep) == 0 and h % (2 << cdep) == 0 and cdep < 20:
                cdep += 1
            if num not in FLOATS:
                cdep = 300
        eo, es = 100 * off, 100 * s
        if rough:
            exact = False
        if rough or self.den or eo != int(eo) or es != int(es) or abs(eo) + abs(es) * max(map(abs, b)) > 1e9:
            eo, es, cdep = 0, 0, -1
        h = dict(kind=kind, int=num not in FLOATS, num=num, calc=calc, b=list(b), md=md, mc=mc,
                 tol=TOL.get((calc, num), 2), eo=int(eo), es=int(es), cdep=cdep, exact=bool(exact), rough=bool(rough))
        self.hs.append(h)
        i = len(self.hs)
        self.lines.append(f"T {i} {kind} {num} {calc} {float(off)!r} {float(s)!r} {self.den} "
                          f"{b[0]} {b[1]} {b[2]} {b[3]} {md} {mc} {rep} {ctor}")
        return i

    def datum(self, g):
        self.data.append(g)
        self.lines.append(f"D {len(self.data)} {gtok(g)}")
        return len(self.data)

    # -- events
    def _ev(self, line, **e):
        d = dict(op="", h=0, i=0, j=0, g=NOG, g2=NOG, k=0, R=0, dr=0, calc="", num="", what="", tol=0)
        d.update(e)
        self.ev.append(d)
        self.lines.append(f"O {len(self.ev)} {line}")

    def ins(self, h, i):
        self._ev(f"ins {h} {i}", op="ins", h=h, i=i)

    def add(self, h, g):
        i = self.datum(g)
        self.ins(h, i)
        return i

    def bulk(self, h, i, j, step=1):
        while math.gcd(step, j + 1 - i) > 1:
            step += 1
        self._ev(f"bulk {h} {i} {j} {step}", op="bulk", h=h, i=i, j=j)

    def size(self, h):
        self._ev(f"size {h}", op="size", h=h)

    def iter(self, h, lim=-1):
        self._ev(f"iter {h} {lim}", op="iter", h=h)

    def disp(self, h):
        self._ev(f"disp {h}", op="disp", h=h)

    def retr(self, h, g):
        self._ev(f"retr {h} {gtok(g)}", op="retr", h=h, g=g)

    def find(self, h, g, rep="raw"):
        self._ev(f"find {h} {rep} {gtok(g)}", op="find", h=h, g=g, R=INF)

    def findr(self, h, g, R, rep="raw", dr=0):
        self._ev(f"findr {h} {R} {dr} {rep} {gtok(g)}", op="findr", h=h, g=g, R=R, dr=dr)

    def knn(self, h, g, k, rep="raw"):
        self._ev(f"knn {h} {k} {rep} {gtok(g)}", op="knn", h=h, g=g, k=k, R=INF)

    def knnr(self, h, g, k, R, rep="raw", dr=0):
        self._ev(f"knnr {h} {k} {R} {dr} {rep} {gtok(g)}", op="knnr", h=h, g=g, k=k, R=R, dr=dr)

    def sorted(self, h, g, k=-1, rep="raw"):
        self._ev(f"sorted {h} {k} {rep} {gtok(g)}", op="sorted", h=h, g=g, k=k)

    def dist(self, calc, num, g, g2, off=0, s=1):
        self._ev(f"dist {calc} {num} {float(off)!r} {float(s)!r} {self.den} {gtok(g)} {gtok(g2)}",
                 op="dist", g=g, g2=g2, calc=calc, num=num, tol=TOL[(calc, num)])

    def torad(self, num, g):
        self._ev(f"torad {num} {self.den} {gtok(g)}", op="torad", g=g, num=num,
                 tol=2 if num == "f64" else 150)

    def conv(self, num, what, g, off=0, s=1):
        self._ev(f"conv {num} {what} {float(off)!r} {float(s)!r} {gtok(g)}", op="conv", g=g, num=num, what=what)

    # -- texts
    def text(self):
        return "\n".join([f"S {self.id} {self.u}"] + self.lines) + "\n"

    def trace(self):
        return json.dumps(dict(id=self.id, u=self.u, den=self.den, data=self.data, hs=self.hs, ev=self.ev),
                          separators=(",", ":"))
