//! Executes scenarios on the real quadtree crate, through its public API only, and logs one JSON
//! result per operation. It holds no oracle: what a result should be is decided by spec/Trace.tla.
//!
//! Input (file given as first argument), whitespace separated tokens, one item per line:
//!   S <name> <u>                                     start of scenario; u = distance units per grid unit
//!   T <h> <kind> <num> <calc> <off> <s> <den> <x1> <y1> <x2> <y2> <md> <mc> <rep> <ctor>
//!   D <i> <geom>
//!   O <n> <op> ...                                   see `run_op`
//! Output: R <name> <n> <json>

use geo::{Coord, GeoNum, Line, LineString, Point, Polygon, Rect, coord};
use quadtree::{
    AsGeom, AsPoint, BoundsQuadTree, CalcMethod, DistEuclidean, DistHaversine, Error, Geometry,
    GeometryRef, PointQuadTree, QtFloat, QuadTree, QuadTreeSearch, ToRadians,
};
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- geometry on the grid

#[derive(Clone, Debug)]
struct G {
    k: String,
    c: Vec<(i64, i64)>,
    h: Vec<Vec<(i64, i64)>>,
}

struct Toks<'a>(std::str::SplitWhitespace<'a>);

impl<'a> Toks<'a> {
    fn s(&mut self) -> &'a str {
        self.0.next().expect("token")
    }
    fn i(&mut self) -> i64 {
        self.s().parse().expect("int")
    }
    fn f(&mut self) -> f64 {
        self.s().parse().expect("float")
    }
    fn ring(&mut self) -> Vec<(i64, i64)> {
        let n = self.i();
        (0..n).map(|_| (self.i(), self.i())).collect()
    }
    fn g(&mut self) -> G {
        let k = self.s().to_owned();
        let c = self.ring();
        let nh = self.i();
        let h = (0..nh).map(|_| self.ring()).collect();
        G { k, c, h }
    }
}

/// How grid coordinates become real ones: off + s * k, or (k / den) degrees in radians if den > 0.
#[derive(Clone, Copy, Debug)]
struct Emb {
    off: f64,
    s: f64,
    den: i64,
}

const NAN: i64 = 99999;
const INF: i64 = 99998;
const MANY: usize = 1_000_000_000;

trait Num: GeoNum + Display + Debug + Send + Sync + 'static {
    fn emb(k: i64, e: &Emb) -> Self;
    fn to(self) -> f64;
    fn of(v: f64) -> Self;
    /// The number after it, or before it for n < 0.
    fn next(self, n: i64) -> Self;
}
macro_rules! num_float { ($($t:ty),*) => { $(impl Num for $t {
    fn emb(k: i64, e: &Emb) -> Self {
        match k {
            NAN => return <$t>::NAN,
            INF => return <$t>::INFINITY,
            k if k == -INF => return <$t>::NEG_INFINITY,
            _ => (),
        }
        if e.den > 0 { ((k as f64 / e.den as f64) as $t).to_radians() } else { (e.off + e.s * k as f64) as $t }
    }
    fn to(self) -> f64 { self as f64 }
    fn of(v: f64) -> Self { v as $t }
    fn next(self, n: i64) -> Self {
        match n {
            0 => self,
            1.. => self.next_up(),
            _ => self.next_down(),
        }
    }
})* } }
macro_rules! num_int { ($($t:ty),*) => { $(impl Num for $t {
    fn emb(k: i64, e: &Emb) -> Self { (e.off as i64 + e.s as i64 * k) as $t }
    fn to(self) -> f64 { self as f64 }
    fn of(v: f64) -> Self { v as $t }
    fn next(self, n: i64) -> Self { self + n as $t }
})* } }
num_float!(f64, f32);
num_int!(i16, i32, i64, i128, isize);

fn co<T: Num>(p: (i64, i64), e: &Emb) -> Coord<T> {
    Coord { x: T::emb(p.0, e), y: T::emb(p.1, e) }
}
fn ls<T: Num>(r: &[(i64, i64)], e: &Emb) -> LineString<T> {
    LineString::new(r.iter().map(|p| co(*p, e)).collect())
}
fn mk<T: Num>(g: &G, e: &Emb) -> Geometry<T> {
    match g.k.as_str() {
        "pt" => Geometry::Point(Point::from(co(g.c[0], e))),
        "ln" => Geometry::Line(Line::new(co::<T>(g.c[0], e), co::<T>(g.c[1], e))),
        "ls" => Geometry::LineString(ls(&g.c, e)),
        "pg" => Geometry::Polygon(Polygon::new(ls(&g.c, e), g.h.iter().map(|r| ls(r, e)).collect())),
        "rc" => Geometry::Rect(Rect::new(co::<T>(g.c[0], e), co::<T>(g.c[1], e))),
        k => panic!("kind {k}"),
    }
}

// ---------------------------------------------------------------- representations of data

/// A user type: carries an identity, and a geometry or point.
#[derive(Debug)]
struct Cu<T: GeoNum> {
    id: usize,
    g: Geometry<T>,
}
impl<T: GeoNum> AsGeom<T> for Cu<T> {
    fn as_geom(&self) -> GeometryRef<'_, T> {
        self.g.as_geom()
    }
}
impl<T: GeoNum> AsPoint<T> for Cu<T> {
    fn as_point(&self) -> Point<T> {
        match &self.g {
            Geometry::Point(p) => *p,
            _ => panic!("not a point"),
        }
    }
}

enum Key {
    Id(usize),
    Val(String),
}

trait Dat<T: Num>: Sized + 'static {
    fn make(id: usize, g: Geometry<T>) -> Self;
    fn key(&self) -> Key;
}
impl<T: Num> Dat<T> for Cu<T> {
    fn make(id: usize, g: Geometry<T>) -> Self {
        Cu { id, g }
    }
    fn key(&self) -> Key {
        Key::Id(self.id)
    }
}
macro_rules! dat_raw { ($($v:ident),*) => { $(impl<T: Num> Dat<T> for $v<T> {
    fn make(_: usize, g: Geometry<T>) -> Self { match g { Geometry::$v(x) => x, _ => panic!("raw kind") } }
    fn key(&self) -> Key { Key::Val(format!("{:?}", self)) }
})* } }
dat_raw!(Point, Line, LineString, Polygon, Rect);
impl<T: Num> Dat<T> for Coord<T> {
    fn make(_: usize, g: Geometry<T>) -> Self {
        match g {
            Geometry::Point(p) => p.0,
            _ => panic!("raw kind"),
        }
    }
    fn key(&self) -> Key {
        Key::Val(format!("{:?}", self))
    }
}
impl<T: Num> Dat<T> for Geometry<T> {
    fn make(_: usize, g: Geometry<T>) -> Self {
        g
    }
    fn key(&self) -> Key {
        Key::Val(format!("{:?}", self))
    }
}
impl<T: Num> Dat<T> for GeometryRef<'static, T> {
    fn make(_: usize, g: Geometry<T>) -> Self {
        let g: &'static Geometry<T> = Box::leak(Box::new(g));
        g.as_geom()
    }
    fn key(&self) -> Key {
        Key::Val(format!("{:?}", self))
    }
}

/// Maps data in results back to the ids they were inserted with. Equal raw values are
/// interchangeable, so the j-th occurrence in a result is the j-th inserted; 0 is unknown.
#[derive(Default)]
struct Ids {
    acc: HashMap<String, Vec<usize>>,
    rej: HashMap<String, Vec<usize>>,
}
impl Ids {
    fn note(&mut self, k: Key, id: usize, ok: bool) {
        if let Key::Val(s) = k {
            let m = if ok { &mut self.acc } else { &mut self.rej };
            m.entry(s).or_default().push(id);
        }
    }
    fn map<'a, T: Num, D: Dat<T>>(&self, v: impl Iterator<Item = &'a D>) -> Vec<i64> {
        let mut used: HashMap<String, usize> = HashMap::new();
        v.map(|d| match d.key() {
            Key::Id(i) => i as i64,
            Key::Val(s) => {
                let n = used.entry(s.clone()).or_default();
                let a = self.acc.get(&s).map(|v| v.as_slice()).unwrap_or(&[]);
                let r = self.rej.get(&s).map(|v| v.as_slice()).unwrap_or(&[]);
                let id = a.iter().chain(r).nth(*n).copied().unwrap_or(0);
                *n += 1;
                id as i64
            }
        })
        .collect()
    }
}

// ---------------------------------------------------------------- results

#[derive(Default, Clone)]
struct Res {
    r: String,
    n: i64,
    ids: Vec<i64>,
    ids2: Vec<i64>,
    ds: Vec<i64>,
    rows: Vec<Vec<i64>>,
}
impl Res {
    fn ok() -> Self {
        Res { r: "ok".into(), ..Default::default() }
    }
    fn r(s: &str) -> Self {
        Res { r: s.into(), ..Default::default() }
    }
    fn err(e: Error) -> Self {
        Res { r: format!("{e:?}"), ..Default::default() }
    }
    fn json(&self) -> String {
        format!(
            "{{\"r\":\"{}\",\"n\":{},\"ids\":{:?},\"ids2\":{:?},\"ds\":{:?},\"rows\":{:?}}}",
            self.r, self.n, self.ids, self.ids2, self.ds, self.rows
        )
    }
}

/// Distances as integers: rounded to the unit; -1 negative, -2 NaN, -3 infinite.
fn enc(d: f64, unit: f64) -> i64 {
    if d.is_nan() {
        -2
    } else if d.is_infinite() {
        -3
    } else if d < 0.0 {
        -1
    } else {
        (d * unit).round().min(2.0e9) as i64
    }
}
fn enc_r<T: QtFloat>(r: Result<T, Error>, unit: f64) -> i64 {
    match r {
        Ok(d) => enc(d.to_f64().unwrap(), unit),
        Err(Error::InvalidDistance) => -10,
        Err(Error::CalcMethodNotSet) => -11,
        Err(_) => -19,
    }
}

fn hundredths(s: &str) -> Option<i64> {
    let neg = s.starts_with('-');
    let s = s.trim_start_matches('-');
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    let a: i64 = a.parse().ok()?;
    let b: i64 = format!("{:0<2}", b).get(0..2)?.parse().ok()?;
    let v = (a.min(20_000_000)) * 100 + b;
    Some(if neg { -v } else { v })
}
/// One row per line of the display after the title: depth, x*100, y*100, number of data.
fn rows(text: &str) -> Vec<Vec<i64>> {
    text.lines()
        .skip(1)
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let ind = l.len() - l.trim_start().len();
            let p = || -> Option<Vec<i64>> {
                if ind % 4 != 0 {
                    return None;
                }
                let (xy, rest) = l.trim_start().strip_prefix('(')?.split_once(')')?;
                let (x, y) = xy.split_once(',')?;
                let n = rest.trim_start_matches(':').trim();
                let n: i64 = if n.is_empty() { 0 } else { n.split_whitespace().next()?.parse().ok()? };
                Some(vec![ind as i64 / 4, hundredths(x.trim())?, hundredths(y.trim())?, n])
            };
            p().unwrap_or_else(|| vec![-1, 0, 0, 0])
        })
        .collect()
}

/// Polls an exhausted iterator a few more times, counting what it still yields.
fn extra<I: Iterator>(it: &mut I) -> i64 {
    (0..3).filter(|_| it.next().is_some()).count() as i64
}

/// How many of the other ways to consume the iterator give something else than calling next().
fn ways<A: PartialEq + Copy, I: Iterator>(v: &[A], mk: impl Fn() -> I, key: impl Fn(I::Item) -> A) -> i64 {
    if v.len() > 300 {
        return 0;
    }
    let n = v.len();
    let mut bad = 0;
    let mut w: Vec<A> = vec![];
    mk().for_each(|x| w.push(key(x)));
    bad += (w != v) as i64;
    bad += (mk().count() != n) as i64;
    bad += (mk().last().map(&key) != v.last().copied()) as i64;
    bad += (mk().nth(n).is_some()) as i64;
    // two of them at once, one ahead of the other
    let (mut a, mut b) = (mk(), mk());
    let mut w: Vec<A> = a.next().map(&key).into_iter().collect();
    let mut w2: Vec<A> = vec![];
    for _ in 0..n {
        w.extend(a.next().map(&key));
        w2.extend(b.next().map(&key));
    }
    bad += (w != v) as i64 + (w2 != v) as i64 + (b.next().is_some()) as i64;
    for k in [0, 1, n / 2] {
        let mut it = mk();
        let (lo, hi) = it.size_hint();
        bad += (lo > n || hi.is_some_and(|h| h < n)) as i64;
        let mut w: Vec<A> = it.by_ref().take(k).map(&key).collect();
        if w.len() > n {
            return bad + 1;
        }
        let left = n - w.len();
        let (lo, hi) = it.size_hint();
        bad += (lo > left || hi.is_some_and(|h| h < left)) as i64;
        if left > 1 {
            w.extend(&v[w.len()..w.len() + 1]);
            w.extend(it.nth(1).map(&key));
        }
        it.for_each(|x| w.push(key(x)));
        bad += (w != v) as i64;
    }
    bad
}

const CAP: usize = 1_000_000; // an iterator yielding more than this never ends

// ---------------------------------------------------------------- operations on a tree

struct Cfg {
    emb: Emb,
    unit: f64, // distance units per real unit
    u: f64,
    calc: CalcMethod,
}

#[derive(Clone)]
enum Op {
    Ins(usize, G),
    Bulk(Vec<(usize, G)>),
    Size,
    Iter(i64),
    Retr(G),
    Disp,
    Find(String, G),
    FindR((i64, i64), String, G),
    Knn(i64, String, G),
    KnnR(i64, (i64, i64), String, G),
    Sorted(i64, String, G),
    Noop,
}

fn base_op<Q, D, T>(q: &mut Q, ids: &mut Ids, op: &Op, e: &Emb) -> Res
where
    T: Num,
    D: Dat<T>,
    Q: QuadTree<D, T> + Display,
    for<'a> &'a Q: IntoIterator<Item = &'a D>,
{
    match op {
        Op::Ins(i, g) => {
            let d = D::make(*i, mk(g, e));
            let k = d.key();
            let r = q.insert(d);
            ids.note(k, *i, r.is_ok());
            match r {
                Ok(()) => Res::ok(),
                Err(e) => Res::err(e),
            }
        }
        Op::Bulk(v) => {
            let mut res = Res::ok();
            for (i, g) in v {
                let d = D::make(*i, mk(g, e));
                let k = d.key();
                let r = q.insert(d);
                ids.note(k, *i, r.is_ok());
                if r.is_err() {
                    res.ids.push(*i as i64);
                }
            }
            res
        }
        Op::Size => Res { n: q.size() as i64, ..Res::ok() },
        Op::Iter(lim) => {
            for _ in (&*q).into_iter().take((*lim).max(0) as usize) {}
            let mut it = (&*q).into_iter();
            let v: Vec<&D> = it.by_ref().take(CAP).collect();
            let n = extra(&mut it);
            let v2: Vec<&D> = (&*q).into_iter().take(CAP).collect();
            if v.len() == CAP {
                return Res::r("endless");
            }
            let at: Vec<*const D> = v.iter().map(|d| *d as *const D).collect();
            let n = n + ways(&at, || (&*q).into_iter(), |d| d as *const D);
            Res { n, ids: ids.map(v.into_iter()), ids2: ids.map(v2.into_iter()), ..Res::ok() }
        }
        Op::Retr(g) => {
            let d = D::make(0, mk(g, e));
            let mut it = q.retrieve(&d);
            let v: Vec<&D> = it.by_ref().take(CAP).collect();
            let n = extra(&mut it);
            if v.len() == CAP {
                return Res::r("endless");
            }
            let at: Vec<*const D> = v.iter().map(|d| *d as *const D).collect();
            let n = n + ways(&at, || q.retrieve(&d), |d| d as *const D);
            Res { n, ids: ids.map(v.into_iter()), ..Res::ok() }
        }
        Op::Disp => Res { rows: rows(&format!("{q}")), ..Res::ok() },
        Op::Noop => Res::ok(),
        _ => Res::r("unsupported"),
    }
}

fn search_x<Q, D, T, X>(q: &Q, ids: &Ids, op: &Op, x: &X, c: &Cfg) -> Res
where
    T: Num + QtFloat,
    D: Dat<T> + AsGeom<T>,
    Q: QuadTreeSearch<D, T>,
    X: AsGeom<T>,
{
    let en = |d: T| enc(d.to_f64().unwrap(), c.unit);
    // the radius, or the next number below or above it
    let rad = |(r, next): (i64, i64)| -> T {
        let v = match r {
            INF => f64::INFINITY,
            _ => match c.calc {
                CalcMethod::Spherical => r as f64 * 1e-8,
                _ => r as f64 / c.u * c.emb.s,
            },
        };
        T::of(v).next(next)
    };
    let one = |r: Result<(&D, T), Error>| match r {
        Ok((d, v)) => Res { ids: ids.map([d].into_iter()), ds: vec![en(v)], ..Res::ok() },
        Err(e) => Res::err(e),
    };
    let many = |r: Result<Vec<(&D, T)>, Error>| match r {
        Ok(v) => Res {
            ids: ids.map(v.iter().map(|p| p.0)),
            ds: v.iter().map(|p| en(p.1)).collect(),
            ..Res::ok()
        },
        Err(e) => Res::err(e),
    };
    let k = |k: i64| if k < 0 { usize::MAX } else { k as usize };
    match op {
        Op::Find(..) => one(q.find(x)),
        Op::FindR(r, ..) => one(q.find_r(x, rad(*r))),
        Op::Knn(n, ..) => many(q.knn(x, k(*n))),
        Op::KnnR(n, r, ..) => many(q.knn_r(x, k(*n), rad(*r))),
        Op::Sorted(lim, ..) => {
            let mut it = q.sorted(x);
            let lim = if *lim < 0 { CAP } else { *lim as usize };
            let v: Vec<(&D, T)> = it.by_ref().take(lim).collect();
            if v.len() == CAP {
                return Res::r("endless");
            }
            let mut n = if lim == CAP { extra(&mut it) } else { 0 };
            if lim == CAP {
                let at: Vec<T> = v.iter().map(|p| p.1).collect();
                n += ways(&at, || q.sorted(x), |p| p.1);
            }
            Res { n, ..many(Ok(v)) }
        }
        _ => unreachable!(),
    }
}

fn search_op<Q, D, T>(q: &Q, ids: &Ids, op: &Op, c: &Cfg) -> Res
where
    T: Num + QtFloat,
    D: Dat<T> + AsGeom<T>,
    Q: QuadTreeSearch<D, T>,
{
    let (rep, g) = match op {
        Op::Find(p, g) | Op::FindR(_, p, g) | Op::Knn(_, p, g) | Op::KnnR(_, _, p, g) | Op::Sorted(_, p, g) => (p, g),
        _ => unreachable!(),
    };
    let x: Geometry<T> = mk(g, &c.emb);
    match rep.as_str() {
        "own" => search_x(q, ids, op, &x, c),
        "ref" => search_x(q, ids, op, &x.as_geom(), c),
        "cu" => search_x(q, ids, op, &Cu { id: 0, g: x }, c),
        _ => match x {
            Geometry::Point(x) => search_x(q, ids, op, &x, c),
            Geometry::Line(x) => search_x(q, ids, op, &x, c),
            Geometry::LineString(x) => search_x(q, ids, op, &x, c),
            Geometry::Polygon(x) => search_x(q, ids, op, &x, c),
            Geometry::Rect(x) => search_x(q, ids, op, &x, c),
        },
    }
}

fn is_search(op: &Op) -> bool {
    matches!(op, Op::Find(..) | Op::FindR(..) | Op::Knn(..) | Op::KnnR(..) | Op::Sorted(..))
}

type Tree = Box<dyn FnMut(&Op) -> Res>;

fn new_pt<D: AsPoint<T>, T: Num>(b: Rect<T>, c: CalcMethod, md: u8, mc: usize, ctor: &str) -> PointQuadTree<D, T> {
    match ctor {
        "from" => PointQuadTree::from_bounds(b, c),
        _ => PointQuadTree::new(b, c, md, mc),
    }
}
fn new_bd<D: AsGeom<T>, T: Num>(b: Rect<T>, c: CalcMethod, md: u8, mc: usize, ctor: &str) -> BoundsQuadTree<D, T> {
    match ctor {
        "from" => BoundsQuadTree::from_bounds(b, c),
        _ => BoundsQuadTree::new(b, c, md, mc),
    }
}

macro_rules! with_search {
    ($q:expr, $cfg:expr) => {{
        let (mut q, cfg, mut ids) = ($q, $cfg, Ids::default());
        Box::new(move |op: &Op| {
            if is_search(op) { search_op(&q, &ids, op, &cfg) } else { base_op(&mut q, &mut ids, op, &cfg.emb) }
        }) as Tree
    }};
}
macro_rules! no_search {
    ($q:expr, $cfg:expr) => {{
        let (mut q, cfg, mut ids) = ($q, $cfg, Ids::default());
        Box::new(move |op: &Op| base_op(&mut q, &mut ids, op, &cfg.emb)) as Tree
    }};
}
macro_rules! by_rep {
    ($wrap:ident, $t:ty, $kind:expr, $rep:expr, $b:expr, $md:expr, $mc:expr, $ctor:expr, $cfg:expr) => {{
        let (calc, md, mc, ctor) = ($cfg.calc, $md, $mc, $ctor);
        match ($kind, $rep) {
            ("pt", "cu") => $wrap!(new_pt::<Cu<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("pt", "raw") => $wrap!(new_pt::<Point<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("pt", "coord") => no_search!(new_pt::<Coord<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "cu") => $wrap!(new_bd::<Cu<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "own") => $wrap!(new_bd::<Geometry<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "ref") => $wrap!(new_bd::<GeometryRef<'static, $t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "pt") => $wrap!(new_bd::<Point<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "ln") => $wrap!(new_bd::<Line<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "ls") => $wrap!(new_bd::<LineString<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "pg") => $wrap!(new_bd::<Polygon<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            ("bd", "rc") => $wrap!(new_bd::<Rect<$t>, $t>($b, calc, md, mc, ctor), $cfg),
            (k, r) => panic!("rep {k} {r}"),
        }
    }};
}

fn calc_of(s: &str) -> CalcMethod {
    match s {
        "E" => CalcMethod::Euclidean,
        "S" => CalcMethod::Spherical,
        _ => CalcMethod::None,
    }
}

fn make_tree(t: &mut Toks, u: f64) -> Tree {
    let (kind, num, calc) = (t.s(), t.s(), calc_of(t.s()));
    let emb = Emb { off: t.f(), s: t.f(), den: t.i() };
    let (a, b) = ((t.i(), t.i()), (t.i(), t.i()));
    let (md, mc, rep, ctor) = (t.i() as u8, t.i() as usize, t.s(), t.s());
    let mc = if mc >= MANY { usize::MAX } else { mc };
    let unit = match calc {
        CalcMethod::Spherical => 1e8,
        _ => u / emb.s,
    };
    let cfg = Cfg { emb, unit, u, calc };
    macro_rules! go {
        ($wrap:ident, $t:ty) => {{
            let b = Rect::new(co::<$t>(a, &cfg.emb), co::<$t>(b, &cfg.emb));
            by_rep!($wrap, $t, kind, rep, b, md, mc, ctor, cfg)
        }};
    }
    macro_rules! go_int {
        ($t:ty) => {{
            let b = Rect::new(co::<$t>(a, &cfg.emb), co::<$t>(b, &cfg.emb));
            let calc = cfg.calc;
            match (kind, rep) {
                ("pt", "cu") => no_search!(new_pt::<Cu<$t>, $t>(b, calc, md, mc, ctor), cfg),
                ("pt", "raw") => no_search!(new_pt::<Point<$t>, $t>(b, calc, md, mc, ctor), cfg),
                ("bd", "cu") => no_search!(new_bd::<Cu<$t>, $t>(b, calc, md, mc, ctor), cfg),
                ("bd", "own") => no_search!(new_bd::<Geometry<$t>, $t>(b, calc, md, mc, ctor), cfg),
                ("bd", "rc") => no_search!(new_bd::<Rect<$t>, $t>(b, calc, md, mc, ctor), cfg),
                (k, r) => panic!("rep {k} {r}"),
            }
        }};
    }
    match num {
        "f64" => go!(with_search, f64),
        "f32" => go!(with_search, f32),
        "i16" => go_int!(i16),
        "i32" => go_int!(i32),
        "i64" => go_int!(i64),
        "i128" => go_int!(i128),
        "isize" => go_int!(isize),
        n => panic!("num {n}"),
    }
}

// ---------------------------------------------------------------- operations without a tree

/// Every way to ask for the distance from `a` to `b`.
fn dist_all<T: Num + QtFloat>(calc: &str, a: &Geometry<T>, b: &Geometry<T>, unit: f64) -> Vec<i64> {
    let (ra, rb) = (a.as_geom(), b.as_geom());
    let mut v: Vec<Result<T, Error>> = vec![];
    macro_rules! plain {
        ($m:ident, $w:expr) => {
            match a {
                Geometry::Point(x) => { v.push($w(x.$m(&rb))); v.push($w(x.$m(b))) }
                Geometry::Line(x) => { v.push($w(x.$m(&rb))); v.push($w(x.$m(b))) }
                Geometry::LineString(x) => { v.push($w(x.$m(&rb))); v.push($w(x.$m(b))) }
                Geometry::Polygon(x) => { v.push($w(x.$m(&rb))); v.push($w(x.$m(b))) }
                Geometry::Rect(x) => { v.push($w(x.$m(&rb))); v.push($w(x.$m(b))) }
            }
            v.push($w(ra.$m(&rb)));
            v.push($w(ra.$m(b)));
            v.push($w(a.$m(&rb)));
            v.push($w(a.$m(b)));
        };
    }
    match calc {
        "E" => { plain!(dist_euclidean, Ok); }
        "S" => { plain!(dist_haversine, |x| x); }
        _ => (),
    }
    let m = calc_of(calc);
    v.push(a.with_calc(m).dist_geom(&rb));
    v.push(ra.into_calc(m).dist_geom(&rb));
    if let Geometry::Rect(r) = b {
        v.push(a.with_calc(m).dist_bbox(r));
    }
    v.into_iter().map(|r| enc_r(r, unit)).collect()
}

fn flat<T: Num>(g: &Geometry<T>, unit: f64, off: f64) -> (String, Vec<Vec<i64>>) {
    let mut out = vec![];
    let mut put = |ring: i64, c: &Coord<T>| {
        let e = |v: T| {
            let v = (v.to() - off) * unit;
            if v.is_finite() { v.round().clamp(-2.0e9, 2.0e9) as i64 } else { 2_000_000_001 }
        };
        out.push(vec![ring, e(c.x), e(c.y)])
    };
    let k = match g {
        Geometry::Point(p) => { put(0, &p.0); "pt" }
        Geometry::Line(l) => { put(0, &l.start); put(0, &l.end); "ln" }
        Geometry::LineString(l) => { l.0.iter().for_each(|c| put(0, c)); "ls" }
        Geometry::Polygon(p) => {
            p.exterior().0.iter().for_each(|c| put(0, c));
            for (i, r) in p.interiors().iter().enumerate() {
                r.0.iter().for_each(|c| put(i as i64 + 1, c));
            }
            "pg"
        }
        Geometry::Rect(r) => { put(0, &r.min()); put(0, &r.max()); "rc" }
    };
    (k.to_owned(), out)
}

/// Degrees to radians, by copy and in place, on the plain type and on the enum. rows: the copy of
/// the plain type; n: how many of the other three differ from it.
fn to_rad<T: Num + QtFloat>(g: &Geometry<T>) -> Res {
    macro_rules! plain {
        ($x:expr) => {{
            let c = $x.to_radians();
            let mut m = $x.clone();
            m.to_radians_in_place();
            (Geometry::from(c), Geometry::from(m))
        }};
    }
    let (a, b): (Geometry<T>, Geometry<T>) = match g {
        Geometry::Point(x) => plain!(x),
        Geometry::Line(x) => plain!(x),
        Geometry::LineString(x) => plain!(x),
        Geometry::Polygon(x) => plain!(x),
        Geometry::Rect(x) => plain!(x),
    };
    let c = g.to_radians();
    let mut d = g.clone();
    d.to_radians_in_place();
    let (r, rows) = flat(&a, 1e8, 0.0);
    let f = format!("{a:?}");
    let n = [b, c, d].iter().filter(|x| format!("{x:?}") != f).count() as i64;
    Res { r, rows, n, ..Default::default() }
}

/// From the general geometry type. n: 0 if the enum, the reference and `From` of the plain type all
/// agree on the value; ds: the bounding box, by the enum and by the reference (none: empty).
fn conv<T: Num + QtFloat>(what: &str, g: &G, e: &Emb) -> Res {
    use geo::{BoundingRect, GeometryCollection, MultiLineString, MultiPoint, MultiPolygon, Triangle};
    let x: Geometry<T> = mk(g, e);
    let pts = || g.c.iter().map(|p| co::<T>(*p, e)).collect::<Vec<_>>();
    let gg: geo::Geometry<T> = match what {
        "mpt" => MultiPoint(pts().into_iter().map(Point::from).collect()).into(),
        "mls" => MultiLineString(vec![LineString::new(pts())]).into(),
        "mpg" => MultiPolygon(vec![Polygon::new(LineString::new(pts()), vec![])]).into(),
        "gc" => geo::Geometry::GeometryCollection(GeometryCollection(vec![geo::Geometry::Point(Point::from(pts()[0]))])),
        "tri" => Triangle::from([pts()[0], pts()[1], pts()[2]]).into(),
        _ => match &x {
            Geometry::Point(d) => (*d).into(),
            Geometry::Line(d) => (*d).into(),
            Geometry::LineString(d) => d.clone().into(),
            Geometry::Polygon(d) => d.clone().into(),
            Geometry::Rect(d) => (*d).into(),
        },
    };
    match Geometry::try_from(gg) {
        Err(e) => Res::err(e),
        Ok(y) => {
            let (r, rows) = flat(&y, 1.0 / e.s, e.off);
            let direct: Geometry<T> = match x.clone() {
                Geometry::Point(d) => d.into(),
                Geometry::Line(d) => d.into(),
                Geometry::LineString(d) => d.into(),
                Geometry::Polygon(d) => d.into(),
                Geometry::Rect(d) => d.into(),
            };
            let plain = match &x {
                Geometry::Point(d) => format!("{:?}", d.as_geom()),
                Geometry::Line(d) => format!("{:?}", d.as_geom()),
                Geometry::LineString(d) => format!("{:?}", d.as_geom()),
                Geometry::Polygon(d) => format!("{:?}", d.as_geom()),
                Geometry::Rect(d) => format!("{:?}", d.as_geom()),
            };
            let n = (format!("{direct:?}") != format!("{y:?}")) as i64
                + (plain != format!("{:?}", y.as_geom())) as i64
                + (plain != format!("{:?}", y.as_geom().as_geom())) as i64;
            let mut ds = vec![];
            for b in [y.bounding_rect(), y.as_geom().bounding_rect()] {
                if let Some(b) = b {
                    for v in [b.min().x, b.min().y, b.max().x, b.max().y] {
                        ds.push(((Num::to(v) - e.off) / e.s).round() as i64);
                    }
                }
            }
            Res { r, rows, n, ds, ..Default::default() }
        }
    }
}

fn free_op(op: &str, t: &mut Toks, u: f64) -> Res {
    macro_rules! by_num {
        ($num:expr, $t:ident => $e:expr) => {
            match $num {
                "f32" => { type $t = f32; $e }
                _ => { type $t = f64; $e }
            }
        };
    }
    match op {
        "dist" => {
            let (calc, num) = (t.s(), t.s());
            let e = Emb { off: t.f(), s: t.f(), den: t.i() };
            let (a, b) = (t.g(), t.g());
            let unit = if e.den > 0 { 1e8 } else { u / e.s };
            by_num!(num, N => Res { ds: dist_all::<N>(calc, &mk(&a, &e), &mk(&b, &e), unit), ..Res::ok() })
        }
        "torad" => {
            let num = t.s();
            let den = t.i();
            let g = t.g();
            let e = Emb { off: 0.0, s: 1.0 / den as f64, den: 0 };
            by_num!(num, N => to_rad::<N>(&mk(&g, &e)))
        }
        "conv" => {
            let (num, what) = (t.s(), t.s());
            let e = Emb { off: t.f(), s: t.f(), den: 0 };
            let g = t.g();
            by_num!(num, N => conv::<N>(what, &g, &e))
        }
        o => panic!("op {o}"),
    }
}

// ---------------------------------------------------------------- driver

static STARTED: AtomicU64 = AtomicU64::new(0); // ms since start + 1 of the running operation, 0: none
static CUR: Mutex<String> = Mutex::new(String::new());
static T0: OnceLock<Instant> = OnceLock::new();
const OP_LIMIT_MS: u64 = 30_000;

fn emit(name: &str, n: i64, r: &Res) {
    let mut o = std::io::stdout().lock();
    writeln!(o, "R {name} {n} {}", r.json()).unwrap();
    o.flush().unwrap();
}

fn work(text: String) {
    let mut name = String::new();
    let mut u = 1000.0;
    let mut trees: HashMap<i64, Tree> = HashMap::new();
    let mut data: HashMap<usize, G> = HashMap::new();
    for line in text.lines() {
        let mut t = Toks(line.split_whitespace());
        let Some(tag) = t.0.next() else { continue };
        match tag {
            "S" => {
                name = t.s().to_owned();
                u = t.f();
                trees.clear();
                data.clear();
            }
            "T" => {
                let h = t.i();
                // A constructor that panics is reported by the first operation on the tree
                match catch_unwind(AssertUnwindSafe(|| make_tree(&mut t, u))) {
                    Ok(tr) => { trees.insert(h, tr); }
                    Err(_) => { trees.insert(h, Box::new(|_| panic!("constructor"))); }
                }
            }
            "D" => {
                let i = t.i() as usize;
                data.insert(i, t.g());
            }
            "O" => {
                let n = t.i();
                let o = t.s();
                *CUR.lock().unwrap() = format!("{name} {n}");
                STARTED.store(T0.get().unwrap().elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                let res = if matches!(o, "dist" | "torad" | "conv") {
                    catch_unwind(AssertUnwindSafe(|| free_op(o, &mut t, u)))
                } else {
                    let h = t.i();
                    let op = match o {
                        "ins" => { let i = t.i() as usize; Op::Ins(i, data[&i].clone()) }
                        "bulk" => {
                            // every step-th of them, around and around
                            let (a, b, step) = (t.i() as usize, t.i() as usize, t.i() as usize);
                            let n = b + 1 - a;
                            Op::Bulk((0..n).map(|j| a + j * step % n).map(|i| (i, data[&i].clone())).collect())
                        }
                        "size" => Op::Size,
                        "iter" => Op::Iter(t.i()),
                        "retr" => Op::Retr(t.g()),
                        "disp" => Op::Disp,
                        "find" => Op::Find(t.s().into(), t.g()),
                        "findr" => Op::FindR((t.i(), t.i()), t.s().into(), t.g()),
                        "knn" => Op::Knn(t.i(), t.s().into(), t.g()),
                        "knnr" => Op::KnnR(t.i(), (t.i(), t.i()), t.s().into(), t.g()),
                        "sorted" => Op::Sorted(t.i(), t.s().into(), t.g()),
                        _ => Op::Noop,
                    };
                    let tr = trees.get_mut(&h).expect("tree");
                    catch_unwind(AssertUnwindSafe(|| tr(&op)))
                };
                STARTED.store(0, Ordering::SeqCst);
                emit(&name, n, &res.unwrap_or_else(|_| Res::r("panic")));
            }
            x => panic!("tag {x}"),
        }
    }
}

fn main() {
    let _ = coord! {x: 0.0, y: 0.0};
    T0.set(Instant::now()).unwrap();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("QT_PANIC").is_ok() {
            eprintln!("{i}");
        }
    }));
    let text = std::fs::read_to_string(std::env::args().nth(1).expect("scenario file")).expect("read");
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || work(text)).unwrap();
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(5));
        let s = STARTED.load(Ordering::SeqCst);
        if s > 0 && T0.get().unwrap().elapsed().as_millis() as u64 > s + OP_LIMIT_MS {
            let cur = CUR.lock().unwrap().clone();
            let (name, n) = cur.split_once(' ').unwrap();
            emit(name, n.parse().unwrap(), &Res::r("hang"));
            std::process::exit(3);
        }
    }
    if h.join().is_err() {
        eprintln!("executor error");
        std::process::exit(2);
    }
    println!("DONE");
}
