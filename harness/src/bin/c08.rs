//! C08: a grid behaves as an array indexed by position

use sqmon::mon::{hash_of, Mon, Rng, U};
use sqmon::search::{UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::{Dir, Grid, Pos};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::Hash;

trait Elem: Clone + Default + Debug + Eq + Ord + Hash + Send + 'static {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
}
impl Elem for i32 {
    const NAME: &'static str = "i32";
    fn gen(r: &mut Rng) -> i32 {
        r.range(-1000, 1000) as i32
    }
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    fn gen(r: &mut Rng) -> u8 {
        r.u64() as u8
    }
}
impl Elem for i64 {
    const NAME: &'static str = "i64";
    fn gen(r: &mut Rng) -> i64 {
        r.u64() as i64 >> 1
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    fn gen(r: &mut Rng) -> String {
        format!("s{}", r.below(5000))
    }
}
impl Elem for Option<Dir> {
    const NAME: &'static str = "Option<Dir>";
    fn gen(r: &mut Rng) -> Self {
        sqmon::model::DIRS.get(r.below(9)).copied()
    }
}
impl Elem for Vec<u16> {
    const NAME: &'static str = "Vec<u16>";
    fn gen(r: &mut Rng) -> Self {
        (0..r.below(4)).map(|_| r.u64() as u16).collect()
    }
}
impl Elem for () {
    const NAME: &'static str = "()";
    fn gen(_: &mut Rng) -> Self {}
}

fn ycoord<P: TP>(h: usize, y: usize) -> P::Ytype {
    let _ = h;
    let Ok(y) = P::Ytype::try_from(y) else { sqmon::fail!("line {y} refused") };
    y
}

/// All the interfaces agree on the content
fn check_all<T: Elem, P: TP, const S: usize>(u: &mut U, g: &Grid<T, P, S>, m: &[T], w: usize, h: usize) {
    u.count("full comparisons", 1);
    ckeq!(g.as_array().as_slice(), m, "as_array");
    let r: &[T; S] = g.as_ref();
    ckeq!(r.as_slice(), m, "as_ref");
    ckeq!(g.iter().count(), m.len(), "number of items in iter");
    for (i, (a, b)) in g.iter().zip(m).enumerate() {
        ckeq!(a, b, "iter, item {i}");
    }
    ck!(g.into_iter().eq(m.iter()), "iteration by reference differs");
    ck!(g.iter().rev().eq(m.iter().rev()), "reverse iteration differs");
    ckeq!(g.iter().len(), m.len(), "length of iter");
    let mut n = 0;
    for (p, v) in g.iter_pos() {
        ckeq!(p.co(), (n % w, n / w), "iter_pos, position {n}");
        ckeq!(*v, m[n], "iter_pos, value at {p:?}");
        ckeq!(*g.get(&p), m[n], "get({p:?})");
        ckeq!(g[p], m[n], "index by position {p:?}");
        ckeq!(g[&p], m[n], "index by reference to position {p:?}");
        n += 1;
    }
    ckeq!(n, m.len(), "number of items in iter_pos");
    for y in 0..h {
        ckeq!(g.line(ycoord::<P>(h, y)), &m[y * w..(y + 1) * w], "line {y}");
    }
}

fn compare<T: Elem, P: TP, const S: usize>(u: &mut U, a: &Grid<T, P, S>, ma: &[T], b: &Grid<T, P, S>, mb: &[T]) {
    let same = ma == mb;
    u.count(if same { "equal pairs" } else { "different pairs" }, 1);
    ckeq!(a == b, same, "==");
    ckeq!(a != b, !same, "!=");
    ckeq!(b == a, same, "== (swapped)");
    ckeq!(a.cmp(b) == Ordering::Equal, same, "cmp is Equal");
    ckeq!(a.cmp(b), b.cmp(a).reverse(), "cmp is antisymmetric");
    ckeq!(a.partial_cmp(b), Some(a.cmp(b)), "partial_cmp");
    if same {
        ckeq!(hash_of(a), hash_of(b), "hash");
    }
}

/// One operation; `op` chooses
fn step<T: Elem, P: TP, const S: usize>(u: &mut U, g: &mut Grid<T, P, S>, m: &mut Vec<T>, w: usize, h: usize) -> &'static str {
    let c = u.rng.below(w * h);
    let (x, y) = (c % w, c / w);
    let p = P::at(x, y);
    let v = T::gen(&mut u.rng);
    match u.rng.below(15) {
        0 => {
            g[p] = v.clone();
            m[c] = v;
            "index_mut"
        }
        1 => {
            g[&p] = v.clone();
            m[c] = v;
            "index_mut by reference"
        }
        2 => {
            *g.get_mut(&p) = v.clone();
            m[c] = v;
            "get_mut"
        }
        3 => {
            let k = u.rng.below(w);
            let line = g.line_mut(ycoord::<P>(h, y));
            ckeq!(line.len(), w, "length of line_mut");
            line[k] = v.clone();
            m[y * w + k] = v;
            "line_mut"
        }
        4 => {
            let line = g.line_mut(ycoord::<P>(h, y));
            for (k, cell) in line.iter_mut().enumerate() {
                *cell = T::gen(&mut u.rng);
                m[y * w + k] = cell.clone();
            }
            "whole line_mut"
        }
        5 => {
            let k = 1 + u.rng.below(5);
            for (i, cell) in g.iter_mut().enumerate() {
                if i % k == 0 {
                    *cell = v.clone();
                    m[i] = v.clone();
                }
            }
            "iter_mut"
        }
        6 => {
            let k = 1 + u.rng.below(5);
            for (i, cell) in (&mut *g).into_iter().rev().enumerate() {
                if i % k == 0 {
                    *cell = v.clone();
                    m[w * h - 1 - i] = v.clone();
                }
            }
            "reverse iteration by mutable reference"
        }
        7 => {
            g.as_array_mut()[c] = v.clone();
            m[c] = v;
            "as_array_mut"
        }
        8 => {
            let a: &mut [T; S] = g.as_mut();
            a[c] = v.clone();
            m[c] = v;
            "as_mut"
        }
        9 => {
            // Repeated positions: the last one wins
            let items: Vec<(usize, T)> =
                (0..if u.rng.pct(80) { u.rng.below(8) } else { u.rng.below(2 * w * h + 8).min(600) }).map(|_| (u.rng.below((w * h).min(6)), T::gen(&mut u.rng))).collect();
            g.extend(u.rng.odd(items.iter().map(|(c, v)| (P::at(c % w, c / w), v.clone()))));
            for (c, v) in items {
                m[c] = v;
            }
            "extend"
        }
        10 => {
            let items: Vec<T> = (0..w * h).map(|_| T::gen(&mut u.rng)).collect();
            *g = u.rng.odd(items.iter().cloned()).collect();
            *m = items;
            "collect"
        }
        11 => {
            let a = g.clone().into_inner();
            ckeq!(a.as_slice(), m.as_slice(), "into_inner");
            let back: Vec<T> = g.clone().into_iter().collect();
            ckeq!(back, *m, "owning iteration");
            "into_inner"
        }
        12 => {
            let mut copy = g.clone();
            copy[p] = v.clone();
            let mut mcopy = m.clone();
            mcopy[c] = v;
            compare(u, g, m, &copy, &mcopy);
            copy[p] = m[c].clone();
            mcopy[c] = m[c].clone();
            compare(u, g, m, &copy, &mcopy);
            "clone, change and compare"
        }
        13 => {
            std::mem::swap(&mut g[p], &mut T::default());
            m[c] = T::default();
            "take"
        }
        _ => {
            let c2 = u.rng.below(w * h);
            g.as_array_mut().swap(c, c2);
            m.swap(c, c2);
            "swap in the array"
        }
    }
}

fn history<T: Elem, P: TP, const S: usize>(u: &mut U, steps: usize) {
    let (w, h) = (P::WIDTH, P::HEIGHT);
    u.describe(format!("Grid<{}, {}, {S}>", T::NAME, P::name()));
    ckeq!(Grid::<T, P, S>::SIZE, w * h, "SIZE");
    let mut g = Grid::<T, P, S>::default();
    let mut m = vec![T::default(); w * h];
    check_all(u, &g, &m, w, h);
    let mut log: Vec<&'static str> = vec![];
    let every = if w * h <= 130 { 1 } else { 8 };
    for i in 0..steps {
        let op = step(u, &mut g, &mut m, w, h);
        log.push(op);
        let recent = &log[log.len().saturating_sub(6)..];
        u.describe(format!("Grid<{}, {}, {S}> after {} operations, the last ones being {recent:?}", T::NAME, P::name(), i + 1));
        u.case(&(T::NAME, op, i, sig_of(&m)));
        u.count("operations", 1);
        if i % every == 0 || i + 1 == steps {
            check_all(u, &g, &m, w, h);
        }
    }
    u.sample(|| format!("Grid<{}, {}, {S}>: {:?}", T::NAME, P::name(), log.iter().take(8).collect::<Vec<_>>()));
}

fn sig_of<T: Hash>(m: &[T]) -> u64 {
    sqmon::mon::sig(&m[..m.len().min(200)])
}

/// What is only there for copyable types
fn copies<P: TP, const S: usize>(u: &mut U, rounds: usize) {
    let (w, h) = (P::WIDTH, P::HEIGHT);
    u.describe(format!("Grid<i32, {}, {S}>, copy interfaces", P::name()));
    for _ in 0..rounds {
        let v = i32::gen(&mut u.rng);
        let mut g = Grid::<i32, P, S>::repeat(v);
        let mut m = vec![v; w * h];
        check_all(u, &g, &m, w, h);
        let items: Vec<(P, i32)> = (0..if u.rng.pct(80) { u.rng.below(12) } else { u.rng.below(2 * w * h + 12).min(600) })
            .map(|_| {
                let c = u.rng.below(w * h);
                (P::at(c % w, c / w), i32::gen(&mut u.rng))
            })
            .collect();
        u.case(&("copies", v, items.iter().map(|(p, v)| (p.co(), *v)).collect::<Vec<_>>()));
        u.count("operations", 4);
        if u.rng.bool() {
            g.extend(u.rng.odd(items.iter()));
        } else {
            g.extend(u.rng.odd(items.iter().map(|(p, v)| (*p, v))));
        }
        for (p, v) in &items {
            m[p.co().1 * w + p.co().0] = *v;
        }
        check_all(u, &g, &m, w, h);
        let collected: Grid<i32, P, S> = u.rng.odd(m.iter()).collect();
        check_all(u, &collected, &m, w, h);
        compare(u, &g, &m, &collected, &m);
        let neg = -g;
        let mneg: Vec<i32> = m.iter().map(|v| -v).collect();
        check_all(u, &neg, &mneg, w, h);
        compare(u, &g, &m, &neg, &mneg);
        // A copy is independent
        let mut copy = g;
        copy[P::at(w - 1, h - 1)] = 5000;
        check_all(u, &g, &m, w, h);
        compare(u, &g, &m, &copy, &{
            let mut mc = m.clone();
            mc[w * h - 1] = 5000;
            mc
        });
    }
}

/// Cells that may differ from themselves
fn floats<P: TP, const S: usize>(u: &mut U, rounds: usize) {
    u.describe(format!("Grid<f64, {}, {S}>", P::name()));
    for _ in 0..rounds {
        let nan = *u.rng.pick(&[0, 10, 50]);
        let mut cell = || if u.rng.pct(nan) { f64::NAN } else { *u.rng.pick(&[0.0, -0.0, 1.5, f64::INFINITY]) };
        let ma: Vec<f64> = (0..S).map(|_| cell()).collect();
        let ga: Grid<f64, P, S> = ma.iter().collect();
        let mut mb = ma.clone();
        for _ in 0..u.rng.below(3) {
            let c = u.rng.below(S);
            mb[c] = *u.rng.pick(&[0.0, -0.0, f64::NAN, ma[c]]);
        }
        let gb: Grid<f64, P, S> = mb.iter().collect();
        let copy = ga;
        for (what, a, b, ma, mb) in [("itself", &ga, &ga, &ma, &ma), ("its copy", &ga, &copy, &ma, &ma), ("a similar one", &ga, &gb, &ma, &mb), ("a similar one", &gb, &ga, &mb, &ma)] {
            let equal = ma.iter().zip(mb.iter()).all(|(x, y)| x == y);
            ckeq!(a == b, equal, "floats: equality with {what}");
            ckeq!(a != b, !equal, "floats: inequality with {what}");
            ckeq!(a.partial_cmp(b) == Some(std::cmp::Ordering::Equal), equal, "floats: order as equal with {what}");
            ck!(!(a < b && a > b) && !(equal && (a < b || a > b)), "floats: contradictory order with {what}");
            u.count(if equal { "equal pairs" } else { "different pairs" }, 1);
        }
        let neg = -ga;
        for (c, v) in ma.iter().enumerate() {
            ckeq!(neg.as_array()[c].to_bits(), (-*v).to_bits(), "floats: negation of {v}");
        }
        u.eval();
        u.case(&("floats", P::name(), ma.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(120, 1500);
    history::<i32, Pos<X, Y>, S>(u, n);
    history::<String, Pos<X, Y>, S>(u, n / 2);
    let r = u.scale(10, 100);
    copies::<Pos<X, Y>, S>(u, r);
}

fn more_types<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(60, 600);
    history::<u8, Pos<X, Y>, S>(u, n);
    history::<i64, Pos<X, Y>, S>(u, n);
    history::<Option<Dir>, Pos<X, Y>, S>(u, n);
    history::<Vec<u16>, Pos<X, Y>, S>(u, n);
    history::<(), Pos<X, Y>, S>(u, n);
    floats::<Pos<X, Y>, S>(u, n);
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(16, 100);
    history::<i32, Pos<X, Y>, S>(u, n);
    copies::<Pos<X, Y>, S>(u, 1);
}

fn main() {
    let mut m = Mon::new(
        "C08",
        "random histories of writes through every interface on a grid and on a vector kept next to it; after each operation (every few in large grids) the content is read back through every interface and compared; a case is a distinct (grid type, element type, operation, resulting content)",
    );
    m.require("operations", 5_000);
    m.require("full comparisons", 4_000);
    m.require("equal pairs", 300);
    m.require("different pairs", 300);
    sqmon::tiny_dims!(m, "grid", 2, 3, grid);
    sqmon::medium_dims!(m, "grid", 1, 2, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 2, grid);
    sqmon::few_dims!(m, "types", 1, 2, more_types);
    sqmon::huge_dims!(m, "huge", 1, 2, large);
    sqmon::units_dims!(m, "large", 1, 2, large, [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (65, 300), (255, 255), (65535, 0), (0, 65535)]);
    m.unit("user", |u| {
        history::<i32, UserPos<0, 0>, 1>(u, 60);
        history::<i32, UserPos<4, 2>, 15>(u, 200);
        history::<String, UserPos<2, 6>, 21>(u, 200);
        copies::<UserPos<4, 2>, 15>(u, 20);
        history::<u8, UserPos<2, 299>, 900>(u, 40);
    });
    m.unit("tuple", |u| {
        let n = u.scale(10, 40);
        history::<u8, (u8, u8), 65536>(u, n);
        copies::<(u8, u8), 65536>(u, 1);
    });
    m.run()
}
