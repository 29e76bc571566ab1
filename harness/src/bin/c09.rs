//! C09: a boolean grid behaves as the set of its true positions

use sqmon::mon::{hash_of, Mon, U};
use sqmon::search::{UserPos, TP};
use sqmon::ckeq;
use sqrid::{Gridbool, Pos};
use std::cmp::Ordering;

type M = Vec<bool>;

fn cell<P: TP>(w: usize, c: usize) -> P {
    P::at(c % w, c / w)
}

fn check_all<P: TP, const W: usize>(u: &mut U, g: &Gridbool<P, W>, m: &M, w: usize) {
    u.count("full comparisons", 1);
    for (c, v) in m.iter().enumerate() {
        let p = cell::<P>(w, c);
        ckeq!(g.get(&p), *v, "get({p:?})");
        ckeq!(g[p], *v, "index by position {p:?}");
        ckeq!(g[&p], *v, "index by reference to position {p:?}");
    }
    let co = |p: P| p.co().1 * w + p.co().0;
    ckeq!(g.iter().collect::<Vec<_>>(), *m, "iter");
    ckeq!(
        g.iter_pos().map(|(p, v)| (co(p), v)).collect::<Vec<_>>(),
        m.iter().copied().enumerate().collect::<Vec<_>>(),
        "iter_pos"
    );
    let of = |v: bool| m.iter().enumerate().filter(|(_, x)| **x == v).map(|(c, _)| c).collect::<Vec<_>>();
    ckeq!(g.iter_t().map(co).collect::<Vec<_>>(), of(true), "iter_t");
    ckeq!(g.iter_f().map(co).collect::<Vec<_>>(), of(false), "iter_f");
    ckeq!(g.as_inner(), &g.into_inner(), "raw words");
}

/// Reads a few cells and the neighbours in memory of one
fn check_some<P: TP, const W: usize>(u: &mut U, g: &Gridbool<P, W>, m: &M, w: usize, around: usize) {
    let n = m.len();
    for c in around.saturating_sub(66)..(around + 66).min(n) {
        ckeq!(g.get(&cell::<P>(w, c)), m[c], "get of cell {c} after an operation on cell {around}");
    }
    for _ in 0..20 {
        let c = u.rng.below(n);
        ckeq!(g.get(&cell::<P>(w, c)), m[c], "get of cell {c} after an operation on cell {around}");
    }
}

fn compare<P: TP, const W: usize>(u: &mut U, a: &Gridbool<P, W>, ma: &M, b: &Gridbool<P, W>, mb: &M, how: &str) {
    let same = ma == mb;
    u.count(if same { "equal pairs" } else { "different pairs" }, 1);
    ckeq!(a == b, same, "{how}: ==");
    ckeq!(a != b, !same, "{how}: !=");
    ckeq!(b == a, same, "{how}: == (swapped)");
    ckeq!(a.cmp(b) == Ordering::Equal, same, "{how}: cmp is Equal");
    ckeq!(a.cmp(b), b.cmp(a).reverse(), "{how}: cmp is antisymmetric");
    ckeq!(a.partial_cmp(b), Some(a.cmp(b)), "{how}: partial_cmp");
    if same {
        ckeq!(hash_of(a), hash_of(b), "{how}: hash");
    }
}

/// The same content built in another way
fn rebuild<P: TP, const W: usize>(u: &mut U, g: &Gridbool<P, W>, m: &M, w: usize) -> (Gridbool<P, W>, &'static str) {
    let n = m.len();
    let mut order: Vec<usize> = (0..n).collect();
    u.rng.shuffle(&mut order);
    let ts = || m.iter().enumerate().filter(|(_, v)| **v).map(|(c, _)| cell::<P>(w, c));
    let fs = || m.iter().enumerate().filter(|(_, v)| !**v).map(|(c, _)| cell::<P>(w, c));
    match u.rng.below(10) {
        0 => (u.rng.odd(m.iter().copied()).collect(), "collected from booleans"),
        1 => (u.rng.odd(ts()).collect(), "collected from positions"),
        2 => {
            let mut o = Gridbool::<P, W>::ALL_TRUE;
            o.set_iter_f(u.rng.odd(fs()));
            (o, "all true, then set_iter_f")
        }
        3 => {
            let mut o = Gridbool::<P, W>::repeat(true);
            for c in order {
                o.set(&cell::<P>(w, c), m[c]);
            }
            (o, "repeat(true), then set in random order")
        }
        4 => {
            let mut o = Gridbool::<P, W>::ALL_FALSE;
            o.set_iter_t(u.rng.odd(ts()));
            (o, "all false, then set_iter_t")
        }
        5 => {
            let mut o = Gridbool::<P, W>::repeat(false);
            // Set everything and clear it again
            o.set_iter_t((0..n).map(|c| cell::<P>(w, c)));
            for c in order {
                if m[c] {
                    o.set_t(&cell::<P>(w, c))
                } else {
                    o.set_f(&cell::<P>(w, c))
                }
            }
            (o, "filled, then set_t and set_f in random order")
        }
        6 => {
            let mut o = *g;
            o.flip_h();
            o.flip_v();
            o.flip_v();
            o.flip_h();
            (o, "flipped four times")
        }
        7 => {
            let mut o = Gridbool::<P, W>::ALL_TRUE;
            *o.as_inner_mut() = g.into_inner();
            (o, "copied through the raw words")
        }
        8 => (g.iter().collect(), "collected from iter"),
        _ => (g.iter_t().collect(), "collected from iter_t"),
    }
}

fn history<P: TP, const W: usize>(u: &mut U, steps: usize) {
    let (w, h) = (P::WIDTH, P::HEIGHT);
    let n = w * h;
    let name = format!("Gridbool<{}, {W}>", P::name());
    u.describe(name.clone());
    let (mut g, mut m) = match u.rng.below(4) {
        0 => (Gridbool::<P, W>::default(), vec![false; n]),
        1 => (Gridbool::<P, W>::ALL_FALSE, vec![false; n]),
        2 => (Gridbool::<P, W>::ALL_TRUE, vec![true; n]),
        _ => {
            let v = u.rng.bool();
            (Gridbool::<P, W>::repeat(v), vec![v; n])
        }
    };
    check_all(u, &g, &m, w);
    let every = if n <= 130 { 1 } else { 10 };
    let mut log: Vec<String> = vec![];
    for i in 0..steps {
        // Favour word boundaries
        let c = match u.rng.below(3) {
            0 => (u.rng.below(n / 32 + 1) * 32 + u.rng.below(3)).saturating_sub(1).min(n - 1),
            1 => n - 1 - u.rng.below(n.min(3)),
            _ => u.rng.below(n),
        };
        let p = cell::<P>(w, c);
        let v = u.rng.bool();
        let some: Vec<usize> = match u.rng.below(8) {
            // Many of them, repeated
            0 => (0..u.rng.below(3 * n + 2).min(400)).map(|_| u.rng.below(n)).collect(),
            1 => (0..u.rng.below(3 * n + 2).min(400)).map(|_| c).chain([u.rng.below(n)]).collect(),
            _ => (0..u.rng.below(10)).map(|_| u.rng.below(n)).collect(),
        };
        let it = || some.iter().map(|c| cell::<P>(w, *c));
        let op = match u.rng.below(14) {
            0 | 1 | 2 => {
                g.set(&p, v);
                m[c] = v;
                "set"
            }
            3 | 4 => {
                g.set_t(&p);
                m[c] = true;
                "set_t"
            }
            5 | 6 => {
                g.set_f(&p);
                m[c] = false;
                "set_f"
            }
            7 => {
                g.set_iter_t(u.rng.odd(it()));
                some.iter().for_each(|c| m[*c] = true);
                "set_iter_t"
            }
            8 => {
                g.set_iter_f(u.rng.odd(it()));
                some.iter().for_each(|c| m[*c] = false);
                "set_iter_f"
            }
            9 => {
                let pct = *u.rng.pick(&[0, 5, 50, 95, 100]);
                m = (0..n).map(|_| u.rng.pct(pct)).collect();
                g = u.rng.odd(m.iter().copied()).collect();
                "collect booleans"
            }
            10 => {
                g = u.rng.odd(it()).collect();
                m = vec![false; n];
                some.iter().for_each(|c| m[*c] = true);
                "collect positions"
            }
            11 => {
                let mut copy = g;
                let mut mc = m.clone();
                copy.set(&p, !m[c]);
                mc[c] = !m[c];
                compare(u, &g, &m, &copy, &mc, "one cell changed");
                copy.set(&p, m[c]);
                mc[c] = m[c];
                compare(u, &g, &m, &copy, &mc, "one cell changed back");
                "copy and change"
            }
            _ => {
                let (o, how) = rebuild(u, &g, &m, w);
                compare(u, &g, &m, &o, &m, how);
                if every == 1 {
                    check_all(u, &o, &m, w);
                }
                g = o;
                how
            }
        };
        log.push(format!("{op}({},{})", c % w, c / w));
        u.describe(format!("{name}: the last operations are {:?}", &log[log.len().saturating_sub(6)..]));
        u.case(&(W, op, c, sqmon::mon::sig(&m)));
        u.count("operations", 1);
        if i % every == 0 || i + 1 == steps {
            check_all(u, &g, &m, w);
        } else {
            check_some(u, &g, &m, w, c);
        }
    }
    u.sample(|| format!("{name}: {:?}", log.iter().take(8).collect::<Vec<_>>()));
}

/// Every content of a small grid: all pairs must compare right
fn exhaustive<P: TP, const W: usize>(u: &mut U) {
    let (w, h) = (P::WIDTH, P::HEIGHT);
    let n = w * h;
    let mut all = vec![];
    for bits in 0u32..1 << n {
        let m: M = (0..n).map(|c| bits >> c & 1 != 0).collect();
        let mut g = if bits & 1 != 0 { Gridbool::<P, W>::ALL_TRUE } else { Gridbool::<P, W>::ALL_FALSE };
        for (c, v) in m.iter().enumerate() {
            g.set(&cell::<P>(w, c), *v);
        }
        u.case(&("content", W, bits));
        check_all(u, &g, &m, w);
        let (o, how) = rebuild(u, &g, &m, w);
        compare(u, &g, &m, &o, &m, how);
        all.push((g, m));
    }
    for (a, ma) in &all {
        for (b, mb) in &all {
            u.evals(1);
            compare(u, a, ma, b, mb, "exhaustive");
        }
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(150, 3000);
    history::<Pos<X, Y>, W>(u, n);
    history::<Pos<X, Y>, W2>(u, n);
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(21, 300);
    history::<Pos<X, Y>, W>(u, n);
    history::<Pos<X, Y>, W2>(u, n);
}

fn main() {
    let mut m = Mon::new(
        "C09",
        "random histories of single and bulk updates (favouring word boundaries and the last cells) on a boolean grid and on a vector of booleans, read back through every query; the same content rebuilt in other ways must compare, hash and order as equal, and a change of one cell as different; both legal numbers of words; every content of small grids; a case is a distinct (grid type, operation, resulting content)",
    );
    m.require("operations", 8_000);
    m.require("full comparisons", 8_000);
    m.require("equal pairs", 1_000);
    m.require("different pairs", 5_000);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 2, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 2, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, large);
    sqmon::units_dims!(m, "large", 1, 1, large, [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (300, 7), (255, 255), (65535, 0), (0, 65535)]);
    m.unit("exhaustive", |u| {
        exhaustive::<Pos<0, 0>, 1>(u);
        exhaustive::<Pos<1, 2>, 1>(u);
        exhaustive::<Pos<2, 1>, 1>(u);
        exhaustive::<Pos<2, 2>, 1>(u);
        exhaustive::<Pos<7, 0>, 1>(u);
    });
    m.unit("user", |u| {
        history::<UserPos<0, 0>, 1>(u, 60);
        history::<UserPos<4, 2>, 1>(u, 200);
        history::<UserPos<7, 3>, 1>(u, 200);
        history::<UserPos<7, 3>, 2>(u, 200);
        history::<UserPos<10, 2>, 2>(u, 200);
        history::<UserPos<2, 299>, 29>(u, 40);
    });
    m.unit("tuple", |u| {
        history::<(u8, u8), 2048>(u, 12);
        history::<(u8, u8), 2049>(u, 12);
    });
    m.run()
}
