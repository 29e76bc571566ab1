//! C19: bulk loading is all or nothing about shape and never misplaces data

use sqmon::mon::{catch, Mon, U};
use sqmon::search::{UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::{Error, Grid, Gridbool, Pos};
use std::fmt::Debug;

/// Elements made from a number, not zero
trait Elem: Clone + Default + Debug + Eq + 'static {
    const NAME: &'static str;
    fn make(n: u32) -> Self;
}
impl Elem for u32 {
    const NAME: &'static str = "u32";
    fn make(n: u32) -> u32 {
        n
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    fn make(n: u32) -> String {
        format!("#{n}")
    }
}
/// Without Copy or Clone in the interfaces that don't need it
#[derive(Debug, Default, PartialEq, Eq, Clone)]
struct Own(Option<Box<u32>>);
impl Elem for Own {
    const NAME: &'static str = "Own";
    fn make(n: u32) -> Own {
        Own(Some(Box::new(n)))
    }
}
impl Elem for bool {
    const NAME: &'static str = "bool";
    fn make(n: u32) -> bool {
        n.wrapping_mul(0x9E3779B9) & 0x1000 != 0
    }
}

/// Lengths of the lines of the data
fn shape(u: &mut U, w: usize, h: usize) -> (Vec<usize>, &'static str) {
    let rnd = |u: &mut U, n: usize| u.rng.below(n + 1);
    let mut lens: Vec<usize>;
    let kind;
    match u.rng.below(13) {
        0 => {
            kind = "exact";
            lens = vec![w; h];
        }
        1 => {
            kind = "nothing";
            lens = vec![];
        }
        2 => {
            kind = "empty lines";
            let n = rnd(u, h);
            lens = vec![0; n];
        }
        3 | 4 => {
            kind = "ragged";
            let n = rnd(u, h);
            lens = (0..n).map(|_| rnd(u, w)).collect();
        }
        5 => {
            kind = "short lines";
            lens = vec![w - 1; h];
        }
        6 => {
            kind = "few lines";
            lens = vec![w; h - 1];
        }
        7 => {
            kind = "one line too many";
            lens = vec![w; h + 1];
            if u.rng.bool() {
                lens = (0..h).map(|_| rnd(u, w)).collect();
                lens.push(1);
            }
        }
        8 | 9 => {
            kind = "one item too many";
            let n = 1 + rnd(u, h - 1);
            lens = (0..n).map(|_| rnd(u, w)).collect();
            let k = u.rng.below(n);
            lens[k] = w + 1;
        }
        10 => {
            kind = "much longer line";
            let n = 1 + rnd(u, h - 1);
            lens = (0..n).map(|_| rnd(u, w)).collect();
            let k = u.rng.below(n);
            // Fits if truncated to a smaller type
            lens[k] = *u.rng.pick(&[256, 65536, 65536 * 2]) + rnd(u, w);
        }
        11 => {
            kind = "many more lines";
            lens = vec![0; *u.rng.pick(&[256, 65536, 65536 * 2])];
            let n = lens.len();
            lens.extend((0..h).map(|_| 0));
            for l in lens[n..].iter_mut() {
                *l = rnd(u, w);
            }
            let l = lens.len();
            lens[l - 1] = 1;
        }
        _ => {
            kind = "way too large";
            lens = vec![2 * w + 1; 2 * h + 1];
        }
    }
    (lens, kind)
}

/// Whether some value is outside, and whether there are empty lines outside
fn fits(lens: &[usize], w: usize, h: usize) -> (bool, bool) {
    let bad = lens.iter().enumerate().any(|(y, l)| *l > w || (y >= h && *l > 0));
    (!bad, lens.len() > h)
}

fn data<T: Elem>(lens: &[usize]) -> Vec<Vec<T>> {
    lens.iter()
        .enumerate()
        .map(|(y, l)| (0..*l).map(|x| T::make((y * 1009 + x + 1) as u32)).collect())
        .collect()
}

fn describe<T: Elem, P: TP>(u: &mut U, what: &str, lens: &[usize]) {
    let l: Vec<_> = lens.iter().take(40).collect();
    let s = format!("Grid<{}, {}> {what}, {} lines, of {l:?}", T::NAME, P::name(), lens.len());
    u.describe(s);
}

fn vecvec<T: Elem, P: TP, const S: usize>(u: &mut U, w: usize, h: usize) {
    let (lens, kind) = shape(u, w, h);
    let (fit, extra) = fits(&lens, w, h);
    u.count(&format!("shapes: {kind}"), 1);
    let value = |x: usize, y: usize| T::make((y * 1009 + x + 1) as u32);
    let inside = |x: usize, y: usize| y < lens.len() && x < lens[y];

    // A new grid
    describe::<T, P>(u, "try_from", &lens);
    match Grid::<T, P, S>::try_from(data::<T>(&lens)) {
        Ok(g) => {
            ck!(fit, "values outside of the grid were accepted");
            u.count("loads accepted", 1);
            for y in 0..h {
                for x in 0..w {
                    let want = if inside(x, y) { value(x, y) } else { T::default() };
                    ckeq!(*g.get(&P::at(x, y)), want, "value at ({x},{y})");
                }
            }
        }
        Err(e) => {
            ckeq!(e, Error::OutOfBounds, "error");
            // Empty lines outside have no values: both are fine
            ck!(!fit || extra, "refused data that fits");
            u.count("loads refused", 1);
        }
    }

    // Extending an existing one
    describe::<T, P>(u, "extend_from_vecvec", &lens);
    let old = |x: usize, y: usize| T::make((500_000 + y * w + x) as u32);
    let mut g = Grid::<T, P, S>::default();
    for y in 0..h {
        for x in 0..w {
            g[P::at(x, y)] = old(x, y);
        }
    }
    let r = g.extend_from_vecvec(data::<T>(&lens));
    match &r {
        Ok(()) => {
            ck!(fit, "values outside of the grid were accepted");
            u.count("loads accepted", 1);
        }
        Err(e) => {
            ckeq!(*e, Error::OutOfBounds, "error");
            ck!(!fit || extra, "refused data that fits");
            u.count("loads refused", 1);
        }
    }
    for y in 0..h {
        for x in 0..w {
            let got = g.get(&P::at(x, y));
            if r.is_ok() {
                let want = if inside(x, y) { value(x, y) } else { old(x, y) };
                ckeq!(*got, want, "value at ({x},{y})");
            } else {
                // Nothing may be misplaced
                ck!(
                    *got == old(x, y) || inside(x, y) && *got == value(x, y),
                    "value {got:?} at ({x},{y}) after a failed load"
                );
            }
        }
    }
    u.count("cells compared", 2 * (w * h) as u64);
    if kind != "nothing" && kind != "empty lines" {
        u.case(&(&lens, T::NAME, P::name()));
    } else {
        u.eval();
    }
    u.sample(|| format!("{} with {kind}: {:?}", P::name(), lens.iter().take(10).collect::<Vec<_>>()));
}

/// How many items to collect
fn amount(u: &mut U, n: usize) -> usize {
    match u.rng.below(10) {
        0 => 0,
        1 => n - 1,
        2 => n + 1,
        3 => n + 1 + u.rng.below(n),
        4 => u.rng.below(n),
        5 => 2 * n,
        _ => n,
    }
}

/// An iterator with an unhelpful size hint
struct Shy<I>(I, u64);
impl<I: Iterator> Iterator for Shy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1 += 1;
        self.0.next()
    }
}

fn collect<T: Elem, P: TP, const S: usize>(u: &mut U, w: usize) {
    let n = amount(u, S);
    u.describe(format!("Grid<{}, {}> from an iterator of {n} items", T::NAME, P::name()));
    let shy = u.rng.bool();
    let it = u.rng.odd((0..n).map(|i| T::make(i as u32 + 1)));
    let r = catch(|| -> Grid<T, P, S> {
        if shy {
            Shy(it, 0).collect()
        } else {
            it.collect()
        }
    });
    match r {
        Ok(g) => {
            ckeq!(n, S, "number of items accepted");
            for i in 0..S {
                ckeq!(*g.get(&P::at(i % w, i / w)), T::make(i as u32 + 1), "item at ({},{})", i % w, i / w);
            }
            u.count("collections accepted", 1);
        }
        Err(e) => {
            ck!(n != S, "refused: {e}");
            u.count("collections refused", 1);
        }
    }
    u.case(&("collect", n, T::NAME, P::name()));
}

fn collect_refs<P: TP, const S: usize, const W: usize>(u: &mut U, w: usize) {
    let n = amount(u, S);
    u.describe(format!("Grid<u32, {}> from an iterator of {n} references", P::name()));
    let v: Vec<u32> = (0..n as u32).map(|i| i * 3 + 1).collect();
    let it = u.rng.odd(v.iter());
    match catch(|| it.collect::<Grid<u32, P, S>>()) {
        Ok(g) => {
            ckeq!(n, S, "number of items accepted");
            for i in 0..S {
                ckeq!(g[P::at(i % w, i / w)], v[i], "item at ({},{})", i % w, i / w);
            }
            u.count("collections accepted", 1);
        }
        Err(e) => {
            ck!(n != S, "refused: {e}");
            u.count("collections refused", 1);
        }
    }
    u.case(&("refs", n, P::name()));

    let n = amount(u, S);
    let v: Vec<bool> = (0..n).map(|_| u.rng.bool()).collect();
    u.describe(format!("Gridbool<{}, {W}> from an iterator of {n} items", P::name()));
    let it = u.rng.odd(v.iter().copied());
    match catch(|| it.collect::<Gridbool<P, W>>()) {
        Ok(g) => {
            ckeq!(n, S, "number of items accepted");
            for i in 0..S {
                ckeq!(g.get(&P::at(i % w, i / w)), v[i], "item at ({},{})", i % w, i / w);
            }
            ckeq!(g.iter().collect::<Vec<_>>(), v, "iteration");
            u.count("boolean collections accepted", 1);
        }
        Err(e) => {
            ck!(n != S, "refused: {e}");
            u.count("boolean collections refused", 1);
        }
    }
    u.case(&("bools", &v, P::name()));
}

fn rounds<P: TP, const S: usize, const W: usize, const W2: usize>(u: &mut U, w: usize, h: usize, n: usize) {
    for i in 0..n {
        vecvec::<u32, P, S>(u, w, h);
        vecvec::<Own, P, S>(u, w, h);
        if i % 4 == 0 {
            vecvec::<String, P, S>(u, w, h);
            vecvec::<bool, P, S>(u, w, h);
        }
        collect::<u32, P, S>(u, w);
        collect::<Own, P, S>(u, w);
        collect_refs::<P, S, W>(u, w);
        collect_refs::<P, S, W2>(u, w);
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(60, 800);
    rounds::<Pos<X, Y>, S, W, W2>(u, X as usize + 1, Y as usize + 1, n);
}

/// Every shape near the border of a tiny grid
fn shapes<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for nlines in 0..h + 3 {
        for k in 0..(w + 2).pow(nlines as u32) {
            let mut v = k;
            let lens: Vec<usize> = (0..nlines)
                .map(|_| {
                    let l = v % (w + 2);
                    v /= w + 2;
                    l
                })
                .collect();
            let (fit, extra) = fits(&lens, w, h);
            describe::<u32, Pos<X, Y>>(u, "", &lens);
            let d = data::<u32>(&lens);
            let new = Grid::<u32, Pos<X, Y>, S>::try_from(d.clone());
            let mut old = Grid::<u32, Pos<X, Y>, S>::repeat(7);
            let ext = old.extend_from_vecvec(d.clone());
            ck!(new.is_ok() == fit || extra && fit, "try_from: {new:?}");
            ck!(ext.is_ok() == fit || extra && fit, "extend_from_vecvec: {ext:?}");
            for y in 0..h {
                for x in 0..w {
                    let v = d.get(y).and_then(|l| l.get(x)).copied();
                    if let Ok(g) = &new {
                        ckeq!(g[Pos::<X, Y>::at(x, y)], v.unwrap_or(0), "try_from: value at ({x},{y})");
                    }
                    if ext.is_ok() {
                        ckeq!(old[Pos::<X, Y>::at(x, y)], v.unwrap_or(7), "extend_from_vecvec: value at ({x},{y})");
                    }
                }
            }
            u.case(&(lens, X, Y));
            u.count("tiny shapes", 1);
        }
    }
}

/// Lines that are longer than any memory
fn endless<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for len in [w + 1, 1 << 8, 1 << 16, (1 << 16) + w, 1 << 31, 1 << 32, (1 << 32) + w, 1 << 48, usize::MAX, usize::MAX / 2 + 1] {
        for line in 0..h.min(3) {
            if len <= w {
                continue;
            }
            u.describe(format!("Grid<(), Pos<{X},{Y}>> with {len} items in line {line}"));
            let make = || -> Vec<Vec<()>> {
                let mut v: Vec<()> = Vec::new();
                // SAFETY: a vector of () has room for any number of them
                unsafe { v.set_len(len) };
                let mut d = vec![vec![]; line];
                d.push(v);
                d
            };
            ckeq!(Grid::<(), Pos<X, Y>, S>::try_from(make()).err(), Some(Error::OutOfBounds), "try_from");
            let mut g = Grid::<(), Pos<X, Y>, S>::default();
            ckeq!(g.extend_from_vecvec(make()).err(), Some(Error::OutOfBounds), "extend_from_vecvec");
            u.case(&(len, line, X, Y));
            u.count("endless lines", 1);
        }
    }
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(3, 30);
    for _ in 0..n {
        vecvec::<u32, Pos<X, Y>, S>(u, X as usize + 1, Y as usize + 1);
        collect::<u32, Pos<X, Y>, S>(u, X as usize + 1);
        collect_refs::<Pos<X, Y>, S, W>(u, X as usize + 1);
    }
}

fn main() {
    let mut m = Mon::new(
        "C19",
        "nested vectors of many shapes (exact, ragged, empty, one line or item too many, lengths that only fit after truncation to 8, 16 or 32 bits, longer than any memory) loaded into new and existing grids of several element types, every shape around the borders of tiny grids; iterators that are too short, too long or exact collected into grids and boolean grids; every cell compared with the data; a case is a distinct (data shape or content, grid type, element type) with some data",
    );
    m.require("loads accepted", 2_000);
    m.require("loads refused", 2_000);
    m.require("collections accepted", 1_000);
    m.require("collections refused", 1_000);
    m.require("boolean collections accepted", 1_000);
    m.require("boolean collections refused", 1_000);
    m.require("tiny shapes", 1_000);
    m.require("endless lines", 50);
    sqmon::tiny_dims!(m, "grid", 1, 4, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::huge_dims!(m, "huge", 1, 2, large);
    sqmon::large_dims!(m, "large", 1, 2, large);
    sqmon::units_dims!(m, "shapes", 1, 1, shapes, [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 1), (0, 3), (4, 0), (2, 2)]);
    sqmon::few_dims!(m, "endless", 1, 1, endless);
    m.unit("user", |u| {
        let n = u.scale(50, 1000);
        rounds::<UserPos<4, 2>, 15, 1, 1>(u, 5, 3, n);
        rounds::<UserPos<7, 3>, 32, 1, 2>(u, 8, 4, n);
        rounds::<UserPos<2, 30>, 93, 3, 3>(u, 3, 31, n);
        for _ in 0..u.scale(3, 50) {
            vecvec::<u32, (u8, u8), 65536>(u, 256, 256);
            collect::<u32, (u8, u8), 65536>(u, 256);
            collect_refs::<(u8, u8), 65536, 2048>(u, 256);
        }
    });
    m.run()
}
