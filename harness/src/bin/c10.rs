//! C10: flipping and rotating a grid moves every cell to its geometric image

use sqmon::mon::{Mon, U};
use sqmon::search::{UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::postrait::PosT;
use sqrid::{Grid, Gridbool, Pos};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    FlipH,
    FlipV,
    Cw,
    Cc,
}
use Op::*;

/// Where the content of a cell goes
fn image(op: Op, w: usize, h: usize, c: usize) -> usize {
    let (x, y) = (c % w, c / w);
    let (nx, ny) = match op {
        FlipH => (w - 1 - x, y),
        FlipV => (x, h - 1 - y),
        Cw => (w - 1 - y, x),
        Cc => (y, w - 1 - x),
    };
    ny * w + nx
}

fn apply<T: Clone>(op: Op, w: usize, h: usize, m: &[T]) -> Vec<T> {
    let mut r = m.to_vec();
    for c in 0..m.len() {
        r[image(op, w, h, c)] = m[c].clone();
    }
    r
}

/// A grid that can be flipped, and rotated in some cases
trait G {
    fn make(m: &[u32]) -> Self;
    fn cells(&self) -> Vec<u32>;
    fn op(&mut self, op: Op);
    /// Number of different values that a cell can hold
    const VALUES: usize;
}

macro_rules! impl_g {
    ([$($gen:tt)*], $t:ty, $values:expr, $conv:expr, $back:expr, $rotate:tt) => {
        impl<$($gen)*> G for $t {
            fn make(m: &[u32]) -> Self {
                m.iter().map($conv).collect()
            }
            fn cells(&self) -> Vec<u32> {
                self.iter().map($back).collect()
            }
            fn op(&mut self, op: Op) {
                match op {
                    FlipH => self.flip_h(),
                    FlipV => self.flip_v(),
                    Cw => impl_g!(@$rotate self rotate_cw),
                    Cc => impl_g!(@$rotate self rotate_cc),
                }
            }
            const VALUES: usize = $values;
        }
    };
    (@square $s:ident $f:ident) => { $s.$f() };
    (@any $s:ident $f:ident) => { panic!("can't rotate") };
}

/// Wrappers, so that square grids are a type of their own
struct Rect<T>(T);
struct Square<T>(T);
macro_rules! wrap {
    ($w:ident) => {
        impl<T> std::ops::Deref for $w<T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        impl<T> std::ops::DerefMut for $w<T> {
            fn deref_mut(&mut self) -> &mut T {
                &mut self.0
            }
        }
        impl<A, T: FromIterator<A>> FromIterator<A> for $w<T> {
            fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Self {
                $w(i.into_iter().collect())
            }
        }
    };
}
wrap!(Rect);
wrap!(Square);

impl_g!([P: PosT, const S: usize], Rect<Grid<u32, P, S>>, 1 << 31, |v| *v, |v| *v, any);
impl_g!([P: PosT, const S: usize], Rect<Grid<String, P, S>>, 1 << 31, |v| v.to_string(), |v| v.parse::<u32>().unwrap(), any);
impl_g!([P: PosT, const W: usize], Rect<Gridbool<P, W>>, 2, |v| *v != 0, |v| v as u32, any);
impl_g!([const X: u16, const S: usize], Square<Grid<u32, Pos<X, X>, S>>, 1 << 31, |v| *v, |v| *v, square);
impl_g!([const X: u16, const S: usize], Square<Grid<String, Pos<X, X>, S>>, 1 << 31, |v| v.to_string(), |v| v.parse::<u32>().unwrap(), square);
impl_g!([const X: u16, const W: usize], Square<Gridbool<Pos<X, X>, W>>, 2, |v| *v != 0, |v| v as u32, square);

fn check<T: G>(u: &mut U, what: &str, w: usize, h: usize, m: &[u32], ops: &[Op]) -> Vec<u32> {
    let mut g = T::make(m);
    let mut m = m.to_vec();
    for op in ops {
        g.op(*op);
        m = apply(*op, w, h, &m);
        let got = g.cells();
        u.count("grids transformed", 1);
        if got != m {
            let c = (0..m.len()).find(|c| got.get(*c) != m.get(*c)).unwrap_or(m.len());
            let vals = (got.get(c), m.get(c));
            sqmon::fail!(
                "{what} {w}x{h}: after {ops:?}, at {op:?}: cell ({},{}) holds {:?} instead of {:?}",
                c % w,
                c / w,
                vals.0,
                vals.1
            );
        }
    }
    m
}

fn run<T: G>(u: &mut U, what: &str, w: usize, h: usize, ops: &'static [Op]) {
    let n = w * h;
    u.describe(format!("{what} {w}x{h}"));
    let random = |u: &mut U| -> Vec<u32> {
        if T::VALUES == 2 {
            let pct = *u.rng.pick(&[2, 20, 50, 98]);
            (0..n).map(|_| u.rng.pct(pct) as u32).collect()
        } else {
            (0..n).map(|_| u.rng.below(1 << 20) as u32).collect()
        }
    };
    // All cells different: every operation once
    for op in ops {
        if T::VALUES > 2 {
            let m: Vec<u32> = (0..n as u32).collect();
            check::<T>(u, what, w, h, &m, &[*op]);
            u.case(&(what, w, h, op));
        } else {
            // Enough contents to tell each cell from all the others
            let mut bit = 0;
            while 1 << bit <= n {
                let m: Vec<u32> = (0..n as u32).map(|c| (c + 1) >> bit & 1).collect();
                check::<T>(u, what, w, h, &m, &[*op]);
                let inv: Vec<u32> = m.iter().map(|v| 1 - v).collect();
                check::<T>(u, what, w, h, &inv, &[*op]);
                u.case(&(what, w, h, op, bit));
                bit += 1;
            }
            // One cell alone, and one cell missing
            for k in 0..n.min(80) {
                let c = if n <= 80 { k } else { u.rng.below(n) };
                let m: Vec<u32> = (0..n).map(|i| (i == c) as u32).collect();
                check::<T>(u, what, w, h, &m, &[*op]);
                let inv: Vec<u32> = m.iter().map(|v| 1 - v).collect();
                check::<T>(u, what, w, h, &inv, &[*op]);
                u.case(&(what, w, h, op, "single", c));
            }
        }
    }
    // What undoes what
    let m = random(u);
    for (seq, what2) in [
        (vec![FlipH, FlipH], "flip_h twice"),
        (vec![FlipV, FlipV], "flip_v twice"),
        (vec![FlipH, FlipV, FlipH, FlipV], "both flips twice"),
        (vec![Cw, Cc], "cw and cc"),
        (vec![Cc, Cw], "cc and cw"),
        (vec![Cw, Cw, Cw, Cw], "four turns clockwise"),
        (vec![Cc, Cc, Cc, Cc], "four turns counter-clockwise"),
        (vec![Cw, Cw, FlipH, FlipV], "two turns and both flips"),
        (vec![Cw, FlipV, Cw, FlipV], "reflections undo rotations"),
    ] {
        if seq.iter().all(|op| ops.contains(op)) {
            let r = check::<T>(u, what, w, h, &m, &seq);
            ck!(r == m, "{what} {w}x{h}: model: {what2} should be the identity");
            u.case(&(what, w, h, what2));
        }
    }
    // Random sequences
    let rounds = u.scale(if n > 5000 { 2 } else { 12 }, if n > 5000 { 20 } else { 300 });
    for _ in 0..rounds {
        let m = random(u);
        let seq: Vec<Op> = (0..1 + u.rng.below(8)).map(|_| *u.rng.pick(ops)).collect();
        check::<T>(u, what, w, h, &m, &seq);
        u.case(&(what, w, h, &seq));
        u.sample(|| format!("{what} {w}x{h}: {seq:?}"));
    }
}

/// Agreement with the operations on positions
fn positions<const X: u16, const S: usize>(u: &mut U) {
    type P<const X: u16> = Pos<X, X>;
    let v: Vec<u32> = (0..S as u32).collect();
    for op in [FlipH, FlipV, Cw, Cc] {
        let mut g: Grid<u32, P<X>, S> = v.iter().collect();
        match op {
            FlipH => g.flip_h(),
            FlipV => g.flip_v(),
            Cw => g.rotate_cw(),
            Cc => g.rotate_cc(),
        }
        for (i, p) in P::<X>::iter().enumerate() {
            let q = match op {
                FlipH => p.flip_h(),
                FlipV => p.flip_v(),
                Cw => p.rotate_cw(),
                Cc => p.rotate_cc(),
            };
            u.evals(1);
            u.count("cells compared with positions", 1);
            ckeq!(g[q], i as u32, "{op:?} of a {S}-cell grid: content of {p}, which goes to {q}");
        }
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    run::<Rect<Grid<u32, Pos<X, Y>, S>>>(u, "Grid", w, h, &[FlipH, FlipV]);
    if S < 2000 {
        run::<Rect<Grid<String, Pos<X, Y>, S>>>(u, "Grid of strings", w, h, &[FlipH, FlipV]);
    }
    run::<Rect<Gridbool<Pos<X, Y>, W>>>(u, "Gridbool", w, h, &[FlipH, FlipV]);
    if W != W2 {
        run::<Rect<Gridbool<Pos<X, Y>, W2>>>(u, "Gridbool+1", w, h, &[FlipH, FlipV]);
    }
}

fn square<const X: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let w = X as usize + 1;
    run::<Square<Grid<u32, Pos<X, X>, S>>>(u, "Grid", w, w, &[FlipH, FlipV, Cw, Cc]);
    if S < 2000 {
        run::<Square<Grid<String, Pos<X, X>, S>>>(u, "Grid of strings", w, w, &[FlipH, FlipV, Cw, Cc]);
    }
    run::<Square<Gridbool<Pos<X, X>, W>>>(u, "Gridbool", w, w, &[FlipH, FlipV, Cw, Cc]);
    if W != W2 {
        run::<Square<Gridbool<Pos<X, X>, W2>>>(u, "Gridbool+1", w, w, &[FlipH, FlipV, Cw, Cc]);
    }
    positions::<X, S>(u);
}

/// Large squares, each operation alone and some in sequence
fn turns<const X: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let w = X as usize + 1;
    u.describe(format!("{w}x{w}"));
    let labels: Vec<u32> = (0..S as u32).collect();
    let bits: Vec<u32> = (0..S).map(|_| u.rng.below(2) as u32).collect();
    for seq in [&[FlipH][..], &[FlipV], &[Cw], &[Cc], &[Cw, FlipH, Cc]] {
        check::<Square<Grid<u32, Pos<X, X>, S>>>(u, "Grid", w, w, &labels, seq);
        check::<Square<Gridbool<Pos<X, X>, W>>>(u, "Gridbool", w, w, &bits, seq);
        check::<Square<Gridbool<Pos<X, X>, W2>>>(u, "Gridbool+1", w, w, &bits, seq);
        u.evals(3);
        u.case(&("turns", w, seq));
    }
}

fn main() {
    let mut m = Mon::new(
        "C10",
        "for each grid size: every operation on contents that tell all cells apart (distinct labels; the bit planes of the labels and single cells for boolean grids), all the undo identities, and random sequences of flips and rotations on random contents, compared cell by cell with the geometric image; a case is a distinct (grid type, size, content family, sequence)",
    );
    m.require("grids transformed", 5_000);
    m.require("cells compared with positions", 5_000);
    sqmon::tiny_dims!(m, "grid", 1, 1, grid);
    sqmon::medium_dims!(m, "grid", 1, 1, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 1, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, grid);
    sqmon::units_dims!(m, "large", 1, 1, grid, [(254, 1), (255, 0), (0, 256), (256, 1), (40, 30), (300, 7), (31, 2), (63, 2), (95, 1), (127, 2), (159, 1), (191, 1), (1, 63), (63, 63)]);
    sqmon::square_dims!(m, "square", 1, 1, square);
    sqmon::units_sq!(m, "square", 1, 1, square, [11, 12, 13, 20, 47, 63]);
    sqmon::seeded_square_dims!(m, "seeded square", 1, 1, square);
    sqmon::units_sq!(m, "turns", 1, 1, turns, [98, 126, 127, 199, 254, 256, 298, 510, 511, 512, 514, 699]);
    m.unit("user", |u| {
        run::<Rect<Grid<u32, UserPos<4, 2>, 15>>>(u, "Grid at UserPos", 5, 3, &[FlipH, FlipV]);
        run::<Rect<Grid<u32, UserPos<3, 3>, 16>>>(u, "Grid at UserPos", 4, 4, &[FlipH, FlipV]);
        run::<Rect<Gridbool<UserPos<7, 4>, 2>>>(u, "Gridbool at UserPos", 8, 5, &[FlipH, FlipV]);
        run::<Rect<Gridbool<UserPos<2, 49>, 5>>>(u, "Gridbool at UserPos", 3, 50, &[FlipH, FlipV]);
    });
    m.unit("large square", |u| {
        let (n, w) = (256 * 256, 256);
        let v: Vec<u32> = (0..n as u32).collect();
        for op in [FlipH, FlipV, Cw, Cc] {
            check::<Square<Grid<u32, Pos<255, 255>, 65536>>>(u, "Grid", w, w, &v, &[op]);
            let b: Vec<u32> = (0..n).map(|_| u.rng.below(2) as u32).collect();
            check::<Square<Gridbool<Pos<255, 255>, 2048>>>(u, "Gridbool", w, w, &b, &[op]);
            check::<Square<Gridbool<Pos<255, 255>, 2049>>>(u, "Gridbool+1", w, w, &b, &[op]);
            check::<Rect<Gridbool<Pos<299, 199>, 1875>>>(u, "Gridbool", 300, 200, &b[..60000], &[op; 1][..(op == FlipH || op == FlipV) as usize]);
            u.case(&("large", op));
        }
        let _ = TP::co(&Pos::<255, 255>::FIRST);
    });
    m.run()
}
