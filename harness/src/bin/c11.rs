//! C11: safe code can never cause undefined behaviour or wrongly sized
//! storage
//!
//! Hostile but safe programs, to be run under Miri, under
//! AddressSanitizer and with the standard library's precondition checks.
//! Any sanitizer report or crash is a violation; panics and errors are
//! fine where the arguments are invalid.  (The part of the property
//! about programs that must not compile is in `/verif/probes.py`.)

use sqmon::model::Terrain;
use sqmon::mon::{catch, Mon, U};
use sqmon::search::{go_of, gocost_of, UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::postrait::PosT;
use sqrid::{
    astar, bf, camefrom_into_path, ucs, BoundedInt, BoundedU16, BoundedU32, BoundedU8, Dir, Error, Grid, Gridbool, MapPos, Pos,
    SetPos, Sqrid,
};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hint::black_box;

/* Elements: types with invalid bit patterns, ownership, alignment ************/

trait Elem: Default + Clone + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn make(n: usize) -> Self;
    /// Reads all of it
    fn number(&self) -> usize;
}
impl Elem for Box<usize> {
    const NAME: &'static str = "Box";
    fn make(n: usize) -> Self {
        Box::new(n)
    }
    fn number(&self) -> usize {
        **self
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    fn make(n: usize) -> Self {
        n.to_string()
    }
    fn number(&self) -> usize {
        self.parse().unwrap_or(0)
    }
}
#[repr(align(64))]
#[derive(Debug, Clone, Copy, Default, PartialEq)]
struct Aligned(u8);
impl Elem for Aligned {
    const NAME: &'static str = "Aligned";
    fn make(n: usize) -> Self {
        Aligned(n as u8)
    }
    fn number(&self) -> usize {
        assert_eq!(self as *const Self as usize % 64, 0, "misaligned element");
        self.0 as usize
    }
}
impl Elem for Option<Dir> {
    const NAME: &'static str = "Option<Dir>";
    fn make(n: usize) -> Self {
        Dir::iter::<true>().nth(n % 9)
    }
    fn number(&self) -> usize {
        match self {
            None => 8,
            Some(d) => Dir::iter::<true>().position(|o| o == *d).expect("an invalid direction"),
        }
    }
}
impl Elem for () {
    const NAME: &'static str = "()";
    fn make(_: usize) -> Self {}
    fn number(&self) -> usize {
        0
    }
}

/// A grid surrounded by known values
#[repr(C)]
struct Guarded<T> {
    before: [u64; 8],
    it: T,
    after: [u64; 8],
}
const GUARD: u64 = 0x5AFE_5AFE_C0DE_C0DE;
impl<T> Guarded<T> {
    fn new(it: T) -> Box<Self> {
        Box::new(Guarded { before: [GUARD; 8], it, after: [GUARD; 8] })
    }
    fn check(&self, what: &str) {
        ck!(
            black_box(&self.before).iter().chain(black_box(&self.after)).all(|g| *g == GUARD),
            "{what} wrote outside of the storage"
        );
    }
}

/// Run something hostile that may panic
fn hostile<R>(u: &mut U, what: &str, f: impl FnOnce() -> R) -> Option<R> {
    u.count("hostile calls", 1);
    match catch(f) {
        Ok(r) => Some(r),
        Err(e) => {
            u.count("hostile calls refused by a panic", 1);
            ck!(!e.contains("unsafe precondition"), "{what}: {e}");
            None
        }
    }
}

/* Forged positions ***********************************************************/

trait Forge: TP + std::ops::Add<Dir, Output = Result<Self, Error>> {
    /// Any values, even invalid ones
    fn raw(x: u32, y: u32) -> Self;
    fn raw_y(y: u32) -> Self::Ytype;
    fn raw_x(x: u32) -> Self::Xtype;
}
impl<const X: u16, const Y: u16> Forge for Pos<X, Y> {
    fn raw(x: u32, y: u32) -> Self {
        Pos((BoundedU16(x as u16), BoundedU16(y as u16)))
    }
    fn raw_y(y: u32) -> Self::Ytype {
        BoundedU16(y as u16)
    }
    fn raw_x(x: u32) -> Self::Xtype {
        BoundedU16(x as u16)
    }
}
impl<const X: u8, const Y: u32> Forge for UserPos<X, Y> {
    fn raw(x: u32, y: u32) -> Self {
        UserPos(BoundedU8(x as u8), BoundedU32(y))
    }
    fn raw_y(y: u32) -> Self::Ytype {
        BoundedU32(y)
    }
    fn raw_x(x: u32) -> Self::Xtype {
        BoundedU8(x as u8)
    }
}

fn forged_list(w: usize, h: usize, thorough: bool) -> Vec<(u32, u32)> {
    let (w, h) = (w as u32, h as u32);
    let mut v = vec![(0, h), (w, 0), (w, h), (w - 1, h), (0, u32::MAX), (u32::MAX, 0), (u32::MAX, u32::MAX), (w, h - 1), (w + 1, h - 1)];
    if cfg!(miri) {
        v.truncate(if thorough { 9 } else { 0 });
        v.extend([(0, h), (w, h - 1), (w - 1, h), (u32::MAX, u32::MAX)]);
        v.dedup();
    } else {
        v.extend([(0, h + 1), (0, 2 * h), (255, 255), (65535, 1), (1, 65535), (0x8000, 0x8000), (0, 31), (0, 32), (0, 33), (w, 31)]);
    }
    // Only the ones that really are outside
    v.retain(|(x, y)| *x >= w || *y >= h);
    v
}

fn grid_with<T: Elem, P: Forge, const S: usize>(u: &mut U, w: usize, h: usize) {
    for (x, y) in forged_list(w, h, u.thorough()) {
        let p = P::raw(x, y);
        let (px, py) = p.co();
        if px < w && py < h {
            // Became valid when converted to the coordinate type
            continue;
        }
        u.describe(format!("Grid<{}, {}> with the forged position ({px},{py})", T::NAME, P::name()));
        let fill = || -> Grid<T, P, S> { (0..S).map(T::make).collect() };
        let mut g = Guarded::new(fill());
        // Reads
        for k in 0..4 {
            let n = hostile(u, "read", || match k {
                0 => g.it.get(&p).number(),
                1 => g.it[p].number(),
                2 => g.it[&p].number(),
                _ => g.it.line(P::raw_y(y)).iter().map(|e| e.number()).sum(),
            });
            black_box(n);
        }
        // Writes
        for k in 0..6 {
            let what = ["get_mut", "index", "index by reference", "line_mut", "extend", "swap"][k];
            let done = hostile(u, what, || match k {
                0 => *g.it.get_mut(&p) = T::make(200),
                1 => g.it[p] = T::make(201),
                2 => g.it[&p] = T::make(202),
                3 => g.it.line_mut(P::raw_y(y)).iter_mut().for_each(|e| *e = T::make(203)),
                4 => g.it.extend([(P::at(0, 0), T::make(204)), (p, T::make(205))]),
                _ => std::mem::swap(g.it.get_mut(&p), &mut T::make(206)),
            });
            g.check(what);
            // All elements are still there and valid, and at most one
            // line or two elements changed
            let mut changed = 0;
            for (i, e) in g.it.iter().enumerate() {
                e.number();
                changed += (e != &T::make(i)) as usize;
            }
            let most = match (done, k) {
                (_, 3) => w,
                (_, 4) => 2,
                (Some(()), _) => 1,
                _ => 0,
            };
            ck!(changed <= most, "{what} changed {changed} elements");
            g.it = fill();
            u.count("grids read back", 1);
        }
        u.sample(|| format!("reads and writes of Grid<{}, {}> at ({px},{py})", T::NAME, P::name()));
        u.case(&("grid", px, py, T::NAME, P::name()));
    }
}

fn gridbool_with<P: Forge, const W: usize>(u: &mut U, w: usize, h: usize) {
    for (x, y) in forged_list(w, h, u.thorough()) {
        let p = P::raw(x, y);
        let (px, py) = p.co();
        if px < w && py < h {
            continue;
        }
        u.describe(format!("Gridbool<{}, {W}> with the forged position ({px},{py})", P::name()));
        let mut g = Guarded::new(Gridbool::<P, W>::ALL_FALSE);
        for k in 0..3 {
            hostile(u, "read", || match k {
                0 => g.it.get(&p),
                1 => g.it[p],
                _ => g.it[&p],
            });
        }
        for k in 0..6 {
            hostile(u, "write", || match k {
                0 => g.it.set(&p, true),
                1 => g.it.set_t(&p),
                2 => g.it.set_f(&p),
                3 => g.it.set_iter_t([P::at(0, 0), p].into_iter()),
                4 => g.it.set_iter_f([P::at(0, 0), p].into_iter()),
                _ => black_box([p].into_iter().collect::<Gridbool<P, W>>()).set_f(&p),
            });
            g.check("a write");
            ck!(g.it.iter_t().count() <= 2, "too many positions changed");
            black_box(format!("{}", g.it));
        }
        // Any bits at all, in words the user can write
        for word in [0xFFFF_FFFF, 0x8000_0001, u.rng.u64() as u32] {
            g.it.as_inner_mut().iter_mut().for_each(|i| *i = word);
            let n = g.it.iter().filter(|b| *b).count();
            ckeq!(n, g.it.iter_t().count(), "positions that are set");
            ck!(n + g.it.iter_f().count() == w * h, "positions that are set or not");
            hostile(u, "flip", || g.it.flip_h());
            hostile(u, "flip", || g.it.flip_v());
            ckeq!(g.it.iter().filter(|b| *b).count(), n, "positions that are set");
            g.check("a flip");
            black_box(g.it.into_inner());
        }
        u.case(&("gridbool", px, py, P::name(), W));
    }
}

/// Computations on forged positions and maps/sets/searches with them
fn rest_with<P: Forge, const S: usize, const W: usize>(u: &mut U, w: usize, h: usize) {
    for (x, y) in forged_list(w, h, u.thorough()) {
        let p = P::raw(x, y);
        let (px, py) = p.co();
        if px < w && py < h {
            continue;
        }
        u.describe(format!("{} with the forged position ({px},{py})", P::name()));
        let o = P::at(0, 0);
        for k in 0..18 {
            hostile(u, "computation", || {
                match k {
                    0 => black_box(p.to_usize()),
                    1 => p.flip_h().to_usize(),
                    2 => p.flip_v().to_usize(),
                    3 => PosT::next(&p).map_or(0, |p| p.to_usize()),
                    4 => p.next_y().map_or(0, |p| p.to_usize()),
                    5 => p.prev().map_or(0, |p| p.to_usize()),
                    6 => p.prev_y().map_or(0, |p| p.to_usize()),
                    7 => p.manhattan(&o) + o.manhattan(&p),
                    8 => p.inside(&o, &p) as usize + p.is_corner() as usize + p.is_side() as usize,
                    9 => P::iter_range(o, p).take(50).count(),
                    10 => P::iter_range(p, o).take(50).count(),
                    11 => P::iter_in_x(P::raw_x(x)).take(50).count(),
                    12 => P::iter_in_y(P::raw_y(y)).take(50).count(),
                    13 => P::tlbr_of([o, p].into_iter()).map_or(0, |(a, b)| a.to_usize() + b.to_usize()),
                    14 => Dir::iter::<true>().filter(|d| (p + *d).is_ok()).count(),
                    15 => sqrid::direction_to::<P, true>(&o, &p).is_some() as usize,
                    16 => sqrid::direction_to::<P, true>(&p, &o).is_some() as usize,
                    _ => format!("{p:?}").len(),
                };
            });
        }
        // Maps and sets
        hostile(u, "map", || {
            let mut m = <Grid<u16, P, S> as MapPos<u16, P, W, S>>::new(3);
            MapPos::<u16, P, W, S>::set(&mut m, o, 1);
            MapPos::<u16, P, W, S>::set(&mut m, p, 4);
            *MapPos::<u16, P, W, S>::get(&m, &p)
        });
        hostile(u, "set", || {
            let mut s = Gridbool::<P, W>::default();
            SetPos::<P, W, S>::insert(&mut s, p);
            SetPos::<P, W, S>::remove(&mut s, &p);
            SetPos::<P, W, S>::contains(&s, &p)
        });
        // Searches that start, lead or end outside
        let go = |q: P, d: Dir| {
            if d == Dir::E {
                Some(p)
            } else {
                (q + d).ok()
            }
        };
        let gocost = |q: P, d: Dir| go(q, d).map(|q| (q, 1));
        for a in [o, p] {
            for b in [o, p] {
                hostile(u, "bfs", || bf::search_path_grid::<_, _, P, true, W, S>(go, &a, |q| q == b));
                hostile(u, "astar", || astar::search_path_grid::<_, P, true, W, S>(go, &a, &b));
                hostile(u, "ucs", || ucs::search_path_grid::<_, P, true, W, S>(gocost, &a, &b));
                hostile(u, "bfs", || bf::search_path_hash::<_, _, P, true, 0, 0>(go, &a, |q| q == b));
                hostile(u, "astar", || astar::search_path_btree::<_, P, false, 0, 0>(go, &a, &b));
                hostile(u, "ucs", || ucs::search_path_hash::<_, P, true, 0, 0>(gocost, &a, &b));
                hostile(u, "camefrom", || {
                    let m = Grid::<Option<Dir>, P, S>::repeat(Some(Dir::E));
                    camefrom_into_path::<_, P, W, S>(m, &a, &b).is_ok()
                });
            }
            hostile(u, "bf iter", || bf::bf_iter_grid::<_, P, true, W, S>(go, &a).flatten().take(50).count());
        }
        u.case(&("rest", px, py, P::name()));
    }
}

fn forged<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    grid_with::<Box<usize>, Pos<X, Y>, S>(u, w, h);
    if !cfg!(miri) || w * h == 6 {
        grid_with::<String, Pos<X, Y>, S>(u, w, h);
    }
    grid_with::<Aligned, Pos<X, Y>, S>(u, w, h);
    grid_with::<Option<Dir>, Pos<X, Y>, S>(u, w, h);
    if !cfg!(miri) || w * h == 1 {
        grid_with::<(), Pos<X, Y>, S>(u, w, h);
    }
    gridbool_with::<Pos<X, Y>, W>(u, w, h);
    gridbool_with::<Pos<X, Y>, W2>(u, w, h);
    rest_with::<Pos<X, Y>, S, W>(u, w, h);
}

/// Without the arrays on the stack
fn forged_large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    gridbool_with::<Pos<X, Y>, W>(u, w, h);
    gridbool_with::<Pos<X, Y>, W2>(u, w, h);
    grid_with::<Option<Dir>, Pos<X, Y>, S>(u, w, h);
}

/* A position type that lies **************************************************/

#[derive(Clone, Copy, Debug, Default)]
struct Script {
    index: Option<usize>,
    width: Option<usize>,
    height: Option<usize>,
    flip: Option<(u8, u8)>,
    tryfrom: Option<(u8, u8)>,
    next: Option<(u8, u8)>,
}

thread_local! {
    static SCRIPT: Cell<Script> = const { Cell::new(Script { index: None, width: None, height: None, flip: None, tryfrom: None, next: None }) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[derive(Default)]
struct Liar(u8, u8);
const LW: usize = 5;
const LH: usize = 8;
const LS: usize = LW * LH;

impl PosT for Liar {
    type Xtype = u8;
    type Ytype = u8;
    const WIDTH: usize = LW;
    const HEIGHT: usize = LH;
    fn new_(xy: (u8, u8)) -> Self {
        Liar(xy.0, xy.1)
    }
    fn tuple(&self) -> (u8, u8) {
        (self.0, self.1)
    }
    fn width() -> usize {
        SCRIPT.get().width.unwrap_or(LW)
    }
    fn height() -> usize {
        SCRIPT.get().height.unwrap_or(LH)
    }
    fn last() -> Self {
        Liar(LW as u8 - 1, LH as u8 - 1)
    }
    fn to_usize(&self) -> usize {
        SCRIPT.get().index.unwrap_or(self.1 as usize * LW + self.0 as usize)
    }
    fn tryfrom_usize(i: usize) -> Result<Self, Error> {
        Ok(SCRIPT.get().tryfrom.map_or(Liar((i % LW) as u8, (i / LW) as u8), |(x, y)| Liar(x, y)))
    }
    fn flip_h(&self) -> Self {
        SCRIPT.get().flip.map_or(Liar(LW as u8 - 1 - self.0, self.1), |(x, y)| Liar(x, y))
    }
    fn flip_v(&self) -> Self {
        SCRIPT.get().flip.map_or(Liar(self.0, LH as u8 - 1 - self.1), |(x, y)| Liar(x, y))
    }
    fn next(&self) -> Option<Self> {
        if let Some((x, y)) = SCRIPT.get().next {
            return Some(Liar(x, y));
        }
        if (self.0 as usize) < LW - 1 {
            Some(Liar(self.0 + 1, self.1))
        } else if (self.1 as usize) < LH - 1 {
            Some(Liar(0, self.1 + 1))
        } else {
            None
        }
    }
}
impl std::ops::Add<Dir> for Liar {
    type Output = Result<Self, Error>;
    fn add(self, _: Dir) -> Self::Output {
        SCRIPT.get().next.map(|(x, y)| Liar(x, y)).ok_or(Error::OutOfBounds)
    }
}

fn liar(u: &mut U) {
    fn with<T: Elem>(u: &mut U) {
        let any = |u: &mut U| {
            *u.rng.pick(&[0, 1, LS - 1, LS, LS + 1, 2 * LS, 63, 64, 65, 255, 65536, usize::MAX / 64, usize::MAX / 8, usize::MAX - 1, usize::MAX])
        };
        let some = |u: &mut U| u.rng.bool().then(|| (u.rng.u64() as u8 & 15, u.rng.u64() as u8));
        let s = Script {
            index: u.rng.pct(40).then(|| any(u)),
            // Not zero: steps of the width, or of the height, are fine
            width: u.rng.pct(30).then(|| any(u).max(1)),
            height: u.rng.pct(30).then(|| (any(u) & 0xFFFF).max(1)),
            flip: some(u),
            tryfrom: some(u),
            next: if u.rng.pct(20) { some(u) } else { None },
        };
        u.describe(format!("Grid<{}> with a position type that lies: {s:?}", T::NAME));
        SCRIPT.set(Script::default());
        let mut g = Guarded::new((0..LS).map(T::make).collect::<Grid<T, Liar, LS>>());
        let mut b = Guarded::new(Gridbool::<Liar, 2>::ALL_TRUE);
        SCRIPT.set(s);
        let p = Liar(u.rng.u64() as u8 & 7, u.rng.u64() as u8 & 15);
        for k in 0..19 {
            let y = (u.rng.u64() as u8) & 15;
            hostile(u, "a call", || match k {
                0 => {
                    black_box(g.it.get(&p).number());
                }
                1 => g.it[p] = T::make(1),
                2 => g.it.flip_h(),
                3 => g.it.flip_v(),
                4 => {
                    black_box(g.it.line(y).iter().map(|e| e.number()).sum::<usize>());
                }
                5 => g.it.line_mut(y).iter_mut().for_each(|e| *e = T::make(2)),
                6 => {
                    black_box(Grid::<T, Liar, LS>::try_from(vec![(0..LW).map(T::make).collect(); LH]).map(|g| g.iter().map(|e| e.number()).sum::<usize>())).ok();
                }
                7 => {
                    black_box(g.it.extend_from_vecvec(vec![(0..LW).map(T::make).collect(); LH])).ok();
                }
                8 => {
                    black_box(g.it.iter_pos().take(100).map(|(_, e)| e.number()).sum::<usize>());
                }
                9 => b.it.set(&p, false),
                10 => {
                    black_box(b.it.get(&p));
                }
                11 => b.it.flip_h(),
                12 => b.it.flip_v(),
                13 => {
                    black_box(b.it.iter().take(100).count() + b.it.iter_pos().take(100).count());
                    if s.next.is_none() {
                        black_box(b.it.iter_t().take(100).count() + b.it.iter_f().take(100).count());
                    }
                }
                14 => b.it.set_iter_t(Liar::iter().take(100)),
                15 => {
                    // Positions repeat at most 256 times each before
                    // the iterator of the position type repeats itself,
                    // which is bounded here by the items
                    black_box((0..LS).map(T::make).collect::<Grid<T, Liar, LS>>());
                }
                16 => {
                    let go = |p: Liar, d| (p + d).ok();
                    black_box(bf::search_path_grid::<_, _, Liar, true, 2, LS>(go, &p, |_| false)).ok();
                    black_box(astar::search_path_grid::<_, Liar, true, 2, LS>(go, &p, &Liar(1, 1))).ok();
                    black_box(ucs::search_path_grid::<_, Liar, true, 2, LS>(|p, d| go(p, d).map(|p| (p, 2)), &p, &Liar(1, 1))).ok();
                }
                17 => {
                    let c = g.it.clone();
                    black_box(c.into_iter().map(|e| e.number()).sum::<usize>());
                }
                _ => {
                    let mut m = <Grid<u8, Liar, LS> as MapPos<u8, Liar, 2, LS>>::new(0);
                    MapPos::<u8, Liar, 2, LS>::set(&mut m, p, 1);
                }
            });
            g.check("a call");
            b.check("a call");
            for e in g.it.as_array() {
                black_box(e.number());
            }
        }
        SCRIPT.set(Script::default());
        u.sample(|| format!("{} elements, lies {s:?}", T::NAME));
        u.case(&(format!("{s:?}"), T::NAME, p));
        u.count("lies", 1);
    }
    for _ in 0..u.scale(200, 5000).max(3) {
        with::<Box<usize>>(u);
        with::<Aligned>(u);
        with::<Option<Dir>>(u);
        with::<()>(u);
        if !cfg!(miri) {
            with::<String>(u);
        }
    }
}

/* References *****************************************************************/

fn references<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    fn with<T: Elem, const X: u16, const Y: u16, const S: usize>(u: &mut U) {
        u.describe(format!("references into Grid<{}, Pos<{X},{Y}>>", T::NAME));
        let (w, h) = (X as usize + 1, Y as usize + 1);
        let mut g: Box<Grid<T, Pos<X, Y>, S>> = Box::new((0..S).map(T::make).collect());
        // Shared references to everything, at the same time
        {
            let mut all: Vec<&T> = vec![];
            all.extend(g.iter());
            all.extend(g.iter_pos().map(|(_, e)| e));
            all.extend(Pos::<X, Y>::iter().map(|p| g.get(&p)));
            all.extend(Pos::<X, Y>::iter().map(|p| &g[p]));
            for y in 0..h {
                all.extend(g.line(BoundedU16(y as u16)));
            }
            all.extend(g.as_array());
            all.extend(AsRef::<[T; S]>::as_ref(&*g));
            all.extend(&*g);
            for (i, e) in all.iter().enumerate() {
                ckeq!(e.number(), T::make(i % S).number(), "element {i}");
            }
            ckeq!(all.len(), 8 * S, "references");
        }
        // Exclusive references to every element, at the same time
        let mut all: Vec<&mut T> = g.iter_mut().collect();
        all.reverse();
        for (i, e) in all.iter_mut().enumerate() {
            **e = T::make(i + 1);
        }
        for (i, e) in all.iter().enumerate() {
            ckeq!(e.number(), T::make(i + 1).number(), "element {i}");
        }
        let mut all: Vec<&mut T> = (&mut *g).into_iter().collect();
        all.swap(0, S - 1);
        all.iter_mut().for_each(|e| **e = T::make(7));
        let y = u.rng.below(h) as u16;
        let (a, b) = g.line_mut(BoundedU16(y)).split_at_mut(w / 2);
        a.iter_mut().chain(b.iter_mut()).for_each(|e| *e = T::make(3));
        let x = u.rng.below(w) as u16;
        let e = g.get_mut(&Pos::new_unwrap(x, y));
        *e = T::make(4);
        ckeq!(g[Pos::new_unwrap(x, y)].number(), T::make(4).number(), "element");
        // Iterators that are used from both ends and dropped half way
        let mut it = g.iter_mut();
        let (a, b) = (it.next(), it.next_back());
        if let (Some(a), Some(b)) = (a, b) {
            std::mem::swap(a, b);
        }
        drop(it);
        let mut it = (*g).into_iter();
        let (a, b) = (it.next(), it.next_back());
        black_box((a, b));
        drop(it);
        u.case(&("references", T::NAME, X, Y));
        u.count("reference patterns", 1);
    }
    with::<Box<usize>, X, Y, S>(u);
    with::<String, X, Y, S>(u);
    with::<Aligned, X, Y, S>(u);
    with::<Option<Dir>, X, Y, S>(u);
    with::<(), X, Y, S>(u);
    // Booleans live somewhere
    let mut g = Box::new(Gridbool::<Pos<X, Y>, W>::ALL_FALSE);
    let p = Pos::<X, Y>::at(u.rng.below(X as usize + 1), u.rng.below(Y as usize + 1));
    let kept: &'static bool = {
        let r: bool = g[p];
        if r {
            &true
        } else {
            &false
        }
    };
    g.set_t(&p);
    ck!(!kept && g[p] && g[&p], "value of {p:?}");
    let refs: Vec<&bool> = Pos::<X, Y>::iter().map(|p| &g[p]).collect();
    ckeq!(refs.iter().filter(|b| ***b).count(), 1, "positions that are set");
}

/* A tour of the whole interface **********************************************/

fn tour<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let n = u.scale(20, 500);
    for _ in 0..n.min(if cfg!(miri) { 1 } else { n }) {
        u.describe(format!("tour of {w}x{h}"));
        tour_searches::<Pos<X, Y>, true, S, W>(u, w, h);
        tour_searches::<Pos<X, Y>, false, S, W2>(u, w, h);
        tour_grids::<Pos<X, Y>, S, W>(u, w, h);
        u.count("tours", 1);
        let k = u.rng.u64();
        u.case(&(k, X, Y));
    }
}

fn tour_searches<P: Forge, const D: bool, const S: usize, const W: usize>(u: &mut U, w: usize, h: usize) {
    let mut t = Terrain::random(&mut u.rng, w, h);
    t.random_costs(&mut u.rng);
    let (go, gocost) = (go_of::<P>(&t), gocost_of::<P>(&t));
    let (a, b) = (u.rng.below(S), u.rng.below(S));
    let (o, d) = (P::at(a % w, a / w), P::at(b % w, b / w));
    black_box(bf::search_path_grid::<_, _, P, D, W, S>(&go, &o, |p| p == d)).ok();
    black_box(bf::search_path_hash::<_, _, P, D, W, S>(&go, &o, |p| p == d)).ok();
    black_box(bf::search_path_btree::<_, _, P, D, W, S>(&go, &o, |p| p == d)).ok();
    black_box(astar::search_path_grid::<_, P, D, W, S>(&go, &o, &d)).ok();
    black_box(astar::search_path_hash::<_, P, D, W, S>(&go, &o, &d)).ok();
    black_box(astar::search_path_btree::<_, P, D, W, S>(&go, &o, &d)).ok();
    black_box(ucs::search_path_grid::<_, P, D, W, S>(&gocost, &o, &d)).ok();
    black_box(ucs::search_path_hash::<_, P, D, W, S>(&gocost, &o, &d)).ok();
    black_box(ucs::search_path_btree::<_, P, D, W, S>(&gocost, &o, &d)).ok();
    let layers = bf::bf_iter_grid::<_, P, D, W, S>(&go, &o);
    let copy = layers.clone();
    ckeq!(layers.flatten().count(), copy.flatten().count(), "positions reached");
    // A movement function that panics half way; both the iterator and
    // the grid it fills are used again afterwards
    let n = Cell::new(u.rng.below(S * 4 + 1));
    let bomb = |p: P, d: Dir| {
        if n.get() == 0 {
            n.set(usize::MAX);
            panic!("the movement function panics");
        }
        n.set(n.get() - 1);
        go(p, d)
    };
    let mut it = hostile(u, "iterator", || bf::bf_iter_grid::<_, P, D, W, S>(&bomb, &o));
    for _ in 0..S {
        if let Some(it) = &mut it {
            hostile(u, "next", || it.next());
        }
    }
    let mut it = ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(&gocost, &o);
    for _ in 0..S {
        black_box(it.next());
    }
    let sets: (HashSet<P>, BTreeSet<P>) = (P::iter().collect(), P::iter().collect());
    let maps: (HashMap<P, u8>, BTreeMap<P, u8>) = (P::iter().map(|p| (p, 1)).collect(), P::iter().map(|p| (p, 1)).collect());
    ckeq!(sets.0.len() + sets.1.len() + maps.0.len() + maps.1.len(), 4 * S, "positions");
}

fn tour_grids<P: Forge, const S: usize, const W: usize>(u: &mut U, w: usize, h: usize) {
    let mut g: Grid<String, P, S> = P::iter().map(|p| format!("{p:?}")).collect();
    g.flip_h();
    g.flip_v();
    black_box(format!("{g:3}"));
    let lines: Vec<Vec<String>> = (0..h).map(|y| (0..u.rng.below(w + 1)).map(|x| format!("{x}/{y}")).collect()).collect();
    let mut other = Grid::<String, P, S>::try_from(lines.clone()).expect("fits");
    g.extend_from_vecvec(lines).expect("fits");
    ck!(g.extend_from_vecvec(vec![vec![]; h].into_iter().chain([vec!["outside".to_string()]]).collect()).is_err(), "doesn't fit");
    std::mem::swap(&mut g, &mut other);
    black_box((g == other, g.clone() < other, format!("{g:?}").len()));
    // The constructor of an element panics half way, twice; the nested
    // vectors are dropped by the unwinding
    #[derive(Debug, Clone, PartialEq)]
    struct Bomb(Box<usize>);
    thread_local! { static LEFT: Cell<usize> = const { Cell::new(0) }; }
    impl Default for Bomb {
        fn default() -> Bomb {
            if LEFT.get() == 0 {
                panic!("the constructor panics");
            }
            LEFT.set(LEFT.get() - 1);
            Bomb(Box::new(0))
        }
    }
    for n in [0, S / 2, S - 1, S] {
        LEFT.set(n);
        hostile(u, "default", || Grid::<Bomb, P, S>::default().iter().map(|b| *b.0).sum::<usize>());
        LEFT.set(n);
        let v = (0..h).map(|_| (0..w).map(|x| Bomb(Box::new(x))).collect()).collect::<Vec<Vec<_>>>();
        hostile(u, "try_from", || Grid::<Bomb, P, S>::try_from(v).map(|g| g.iter().map(|b| *b.0).sum::<usize>()));
        LEFT.set(S);
        hostile(u, "collect", || {
            (0..S)
                .map(|i| if i == n { panic!("the iterator panics") } else { Bomb(Box::new(i)) })
                .collect::<Grid<Bomb, P, S>>()
        });
        LEFT.set(S);
        if let Ok(mut g) = catch(Grid::<Bomb, P, S>::default) {
            hostile(u, "extend", || {
                g.extend(P::iter().enumerate().map(|(i, p)| if i == n { panic!("the iterator panics") } else { (p, Bomb(Box::new(i))) }))
            });
            // Keep using it
            g.flip_h();
            for (i, b) in g.into_iter().enumerate() {
                ck!(*b.0 < S, "element {i}");
            }
        }
    }
    let mut b: Gridbool<P, W> = (0..S).map(|_| u.rng.bool()).collect();
    b.flip_v();
    b.flip_h();
    ckeq!(b.iter_t().count() + b.iter_f().count(), S, "positions");
    black_box(format!("{b}"));
    hostile(u, "set_iter_t", || {
        b.set_iter_t(P::iter().enumerate().map(|(i, p)| if i == S / 2 { panic!("the iterator panics") } else { p }))
    });
    ckeq!(b.iter_t().count() + b.iter_f().count(), S, "positions");
}

/// Sizes, and rotations, which only exist for squares
fn square<const X: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let mut g: Box<Grid<Box<usize>, Pos<X, X>, S>> = Box::new((0..S).map(Box::new).collect());
    let mut b = Gridbool::<Pos<X, X>, W>::ALL_TRUE;
    for _ in 0..u.scale(20, 200) {
        if u.rng.bool() {
            g.rotate_cw();
            b.rotate_cw();
        } else {
            g.rotate_cc();
            b.rotate_cc();
        }
        let mut v: Vec<usize> = g.iter().map(|b| **b).collect();
        v.sort();
        ck!(v.iter().enumerate().all(|(i, v)| i == *v), "elements after rotations: {v:?}");
        b.as_inner_mut()[u.rng.below(W)] = u.rng.u64() as u32;
        u.count("rotations", 2);
    }
    // Forged positions can be rotated too
    for (x, y) in forged_list(X as usize + 1, X as usize + 1, u.thorough()) {
        let p = Pos::<X, X>::raw(x, y);
        hostile(u, "rotate", || *g[p.rotate_cw()]);
        hostile(u, "rotate", || *g[p.rotate_cc()]);
    }
    u.case(&("square", X));
}

fn sizes<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    use std::mem::{align_of, size_of};
    let n = (X as usize + 1) * (Y as usize + 1);
    u.describe(format!("sizes for Pos<{X},{Y}>"));
    macro_rules! one {
        ($($t:ty),*) => { $(
            ckeq!(size_of::<Grid<$t, Pos<X, Y>, S>>(), n * size_of::<$t>(), "size of a grid of {}", stringify!($t));
            ckeq!(align_of::<Grid<$t, Pos<X, Y>, S>>(), align_of::<$t>(), "alignment of a grid of {}", stringify!($t));
            ckeq!(Grid::<$t, Pos<X, Y>, S>::SIZE, n, "SIZE");
        )* };
    }
    one!(u8, u64, (), Aligned, Option<Dir>, Box<u8>, (u8, u32));
    ckeq!(size_of::<Gridbool<Pos<X, Y>, W>>(), 4 * W, "size of a boolean grid");
    ck!(32 * W >= n && 32 * W2 >= n, "words of a boolean grid");
    let g = Gridbool::<Pos<X, Y>, W>::ALL_TRUE;
    ckeq!(g.as_inner().iter().map(|w| w.count_ones() as usize).sum::<usize>(), n, "bits set by ALL_TRUE");
    u.case(&("sizes", X, Y));
}

fn main() {
    let mut m = Mon::new(
        "C11",
        "safe programs that give positions forged through public fields, positions of a user-written type that lies about its index, size and neighbours, arbitrary bitmap words and panicking callbacks and constructors to every operation of grids, boolean grids, maps, sets, iterators and searches, keep all kinds of references at the same time, and keep using what survived; guard words around the storage, all elements read back; run natively, with precondition checks, under Miri and under AddressSanitizer; a case is a distinct (position or lie, element type, position type)",
    );
    m.require("hostile calls", 20_000);
    m.require("hostile calls refused by a panic", 5_000);
    m.require("grids read back", 2_000);
    m.require("lies", 500);
    m.require("reference patterns", 100);
    m.require("tours", 100);
    m.require("rotations", 400);
    if cfg!(miri) {
        sqmon::units_dims!(m, "forged", 1, 1, forged, [(0, 0), (2, 1), (1, 3)]);
        sqmon::units_dims!(m, "references", 1, 1, references, [(0, 0), (2, 1), (0, 4), (3, 3)]);
        sqmon::units_dims!(m, "tour", 1, 1, tour, [(0, 0), (1, 2), (3, 1)]);
        sqmon::units_sq!(m, "square", 1, 1, square, [0, 1, 2, 3]);
        sqmon::units_dims!(m, "words", 1, 1, forged_words, [(31, 0), (0, 32), (10, 2)]);
    } else {
        sqmon::tiny_dims!(m, "forged", 1, 2, forged);
        sqmon::medium_dims!(m, "forged", 1, 2, forged);
        sqmon::seeded_dims!(m, "seeded", 1, 2, forged);
        sqmon::units_dims!(m, "large", 1, 1, forged_large, [(254, 1), (255, 0), (0, 256), (99, 100)]);
        sqmon::tiny_dims!(m, "references", 1, 2, references);
        sqmon::medium_dims!(m, "references", 1, 2, references);
        sqmon::few_dims!(m, "tour", 1, 4, tour);
        sqmon::seeded_dims!(m, "seededtour", 1, 4, tour);
        sqmon::square_dims!(m, "square", 1, 2, square);
        sqmon::tiny_dims!(m, "sizes", 1, 1, sizes);
        sqmon::medium_dims!(m, "sizes", 1, 1, sizes);
        sqmon::large_dims!(m, "sizes", 1, 1, sizes);
        sqmon::seeded_dims!(m, "seededsizes", 1, 1, sizes);
    }
    // With a position type that lies, only memory is at stake
    m.may_hang("liar");
    m.shards("liar", 4, 16, liar);
    m.unit("user", |u| {
        grid_with::<Box<usize>, UserPos<2, 1>, 6>(u, 3, 2);
        gridbool_with::<UserPos<2, 1>, 1>(u, 3, 2);
        rest_with::<UserPos<2, 1>, 6, 1>(u, 3, 2);
        for _ in 0..u.scale(20, 200).min(if cfg!(miri) { 1 } else { 200 }) {
            tour_searches::<UserPos<3, 2>, true, 12, 1>(u, 4, 3);
            tour_grids::<UserPos<3, 2>, 12, 1>(u, 4, 3);
        }
    });
    let _ = black_box(<u8 as BoundedInt>::MAX);
    let _: Option<Sqrid<0, 0, true, 0, 0>> = None;
    m.run()
}

/// Word boundaries, small enough for Miri
#[cfg_attr(not(miri), allow(dead_code))]
fn forged_words<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    gridbool_with::<Pos<X, Y>, W>(u, w, h);
    gridbool_with::<Pos<X, Y>, W2>(u, w, h);
}
