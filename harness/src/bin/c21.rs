//! C21: searches always terminate and only query moves they may make

use sqmon::model::{allowed, di, step, Terrain, COMPASS, DIRS};
use sqmon::mon::{catch, Mon, Rng, U};
use sqmon::search::{UserPos, TP};
use sqmon::{ck, fail};
use sqrid::{astar, bf, ucs, Dir, Error, Grid, Gridbool, Pos, PosT, Sqrid};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::Add;

type HMap<P, T> = (HashMap<P, T>, T);
type BMap<P, T> = (BTreeMap<P, T>, T);

/// What the grids and sets need
trait Q: PosT + Ord + Hash + Copy + Debug + Add<Dir, Output = Result<Self, Error>> + 'static {}
impl<P: PosT + Ord + Hash + Copy + Debug + Add<Dir, Output = Result<P, Error>> + 'static> Q for P {}

/// Records what a search asks
struct Trace<'a, P> {
    diag: bool,
    limit: u64,
    calls: Cell<u64>,
    goals: Cell<u64>,
    asked: RefCell<HashMap<P, [u32; 8]>>,
    reached: RefCell<HashSet<P>>,
    answer: &'a dyn Fn(P, Dir, u64) -> Option<(P, usize)>,
    goal: &'a dyn Fn(P, u64) -> bool,
}

impl<'a, P: Q> Trace<'a, P> {
    fn new(w: &World<'a, P>, diag: bool, limit: u64) -> Trace<'a, P> {
        Trace {
            diag,
            limit,
            calls: Cell::new(0),
            goals: Cell::new(0),
            asked: Default::default(),
            reached: RefCell::new(HashSet::from([w.orig])),
            answer: w.answer,
            goal: w.goal,
        }
    }
    fn gocost(&self, p: P, d: Dir) -> Option<(P, usize)> {
        let i = di(d);
        self.calls.set(self.calls.get() + 1);
        ck!(self.calls.get() <= self.limit, "more than {} moves were considered", self.limit);
        ck!(self.diag || i % 2 == 0, "{} was considered at {p:?}, without diagonals", COMPASS[i].0);
        ck!(self.reached.borrow().contains(&p), "moves from {p:?} are considered, which was not reached");
        self.asked.borrow_mut().entry(p).or_default()[i] += 1;
        let a = (self.answer)(p, d, self.calls.get());
        if let Some((q, _)) = a {
            self.reached.borrow_mut().insert(q);
        }
        a
    }
    fn go(&self, p: P, d: Dir) -> Option<P> {
        self.gocost(p, d).map(|(q, _)| q)
    }
    fn found(&self, p: P) -> bool {
        self.goals.set(self.goals.get() + 1);
        ck!(self.goals.get() <= self.limit, "more than {} goals were considered", self.limit);
        ck!(self.reached.borrow().contains(&p), "the goal predicate is asked about {p:?}, which was not reached");
        (self.goal)(p, self.goals.get())
    }
    /// Everything that was reached must have been explored everywhere
    fn explored(&self, what: &str) {
        let asked = self.asked.borrow();
        for p in self.reached.borrow().iter() {
            let a = asked.get(p).copied().unwrap_or_default();
            for &d in allowed(self.diag) {
                ck!(a[d] > 0, "{what}: {} from {p:?}, which was reached, was not considered", COMPASS[d].0);
            }
        }
    }
}

/// A movement function, which may know how many calls there were
struct World<'a, P> {
    n: usize,
    orig: P,
    dest: P,
    /// Each position and direction always has the same answer
    consistent: bool,
    /// Totals can be represented
    cheap: bool,
    answer: &'a dyn Fn(P, Dir, u64) -> Option<(P, usize)>,
    goal: &'a dyn Fn(P, u64) -> bool,
}

#[derive(Default)]
struct Seen {
    searches: u64,
    moves: u64,
    goals: u64,
    paths: u64,
    errors: BTreeMap<String, u64>,
    exhausted: u64,
}

/// One search, which must not panic
fn run<P: Q, R>(s: &mut Seen, what: &str, tr: &Trace<P>, f: impl FnOnce(&Trace<P>) -> R) -> R {
    let r = match catch(|| f(tr)) {
        Ok(r) => r,
        Err(e) => fail!("{what}: {e}"),
    };
    s.searches += 1;
    s.moves += tr.calls.get();
    s.goals += tr.goals.get();
    r
}

fn outcome<T>(s: &mut Seen, r: Result<T, Error>) -> bool {
    match r {
        Ok(_) => {
            s.paths += 1;
            false
        }
        Err(e) => {
            *s.errors.entry(format!("{e:?}")).or_default() += 1;
            e == Error::DestinationUnreachable
        }
    }
}

fn limits(n: usize) -> (u64, u64, u64) {
    let n = n as u64;
    // Breadth-first: every position once; UCS: possibly again for every
    // move that leads to it; A*: again for every shorter way. Twice that.
    (16 * n + 64, 2 * 64 * n + 128, 16 * n * n + 256)
}

macro_rules! traversals {
    ($s:expr, $w:expr, $d:expr, $lim:expr, [$($f:expr),* $(,)?]) => { $(
        let what = stringify!($f);
        let tr = Trace::new($w, $d, $lim);
        let items = run($s, what, &tr, |tr| {
            let mut it = $f(|p, d| tr.go(p, d), &$w.orig);
            let mut items = 0u64;
            for l in it.by_ref() {
                items += 1;
                ck!(!l.is_empty(), "{what}: empty layer");
                ck!(items <= $w.n as u64 + 1, "{what}: more layers than positions");
            }
            ck!(it.next().is_none(), "{what}: continues after the end");
            items
        });
        let _ = items;
        $s.exhausted += 1;
        tr.explored(what);
    )* };
}

macro_rules! goals {
    ($s:expr, $w:expr, $d:expr, $lim:expr, [$($f:expr),* $(,)?]) => { $(
        let what = stringify!($f);
        let tr = Trace::new($w, $d, $lim);
        let r = run($s, what, &tr, |tr| $f(|p, d| tr.go(p, d), &$w.orig, |p| tr.found(p)));
        if outcome($s, r) && $w.consistent {
            $s.exhausted += 1;
            tr.explored(what);
        }
    )* };
}

macro_rules! paths {
    ($s:expr, $w:expr, $d:expr, $lim:expr, $go:ident, [$($f:expr),* $(,)?]) => { $(
        let what = stringify!($f);
        let tr = Trace::new($w, $d, $lim);
        let r = run($s, what, &tr, |tr| $f(|p, d| tr.$go(p, d), &$w.orig, &$w.dest));
        if outcome($s, r) && $w.consistent {
            $s.exhausted += 1;
            tr.explored(what);
        }
    )* };
}

fn hashed<P: Q, const D: bool>(s: &mut Seen, w: &World<P>) {
    let (lb, lu, la) = limits(w.n);
    traversals!(s, w, D, lb, [
        Sqrid::<0, 0, D, 1, 2>::bf_iter_hash,
        Sqrid::<2, 2, D, 1, 9>::bf_iter_btree,
        bf::bf_iter_hash::<_, P, D, 0, 0>,
        bf::bf_iter::<_, BTreeSet<P>, P, D, 0, 0>,
    ]);
    goals!(s, w, D, lb, [
        Sqrid::<0, 0, D, 1, 2>::bfs_path_hash,
        Sqrid::<2, 2, D, 1, 9>::bfs_path_btree,
        bf::search_mapmov::<_, _, BMap<P, Option<Dir>>, HashSet<P>, P, D, 0, 0>,
    ]);
    paths!(s, w, D, la, go, [
        Sqrid::<0, 0, D, 1, 2>::astar_path_hash,
        Sqrid::<2, 2, D, 1, 9>::astar_path_btree,
        astar::search_mapmov::<_, BMap<P, Option<Dir>>, HMap<P, usize>, P, D, 0, 0>,
    ]);
    let tr = Trace::new(w, D, la);
    run(s, "AstarIterator", &tr, |tr| {
        let go = |p, d| tr.go(p, d);
        let mut it = astar::AstarIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(&go, &w.orig, &w.dest);
        let n = it.by_ref().take(la as usize + 1).count();
        ck!(n as u64 <= la, "AstarIterator: yields more than {la} items");
        ck!(it.next().is_none(), "AstarIterator: continues after the end");
    });
    tr.explored("AstarIterator");
    let mut w2 = World { consistent: w.consistent && w.cheap, ..*w };
    paths!(s, &w2, D, lu, gocost, [
        Sqrid::<0, 0, D, 1, 2>::ucs_path_hash,
        Sqrid::<2, 2, D, 1, 9>::ucs_path_btree,
        ucs::search_mapmov::<_, BMap<P, Option<Dir>>, HMap<P, usize>, P, D, 0, 0>,
    ]);
    w2.consistent = w.consistent;
    let tr = Trace::new(w, D, lu);
    run(s, "UcsIterator", &tr, |tr| {
        let go = |p, d| tr.gocost(p, d);
        let mut it = ucs::UcsIterator::<_, BMap<P, usize>, P, D, 1, 7>::new(&go, &w.orig);
        let n = it.by_ref().take(lu as usize + 1).count();
        ck!(n as u64 <= lu, "UcsIterator: yields more than {lu} items");
        ck!(it.next().is_none(), "UcsIterator: continues after the end");
    });
    if w.cheap {
        tr.explored("UcsIterator");
    }
}

fn gridded<P: Q, const D: bool, const W: usize, const S: usize>(s: &mut Seen, w: &World<P>) {
    let (lb, lu, la) = limits(w.n);
    traversals!(s, w, D, lb, [
        Sqrid::<0, 0, D, W, S>::bf_iter,
        Sqrid::<0, 0, D, W, S>::bf_iter_grid,
        bf::bf_iter_grid::<_, P, D, W, S>,
    ]);
    goals!(s, w, D, lb, [
        Sqrid::<0, 0, D, W, S>::bfs_path,
        Sqrid::<0, 0, D, W, S>::bfs_path_grid,
        bf::search_mapmov::<_, _, Grid<Option<Dir>, P, S>, Gridbool<P, W>, P, D, W, S>,
    ]);
    paths!(s, w, D, la, go, [Sqrid::<0, 0, D, W, S>::astar_path, Sqrid::<0, 0, D, W, S>::astar_path_grid]);
    let w2 = World { consistent: w.consistent && w.cheap, ..*w };
    paths!(s, &w2, D, lu, gocost, [Sqrid::<0, 0, D, W, S>::ucs_path, Sqrid::<0, 0, D, W, S>::ucs_path_grid]);
}

fn tally(u: &mut U, s: Seen) {
    u.count("searches", s.searches);
    u.count("moves observed", s.moves);
    u.count("goal queries observed", s.goals);
    u.count("paths", s.paths);
    u.count("exhausted searches", s.exhausted);
    for (e, n) in s.errors {
        u.count(&format!("errors: {e}"), n);
    }
}

fn cost(r: &mut Rng, cheap: bool) -> usize {
    if cheap {
        r.below(50)
    } else {
        *r.pick(&[0, 1, 2, usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 40])
    }
}

/// Run `f` with hostile worlds over the given positions
fn worlds<P: Q>(u: &mut U, name: &str, ps: &[P], near: &dyn Fn(P, Dir) -> Option<P>, f: &mut dyn FnMut(&mut U, &mut Seen, &World<P>)) {
    let n = ps.len();
    let index: HashMap<P, usize> = ps.iter().enumerate().map(|(i, p)| (*p, i)).collect();
    let (orig, dest) = (*u.rng.pick(ps), *u.rng.pick(ps));
    let seed = u.rng.u64();
    let cheap = u.rng.pct(60);
    let kind = u.rng.below(7);
    let mut r = Rng::new(seed);
    // Answers that don't change
    let mut table: Vec<[Option<(usize, usize)>; 8]> = vec![[None; 8]; n];
    let (pn, pw) = (*r.pick(&[0, 20, 50, 80]), *r.pick(&[5, 30, 100]));
    let sink = r.below(n);
    for (i, a) in table.iter_mut().enumerate() {
        for (d, t) in a.iter_mut().enumerate() {
            let target = match kind {
                0 => {
                    // Jumps
                    if r.pct(pn) {
                        None
                    } else if r.pct(pw) {
                        Some(r.below(n))
                    } else {
                        near(ps[i], DIRS[d]).and_then(|p| index.get(&p).copied())
                    }
                }
                // Standing still
                1 => Some(i),
                // Everything leads to one position
                2 => Some(sink),
                // Two positions that lead to each other, whatever the direction
                3 => Some(if i == sink { (sink + 1) % n } else { sink }),
                // Opposite of what is asked
                4 => near(ps[i], DIRS[(d + 4) % 8]).and_then(|p| index.get(&p).copied()),
                _ => near(ps[i], DIRS[d]).and_then(|p| index.get(&p).copied()),
            };
            *t = target.map(|t| (t, cost(&mut r, cheap)));
        }
    }
    let consistent = kind < 5;
    let kindname = ["jumps", "standing still", "sink", "two cycle", "opposite", "different answers", "gives up"][kind];
    let answer = |p: P, d: Dir, call: u64| -> Option<(P, usize)> {
        let Some(&i) = index.get(&p) else { fail!("moves from {p:?} are considered, which was never an answer") };
        let fixed = table[i][di(d)];
        let mut r = Rng::new(seed ^ call.wrapping_mul(0x9E3779B97F4A7C15));
        let a = match kind {
            5 => {
                // A different answer each time
                match r.below(4) {
                    0 => None,
                    1 => fixed,
                    2 => Some((i, cost(&mut r, cheap))),
                    _ => Some((r.below(n), cost(&mut r, cheap))),
                }
            }
            // Less and less
            6 => fixed.filter(|_| r.below(n + 1) as u64 * 8 > call),
            _ => fixed,
        };
        a.map(|(t, c)| (ps[t], c))
    };
    let goalkind = r.below(4);
    let goal = |p: P, call: u64| -> bool {
        match goalkind {
            0 => false,
            1 => p == dest,
            // Changes its mind
            2 => Rng::new(seed ^ call).below(n + 3) == 0,
            _ => p == dest && call % 2 == 0,
        }
    };
    u.describe(format!(
        "{name}: {kindname}, from {orig:?} to {dest:?}, {n} positions, goal predicate {goalkind}, world seed {seed}, answers {:?}",
        if n <= 16 { &table[..] } else { &[] }
    ));
    let w = World { n, orig, dest, consistent, cheap, answer: &answer, goal: &goal };
    let mut s = Seen::default();
    f(u, &mut s, &w);
    u.count(&format!("worlds: {kindname}"), 1);
    u.case(&(name, seed));
    u.sample(|| format!("{name}: {kindname}, {n} positions, {} searches, {} moves", s.searches, s.moves));
    tally(u, s);
}

fn confined<P: Q + TP, const W: usize, const W2: usize, const S: usize>(u: &mut U, w: usize, h: usize, rounds: usize) {
    let ps: Vec<P> = (0..w * h).map(|c| P::at(c % w, c / w)).collect();
    let near = |p: P, d: Dir| {
        let (x, y) = p.co();
        step(w, h, y * w + x, di(d)).map(|c| P::at(c % w, c / w))
    };
    for _ in 0..rounds {
        worlds(u, &P::name(), &ps, &near, &mut |u, s, world| {
            if u.rng.bool() {
                gridded::<P, true, W, S>(s, world);
                hashed::<P, true>(s, world);
            } else {
                gridded::<P, false, W2, S>(s, world);
                hashed::<P, false>(s, world);
            }
        });
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(if S > 70 { 40 } else { 100 }, if S > 70 { 600 } else { 2500 });
    confined::<Pos<X, Y>, W, W2, S>(u, X as usize + 1, Y as usize + 1, n);
}

/// One-step terrains, larger
fn terrains<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for _ in 0..u.scale(if S > 65536 { 2 } else { 4 }, if S > 65536 { 10 } else { 60 }) {
        let mut t = Terrain::random(&mut u.rng, w, h);
        t.random_costs(&mut u.rng);
        if u.rng.bool() {
            t.add_stays(&mut u.rng);
        }
        if u.rng.pct(30) {
            t.add_warps(&mut u.rng);
        }
        let (o, d) = (u.rng.below(S), u.rng.below(S));
        let answer = |p: Pos<X, Y>, d: Dir, _| {
            let (x, y) = p.co();
            t.tgt[y * w + x][di(d)].map(|c| (Pos::at(c % w, c / w), t.cost[y * w + x][di(d)]))
        };
        let dest = Pos::<X, Y>::at(d % w, d / w);
        let goal = |p: Pos<X, Y>, _| p == dest;
        u.describe(format!("Pos<{X},{Y}> from cell {o} to {d}, on {}", t.show()));
        let world = World {
            n: S,
            orig: Pos::at(o % w, o / w),
            dest,
            consistent: true,
            cheap: t.coststyle != "huge",
            answer: &answer,
            goal: &goal,
        };
        let mut s = Seen::default();
        if u.rng.bool() {
            gridded::<Pos<X, Y>, true, W, S>(&mut s, &world);
            hashed::<Pos<X, Y>, true>(&mut s, &world);
        } else {
            gridded::<Pos<X, Y>, false, W2, S>(&mut s, &world);
            hashed::<Pos<X, Y>, false>(&mut s, &world);
        }
        u.case(&(&t, o, d));
        tally(u, s);
    }
}

/// Integer pairs that are anywhere
fn anywhere<P: Q>(u: &mut U, name: &str, lo: i64, hi: i64, mk: impl Fn(i64, i64) -> P, co: impl Fn(P) -> (i64, i64)) {
    for _ in 0..u.scale(60, 1500) {
        // Some islands
        let mut set = BTreeSet::new();
        for _ in 0..1 + u.rng.below(4) {
            let (x, y) = (u.rng.range(lo, hi), u.rng.range(lo, hi));
            let (x, y) = match u.rng.below(3) {
                0 => (lo + u.rng.range(0, 3), lo + u.rng.range(0, 3)),
                1 => (hi - u.rng.range(0, 3), hi - u.rng.range(0, 3)),
                _ => (x, y),
            };
            for _ in 0..1 + u.rng.below(12) {
                let (x, y) = (x + u.rng.range(-2, 2), y + u.rng.range(-2, 2));
                if x >= lo && y >= lo && x <= hi && y <= hi {
                    set.insert((x, y));
                }
            }
        }
        if set.is_empty() {
            continue;
        }
        let ps: Vec<P> = set.iter().map(|(x, y)| mk(*x, *y)).collect();
        let near = |p: P, d: Dir| {
            let (x, y) = co(p);
            let (x, y) = (x + COMPASS[di(d)].1, y + COMPASS[di(d)].2);
            (x >= lo && y >= lo && x <= hi && y <= hi).then(|| mk(x, y))
        };
        worlds(u, name, &ps, &near, &mut |u, s, world| {
            if u.rng.bool() {
                hashed::<P, true>(s, world)
            } else {
                hashed::<P, false>(s, world)
            }
        });
        u.count("worlds of integer pairs", 1);
    }
}

fn main() {
    let mut m = Mon::new(
        "C21",
        "every traversal and search, with movement functions that jump, stand still, lead to one position, go back and forth, go the opposite way, answer differently each time or give up, and goal predicates that change their mind, over grids of many sizes, a user-written position type and integer pairs anywhere in their range; the harness is the movement function: it counts the moves against a budget proportional to the number of positions (its square for A*), and checks that only reached positions and enabled directions are asked about, and that an exhausted search asked about every direction of every reached position; a case is a distinct (movement function, origin, destination, position type)",
    );
    m.require("searches", 20_000);
    m.require("moves observed", 1_000_000);
    m.require("goal queries observed", 10_000);
    m.require("exhausted searches", 5_000);
    m.require("paths", 2_000);
    m.require("errors: Loop", 100);
    m.require("errors: InvalidMovement", 100);
    m.require("worlds of integer pairs", 100);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 2, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 2, grid);
    sqmon::units_dims!(m, "terrains", 1, 4, terrains, [(0, 0), (2, 2), (7, 7), (20, 14), (0, 99), (254, 1), (255, 0), (0, 256), (49, 50), (299, 299), (2, 65535)]);
    m.unit("user", |u| {
        let n = u.scale(60, 1500);
        confined::<UserPos<4, 2>, 1, 1, 15>(u, 5, 3, n);
        confined::<UserPos<7, 3>, 1, 2, 32>(u, 8, 4, n);
        confined::<UserPos<2, 30>, 3, 3, 93>(u, 3, 31, n);
    });
    m.unit("byte pairs", |u| {
        let n = u.scale(10, 100);
        confined::<(u8, u8), 2048, 2049, 65536>(u, 9, 7, n);
    });
    m.unit("pairs", |u| {
        anywhere::<(u8, u8)>(u, "(u8,u8)", 0, 255, |x, y| (x as u8, y as u8), |p| (p.0 as i64, p.1 as i64));
        anywhere::<(i8, i8)>(u, "(i8,i8)", -63, 63, |x, y| (x as i8, y as i8), |p| (p.0 as i64, p.1 as i64));
        anywhere::<(u16, u16)>(u, "(u16,u16)", 0, 65535, |x, y| (x as u16, y as u16), |p| (p.0 as i64, p.1 as i64));
        anywhere::<(i16, i16)>(u, "(i16,i16)", -16383, 16383, |x, y| (x as i16, y as i16), |p| (p.0 as i64, p.1 as i64));
        anywhere::<(u32, u32)>(u, "(u32,u32)", 0, u32::MAX as i64, |x, y| (x as u32, y as u32), |p| (p.0 as i64, p.1 as i64));
        let q = 1i64 << 29;
        anywhere::<(i32, i32)>(u, "(i32,i32)", -q, q, |x, y| (x as i32, y as i32), |p| (p.0 as i64, p.1 as i64));
        let q = i64::MAX / 4;
        anywhere::<(u64, u64)>(u, "(u64,u64)", 0, q, |x, y| (x as u64, y as u64), |p| (p.0 as i64, p.1 as i64));
        anywhere::<(u128, u128)>(u, "(u128,u128)", 0, q, |x, y| (x as u128, y as u128), |p| (p.0 as i64, p.1 as i64));
    });
    m.unit("limits", |u| {
        // The corners of the position types
        let far = [(u32::MAX, u32::MAX), (0, 0), (0, u32::MAX)];
        for a in far {
            for b in far {
                let go = |p: (u32, u32), d: Dir| (p == a && d == Dir::E).then_some(b);
                let r = catch(|| Sqrid::<0, 0, true, 0, 0>::astar_path_hash(go, &a, &b));
                match r {
                    Err(e) => fail!("astar_path_hash from {a:?} to {b:?} with one jump: {e}"),
                    Ok(r) => ck!(a != b || r == Ok(vec![]), "from {a:?} to itself: {r:?}"),
                }
                u.count("far jumps", 1);
                u.case(&(a, b));
            }
        }
    });
    m.run()
}
