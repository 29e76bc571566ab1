//! C17: all search variants and entry points give the same answer

use sqmon::model::Terrain;
use sqmon::mon::{Mon, U};
use sqmon::search::{cell_of, go_of, gocost_of, pos_of, UserPos, TP};
use sqmon::ckeq;
use sqrid::{astar, bf, ucs, Dir, Error, Grid, Gridbool, Pos, Sqrid};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type HMap<P, T> = (HashMap<P, T>, T);
type BMap<P, T> = (BTreeMap<P, T>, T);

/// What a family of searches answered, in terms of cells
#[derive(Clone, Debug, PartialEq, Eq)]
struct Answers {
    layers: Vec<Vec<(usize, Dir)>>,
    bfs: Result<(usize, Vec<Dir>), Error>,
    astar: Result<Vec<Dir>, Error>,
    ucs: Result<Vec<Dir>, Error>,
    visits: Vec<(usize, Dir)>,
}

struct Case {
    t: Terrain,
    orig: usize,
    dest: usize,
    goals: Vec<bool>,
}

/// Results are compared with the first one
struct Same<T> {
    first: Option<(String, T)>,
    compared: u64,
}

impl<T: PartialEq + std::fmt::Debug> Same<T> {
    fn new() -> Same<T> {
        Same { first: None, compared: 0 }
    }
    fn add(&mut self, what: &str, v: T) {
        match &self.first {
            None => self.first = Some((what.to_string(), v)),
            Some((first, f)) => {
                ckeq!(v, *f, "{what} doesn't agree with {first}");
                self.compared += 1;
            }
        }
    }
}

struct All {
    layers: Same<Vec<Vec<(usize, Dir)>>>,
    bfs: Same<Result<(usize, Vec<Dir>), Error>>,
    astar: Same<Result<Vec<Dir>, Error>>,
    ucs: Same<Result<Vec<Dir>, Error>>,
    visits: Same<Vec<(usize, Dir)>>,
}

impl All {
    fn new() -> All {
        All { layers: Same::new(), bfs: Same::new(), astar: Same::new(), ucs: Same::new(), visits: Same::new() }
    }
    fn answers(self, u: &mut U) -> Answers {
        let n = self.layers.compared + self.bfs.compared + self.astar.compared + self.ucs.compared + self.visits.compared;
        u.count("comparisons", n);
        Answers {
            layers: self.layers.first.unwrap().1,
            bfs: self.bfs.first.unwrap().1,
            astar: self.astar.first.unwrap().1,
            ucs: self.ucs.first.unwrap().1,
            visits: self.visits.first.unwrap().1,
        }
    }
}

fn hashed<P, const D: bool>(c: &Case, all: &mut All)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let t = &c.t;
    let (go, gocost, o, d) = (go_of::<P>(t), gocost_of::<P>(t), pos_of::<P>(t, c.orig), pos_of::<P>(t, c.dest));
    let found = |p: P| c.goals[cell_of(t, p)];
    let cells = |it: &mut dyn Iterator<Item = Vec<(P, Dir)>>| -> Vec<Vec<(usize, Dir)>> {
        it.map(|l| l.into_iter().map(|(p, d)| (cell_of(t, p), d)).collect()).collect()
    };
    let b = |r: Result<(P, Vec<Dir>), Error>| r.map(|(p, v)| (cell_of(t, p), v));
    let n = P::name();
    macro_rules! layers { ($($f:expr),* $(,)?) => { $( all.layers.add(&format!("{} with {n}", stringify!($f)), cells(&mut $f(&go, &o))); )* } }
    macro_rules! bfs { ($($f:expr),* $(,)?) => { $( all.bfs.add(&format!("{} with {n}", stringify!($f)), b($f(&go, &o, found))); )* } }
    macro_rules! astar { ($($f:expr),* $(,)?) => { $( all.astar.add(&format!("{} with {n}", stringify!($f)), $f(&go, &o, &d)); )* } }
    macro_rules! ucs { ($($f:expr),* $(,)?) => { $( all.ucs.add(&format!("{} with {n}", stringify!($f)), $f(&gocost, &o, &d)); )* } }
    layers!(
        bf::bf_iter_hash::<_, P, D, 0, 0>,
        bf::bf_iter_btree::<_, P, D, 1, 5>,
        Sqrid::<0, 0, D, 1, 2>::bf_iter_hash,
        Sqrid::<2, 2, D, 1, 9>::bf_iter_btree,
        bf::bf_iter::<_, HashSet<P>, P, D, 0, 0>,
        bf::bf_iter_hash::<_, P, D, 0, 0>,
    );
    bfs!(
        bf::search_path_hash::<_, _, P, D, 0, 0>,
        bf::search_path_btree::<_, _, P, D, 1, 5>,
        Sqrid::<0, 0, D, 1, 2>::bfs_path_hash,
        Sqrid::<2, 2, D, 1, 9>::bfs_path_btree,
        bf::search_path::<_, _, HMap<P, Option<Dir>>, BTreeSet<P>, P, D, 0, 0>,
        bf::search_path_hash::<_, _, P, D, 0, 0>,
    );
    astar!(
        astar::search_path_hash::<_, P, D, 0, 0>,
        astar::search_path_btree::<_, P, D, 1, 5>,
        Sqrid::<0, 0, D, 1, 2>::astar_path_hash,
        Sqrid::<2, 2, D, 1, 9>::astar_path_btree,
        astar::search_path::<_, HMap<P, Option<Dir>>, BMap<P, usize>, P, D, 1, 7>,
        astar::search_path_hash::<_, P, D, 0, 0>,
    );
    ucs!(
        ucs::search_path_hash::<_, P, D, 0, 0>,
        ucs::search_path_btree::<_, P, D, 1, 5>,
        Sqrid::<0, 0, D, 1, 2>::ucs_path_hash,
        Sqrid::<2, 2, D, 1, 9>::ucs_path_btree,
        ucs::search_path::<_, HMap<P, Option<Dir>>, BMap<P, usize>, P, D, 1, 7>,
        ucs::search_path_hash::<_, P, D, 0, 0>,
    );
    let visits = |it: &mut dyn Iterator<Item = (P, Dir)>| -> Vec<(usize, Dir)> { it.map(|(p, d)| (cell_of(t, p), d)).collect() };
    all.visits.add(
        &format!("UcsIterator with a hash map, with {n}"),
        visits(&mut ucs::UcsIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(&gocost, &o)),
    );
    all.visits.add(
        &format!("UcsIterator with a B-tree map, with {n}"),
        visits(&mut ucs::UcsIterator::<_, BMap<P, usize>, P, D, 1, 7>::new(&gocost, &o)),
    );
}

fn gridded<P, const D: bool, const W: usize, const S: usize>(c: &Case, all: &mut All)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let t = &c.t;
    let (go, gocost, o, d) = (go_of::<P>(t), gocost_of::<P>(t), pos_of::<P>(t, c.orig), pos_of::<P>(t, c.dest));
    let found = |p: P| c.goals[cell_of(t, p)];
    let cells = |it: &mut dyn Iterator<Item = Vec<(P, Dir)>>| -> Vec<Vec<(usize, Dir)>> {
        it.map(|l| l.into_iter().map(|(p, d)| (cell_of(t, p), d)).collect()).collect()
    };
    let b = |r: Result<(P, Vec<Dir>), Error>| r.map(|(p, v)| (cell_of(t, p), v));
    let n = P::name();
    macro_rules! layers { ($($f:expr),* $(,)?) => { $( all.layers.add(&format!("{} with {n}", stringify!($f)), cells(&mut $f(&go, &o))); )* } }
    macro_rules! bfs { ($($f:expr),* $(,)?) => { $( all.bfs.add(&format!("{} with {n}", stringify!($f)), b($f(&go, &o, found))); )* } }
    macro_rules! astar { ($($f:expr),* $(,)?) => { $( all.astar.add(&format!("{} with {n}", stringify!($f)), $f(&go, &o, &d)); )* } }
    macro_rules! ucs { ($($f:expr),* $(,)?) => { $( all.ucs.add(&format!("{} with {n}", stringify!($f)), $f(&gocost, &o, &d)); )* } }
    layers!(
        Sqrid::<0, 0, D, W, S>::bf_iter,
        Sqrid::<0, 0, D, W, S>::bf_iter_grid,
        bf::bf_iter_grid::<_, P, D, W, S>,
        Sqrid::<0, 0, D, W, S>::bf_iter,
    );
    bfs!(
        Sqrid::<0, 0, D, W, S>::bfs_path,
        Sqrid::<0, 0, D, W, S>::bfs_path_grid,
        bf::search_path_grid::<_, _, P, D, W, S>,
        bf::search_path::<_, _, BMap<P, Option<Dir>>, Gridbool<P, W>, P, D, W, S>,
        Sqrid::<0, 0, D, W, S>::bfs_path,
    );
    astar!(
        Sqrid::<0, 0, D, W, S>::astar_path,
        Sqrid::<0, 0, D, W, S>::astar_path_grid,
        astar::search_path_grid::<_, P, D, W, S>,
        astar::search_path::<_, BMap<P, Option<Dir>>, Grid<usize, P, S>, P, D, W, S>,
        Sqrid::<0, 0, D, W, S>::astar_path,
    );
    ucs!(
        Sqrid::<0, 0, D, W, S>::ucs_path,
        Sqrid::<0, 0, D, W, S>::ucs_path_grid,
        ucs::search_path_grid::<_, P, D, W, S>,
        ucs::search_path::<_, BMap<P, Option<Dir>>, Grid<usize, P, S>, P, D, W, S>,
        Sqrid::<0, 0, D, W, S>::ucs_path,
    );
    let it = ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(&gocost, &o);
    all.visits.add(&format!("UcsIterator with a grid, with {n}"), it.map(|(p, d)| (cell_of(t, p), d)).collect());
}

fn make(u: &mut U, w: usize, h: usize, confined: bool) -> Case {
    let mut t = Terrain::random(&mut u.rng, w, h);
    if u.rng.pct(60) {
        t.random_costs(&mut u.rng);
    }
    if !confined {
        if u.rng.pct(40) {
            t.add_stays(&mut u.rng);
        }
        t.add_warps(&mut u.rng);
    }
    let n = t.n();
    let mut goals = vec![false; n];
    match u.rng.below(4) {
        0 => {}
        1 => goals[u.rng.below(n)] = true,
        _ => (0..n).for_each(|c| goals[c] = u.rng.pct(8)),
    }
    Case { orig: u.rng.below(n), dest: u.rng.below(n), t, goals }
}

fn describe(u: &mut U, c: &Case, diag: bool) {
    let (w, t) = (c.t.w, &c.t);
    let g: Vec<_> = (0..t.n()).filter(|i| c.goals[*i]).take(30).map(|i| (i % w, i / w)).collect();
    let s = format!(
        "origin ({},{}), destination ({},{}), goals {g:?}, diagonals {diag}, on {}",
        c.orig % w, c.orig / w, c.dest % w, c.dest / w, t.show()
    );
    u.describe(s);
}

fn note(u: &mut U, c: &Case, diag: bool, a: &Answers) {
    u.count("searches", 3);
    u.count("layers", a.layers.len() as u64);
    for e in [a.bfs.as_ref().err(), a.astar.as_ref().err(), a.ucs.as_ref().err()].into_iter().flatten() {
        u.count(&format!("errors: {e:?}"), 1);
    }
    u.count("paths", a.bfs.is_ok() as u64 + a.astar.is_ok() as u64 + a.ucs.is_ok() as u64);
    if a.layers.len() > 1 {
        u.case(&(&c.t, c.orig, c.dest, &c.goals, diag));
    } else {
        u.eval();
    }
    u.sample(|| format!("from cell {} to {} on {}", c.orig, c.dest, c.t.show()));
}

/// The same kind of position everywhere: any movement function
fn same<P, const D: bool, const W: usize, const S: usize>(u: &mut U, c: &Case)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    describe(u, c, D);
    let mut all = All::new();
    gridded::<P, D, W, S>(c, &mut all);
    hashed::<P, D>(c, &mut all);
    let a = all.answers(u);
    note(u, c, D, &a);
}

/// Different kinds of positions: confined, one-step moves
fn across<P, Q, const D: bool, const W: usize, const S: usize>(u: &mut U, c: &Case)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
    Q: TP + std::ops::Add<Dir, Output = Result<Q, Error>>,
{
    describe(u, c, D);
    let mut all = All::new();
    gridded::<P, D, W, S>(c, &mut all);
    hashed::<Q, D>(c, &mut all);
    u.count(&format!("compared with {}", Q::name()), 1);
    let a = all.answers(u);
    note(u, c, D, &a);
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for _ in 0..u.scale(if S > 70 { 8 } else { 16 }, if S > 70 { 150 } else { 500 }) {
        let confined = u.rng.bool();
        let c = make(u, w, h, confined);
        same::<Pos<X, Y>, true, W, S>(u, &c);
        same::<Pos<X, Y>, false, W2, S>(u, &c);
    }
}

fn kinds<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for _ in 0..u.scale(12, 200) {
        let c = make(u, w, h, true);
        across::<Pos<X, Y>, (u8, u8), true, W, S>(u, &c);
        across::<Pos<X, Y>, (u16, u16), false, W, S>(u, &c);
        across::<Pos<X, Y>, (u32, u32), true, W, S>(u, &c);
        across::<Pos<X, Y>, (u64, u64), false, W, S>(u, &c);
        across::<Pos<X, Y>, (u128, u128), true, W, S>(u, &c);
        across::<Pos<X, Y>, (i16, i16), false, W, S>(u, &c);
        across::<Pos<X, Y>, (i32, i32), true, W, S>(u, &c);
        across::<Pos<X, Y>, UserPos<70, 70>, false, W, S>(u, &c);
        // A larger grid
        across::<Pos<X, Y>, Pos<300, 99>, true, W, S>(u, &c);
    }
}

fn main() {
    let mut m = Mon::new(
        "C17",
        "random terrains and costs (half of them with stays and jumps) on many grid sizes; layers, goals, paths, errors and visits of every variant and entry point, and of repeated runs, compared with each other exactly; on confined one-step terrains also between grid positions, larger grid positions, integer pairs and a user-written position type; a case is a distinct (terrain, costs, origin, destination, goals, diagonals) with at least two layers",
    );
    m.require("comparisons", 20_000);
    m.require("paths", 1_000);
    m.require("errors: DestinationUnreachable", 200);
    m.require("errors: InvalidMovement", 20);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::few_dims!(m, "kinds", 1, 4, kinds);
    m.unit("user", |u| {
        for _ in 0..u.scale(12, 300) {
            let c = make(u, 8, 4, false);
            same::<UserPos<7, 3>, true, 1, 32>(u, &c);
            let c = make(u, 3, 31, true);
            same::<UserPos<2, 30>, false, 3, 93>(u, &c);
            let c = make(u, 1 + u.shard % 2 + 8, 7, true);
            same::<(u8, u8), true, 2048, 65536>(u, &c);
        }
    });
    m.run()
}
