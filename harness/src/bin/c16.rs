//! C16: uniform-cost search returns a minimum-cost valid path

use sqmon::model::{Family, Terrain};
use sqmon::mon::{Mon, U};
use sqmon::search::{cell_of, gocost_of, pos_of, walk, UserPos, TP};
use sqmon::{ck, ckeq, fail};
use sqrid::{ camefrom_into_path, Dir, Error, Grid, Pos, Sqrid, ucs};
use std::collections::{BTreeMap, HashMap};

type HMap<P, T> = (HashMap<P, T>, T);
type BMap<P, T> = (BTreeMap<P, T>, T);

/// Totals from this on cannot be represented
const TOO_MUCH: u128 = usize::MAX as u128;

/// What is known about a search
struct Want<'a> {
    t: &'a Terrain,
    diag: bool,
    orig: usize,
    dest: usize,
    best: &'a [Option<u128>],
}

impl<'a> Want<'a> {
    fn check(&self, what: &str, got: Result<Vec<Dir>, Error>) {
        match (got, self.best[self.dest]) {
            (Ok(path), Some(k)) => match walk(self.t, self.diag, self.orig, &path) {
                Ok((end, cost)) => {
                    ckeq!(end, self.dest, "{what}: the path {path:?} doesn't end at the destination, but at cell");
                    ck!(cost == k || k >= TOO_MUCH, "{what}: the path {path:?} costs {cost}, the cheapest one costs {k}");
                }
                Err(e) => fail!("{what}: path {path:?}: {e}"),
            },
            (Ok(path), None) => fail!("{what}: returns {path:?}, but the destination is not reachable"),
            (Err(e), Some(k)) if k < TOO_MUCH => fail!("{what}: {e:?}, but the destination can be reached with cost {k}"),
            (Err(e), _) => ckeq!(e, Error::DestinationUnreachable, "{what}: error for an unreachable destination"),
        }
    }

    /// Every reachable position once, in the order of the true cost
    fn visits<P: TP>(&self, what: &str, it: impl Iterator<Item = (P, Dir)>) {
        let mut seen = vec![false; self.t.n()];
        let mut last = 0;
        for (p, _) in it {
            let c = cell_of(self.t, p);
            let Some(k) = self.best[c] else { fail!("{what}: visits {p:?}, which is not reachable") };
            ck!(!seen[c], "{what}: visits {p:?} more than once");
            ck!(k >= last || last >= TOO_MUCH, "{what}: visits {p:?}, with cost {k}, after a position with cost {last}");
            seen[c] = true;
            last = k;
        }
        for c in 0..self.t.n() {
            if let Some(k) = self.best[c] {
                ck!(seen[c] || k >= TOO_MUCH, "{what}: never visits ({},{}), which can be reached with cost {k}", c % self.t.w, c / self.t.w);
            }
        }
    }
}

fn describe<P: TP>(u: &mut U, t: &Terrain, orig: usize, dest: usize, diag: bool) {
    let s = format!(
        "{} origin ({},{}), destination ({},{}), diagonals {diag}, on {}",
        P::name(), orig % t.w, orig / t.w, dest % t.w, dest / t.w, t.show()
    );
    u.describe(s);
}

fn note(u: &mut U, want: &Want) {
    u.count("searches", 1);
    match want.best[want.dest] {
        None => u.count("unreachable", 1),
        _ if want.orig == want.dest => u.count("origin is the destination", 1),
        Some(k) => {
            u.count("paths", 1);
            u.count("totals that overflow", (k >= TOO_MUCH) as u64);
            u.count("totals above half the range", (k > TOO_MUCH / 2 && k < TOO_MUCH) as u64);
            u.count("free of charge", (k == 0) as u64);
            u.count(&format!("costs: {}", want.t.coststyle), 1);
        }
    }
    if want.orig != want.dest {
        u.case(&(want.t, want.orig, want.dest, want.diag));
    } else {
        u.eval();
    }
}

/// The iterator
fn iterator_hashed<P: TP, const D: bool>(u: &mut U, want: &Want) {
    let (go, o) = (gocost_of::<P>(want.t), pos_of::<P>(want.t, want.orig));
    want.visits("UcsIterator with a hash map", ucs::UcsIterator::<_, HMap<P, usize>, P, D, 0, 0>::new(&go, &o));
    want.visits("UcsIterator with a B-tree map", ucs::UcsIterator::<_, BMap<P, usize>, P, D, 0, 0>::new(&go, &o));
    u.count("traversals", 1);
    u.count("positions visited", want.best.iter().flatten().count() as u64);
}

fn iterator<P: TP, const D: bool, const W: usize, const S: usize>(u: &mut U, want: &Want) {
    let (go, o) = (gocost_of::<P>(want.t), pos_of::<P>(want.t, want.orig));
    want.visits("UcsIterator with a grid", ucs::UcsIterator::<_, Grid<usize, P, S>, P, D, W, S>::new(&go, &o));
    iterator_hashed::<P, D>(u, want);
}

/// All entry points that need no grid
fn hashed<P, const D: bool>(want: &Want)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (go, o, d) = (gocost_of::<P>(want.t), pos_of::<P>(want.t, want.orig), pos_of::<P>(want.t, want.dest));
    want.check("ucs::search_path_hash", ucs::search_path_hash::<_, P, D, 0, 0>(&go, &o, &d));
    want.check("ucs::search_path_btree", ucs::search_path_btree::<_, P, D, 1, 5>(&go, &o, &d));
    want.check("ucs_path_hash", Sqrid::<0, 0, D, 1, 2>::ucs_path_hash(&go, &o, &d));
    want.check("ucs_path_btree", Sqrid::<2, 2, D, 1, 9>::ucs_path_btree(&go, &o, &d));
}

fn gridded<P, const D: bool, const W: usize, const S: usize>(want: &Want)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (go, o, d) = (gocost_of::<P>(want.t), pos_of::<P>(want.t, want.orig), pos_of::<P>(want.t, want.dest));
    want.check("ucs_path", Sqrid::<0, 0, D, W, S>::ucs_path(&go, &o, &d));
    want.check("ucs_path_grid", Sqrid::<0, 0, D, W, S>::ucs_path_grid(&go, &o, &d));
    want.check("ucs::search_path_grid", ucs::search_path_grid::<_, P, D, W, S>(&go, &o, &d));
    want.check(
        "ucs::search_path with a hash map and a grid",
        ucs::search_path::<_, HMap<P, Option<Dir>>, Grid<usize, P, S>, P, D, W, S>(&go, &o, &d),
    );
    want.check(
        "ucs::search_path with a grid and a B-tree map",
        ucs::search_path::<_, Grid<Option<Dir>, P, S>, BMap<P, usize>, P, D, W, S>(&go, &o, &d),
    );
    want.check(
        "ucs::search_mapmov with a B-tree map and a hash map",
        ucs::search_mapmov::<_, BMap<P, Option<Dir>>, HMap<P, usize>, P, D, W, S>(&go, &o, &d)
            .and_then(|m| camefrom_into_path::<_, P, W, S>(m, &o, &d)),
    );
    want.check(
        "ucs::search_mapmov with grids",
        ucs::search_mapmov::<_, Grid<Option<Dir>, P, S>, Grid<usize, P, S>, P, D, W, S>(&go, &o, &d)
            .and_then(|m| camefrom_into_path::<_, P, W, S>(m, &o, &d)),
    );
}

/// A destination: anywhere, the origin or the farthest cell
fn destination(u: &mut U, t: &Terrain, orig: usize) -> usize {
    match u.rng.below(12) {
        0 => orig,
        1..=3 => {
            let dist = t.dist(orig, u.rng.bool());
            let max = dist.iter().flatten().max().copied();
            let far: Vec<usize> = (0..t.n()).filter(|c| dist[*c] == max).collect();
            *u.rng.pick(&far)
        }
        4 | 5 => t.n() - 1 - orig,
        _ => u.rng.below(t.n()),
    }
}

fn terrain(u: &mut U, w: usize, h: usize) -> Terrain {
    let mut t = Terrain::random(&mut u.rng, w, h);
    t.random_costs(&mut u.rng);
    t
}

fn random<P, const S: usize, const W: usize, const W2: usize>(u: &mut U, w: usize, h: usize, rounds: usize)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    for _ in 0..rounds {
        let t = terrain(u, w, h);
        let orig = u.rng.below(w * h);
        let dest = destination(u, &t, orig);
        describe::<P>(u, &t, orig, dest, true);
        let want = Want { t: &t, diag: true, orig, dest, best: &t.mincost(orig, true) };
        gridded::<P, true, W, S>(&want);
        hashed::<P, true>(&want);
        iterator::<P, true, W, S>(u, &want);
        note(u, &want);
        describe::<P>(u, &t, orig, dest, false);
        let want = Want { t: &t, diag: false, orig, dest, best: &t.mincost(orig, false) };
        gridded::<P, false, W2, S>(&want);
        hashed::<P, false>(&want);
        iterator::<P, false, W2, S>(u, &want);
        note(u, &want);
        u.sample(|| format!("from cell {orig} to {dest} on {}", t.show()));
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(if S > 70 { 30 } else { 60 }, if S > 70 { 400 } else { 2000 });
    random::<Pos<X, Y>, S, W, W2>(u, X as usize + 1, Y as usize + 1, n);
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for round in 0..u.scale(if w * h > 65536 { 2 } else { 3 }, if w * h > 65536 { 8 } else { 20 }) {
        let mut t = terrain(u, w, h);
        if round == 0 {
            t = Terrain::open(w, h);
            t.random_costs(&mut u.rng);
        }
        let mut orig = *u.rng.pick(&[0, w - 1, w * h - 1, h / 2 * w + w / 2]);
        let mut diag = u.rng.bool();
        if round == 1 && w.min(h) > 2 {
            // As long as it gets
            t = Terrain::serpentine(w, h, w >= h);
            t.random_costs(&mut u.rng);
            (orig, diag) = (0, false);
        }
        // A destination that is expensive
        let best = t.mincost(orig, diag);
        let max = best.iter().flatten().filter(|k| **k < TOO_MUCH).max().copied();
        let dest = (0..w * h).rfind(|c| best[*c] == max).unwrap();
        describe::<Pos<X, Y>>(u, &t, orig, dest, diag);
        let want = Want { t: &t, diag, orig, dest, best: &best };
        if diag {
            gridded::<Pos<X, Y>, true, W2, S>(&want);
            hashed::<Pos<X, Y>, true>(&want);
            iterator::<Pos<X, Y>, true, W2, S>(u, &want);
        } else {
            gridded::<Pos<X, Y>, false, W, S>(&want);
            hashed::<Pos<X, Y>, false>(&want);
            iterator::<Pos<X, Y>, false, W, S>(u, &want);
        }
        note(u, &want);
    }
}

/// Every assignment of "not allowed" or one of the costs to every move
fn exhaustive_costs<const X: u16, const Y: u16, const S: usize, const D: bool>(u: &mut U, costs: &[usize], shards: usize) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let open = Terrain::open(w, h);
    let moves: Vec<(usize, usize)> = (0..w * h)
        .flat_map(|c| (0..8).map(move |d| (c, d)))
        .filter(|(c, d)| open.tgt[*c][*d].is_some() && (D || d % 2 == 0))
        .collect();
    let base = costs.len() as u64 + 1;
    let total = base.pow(moves.len() as u32);
    let mut i = u.shard as u64;
    while i < total {
        let mut t = open.clone();
        t.style = "any";
        t.coststyle = "any";
        let mut k = i;
        for (c, d) in &moves {
            match k % base {
                0 => t.tgt[*c][*d] = None,
                v => t.cost[*c][*d] = costs[v as usize - 1],
            }
            k /= base;
        }
        for orig in 0..w * h {
            let best = t.mincost(orig, D);
            for dest in 0..w * h {
                describe::<Pos<X, Y>>(u, &t, orig, dest, D);
                let want = Want { t: &t, diag: D, orig, dest, best: &best };
                let (go, o, d) = (gocost_of::<Pos<X, Y>>(&t), pos_of::<Pos<X, Y>>(&t, orig), pos_of::<Pos<X, Y>>(&t, dest));
                want.check("ucs_path", Sqrid::<X, Y, D, 1, S>::ucs_path(&go, &o, &d));
                if dest == 0 {
                    want.visits("UcsIterator", ucs::UcsIterator::<_, Grid<usize, Pos<X, Y>, S>, Pos<X, Y>, D, 1, S>::new(&go, &o));
                }
                note(u, &want);
            }
        }
        i += shards as u64;
    }
    u.sample(|| format!("all {total} assignments of {costs:?} to the moves of {w}x{h}, diagonals {D}"));
}

fn exhaustive<const X: u16, const Y: u16, const S: usize, const D: bool>(u: &mut U, family: Family, shards: usize) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let bits = family.bits(w, h, D);
    let mut i = u.shard as u64;
    while i < 1 << bits {
        let mut t = family.member(w, h, D, i);
        t.random_costs(&mut u.rng);
        for orig in 0..w * h {
            let best = t.mincost(orig, D);
            for dest in 0..w * h {
                describe::<Pos<X, Y>>(u, &t, orig, dest, D);
                let want = Want { t: &t, diag: D, orig, dest, best: &best };
                let (go, o, d) = (gocost_of::<Pos<X, Y>>(&t), pos_of::<Pos<X, Y>>(&t, orig), pos_of::<Pos<X, Y>>(&t, dest));
                want.check("ucs_path", Sqrid::<X, Y, D, 1, S>::ucs_path(&go, &o, &d));
                if i / shards as u64 % 4 == 0 {
                    want.check("ucs_path_hash", Sqrid::<X, Y, D, 1, S>::ucs_path_hash(&go, &o, &d));
                    want.check("ucs_path_btree", Sqrid::<X, Y, D, 1, S>::ucs_path_btree(&go, &o, &d));
                }
                if dest == 0 {
                    iterator::<Pos<X, Y>, D, 1, S>(u, &want);
                }
                note(u, &want);
            }
        }
        i += shards as u64;
    }
    u.sample(|| format!("all {} members of {family:?} {w}x{h}, diagonals {D}", 1u64 << bits));
}

fn main() {
    let mut m = Mon::new(
        "C16",
        "random terrains of one-step moves (open, obstacles, walls, one-way, mazes, serpentines, currents) with random costs (unit, small, zeros, powers of two, by direction, by cell, up to usize::MAX) on many grid sizes and position types; random, opposite and farthest destinations; through every entry point and with mixed storages; every one-way graph, passage layout or obstacle layout of some tiny grids with every origin and destination and random costs, and every assignment of some costs to the moves of some tiny grids; paths are replayed on the terrain, and their cost is compared in exact arithmetic with the minimum from an independent computation; the order and completeness of the iterator's visits is checked; a case is a distinct (terrain, costs, origin, destination, diagonals) with different origin and destination",
    );
    m.require("searches", 20_000);
    m.require("paths", 10_000);
    m.require("unreachable", 1_000);
    m.require("origin is the destination", 200);
    m.require("traversals", 10_000);
    m.require("totals that overflow", 500);
    m.require("totals above half the range", 500);
    m.require("free of charge", 500);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, large);
    sqmon::units_dims!(m, "large", 1, 1, large, [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (40, 300)]);
    m.shards("directed 2x2", 2, 2, |u| exhaustive::<1, 1, 4, true>(u, Family::Directed, 2));
    m.shards("directed 3x2", 8, 8, |u| exhaustive::<2, 1, 6, false>(u, Family::Directed, 8));
    m.shards("directed 4x1", 1, 1, |u| exhaustive::<3, 0, 4, true>(u, Family::Directed, 1));
    m.shards("passages 3x3", 4, 4, |u| exhaustive::<2, 2, 9, false>(u, Family::Passages, 4));
    m.shards("obstacles 3x3", 1, 1, |u| exhaustive::<2, 2, 9, true>(u, Family::Obstacles, 1));
    m.shards("costs 2x2", 8, 8, |u| exhaustive_costs::<1, 1, 4, false>(u, &[0, 1, 3], 8));
    m.shards("costs 4x1", 1, 1, |u| exhaustive_costs::<3, 0, 4, true>(u, &[0, 2, usize::MAX - 1, usize::MAX / 2], 1));
    if m.thorough() {
        m.shards("costs 2x2 diagonal", 0, 16, |u| exhaustive_costs::<1, 1, 4, true>(u, &[0, 1], 16));
        m.shards("costs 2x2 huge", 0, 16, |u| exhaustive_costs::<1, 1, 4, false>(u, &[0, 1, usize::MAX - 1, usize::MAX / 2, 2], 16));
        m.shards("directed 2x3", 0, 8, |u| exhaustive::<1, 2, 6, false>(u, Family::Directed, 8));
        m.shards("passages 3x3 diagonal", 0, 64, |u| exhaustive::<2, 2, 9, true>(u, Family::Passages, 64 * 5));
        m.shards("obstacles 4x4", 0, 16, |u| exhaustive::<3, 3, 16, false>(u, Family::Obstacles, 16));
    }
    m.unit("user", |u| {
        let n = u.scale(30, 600);
        random::<UserPos<4, 2>, 15, 1, 1>(u, 5, 3, n);
        random::<UserPos<7, 3>, 32, 1, 2>(u, 8, 4, n);
        random::<UserPos<2, 30>, 93, 3, 3>(u, 3, 31, n);
    });
    m.unit("tuples", |u| {
        for _ in 0..u.scale(30, 500) {
            let (w, h) = (1 + u.rng.below(9), 1 + u.rng.below(9));
            let t = terrain(u, w, h);
            let orig = u.rng.below(w * h);
            let dest = destination(u, &t, orig);
            for diag in [true, false] {
                let best = t.mincost(orig, diag);
                let want = Want { t: &t, diag, orig, dest, best: &best };
                macro_rules! each {
                    ($($t:ty),*) => { $(
                        describe::<($t, $t)>(u, &t, orig, dest, diag);
                        if diag { 
                            hashed::<($t, $t), true>(&want);
                            iterator_hashed::<($t, $t), true>(u, &want);
                        } else {
                            hashed::<($t, $t), false>(&want);
                            iterator_hashed::<($t, $t), false>(u, &want);
                        }
                    )* };
                }
                each!(u8, u16, u32, u64, u128, i16, i32);
                note(u, &want);
                if diag {
                    gridded::<(u8, u8), true, 2048, 65536>(&want)
                } else {
                    gridded::<(u8, u8), false, 2049, 65536>(&want)
                }
            }
        }
    });
    m.run()
}
