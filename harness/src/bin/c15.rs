//! C15: A* search returns a shortest valid path

use sqmon::model::{Family, Terrain};
use sqmon::mon::{Mon, U};
use sqmon::search::{go_of, pos_of, walk, UserPos, TP};
use sqmon::{ckeq, fail};
use sqrid::{astar, camefrom_into_path, Dir, Error, Grid, Pos, Sqrid};
use std::collections::{BTreeMap, HashMap};

type HMap<P, T> = (HashMap<P, T>, T);
type BMap<P, T> = (BTreeMap<P, T>, T);

/// What is known about a search
struct Want<'a> {
    t: &'a Terrain,
    diag: bool,
    orig: usize,
    dest: usize,
    dist: Option<usize>,
}

impl<'a> Want<'a> {
    fn new(t: &'a Terrain, diag: bool, orig: usize, dest: usize) -> Want<'a> {
        let dist = t.dist(orig, diag)[dest];
        Want { t, diag, orig, dest, dist }
    }

    fn check(&self, what: &str, got: Result<Vec<Dir>, Error>) {
        match (got, self.dist) {
            (Ok(path), Some(k)) => {
                match walk(self.t, self.diag, self.orig, &path) {
                    Ok((end, _)) => ckeq!(end, self.dest, "{what}: the path {path:?} doesn't end at the destination, but at cell"),
                    Err(e) => fail!("{what}: path {path:?}: {e}"),
                }
                ckeq!(path.len(), k, "{what}: number of steps of {path:?}");
            }
            (Ok(path), None) => fail!("{what}: returns {path:?}, but the destination is not reachable"),
            (Err(e), Some(k)) => fail!("{what}: {e:?}, but the destination is at distance {k}"),
            (Err(e), None) => ckeq!(e, Error::DestinationUnreachable, "{what}: error for an unreachable destination"),
        }
    }
}

fn describe<P: TP>(u: &mut U, t: &Terrain, orig: usize, dest: usize, diag: bool) {
    let s = format!(
        "{} origin ({},{}), destination ({},{}), diagonals {diag}, on {}",
        P::name(), orig % t.w, orig / t.w, dest % t.w, dest / t.w, t.show()
    );
    u.describe(s);
}

fn note(u: &mut U, want: &Want) {
    u.count("searches", 1);
    match want.dist {
        None => u.count("unreachable", 1),
        Some(0) => u.count("origin is the destination", 1),
        Some(k) => {
            u.count("steps", k as u64);
            u.count("paths", 1);
            let (w, o, d) = (want.t.w, want.orig, want.dest);
            let (dx, dy) = ((o % w).abs_diff(d % w), (o / w).abs_diff(d / w));
            if k > if want.diag { dx.max(dy) } else { dx + dy } {
                u.count("detours", 1);
            }
        }
    }
    if want.orig != want.dest {
        u.case(&(want.t, want.orig, want.dest, want.diag));
    } else {
        u.eval();
    }
}

/// All entry points that need no grid
fn hashed<P, const D: bool>(want: &Want)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (go, o, d) = (go_of::<P>(want.t), pos_of::<P>(want.t, want.orig), pos_of::<P>(want.t, want.dest));
    want.check("astar::search_path_hash", astar::search_path_hash::<_, P, D, 0, 0>(&go, &o, &d));
    want.check("astar::search_path_btree", astar::search_path_btree::<_, P, D, 1, 5>(&go, &o, &d));
    want.check("astar_path_hash", Sqrid::<0, 0, D, 1, 2>::astar_path_hash(&go, &o, &d));
    want.check("astar_path_btree", Sqrid::<2, 2, D, 1, 9>::astar_path_btree(&go, &o, &d));
}

fn gridded<P, const D: bool, const W: usize, const S: usize>(want: &Want)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (go, o, d) = (go_of::<P>(want.t), pos_of::<P>(want.t, want.orig), pos_of::<P>(want.t, want.dest));
    want.check("astar_path", Sqrid::<0, 0, D, W, S>::astar_path(&go, &o, &d));
    want.check("astar_path_grid", Sqrid::<0, 0, D, W, S>::astar_path_grid(&go, &o, &d));
    want.check("astar::search_path_grid", astar::search_path_grid::<_, P, D, W, S>(&go, &o, &d));
    want.check(
        "astar::search_path with a hash map and a grid",
        astar::search_path::<_, HMap<P, Option<Dir>>, Grid<usize, P, S>, P, D, W, S>(&go, &o, &d),
    );
    want.check(
        "astar::search_path with a grid and a B-tree map",
        astar::search_path::<_, Grid<Option<Dir>, P, S>, BMap<P, usize>, P, D, W, S>(&go, &o, &d),
    );
    want.check(
        "astar::search_mapmov with a B-tree map and a hash map",
        astar::search_mapmov::<_, BMap<P, Option<Dir>>, HMap<P, usize>, P, D, W, S>(&go, &o, &d)
            .and_then(|m| camefrom_into_path::<_, P, W, S>(m, &o, &d)),
    );
    want.check(
        "astar::search_mapmov with grids",
        astar::search_mapmov::<_, Grid<Option<Dir>, P, S>, Grid<usize, P, S>, P, D, W, S>(&go, &o, &d)
            .and_then(|m| camefrom_into_path::<_, P, W, S>(m, &o, &d)),
    );
}

/// A destination: anywhere, the origin or the farthest cell
fn destination(u: &mut U, t: &Terrain, orig: usize) -> usize {
    match u.rng.below(12) {
        0 => orig,
        1..=3 => {
            let dist = t.dist(orig, u.rng.bool());
            let max = dist.iter().flatten().max().copied();
            let far: Vec<usize> = (0..t.n()).filter(|c| dist[*c] == max).collect();
            *u.rng.pick(&far)
        }
        4 | 5 => t.n() - 1 - orig,
        _ => u.rng.below(t.n()),
    }
}

fn random<P, const S: usize, const W: usize, const W2: usize>(u: &mut U, w: usize, h: usize, rounds: usize)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    for _ in 0..rounds {
        let t = Terrain::random(&mut u.rng, w, h);
        let orig = u.rng.below(w * h);
        let dest = destination(u, &t, orig);
        describe::<P>(u, &t, orig, dest, true);
        let want = Want::new(&t, true, orig, dest);
        gridded::<P, true, W, S>(&want);
        hashed::<P, true>(&want);
        note(u, &want);
        describe::<P>(u, &t, orig, dest, false);
        let want = Want::new(&t, false, orig, dest);
        gridded::<P, false, W2, S>(&want);
        hashed::<P, false>(&want);
        note(u, &want);
        u.sample(|| format!("from cell {orig} to {dest} on {}", t.show()));
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(if S > 70 { 30 } else { 60 }, if S > 70 { 400 } else { 2000 });
    random::<Pos<X, Y>, S, W, W2>(u, X as usize + 1, Y as usize + 1, n);
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for round in 0..u.scale(if w * h > 65536 { 2 } else { 3 }, if w * h > 65536 { 8 } else { 20 }) {
        let mut t = Terrain::random(&mut u.rng, w, h);
        let mut orig = *u.rng.pick(&[0, w - 1, w * h - 1, h / 2 * w + w / 2]);
        let mut diag = u.rng.bool();
        if w.min(h) < 3 {
            t = Terrain::open(w, h);
        } else if round == 0 {
            // As long as it gets
            t = Terrain::serpentine(w, h, w >= h);
            (orig, diag) = (0, false);
        }
        // A destination that is far away
        let dist = t.dist(orig, diag);
        let max = dist.iter().flatten().max().copied();
        let dest = (0..w * h).rfind(|c| dist[*c] == max).unwrap();
        describe::<Pos<X, Y>>(u, &t, orig, dest, diag);
        let want = Want::new(&t, diag, orig, dest);
        if diag {
            gridded::<Pos<X, Y>, true, W2, S>(&want);
            hashed::<Pos<X, Y>, true>(&want);
        } else {
            gridded::<Pos<X, Y>, false, W, S>(&want);
            hashed::<Pos<X, Y>, false>(&want);
        }
        note(u, &want);
    }
}

fn exhaustive<const X: u16, const Y: u16, const S: usize, const D: bool>(u: &mut U, family: Family, shards: usize) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let bits = family.bits(w, h, D);
    let mut i = u.shard as u64;
    while i < 1 << bits {
        let t = family.member(w, h, D, i);
        for orig in 0..w * h {
            let dists = t.dist(orig, D);
            for dest in 0..w * h {
                describe::<Pos<X, Y>>(u, &t, orig, dest, D);
                let want = Want { t: &t, diag: D, orig, dest, dist: dists[dest] };
                let (go, o, d) = (go_of::<Pos<X, Y>>(&t), pos_of::<Pos<X, Y>>(&t, orig), pos_of::<Pos<X, Y>>(&t, dest));
                want.check("astar_path", Sqrid::<X, Y, D, 1, S>::astar_path(&go, &o, &d));
                if i / shards as u64 % 4 == 0 {
                    want.check("astar_path_hash", Sqrid::<X, Y, D, 1, S>::astar_path_hash(&go, &o, &d));
                    want.check("astar_path_btree", Sqrid::<X, Y, D, 1, S>::astar_path_btree(&go, &o, &d));
                }
                note(u, &want);
            }
        }
        i += shards as u64;
    }
    u.sample(|| format!("all {} members of {family:?} {w}x{h}, diagonals {D}", 1u64 << bits));
}

fn main() {
    let mut m = Mon::new(
        "C15",
        "random terrains of one-step moves (open, obstacles, walls, one-way, mazes, serpentines, currents) on many grid sizes and position types; random, opposite and farthest destinations; through every entry point and with mixed storages; every one-way graph, passage layout or obstacle layout of some tiny grids with every origin and destination; paths are replayed on the terrain and compared with shortest distances from an independent computation; a case is a distinct (terrain, origin, destination, diagonals) with different origin and destination",
    );
    m.require("searches", 20_000);
    m.require("paths", 10_000);
    m.require("unreachable", 1_000);
    m.require("origin is the destination", 200);
    m.require("detours", 5_000);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, large);
    sqmon::units_dims!(m, "large", 1, 1, large, [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (40, 300)]);
    m.shards("directed 2x2", 2, 2, |u| exhaustive::<1, 1, 4, true>(u, Family::Directed, 2));
    m.shards("directed 3x2", 8, 8, |u| exhaustive::<2, 1, 6, false>(u, Family::Directed, 8));
    m.shards("directed 4x1", 1, 1, |u| exhaustive::<3, 0, 4, true>(u, Family::Directed, 1));
    m.shards("passages 3x3", 4, 4, |u| exhaustive::<2, 2, 9, false>(u, Family::Passages, 4));
    m.shards("obstacles 3x3", 1, 1, |u| exhaustive::<2, 2, 9, true>(u, Family::Obstacles, 1));
    if m.thorough() {
        m.shards("directed 2x3", 0, 8, |u| exhaustive::<1, 2, 6, false>(u, Family::Directed, 8));
        m.shards("passages 3x3 diagonal", 0, 64, |u| exhaustive::<2, 2, 9, true>(u, Family::Passages, 64 * 5));
        m.shards("obstacles 4x4", 0, 16, |u| exhaustive::<3, 3, 16, false>(u, Family::Obstacles, 16));
    }
    m.unit("user", |u| {
        let n = u.scale(30, 600);
        random::<UserPos<4, 2>, 15, 1, 1>(u, 5, 3, n);
        random::<UserPos<7, 3>, 32, 1, 2>(u, 8, 4, n);
        random::<UserPos<2, 30>, 93, 3, 3>(u, 3, 31, n);
    });
    m.unit("tuples", |u| {
        for _ in 0..u.scale(30, 500) {
            let (w, h) = (1 + u.rng.below(9), 1 + u.rng.below(9));
            let t = Terrain::random(&mut u.rng, w, h);
            let orig = u.rng.below(w * h);
            let dest = destination(u, &t, orig);
            for diag in [true, false] {
                let want = Want::new(&t, diag, orig, dest);
                macro_rules! each {
                    ($($t:ty),*) => { $(
                        describe::<($t, $t)>(u, &t, orig, dest, diag);
                        if diag { hashed::<($t, $t), true>(&want) } else { hashed::<($t, $t), false>(&want) }
                    )* };
                }
                each!(u8, u16, u32, u64, u128, i16, i32);
                note(u, &want);
                if diag {
                    gridded::<(u8, u8), true, 2048, 65536>(&want)
                } else {
                    gridded::<(u8, u8), false, 2049, 65536>(&want)
                }
            }
        }
    });
    m.run()
}
