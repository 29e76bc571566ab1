//! C14: breadth-first search returns a shortest valid path to a nearest goal

use sqmon::model::{Family, Terrain};
use sqmon::mon::{Mon, U};
use sqmon::search::{cell_of, go_of, pos_of, walk, UserPos, TP};
use sqmon::{ck, ckeq, fail};
use sqrid::{bf, camefrom_into_path, Dir, Error, Grid, Gridbool, Pos, Sqrid};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type HMap<P> = (HashMap<P, Option<Dir>>, Option<Dir>);
type BMap<P> = (BTreeMap<P, Option<Dir>>, Option<Dir>);

/// What is known about a search
struct Want<'a> {
    t: &'a Terrain,
    diag: bool,
    orig: usize,
    goals: &'a [bool],
    dist: Vec<Option<usize>>,
    nearest: Option<usize>,
}

impl<'a> Want<'a> {
    fn new(t: &'a Terrain, diag: bool, orig: usize, goals: &'a [bool]) -> Want<'a> {
        let dist = t.dist(orig, diag);
        let nearest = (0..t.n()).filter(|c| goals[*c]).filter_map(|c| dist[c]).min();
        Want { t, diag, orig, goals, dist, nearest }
    }

    fn check<P: TP>(&self, what: &str, got: Result<(P, Vec<Dir>), Error>) {
        match (got, self.nearest) {
            (Ok((p, path)), Some(k)) => {
                let c = cell_of(self.t, p);
                ck!(self.goals[c], "{what}: found {p:?}, which is not a goal");
                ckeq!(self.dist[c], Some(k), "{what}: distance of the goal {p:?}; the nearest one is at {k}");
                match walk(self.t, self.diag, self.orig, &path) {
                    Ok((end, _)) => ckeq!(end, c, "{what}: the path {path:?} doesn't end at the goal {p:?}, but at cell"),
                    Err(e) => fail!("{what}: path {path:?} to {p:?}: {e}"),
                }
                ckeq!(path.len(), k, "{what}: number of steps of {path:?}");
            }
            (Ok((p, path)), None) => fail!("{what}: found {p:?} through {path:?}, no goal is reachable"),
            (Err(e), Some(k)) => fail!("{what}: {e:?}, but there is a goal at distance {k}"),
            (Err(e), None) => ckeq!(e, Error::DestinationUnreachable, "{what}: error without a reachable goal"),
        }
    }
}

fn describe<P: TP>(u: &mut U, t: &Terrain, orig: usize, diag: bool, goals: &[bool]) {
    let g: Vec<_> = (0..t.n()).filter(|c| goals[*c]).take(30).map(|c| (c % t.w, c / t.w)).collect();
    let s = format!("{} origin ({},{}), diagonals {diag}, goals {g:?}, on {}", P::name(), orig % t.w, orig / t.w, t.show());
    u.describe(s);
}

fn note(u: &mut U, want: &Want) {
    u.count("searches", 1);
    match want.nearest {
        None => u.count("unreachable", 1),
        Some(0) => u.count("origin is a goal", 1),
        Some(k) => {
            u.count("steps", k as u64);
            u.count("paths", 1);
        }
    }
    if want.goals.iter().any(|g| *g) && want.nearest != Some(0) {
        u.case(&(want.t, want.orig, want.diag, want.goals));
    } else {
        u.eval();
    }
}

/// All entry points that need no grid
fn hashed<P, const D: bool>(want: &Want)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (go, o) = (go_of::<P>(want.t), pos_of::<P>(want.t, want.orig));
    let found = |p: P| want.goals[cell_of(want.t, p)];
    want.check("bf::search_path_hash", bf::search_path_hash::<_, _, P, D, 0, 0>(&go, &o, found));
    want.check("bf::search_path_btree", bf::search_path_btree::<_, _, P, D, 1, 5>(&go, &o, found));
    want.check("bfs_path_hash", Sqrid::<0, 0, D, 1, 2>::bfs_path_hash(&go, &o, found));
    want.check("bfs_path_btree", Sqrid::<2, 2, D, 1, 9>::bfs_path_btree(&go, &o, found));
}

fn gridded<P, const D: bool, const W: usize, const S: usize>(want: &Want)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    let (go, o) = (go_of::<P>(want.t), pos_of::<P>(want.t, want.orig));
    let found = |p: P| want.goals[cell_of(want.t, p)];
    want.check("bfs_path", Sqrid::<0, 0, D, W, S>::bfs_path(&go, &o, found));
    want.check("bfs_path_grid", Sqrid::<0, 0, D, W, S>::bfs_path_grid(&go, &o, found));
    want.check("bf::search_path_grid", bf::search_path_grid::<_, _, P, D, W, S>(&go, &o, found));
    want.check(
        "bf::search_path with a hash map and a boolean grid",
        bf::search_path::<_, _, HMap<P>, Gridbool<P, W>, P, D, W, S>(&go, &o, found),
    );
    want.check(
        "bf::search_path with a grid and a B-tree set",
        bf::search_path::<_, _, Grid<Option<Dir>, P, S>, BTreeSet<P>, P, D, W, S>(&go, &o, found),
    );
    want.check(
        "bf::search_mapmov with a B-tree map and a hash set",
        bf::search_mapmov::<_, _, BMap<P>, HashSet<P>, P, D, W, S>(&go, &o, found)
            .and_then(|(p, m)| Ok((p, camefrom_into_path::<_, P, W, S>(m, &o, &p)?))),
    );
    want.check(
        "bf::search_mapmov with a grid and a boolean grid",
        bf::search_mapmov::<_, _, Grid<Option<Dir>, P, S>, Gridbool<P, W>, P, D, W, S>(&go, &o, found)
            .and_then(|(p, m)| Ok((p, camefrom_into_path::<_, P, W, S>(m, &o, &p)?))),
    );
}

fn goals(u: &mut U, t: &Terrain, orig: usize) -> Vec<bool> {
    let n = t.n();
    let mut g = vec![false; n];
    match u.rng.below(12) {
        0 => {}
        1..=4 => g[u.rng.below(n)] = true,
        5 => {
            g[u.rng.below(n)] = true;
            g[orig] = true;
        }
        6 => g.fill(true),
        7 => {
            g.fill(true);
            g[orig] = false;
        }
        8 | 9 => (0..1 + u.rng.below(4)).for_each(|_| g[u.rng.below(n)] = true),
        10 => {
            // The farthest ones
            let dist = t.dist(orig, u.rng.bool());
            let max = dist.iter().flatten().max().copied();
            (0..n).for_each(|c| g[c] = dist[c] == max);
        }
        _ => {
            let p = *u.rng.pick(&[5, 50, 90]);
            (0..n).for_each(|c| g[c] = u.rng.pct(p));
        }
    }
    g
}

fn random<P, const S: usize, const W: usize, const W2: usize>(u: &mut U, w: usize, h: usize, rounds: usize)
where
    P: TP + std::ops::Add<Dir, Output = Result<P, Error>>,
{
    for _ in 0..rounds {
        let t = Terrain::random(&mut u.rng, w, h);
        let orig = u.rng.below(w * h);
        let g = goals(u, &t, orig);
        {
            describe::<P>(u, &t, orig, true, &g);
            let want = Want::new(&t, true, orig, &g);
            gridded::<P, true, W, S>(&want);
            hashed::<P, true>(&want);
            note(u, &want);
        }
        {
            describe::<P>(u, &t, orig, false, &g);
            let want = Want::new(&t, false, orig, &g);
            gridded::<P, false, W2, S>(&want);
            hashed::<P, false>(&want);
            note(u, &want);
        }
        u.sample(|| format!("origin {orig}, goals {:?}, on {}", g.iter().filter(|g| **g).count(), t.show()));
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(if S > 70 { 20 } else { 40 }, if S > 70 { 300 } else { 1500 });
    random::<Pos<X, Y>, S, W, W2>(u, X as usize + 1, Y as usize + 1, n);
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for round in 0..u.scale(if w * h > 65536 { 2 } else { 3 }, if w * h > 65536 { 8 } else { 20 }) {
        let mut t = Terrain::random(&mut u.rng, w, h);
        let mut orig = *u.rng.pick(&[0, w - 1, w * h - 1, h / 2 * w + w / 2]);
        let mut diag = u.rng.bool();
        if w.min(h) < 3 {
            t = Terrain::open(w, h);
        } else if round == 0 {
            // As long as it gets
            t = Terrain::serpentine(w, h, w >= h);
            (orig, diag) = (0, false);
        }
        // A goal that is far away
        let mut g = vec![false; w * h];
        let dist = t.dist(orig, diag);
        let max = dist.iter().flatten().max().copied();
        g[(0..w * h).rfind(|c| dist[*c] == max).unwrap()] = true;
        describe::<Pos<X, Y>>(u, &t, orig, diag, &g);
        let want = Want::new(&t, diag, orig, &g);
        if diag {
            gridded::<Pos<X, Y>, true, W2, S>(&want);
            hashed::<Pos<X, Y>, true>(&want);
        } else {
            gridded::<Pos<X, Y>, false, W, S>(&want);
            hashed::<Pos<X, Y>, false>(&want);
        }
        note(u, &want);
    }
}

fn exhaustive<const X: u16, const Y: u16, const S: usize, const D: bool>(u: &mut U, family: Family, shards: usize) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let bits = family.bits(w, h, D);
    let mut i = u.shard as u64;
    while i < 1 << bits {
        let t = family.member(w, h, D, i);
        for orig in 0..w * h {
            // Any single goal, and a pair
            for goal in 0..w * h {
                let mut g = vec![false; w * h];
                g[goal] = true;
                if i / shards as u64 % 8 == 0 {
                    g[u.rng.below(w * h)] = true;
                }
                describe::<Pos<X, Y>>(u, &t, orig, D, &g);
                let want = Want::new(&t, D, orig, &g);
                let (go, o) = (go_of::<Pos<X, Y>>(&t), pos_of::<Pos<X, Y>>(&t, orig));
                let found = |p| g[cell_of(&t, p)];
                want.check("bfs_path", Sqrid::<X, Y, D, 1, S>::bfs_path(&go, &o, found));
                if i / shards as u64 % 4 == 0 {
                    want.check("bfs_path_hash", Sqrid::<X, Y, D, 1, S>::bfs_path_hash(&go, &o, found));
                    want.check("bfs_path_btree", Sqrid::<X, Y, D, 1, S>::bfs_path_btree(&go, &o, found));
                }
                note(u, &want);
            }
        }
        i += shards as u64;
    }
    u.sample(|| format!("all {} members of {family:?} {w}x{h}, diagonals {D}", 1u64 << bits));
}

fn main() {
    let mut m = Mon::new(
        "C14",
        "random terrains of one-step moves (open, obstacles, walls, one-way, mazes, serpentines, currents) on many grid sizes and position types; no goal, one, several, the origin, all, the farthest; through every entry point and with mixed storages; every one-way graph, passage layout or obstacle layout of some tiny grids with every origin and goal; paths are replayed on the terrain and compared with shortest distances from an independent computation; a case is a distinct (terrain, origin, goals, diagonals) with some goal that is not the origin",
    );
    m.require("searches", 20_000);
    m.require("paths", 10_000);
    m.require("unreachable", 1_000);
    m.require("origin is a goal", 200);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, large);
    sqmon::units_dims!(m, "large", 1, 1, large, [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (40, 300)]);
    m.shards("directed 2x2", 2, 2, |u| exhaustive::<1, 1, 4, true>(u, Family::Directed, 2));
    m.shards("directed 3x2", 8, 8, |u| exhaustive::<2, 1, 6, false>(u, Family::Directed, 8));
    m.shards("directed 4x1", 1, 1, |u| exhaustive::<3, 0, 4, true>(u, Family::Directed, 1));
    m.shards("passages 3x3", 4, 4, |u| exhaustive::<2, 2, 9, false>(u, Family::Passages, 4));
    m.shards("obstacles 3x3", 1, 1, |u| exhaustive::<2, 2, 9, true>(u, Family::Obstacles, 1));
    if m.thorough() {
        m.shards("directed 2x3", 0, 8, |u| exhaustive::<1, 2, 6, false>(u, Family::Directed, 8));
        m.shards("passages 3x3 diagonal", 0, 64, |u| exhaustive::<2, 2, 9, true>(u, Family::Passages, 64 * 5));
        m.shards("obstacles 4x4", 0, 16, |u| exhaustive::<3, 3, 16, false>(u, Family::Obstacles, 16));
    }
    m.unit("user", |u| {
        let n = u.scale(30, 600);
        random::<UserPos<4, 2>, 15, 1, 1>(u, 5, 3, n);
        random::<UserPos<7, 3>, 32, 1, 2>(u, 8, 4, n);
        random::<UserPos<2, 30>, 93, 3, 3>(u, 3, 31, n);
    });
    m.unit("tuples", |u| {
        for _ in 0..u.scale(30, 500) {
            let (w, h) = (1 + u.rng.below(9), 1 + u.rng.below(9));
            let t = Terrain::random(&mut u.rng, w, h);
            let orig = u.rng.below(w * h);
            let g = goals(u, &t, orig);
            for diag in [true, false] {
                let want = Want::new(&t, diag, orig, &g);
                macro_rules! each {
                    ($($t:ty),*) => { $(
                        describe::<($t, $t)>(u, &t, orig, diag, &g);
                        if diag { hashed::<($t, $t), true>(&want) } else { hashed::<($t, $t), false>(&want) }
                    )* };
                }
                each!(u8, u16, u32, u64, u128, i16, i32);
                note(u, &want);
                if diag {
                    gridded::<(u8, u8), true, 2048, 65536>(&want)
                } else {
                    gridded::<(u8, u8), false, 2049, 65536>(&want)
                }
            }
        }
    });
    m.run()
}
