//! C13: breadth-first traversal yields exact distance layers

use sqmon::model::{di, opposite, Family, Terrain};
use sqmon::mon::{Mon, U};
use sqmon::search::{cell_of, go_of, pos_of, UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::{bf, Dir, Gridbool, Pos, Sqrid};
use std::collections::{BTreeSet, HashSet};

/// The expected layers
struct Want<'a> {
    t: &'a Terrain,
    dist: Vec<Option<usize>>,
    sizes: Vec<usize>,
}

impl<'a> Want<'a> {
    fn new(t: &'a Terrain, orig: usize, diag: bool) -> Want<'a> {
        let dist = t.dist(orig, diag);
        let mut sizes = vec![0; dist.iter().flatten().max().unwrap() + 1];
        dist.iter().flatten().for_each(|k| sizes[*k] += 1);
        Want { t, dist, sizes }
    }

    /// Check the `k`-th layer
    fn layer<P: TP>(&self, what: &str, k: usize, diag: bool, layer: Option<Vec<(P, Dir)>>) {
        let Some(layer) = layer else {
            ck!(k >= self.sizes.len(), "{what}: the iteration ends before distance {k}, which has {} positions", self.sizes[k]);
            return;
        };
        let cells: Vec<usize> = layer.iter().map(|(p, _)| cell_of(self.t, *p)).collect();
        ck!(k < self.sizes.len(), "{what}: yields {cells:?} at distance {k}, nothing is that far");
        let mut seen = BTreeSet::new();
        for ((p, dir), c) in layer.iter().zip(&cells) {
            ckeq!(self.dist[*c], Some(k), "{what}: distance of {p:?}, yielded in layer {k}");
            ck!(seen.insert(*c), "{what}: {p:?} shows up more than once in layer {k}");
            // The direction leads back
            let fwd = opposite(di(*dir));
            ck!(diag || fwd % 2 == 0, "{what}: {p:?} came from {dir}, a diagonal");
            let back = (0..self.t.n()).any(|q| self.dist[q] == Some(k - 1) && self.t.tgt[q][fwd] == Some(*c));
            ck!(back, "{what}: {p:?} is said to come from {dir}, but no position at distance {} moves there that way", k - 1);
        }
        ckeq!(layer.len(), self.sizes[k], "{what}: number of positions in layer {k}");
    }

    fn all<P: TP>(&self, what: &str, diag: bool, mut it: impl Iterator<Item = Vec<(P, Dir)>>) {
        let mut k = 1;
        loop {
            let layer = it.next();
            let end = layer.is_none();
            self.layer(what, k, diag, layer);
            if end {
                break;
            }
            k += 1;
        }
        ckeq!(k, self.sizes.len(), "{what}: number of layers");
        ck!(it.next().is_none() && it.next().is_none(), "{what}: yields again after the end");
    }
}

fn describe<P: TP>(u: &mut U, t: &Terrain, orig: usize, diag: bool) {
    let s = format!("{} origin ({},{}), diagonals {diag}, on {}", P::name(), orig % t.w, orig / t.w, t.show());
    u.describe(s);
}

fn note(u: &mut U, want: &Want, orig: usize, diag: bool) {
    u.count("traversals", 1);
    u.count("layers", want.sizes.len() as u64 - 1);
    if want.sizes.len() > 2 {
        u.case(&(want.t, orig, diag));
    } else {
        u.eval();
    }
}

/// All entry points that need no grid
fn hashed<P: TP, const D: bool>(t: &Terrain, want: &Want, orig: usize) {
    let (go, o) = (go_of::<P>(t), pos_of::<P>(t, orig));
    want.all("bf::bf_iter_hash", D, bf::bf_iter_hash::<_, P, D, 0, 0>(&go, &o));
    want.all("bf::bf_iter_btree", D, bf::bf_iter_btree::<_, P, D, 1, 5>(&go, &o));
    want.all("Sqrid::bf_iter_hash", D, Sqrid::<0, 0, D, 1, 2>::bf_iter_hash(&go, &o));
    want.all("Sqrid::bf_iter_btree", D, Sqrid::<2, 2, D, 1, 9>::bf_iter_btree(&go, &o));
    want.all("bf::bf_iter with a hash set", D, bf::bf_iter::<_, HashSet<P>, P, D, 0, 0>(&go, &o));
}

fn gridded<P: TP, const D: bool, const W: usize, const S: usize>(t: &Terrain, want: &Want, orig: usize) {
    let (go, o) = (go_of::<P>(t), pos_of::<P>(t, orig));
    want.all("Sqrid::bf_iter", D, Sqrid::<0, 0, D, W, S>::bf_iter(&go, &o));
    want.all("Sqrid::bf_iter_grid", D, Sqrid::<0, 0, D, W, S>::bf_iter_grid(&go, &o));
    want.all("bf::bf_iter_grid", D, bf::bf_iter_grid::<_, P, D, W, S>(&go, &o));
    want.all("BfIterator::new", D, bf::BfIterator::<_, Gridbool<P, W>, P, D, W, S>::new(&go, &o));
}

/// Copies made at every stage don't disturb each other
fn copies<P: TP, const D: bool, const W: usize, const S: usize>(u: &mut U, t: &Terrain, want: &Want, orig: usize) {
    let (go, o) = (go_of::<P>(t), pos_of::<P>(t, orig));
    let mut a = bf::bf_iter_grid::<_, P, D, W, S>(go.clone(), &o);
    let mut h = bf::bf_iter_hash::<_, P, D, W, S>(go.clone(), &o);
    for k in 1..want.sizes.len() + 1 {
        let (mut ca, mut ch) = (a.clone(), h.clone());
        if u.rng.bool() {
            want.layer("bf_iter_grid that was copied", k, D, a.next());
            want.layer("copy of bf_iter_grid", k, D, ca.next());
        } else {
            want.layer("copy of bf_iter_grid", k, D, ca.next());
            want.layer("bf_iter_grid that was copied", k, D, a.next());
        }
        // Run ahead with the copy
        for j in k..want.sizes.len() + 1 {
            want.layer("copy of bf_iter_hash", j, D, ch.next());
        }
        want.layer("bf_iter_hash that was copied", k, D, h.next());
        for j in k + 1..want.sizes.len() + 1 {
            want.layer("copy of bf_iter_grid", j, D, ca.next());
        }
        u.count("copies", 2);
    }
}

fn terrain(u: &mut U, w: usize, h: usize) -> Terrain {
    let mut t = Terrain::random(&mut u.rng, w, h);
    if u.rng.pct(20) {
        t.add_stays(&mut u.rng);
    }
    if u.rng.pct(20) {
        t.add_warps(&mut u.rng);
    }
    t
}

fn case<P: TP, const D: bool, const W: usize, const S: usize>(u: &mut U, t: &Terrain, orig: usize) {
    describe::<P>(u, t, orig, D);
    let want = Want::new(t, orig, D);
    gridded::<P, D, W, S>(t, &want, orig);
    hashed::<P, D>(t, &want, orig);
    if t.n() <= 130 {
        copies::<P, D, W, S>(u, t, &want, orig);
    }
    note(u, &want, orig, D);
}

fn random<P: TP, const S: usize, const W: usize, const W2: usize>(u: &mut U, w: usize, h: usize, rounds: usize) {
    for _ in 0..rounds {
        let t = terrain(u, w, h);
        let orig = u.rng.below(w * h);
        case::<P, true, W, S>(u, &t, orig);
        case::<P, false, W2, S>(u, &t, orig);
        u.sample(|| t.show());
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(if S > 70 { 6 } else { 12 }, if S > 70 { 100 } else { 400 });
    random::<Pos<X, Y>, S, W, W2>(u, X as usize + 1, Y as usize + 1, n);
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for style in 0..u.scale(2, 8) {
        let mut t = if style == 0 { Terrain::open(w, h) } else { Terrain::random(&mut u.rng, w, h) };
        if w * h < 200 {
            t = Terrain::open(w, h);
        }
        if style == 1 && w.min(h) > 2 {
            t = Terrain::serpentine(w, h, w >= h);
        }
        let orig = *u.rng.pick(&[0, w - 1, w * h - 1, h / 2 * w + w / 2]);
        for diag in [false, true] {
            describe::<Pos<X, Y>>(u, &t, orig, diag);
            let dist = t.dist(orig, diag);
            // The general check is quadratic: only distances here
            let check = |what: &str, it: &mut dyn Iterator<Item = Vec<(Pos<X, Y>, Dir)>>| {
                let mut got = vec![None; w * h];
                got[orig] = Some(0);
                for (k, layer) in it.enumerate() {
                    ck!(!layer.is_empty(), "{what}: empty layer");
                    for (p, d) in layer {
                        let c = cell_of(&t, p);
                        ckeq!(got[c], None, "{what}: {p} was already yielded at distance");
                        got[c] = Some(k + 1);
                        let prev = (p + d).unwrap_or_else(|e| sqmon::fail!("{what}: {p} + {d}: {e}"));
                        ckeq!(dist[cell_of(&t, prev)], Some(k), "{what}: distance of the position {d} of {p}");
                    }
                }
                for c in 0..w * h {
                    ckeq!(got[c], dist[c], "{what}: distance to ({},{})", c % w, c / w);
                }
            };
            let (go, o) = (go_of::<Pos<X, Y>>(&t), pos_of::<Pos<X, Y>>(&t, orig));
            if diag {
                check("bf_iter_grid", &mut bf::bf_iter_grid::<_, _, true, W, S>(&go, &o));
                check("bf_iter_hash", &mut bf::bf_iter_hash::<_, _, true, W2, S>(&go, &o));
            } else {
                check("bf_iter_grid", &mut bf::bf_iter_grid::<_, _, false, W2, S>(&go, &o));
                check("bf_iter_btree", &mut bf::bf_iter_btree::<_, _, false, W, S>(&go, &o));
            }
            u.case(&(w, h, style, orig, diag));
            u.count("traversals", 2);
        }
    }
}

/// Layers that grow as fast as possible
fn fan<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for (diag, k) in [(false, 4), (false, 3), (false, 2), (true, 8), (true, 4), (true, 5)] {
        let t = Terrain::fan(w, h, diag, k);
        describe::<Pos<X, Y>>(u, &t, 0, diag);
        let dist = t.dist(0, diag);
        let check = |what: &str, it: &mut dyn Iterator<Item = Vec<(Pos<X, Y>, Dir)>>| {
            let mut got = vec![None; w * h];
            got[0] = Some(0);
            for (i, layer) in it.enumerate() {
                for (p, d) in layer {
                    let c = cell_of(&t, p);
                    ckeq!(got[c], None, "{what}: fan of {k}: {p} was already yielded at distance");
                    got[c] = Some(i + 1);
                    let dir = if diag { (c - 1) % k } else { (c - 1) % k * 2 };
                    ckeq!(-d, Dir::ALL8[dir], "{what}: fan of {k}: direction to {p}");
                }
            }
            for c in 0..w * h {
                ckeq!(got[c], dist[c], "{what}: fan of {k}: distance to ({},{})", c % w, c / w);
            }
        };
        let (go, o) = (go_of::<Pos<X, Y>>(&t), pos_of::<Pos<X, Y>>(&t, 0));
        if diag {
            check("bf_iter_grid", &mut bf::bf_iter_grid::<_, _, true, W, S>(&go, &o));
            check("bf_iter_hash", &mut bf::bf_iter_hash::<_, _, true, W2, S>(&go, &o));
        } else {
            check("bf_iter_grid", &mut bf::bf_iter_grid::<_, _, false, W2, S>(&go, &o));
            check("bf_iter_btree", &mut bf::bf_iter_btree::<_, _, false, W, S>(&go, &o));
        }
        u.case(&("fan", w, h, diag, k));
        u.count("traversals", 2);
    }
}

fn exhaustive<const X: u16, const Y: u16, const S: usize, const D: bool>(u: &mut U, family: Family, shards: usize) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let bits = family.bits(w, h, D);
    let mut i = u.shard as u64;
    while i < 1 << bits {
        let t = family.member(w, h, D, i);
        for orig in 0..w * h {
            describe::<Pos<X, Y>>(u, &t, orig, D);
            let want = Want::new(&t, orig, D);
            let (go, o) = (go_of::<Pos<X, Y>>(&t), pos_of::<Pos<X, Y>>(&t, orig));
            want.all("bf_iter", D, Sqrid::<X, Y, D, 1, S>::bf_iter(&go, &o));
            if (i / shards as u64) % 4 == 0 {
                want.all("bf_iter_hash", D, Sqrid::<X, Y, D, 1, S>::bf_iter_hash(&go, &o));
                want.all("bf_iter_btree", D, Sqrid::<X, Y, D, 1, S>::bf_iter_btree(&go, &o));
            }
            note(u, &want, orig, D);
        }
        i += shards as u64;
    }
    u.sample(|| format!("all {} members of {family:?} {w}x{h}, diagonals {D}", 1u64 << bits));
}

fn main() {
    let mut m = Mon::new(
        "C13",
        "random terrains (open, obstacles, walls, one-way, mazes, serpentines, currents; with stays and jumps) on many grid sizes and position types, through every entry point and with copies made at every stage; every one-way graph, passage layout or obstacle layout of some tiny grids from every origin; layers compared with shortest distances from an independent computation; a case is a distinct (terrain, origin, diagonals) with at least two layers",
    );
    m.require("traversals", 10_000);
    m.require("layers", 30_000);
    m.require("copies", 500);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, large);
    sqmon::units_dims!(m, "large", 1, 1, large, [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (40, 300)]);
    sqmon::units_dims!(m, "fan", 1, 1, fan, [(4, 4), (18, 10), (99, 99), (299, 299)]);
    m.shards("directed 2x2", 2, 2, |u| exhaustive::<1, 1, 4, true>(u, Family::Directed, 2));
    m.shards("directed 3x2", 4, 4, |u| exhaustive::<2, 1, 6, false>(u, Family::Directed, 4));
    m.shards("directed 4x1", 1, 1, |u| exhaustive::<3, 0, 4, true>(u, Family::Directed, 1));
    m.shards("passages 3x3", 2, 2, |u| exhaustive::<2, 2, 9, false>(u, Family::Passages, 2));
    m.shards("obstacles 3x3", 1, 1, |u| exhaustive::<2, 2, 9, true>(u, Family::Obstacles, 1));
    if m.thorough() {
        m.shards("directed 2x3", 0, 8, |u| exhaustive::<1, 2, 6, false>(u, Family::Directed, 8));
        m.shards("passages 3x3 diagonal", 0, 64, |u| exhaustive::<2, 2, 9, true>(u, Family::Passages, 64 * 5));
        m.shards("obstacles 4x4", 0, 16, |u| exhaustive::<3, 3, 16, false>(u, Family::Obstacles, 16));
    }
    m.unit("user", |u| {
        let n = u.scale(10, 200);
        random::<UserPos<4, 2>, 15, 1, 1>(u, 5, 3, n);
        random::<UserPos<7, 3>, 32, 1, 2>(u, 8, 4, n);
        random::<UserPos<2, 30>, 93, 3, 3>(u, 3, 31, n);
    });
    m.unit("tuples", |u| {
        for _ in 0..u.scale(15, 300) {
            let (w, h) = (1 + u.rng.below(9), 1 + u.rng.below(9));
            let t = terrain(u, w, h);
            let orig = u.rng.below(w * h);
            for diag in [true, false] {
                let want = Want::new(&t, orig, diag);
                macro_rules! each {
                    ($($t:ty),*) => { $(
                        describe::<($t, $t)>(u, &t, orig, diag);
                        if diag { hashed::<($t, $t), true>(&t, &want, orig) } else { hashed::<($t, $t), false>(&t, &want, orig) }
                    )* };
                }
                each!(u8, u16, u32, u64, u128, i16, i32);
                note(u, &want, orig, diag);
                if diag {
                    gridded::<(u8, u8), true, 2048, 65536>(&t, &want, orig)
                } else {
                    gridded::<(u8, u8), false, 2049, 65536>(&t, &want, orig)
                }
            }
        }
    });
    m.run()
}
