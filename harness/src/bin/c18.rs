//! C18: path reconstruction classifies every came-from map correctly

use sqmon::model::{opposite, step, COMPASS, DIRS};
use sqmon::mon::{Mon, U};
use sqmon::search::{UserPos, TP};
use sqmon::{ck, ckeq, fail};
use sqrid::{camefrom_into_path, Dir, Error, Grid, MapPos, Pos, PosT, Sqrid};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::ops::Add;

type HMap<P> = (HashMap<P, Option<Dir>>, Option<Dir>);
type BMap<P> = (BTreeMap<P, Option<Dir>>, Option<Dir>);

/// A map that counts how often it is asked, and gives up when that is
/// far more than proportional to the number of positions
struct Counted<'a, M>(M, &'a Cell<u64>, u64);

impl<M, P: PosT, const W: usize, const S: usize> MapPos<Option<Dir>, P, W, S> for Counted<'_, M>
where
    M: MapPos<Option<Dir>, P, W, S>,
{
    fn new(_: Option<Dir>) -> Self {
        fail!("path reconstruction has no use for a new map");
    }
    fn get(&self, pos: &P) -> &Option<Dir> {
        self.1.set(self.1.get() + 1);
        ck!(self.1.get() <= self.2, "more than {} steps were taken", self.2);
        self.0.get(pos)
    }
    fn set(&mut self, _: P, _: Option<Dir>) {
        fail!("path reconstruction has no reason to change the map");
    }
}

/// What the map says, independently
#[derive(Clone, Debug, PartialEq, Eq)]
enum Want {
    Path(Vec<Dir>),
    Unreachable,
    Invalid,
    Loop,
    /// The destination is the origin but has no entry: two readings
    Either,
}

fn classify<K: Copy + Eq + Hash>(get: impl Fn(K) -> Option<usize>, step: impl Fn(K, usize) -> Option<K>, orig: K, dest: K) -> Want {
    if get(dest).is_none() {
        return if orig == dest { Want::Either } else { Want::Unreachable };
    }
    let mut seen = std::collections::HashSet::new();
    let mut c = dest;
    let mut path = vec![];
    while c != orig {
        if !seen.insert(c) {
            return Want::Loop;
        }
        let Some(d) = get(c) else { return Want::Invalid };
        let Some(n) = step(c, d) else { return Want::Invalid };
        path.push(DIRS[opposite(d)]);
        c = n;
    }
    path.reverse();
    Want::Path(path)
}

fn check(what: &str, got: Result<Vec<Dir>, Error>, want: &Want) {
    match (want, got) {
        (Want::Path(w), Ok(p)) => ckeq!(p, *w, "{what}: path"),
        (Want::Unreachable, Err(Error::DestinationUnreachable)) => {}
        (Want::Invalid, Err(Error::InvalidMovement)) => {}
        (Want::Loop, Err(Error::Loop)) => {}
        (Want::Either, Ok(p)) => ckeq!(p, vec![], "{what}: path from the origin to itself"),
        (Want::Either, Err(Error::DestinationUnreachable)) => {}
        (w, g) => fail!("{what}: observed {g:?}, expected {w:?}"),
    }
}

/// A map over the cells of a grid
#[derive(Clone, Debug, Hash)]
struct Cells {
    w: usize,
    h: usize,
    from: Vec<Option<u8>>,
}

impl Cells {
    fn want(&self, orig: usize, dest: usize) -> Want {
        classify(|c| self.from[c].map(|d| d as usize), |c, d| step(self.w, self.h, c, d), orig, dest)
    }
    /// Number of steps from `dest` to everything on the way
    fn around(&self, dest: usize) -> HashMap<usize, usize> {
        let mut seen = HashMap::new();
        let mut c = dest;
        while !seen.contains_key(&c) {
            seen.insert(c, seen.len());
            match self.from[c].and_then(|d| step(self.w, self.h, c, d as usize)) {
                Some(n) => c = n,
                None => break,
            }
        }
        seen
    }
    fn show(&self) -> String {
        let mut s = format!("{}x{}:", self.w, self.h);
        if self.from.len() <= 144 {
            for (i, f) in self.from.iter().enumerate() {
                s.push_str(if i % self.w == 0 { " /" } else { "" });
                s.push_str(&format!(" {}", f.map(|d| COMPASS[d as usize].0).unwrap_or("-")));
            }
        }
        s
    }
}

fn at<P: TP>(m: &Cells, c: usize) -> P {
    P::at(c % m.w, c / m.w)
}

fn hashed<P>(m: &Cells, orig: usize, dest: usize, want: &Want, calls: &Cell<u64>)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    let (o, d) = (at::<P>(m, orig), at::<P>(m, dest));
    let limit = 16 * m.from.len() as u64 + 64;
    let mut h: HMap<P> = MapPos::<_, P, 0, 0>::new(None);
    let mut b: BMap<P> = MapPos::<_, P, 0, 0>::new(None);
    for (c, f) in m.from.iter().enumerate() {
        if let Some(f) = f {
            h.0.insert(at(m, c), Some(DIRS[*f as usize]));
            MapPos::<_, P, 0, 0>::set(&mut b, at(m, c), Some(DIRS[*f as usize]));
        } else if c % 2 == 0 {
            h.0.insert(at(m, c), None);
        }
    }
    calls.set(0);
    check(
        &format!("camefrom_into_path with a hash map of {}", P::name()),
        camefrom_into_path::<_, P, 0, 0>(Counted(h.clone(), calls, limit), &o, &d),
        want,
    );
    calls.set(0);
    check(
        &format!("Sqrid::camefrom_into_path with a B-tree map of {}", P::name()),
        Sqrid::<1, 1, false, 0, 0>::camefrom_into_path::<P, _>(Counted(b, calls, limit), &o, &d),
        want,
    );
    check(&format!("camefrom_into_path with {}", P::name()), camefrom_into_path::<_, P, 1, 1>(h, &o, &d), want);
}

fn gridded<P, const W: usize, const S: usize>(m: &Cells, orig: usize, dest: usize, want: &Want, calls: &Cell<u64>)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    let (o, d) = (at::<P>(m, orig), at::<P>(m, dest));
    let limit = 16 * m.from.len() as u64 + 64;
    let mut g = Grid::<Option<Dir>, P, S>::default();
    for (c, f) in m.from.iter().enumerate() {
        g[at::<P>(m, c)] = f.map(|f| DIRS[f as usize]);
    }
    calls.set(0);
    check(
        &format!("Sqrid::camefrom_into_path with a grid of {}", P::name()),
        Sqrid::<1, 1, true, W, S>::camefrom_into_path::<P, _>(Counted(g.clone(), calls, limit), &o, &d),
        want,
    );
    check(&format!("camefrom_into_path with a grid of {}", P::name()), camefrom_into_path::<_, P, W, S>(g, &o, &d), want);
}

/// A circuit through all of the first `rows` rows (an even number), that
/// a serpentine through the other rows leads to
fn rho(w: usize, h: usize, rows: usize) -> Vec<Option<u8>> {
    (0..w * h)
        .map(|c| {
            let (x, y) = (c % w, c / w);
            Some(if y >= rows {
                match (y % 2 == 0, x > 0, x + 1 < w) {
                    (true, true, _) => 6,
                    (false, _, true) => 2,
                    _ => 0,
                }
            } else if x == 0 && y > 0 {
                0
            } else if y % 2 == 0 {
                if x + 1 < w { 2 } else { 4 }
            } else if x > 1 || y + 1 == rows {
                6
            } else {
                4
            })
        })
        .collect()
}

/// A map that has some chance of containing long paths, loops and dead ends
fn make(u: &mut U, w: usize, h: usize) -> Cells {
    let n = w * h;
    let mut from = vec![None; n];
    match u.rng.below(7) {
        6 if w > 1 && h > 1 => {
            from = rho(w, h, 2 * (1 + u.rng.below(h / 2)));
            for _ in 0..u.rng.below(3) {
                from[u.rng.below(n)] = Some(u.rng.below(8) as u8);
            }
        }
        0 => {
            // Anything
            let p = *u.rng.pick(&[100, 95, 70, 30]);
            from.iter_mut().for_each(|f| *f = if u.rng.pct(p) { Some(u.rng.below(8) as u8) } else { None });
        }
        1 | 2 => {
            // A random spanning tree (some of it), rooted anywhere
            let mut seen = vec![false; n];
            let root = u.rng.below(n);
            seen[root] = true;
            let mut stack = vec![root];
            let diag = u.rng.bool();
            if u.rng.bool() {
                from[root] = Some(0);
            }
            while let Some(&c) = stack.last() {
                let mut ds = sqmon::model::allowed(diag).to_vec();
                u.rng.shuffle(&mut ds);
                match ds.iter().find_map(|&d| step(w, h, c, d).filter(|&o| !seen[o]).map(|o| (d, o))) {
                    Some((d, o)) => {
                        seen[o] = true;
                        from[o] = Some(opposite(d) as u8);
                        stack.push(o);
                    }
                    None => {
                        stack.pop();
                    }
                }
            }
            // Damage some of it
            for _ in 0..u.rng.below(3) {
                from[u.rng.below(n)] = if u.rng.bool() { None } else { Some(u.rng.below(8) as u8) };
            }
        }
        3 => {
            // Serpentine through all cells
            for c in 0..n {
                let (x, y) = (c % w, c / w);
                let d = if y % 2 == 0 {
                    if x > 0 { 6 } else { 0 }
                } else if x + 1 < w {
                    2
                } else {
                    0
                };
                from[c] = Some(d);
            }
            if u.rng.bool() {
                from[u.rng.below(n)] = Some(*u.rng.pick(&[0, 2, 4, 6]));
            }
        }
        4 => {
            // A field that flows in one direction, with noise
            let d = u.rng.below(8) as u8;
            let p = *u.rng.pick(&[0, 2, 10]);
            from.iter_mut().for_each(|f| *f = if u.rng.pct(p) { Some(u.rng.below(8) as u8) } else { Some(d) });
        }
        _ => {
            // Everything goes around
            for c in 0..n {
                let (x, y) = (c % w, c / w);
                from[c] = Some(if y == 0 && x + 1 < w {
                    2
                } else if x + 1 == w && y + 1 < h {
                    4
                } else if y + 1 == h && x > 0 {
                    6
                } else {
                    0
                });
            }
            for _ in 0..u.rng.below(4) {
                from[u.rng.below(n)] = Some(u.rng.below(8) as u8);
            }
        }
    }
    Cells { w, h, from }
}

fn note(u: &mut U, m: &Cells, orig: usize, dest: usize, want: &Want, calls: &Cell<u64>) {
    match want {
        Want::Path(p) => {
            u.count("paths", 1);
            u.count("steps of paths", p.len() as u64);
            u.count("paths longer than width and height squared", (p.len() > (m.w * m.w).min(m.h * m.h) + 1) as u64);
            u.count("paths through every position", (p.len() + 1 == m.w * m.h) as u64);
        }
        Want::Unreachable => u.count("unreachable", 1),
        Want::Invalid => u.count("invalid", 1),
        Want::Loop => u.count("loops", 1),
        Want::Either => u.count("without entry for the origin", 1),
    }
    u.count("map queries observed", calls.get());
    if matches!(want, Want::Path(p) if !p.is_empty()) || matches!(want, Want::Invalid | Want::Loop) {
        u.case(&(m, orig, dest));
    } else {
        u.eval();
    }
}

fn one<P, const W: usize, const S: usize>(u: &mut U, m: &Cells, orig: usize, dest: usize, tuples: bool)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    let want = m.want(orig, dest);
    u.describe(format!("{} from ({},{}) to ({},{}), map {}", P::name(), orig % m.w, orig / m.w, dest % m.w, dest / m.w, m.show()));
    let calls = Cell::new(0);
    gridded::<P, W, S>(m, orig, dest, &want, &calls);
    hashed::<P>(m, orig, dest, &want, &calls);
    // Pairs of integers: only when nothing leaves the area
    if tuples && want != Want::Invalid && m.w <= 250 && m.h <= 250 {
        hashed::<(u8, u8)>(m, orig, dest, &want, &calls);
        hashed::<(i32, i32)>(m, orig, dest, &want, &calls);
        hashed::<(u128, u128)>(m, orig, dest, &want, &calls);
    }
    note(u, m, orig, dest, &want, &calls);
}

fn random<P, const W: usize, const S: usize>(u: &mut U, w: usize, h: usize, rounds: usize)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    for round in 0..rounds {
        let m = make(u, w, h);
        let n = w * h;
        let mut ends = vec![(u.rng.below(n), u.rng.below(n)), (0, n - 1), (n - 1, 0)];
        let (o, d) = (u.rng.below(n), u.rng.below(n));
        // The longest path to somewhere
        let far = (0..n).filter(|c| u.rng.pct(20) || *c == d).max_by_key(|c| match m.want(o, *c) {
            Want::Path(p) => p.len(),
            _ => 0,
        });
        ends.push((o, far.unwrap()));
        for (o, d) in ends {
            one::<P, W, S>(u, &m, o, d, round % 4 == 0);
        }
        u.sample(|| m.show());
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(if S > 70 { 60 } else { 200 }, if S > 70 { 1000 } else { 4000 });
    random::<Pos<X, Y>, W, S>(u, X as usize + 1, Y as usize + 1, n);
}

/// Very long paths and loops
fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let n = w * h;
    let last = if (h - 1) % 2 == 0 { n - 1 } else { n - w };
    for round in 0..u.scale(7, 40) {
        let mut m = make(u, w, h);
        let (mut o, mut d) = (u.rng.below(n), u.rng.below(n));
        if round < 3 {
            // Through every position
            m.from = (0..n)
                .map(|c| {
                    let (x, y) = (c % w, c / w);
                    Some(match (y % 2 == 0, x > 0, x + 1 < w) {
                        (true, true, _) => 6,
                        (false, _, true) => 2,
                        _ => 0,
                    })
                })
                .collect();
            (o, d) = (0, last);
            if round == 1 {
                // A loop at the far end
                m.from[0] = Some(if w > 1 { 2 } else { 4 });
                o = n / 2 + 1;
                d = n / 2;
            }
            if round == 2 {
                m.from[o] = None;
            }
        }
        if (3..6).contains(&round) && w > 1 && h > 1 {
            // Long circuits at the end of long and short tails, that meet
            // the origin or not
            let rows = match round {
                3 => if h > 3 { (h - 2) / 2 * 2 } else { 2 },
                4 => 2,
                _ => 2 * (1 + u.rng.below(h / 2)),
            };
            m.from = rho(w, h, rows);
            d = u.rng.below(n);
            let around = m.around(d);
            let off: Vec<usize> = (0..n).filter(|c| !around.contains_key(c)).collect();
            o = if off.is_empty() || round != 3 && u.rng.pct(10) { u.rng.below(n) } else { *u.rng.pick(&off) };
        }
        let want = m.want(o, d);
        if want == Want::Loop {
            let around = m.around(d);
            let last = around.iter().max_by_key(|(_, i)| **i).unwrap();
            let length = 1 + last.1 - around[&step(w, h, *last.0, m.from[*last.0].unwrap() as usize).unwrap()];
            u.count("loops of more than 1024 positions", (length > 1024) as u64);
            u.count("loops of more than 65536 positions", (length > 65536) as u64);
        }
        u.describe(format!("Pos<{X},{Y}> from cell {o} to {d}, round {round}"));
        let calls = Cell::new(0);
        gridded::<Pos<X, Y>, W, S>(&m, o, d, &want, &calls);
        hashed::<Pos<X, Y>>(&m, o, d, &want, &calls);
        note(u, &m, o, d, &want, &calls);
    }
}

/// Every map of a tiny grid, from everywhere to everywhere
fn every<const X: u16, const Y: u16, const S: usize>(u: &mut U, shards: usize) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let total = 9usize.pow(S as u32);
    let mut i = u.shard;
    while i < total {
        let mut k = i;
        let from = (0..S)
            .map(|_| {
                let d = k % 9;
                k /= 9;
                (d < 8).then_some(d as u8)
            })
            .collect();
        let m = Cells { w, h, from };
        for o in 0..S {
            for d in 0..S {
                let want = m.want(o, d);
                u.describe(format!("Pos<{X},{Y}> from cell {o} to {d}, map {}", m.show()));
                let calls = Cell::new(0);
                gridded::<Pos<X, Y>, 1, S>(&m, o, d, &want, &calls);
                if i % 5 == 0 {
                    hashed::<Pos<X, Y>>(&m, o, d, &want, &calls);
                }
                note(u, &m, o, d, &want, &calls);
            }
        }
        i += shards;
    }
    u.sample(|| format!("all {total} maps of {w}x{h}"));
}

/// Maps with a few entries in the huge space of the integer pairs
fn sparse<P, T>(u: &mut U, mk: impl Fn(i64, i64) -> P, lo: i64, hi: i64)
where
    P: PosT + Ord + Hash + Copy + std::fmt::Debug + Add<Dir, Output = Result<P, Error>>,
{
    for _ in 0..u.scale(200, 1000) {
        // A walk that may bite its tail or end anywhere
        let mut m: HashMap<(i64, i64), usize> = HashMap::new();
        let dest = match u.rng.below(4) {
            0 => (lo, hi),
            1 => (hi - 1, lo + 1),
            _ => (u.rng.range(lo, hi), u.rng.range(lo, hi)),
        };
        let mv = |c: (i64, i64), d: usize| {
            let n = (c.0 + COMPASS[d].1, c.1 + COMPASS[d].2);
            (n.0 >= lo && n.0 <= hi && n.1 >= lo && n.1 <= hi).then_some(n)
        };
        let mut c = dest;
        let favourite = u.rng.below(8);
        let length = *u.rng.pick(&[10, 60, 60, 2000]);
        for _ in 0..u.rng.below(length) {
            let d = if u.rng.pct(70) { favourite } else { u.rng.below(8) };
            if m.contains_key(&c) {
                break;
            }
            m.insert(c, d);
            match mv(c, d) {
                Some(n) => c = n,
                None => break,
            }
        }
        let orig = match u.rng.below(3) {
            0 => (u.rng.range(lo, hi), u.rng.range(lo, hi)),
            1 => c,
            _ => *m.keys().min().unwrap_or(&dest),
        };
        let want = classify(|c| m.get(&c).copied(), mv, orig, dest);
        u.describe(format!("pairs of {} from {orig:?} to {dest:?}, map {m:?}", std::any::type_name::<T>()));
        let calls = Cell::new(0);
        let h: HMap<P> = (m.iter().map(|(k, d)| (mk(k.0, k.1), Some(DIRS[*d]))).collect(), None);
        let b: BMap<P> = (m.iter().map(|(k, d)| (mk(k.0, k.1), Some(DIRS[*d]))).collect(), None);
        let (o, d) = (mk(orig.0, orig.1), mk(dest.0, dest.1));
        check("camefrom_into_path", camefrom_into_path::<_, P, 0, 0>(Counted(h, &calls, 5000), &o, &d), &want);
        calls.set(0);
        check(
            "Sqrid::camefrom_into_path",
            Sqrid::<1, 1, true, 0, 0>::camefrom_into_path::<P, _>(Counted(b, &calls, 5000), &o, &d),
            &want,
        );
        let mut keys: Vec<_> = m.into_iter().collect();
        keys.sort();
        match want {
            Want::Loop => u.count("loops of integer pairs", 1),
            Want::Path(_) => u.count("paths of integer pairs", 1),
            _ => u.count("errors of integer pairs", 1),
        }
        u.case(&(std::any::type_name::<T>(), keys, orig, dest));
    }
}

fn main() {
    let mut m = Mon::new(
        "C18",
        "came-from maps (random, damaged spanning trees, serpentines through every position, flows, loops) in grids, hash maps and B-tree maps of many grid sizes, integer pairs (also huge ones) and a user-written position type; every map of 2x2, 1x3, 3x1, 1x4 and 4x1 grids; results compared with an independent classification, and the number of map queries with the number of positions; a case is a distinct (map, origin, destination) whose result is a non-empty path, an invalid movement or a loop",
    );
    m.require("paths", 10_000);
    m.require("loops", 3_000);
    m.require("invalid", 10_000);
    m.require("unreachable", 1_000);
    m.require("paths longer than width and height squared", 30);
    m.require("paths through every position", 20);
    m.require("loops of more than 1024 positions", 5);
    m.require("loops of more than 65536 positions", 1);
    m.require("loops of integer pairs", 20);
    m.require("paths of integer pairs", 20);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, large);
    sqmon::large_dims!(m, "large", 1, 1, large);
    m.shards("every 2x2", 4, 4, |u| every::<1, 1, 4>(u, 4));
    m.unit("every 3x1", |u| every::<2, 0, 3>(u, 1));
    m.unit("every 1x3", |u| every::<0, 2, 3>(u, 1));
    m.shards("every 4x1", 2, 2, |u| every::<3, 0, 4>(u, 2));
    m.shards("every 1x4", 2, 2, |u| every::<0, 3, 4>(u, 2));
    if m.thorough() {
        m.shards("every 5x1", 0, 8, |u| every::<4, 0, 5>(u, 8));
        m.shards("every 3x2", 0, 64, |u| every::<2, 1, 6>(u, 64));
        m.shards("every 2x3", 0, 64, |u| every::<1, 2, 6>(u, 64));
    }
    m.unit("user", |u| {
        let n = u.scale(200, 4000);
        random::<UserPos<4, 2>, 1, 15>(u, 5, 3, n);
        random::<UserPos<2, 30>, 3, 93>(u, 3, 31, n);
        random::<UserPos<30, 2>, 3, 93>(u, 31, 3, n);
    });
    m.unit("sparse", |u| {
        sparse::<(u8, u8), u8>(u, |x, y| (x as u8, y as u8), 0, 255);
        sparse::<(i8, i8), i8>(u, |x, y| (x as i8, y as i8), -128, 127);
        sparse::<(u16, u16), u16>(u, |x, y| (x as u16, y as u16), 0, 65535);
        sparse::<(i16, i16), i16>(u, |x, y| (x as i16, y as i16), -32768, 32767);
        sparse::<(u32, u32), u32>(u, |x, y| (x as u32, y as u32), 0, u32::MAX as i64);
        sparse::<(i32, i32), i32>(u, |x, y| (x as i32, y as i32), i32::MIN as i64, i32::MAX as i64);
        sparse::<(u64, u64), u64>(u, |x, y| (x as u64, y as u64), 0, i64::MAX / 2);
        sparse::<(u128, u128), u128>(u, |x, y| (x as u128, y as u128), 0, i64::MAX / 2);
    });
    m.run()
}
