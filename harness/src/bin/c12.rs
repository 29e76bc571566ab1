//! C12: all map and set storages honour the same contract

use sqmon::ckeq;
use sqmon::model::DIRS;
use sqmon::mon::{Mon, Rng, U};
use sqmon::search::{UserPos, TP};
use sqrid::{Dir, Grid, Gridbool, MapPos, Pos, SetPos};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;

trait Item: Copy + PartialEq + Debug + Default + Hash {
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
}
impl Item for usize {
    const NAME: &'static str = "usize";
    fn gen(r: &mut Rng) -> usize {
        *r.pick(&[0, 1, usize::MAX, usize::MAX - 1, 7, 1 << 40])
    }
}
impl Item for Option<Dir> {
    const NAME: &'static str = "Option<Dir>";
    fn gen(r: &mut Rng) -> Self {
        DIRS.get(r.below(9)).copied()
    }
}
impl Item for i8 {
    const NAME: &'static str = "i8";
    fn gen(r: &mut Rng) -> Self {
        r.u64() as i8
    }
}

fn cell<P: TP>(w: usize, c: usize) -> P {
    P::at(c % w, c / w)
}

/// Cells that a history works on: few, so that they repeat, and spread
fn working_set(u: &mut U, w: usize, h: usize) -> Vec<usize> {
    let n = w.saturating_mul(h);
    if n <= 300 {
        return (0..n).collect();
    }
    let mut v = vec![];
    for x in [0, 1, w / 2, w - 1] {
        for y in [0, 1, h / 2, h - 1] {
            v.push(y.min(h - 1) * w + x.min(w - 1));
        }
    }
    for _ in 0..30 {
        let c = u.rng.below(n.min(1 << 31));
        v.push(c);
        v.push(c / w * w + (c + 1) % w);
        v.push(((c / w + 1) % h) * w + c % w);
    }
    v
}

/// The same history on one storage and on the model
fn map_history<M, I, P, const W: usize, const S: usize>(u: &mut U, what: &str, w: usize, h: usize, new: impl Fn(I) -> M, steps: usize)
where
    M: MapPos<I, P, W, S>,
    I: Item,
    P: TP,
{
    let cells = working_set(u, w, h);
    let initial = I::gen(&mut u.rng);
    u.describe(format!("{what} of {} on {} {w}x{h}, initially {initial:?}", I::NAME, P::name()));
    let mut map = new(initial);
    let mut model: BTreeMap<usize, I> = BTreeMap::new();
    let check = |map: &M, model: &BTreeMap<usize, I>, after: &str| {
        for c in &cells {
            let want = model.get(c).copied().unwrap_or(initial);
            ckeq!(*map.get(&cell::<P>(w, *c)), want, "get of cell {c} {after}");
        }
    };
    check(&map, &model, "of a new map");
    for i in 0..steps {
        let c = *u.rng.pick(&cells);
        let v = if u.rng.pct(15) { initial } else { I::gen(&mut u.rng) };
        map.set(cell::<P>(w, c), v);
        model.insert(c, v);
        u.case(&(what, I::NAME, w, h, c, i, v));
        u.count("map writes", 1);
        if cells.len() <= 100 || i % 8 == 0 {
            check(&map, &model, &format!("after setting {c} to {v:?}"));
        } else {
            let want = model[&c];
            ckeq!(*map.get(&cell::<P>(w, c)), want, "get of cell {c} after setting it");
        }
    }
    check(&map, &model, "at the end");
    // Writing through does not depend on earlier content
    for c in cells.iter().rev() {
        map.set(cell::<P>(w, *c), initial);
    }
    for c in &cells {
        ckeq!(*map.get(&cell::<P>(w, *c)), initial, "get of cell {c} after setting all back");
    }
}

fn set_history<M, P, const W: usize, const S: usize>(u: &mut U, what: &str, w: usize, h: usize, steps: usize)
where
    M: SetPos<P, W, S> + Default,
    P: TP,
{
    let cells = working_set(u, w, h);
    u.describe(format!("{what} on {} {w}x{h}", P::name()));
    let mut set = M::default();
    let mut model: BTreeSet<usize> = BTreeSet::new();
    let check = |set: &M, model: &BTreeSet<usize>, after: &str| {
        for c in &cells {
            ckeq!(set.contains(&cell::<P>(w, *c)), model.contains(c), "contains cell {c} {after}");
        }
    };
    check(&set, &model, "of a default set");
    for i in 0..steps {
        let c = *u.rng.pick(&cells);
        let p = cell::<P>(w, c);
        let op = match u.rng.below(6) {
            0 | 1 => {
                set.insert(p);
                model.insert(c);
                "insert"
            }
            2 => {
                set.remove(&p);
                model.remove(&c);
                "remove"
            }
            3 => {
                set.set(p, true);
                model.insert(c);
                "set true"
            }
            4 => {
                set.set(p, false);
                model.remove(&c);
                "set false"
            }
            _ => {
                // Twice the same
                set.insert(p);
                set.insert(p);
                model.insert(c);
                "insert twice"
            }
        };
        u.case(&(what, w, h, op, c, i));
        u.count("set operations", 1);
        if cells.len() <= 100 || i % 8 == 0 {
            check(&set, &model, &format!("after {op} of {c}"));
        } else {
            ckeq!(set.contains(&p), model.contains(&c), "contains {c} after {op}");
        }
    }
    check(&set, &model, "at the end");
}

fn hashed<I: Item, P: TP, const W: usize, const S: usize>(u: &mut U, w: usize, h: usize, steps: usize) {
    type H<P, I> = (HashMap<P, I>, I);
    type B<P, I> = (BTreeMap<P, I>, I);
    map_history::<H<P, I>, I, P, W, S>(u, "hash map", w, h, <H<P, I> as MapPos<I, P, W, S>>::new, steps);
    map_history::<B<P, I>, I, P, W, S>(u, "B-tree map", w, h, <B<P, I> as MapPos<I, P, W, S>>::new, steps);
    // Default maps hold the default item
    let (a, b) = (H::<P, I>::default(), B::<P, I>::default());
    let p = cell::<P>(w, 0);
    ckeq!(*MapPos::<I, P, W, S>::get(&a, &p), I::default(), "default hash map");
    ckeq!(*MapPos::<I, P, W, S>::get(&b, &p), I::default(), "default B-tree map");
}

fn sets<P: TP, const W: usize, const S: usize>(u: &mut U, w: usize, h: usize, steps: usize) {
    set_history::<HashSet<P>, P, W, S>(u, "hash set", w, h, steps);
    set_history::<BTreeSet<P>, P, W, S>(u, "B-tree set", w, h, steps);
}

fn all<P: TP, const S: usize, const W: usize, const W2: usize>(u: &mut U, w: usize, h: usize, steps: usize) {
    map_history::<Grid<usize, P, S>, usize, P, W, S>(u, "grid", w, h, <Grid<usize, P, S> as MapPos<usize, P, W, S>>::new, steps);
    map_history::<Grid<Option<Dir>, P, S>, Option<Dir>, P, W2, S>(
        u,
        "grid",
        w,
        h,
        <Grid<Option<Dir>, P, S> as MapPos<Option<Dir>, P, W2, S>>::new,
        steps,
    );
    hashed::<usize, P, W, S>(u, w, h, steps);
    hashed::<Option<Dir>, P, W2, S>(u, w, h, steps);
    hashed::<i8, P, W, S>(u, w, h, steps);
    set_history::<Gridbool<P, W>, P, W, S>(u, "boolean grid", w, h, steps);
    set_history::<Gridbool<P, W2>, P, W2, S>(u, "boolean grid", w, h, steps);
    sets::<P, W, S>(u, w, h, steps);
    u.sample(|| format!("{} {w}x{h}: {steps} operations on each storage", P::name()));
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(60, 2000);
    all::<Pos<X, Y>, S, W, W2>(u, X as usize + 1, Y as usize + 1, n);
}

fn main() {
    let mut m = Mon::new(
        "C12",
        "the same random histories of operations on every map and set storage, over few cells so that they repeat (all cells of small grids), compared with a model after every operation; several item types, position types and both legal numbers of words; a case is a distinct (storage, item type, grid, operation, cell, step)",
    );
    m.require("map writes", 20_000);
    m.require("set operations", 10_000);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 2, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 2, grid);
    sqmon::huge_dims!(m, "huge", 1, 1, grid);
    sqmon::units_dims!(m, "large", 1, 1, grid, [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (255, 255), (65535, 0), (0, 65535)]);
    m.unit("user", |u| {
        let n = u.scale(100, 3000);
        all::<UserPos<4, 2>, 15, 1, 1>(u, 5, 3, n);
        all::<UserPos<7, 3>, 32, 1, 2>(u, 8, 4, n);
        all::<UserPos<2, 299>, 900, 29, 29>(u, 3, 300, n);
    });
    m.unit("tuples", |u| {
        let n = u.scale(100, 3000);
        all::<(u8, u8), 65536, 2048, 2049>(u, 256, 256, n);
        // These don't fit a grid
        hashed::<usize, (u16, u16), 0, 0>(u, 65536, 65536, n);
        hashed::<usize, (u32, u32), 0, 0>(u, 1 << 20, 1 << 20, n);
        hashed::<usize, (u64, u64), 0, 0>(u, 1 << 30, 1 << 30, n);
        hashed::<usize, (u128, u128), 0, 0>(u, 1 << 30, 1 << 30, n);
        hashed::<Option<Dir>, (i16, i16), 0, 0>(u, 30000, 30000, n);
        hashed::<Option<Dir>, (i32, i32), 0, 0>(u, 1 << 20, 1 << 20, n);
        // Sizes that don't matter to these storages
        hashed::<usize, (u16, u16), 5, 1>(u, 65536, 65536, n);
        hashed::<Option<Dir>, (u32, u32), 1, 0>(u, 1 << 20, 1 << 20, n);
        sets::<(u16, u16), 5, 1>(u, 65536, 65536, n);
        sets::<(u32, u32), 0, 1>(u, 1 << 20, 1 << 20, n);
        sets::<(u16, u16), 0, 0>(u, 65536, 65536, n);
        sets::<(u32, u32), 0, 0>(u, 1 << 20, 1 << 20, n);
        sets::<(u64, u64), 0, 0>(u, 1 << 30, 1 << 30, n);
        sets::<(u128, u128), 0, 0>(u, 1 << 30, 1 << 30, n);
        sets::<(i16, i16), 0, 0>(u, 30000, 30000, n);
        sets::<(i32, i32), 0, 0>(u, 1 << 20, 1 << 20, n);
    });
    m.unit("strings", |u| {
        // Items that are not copyable
        type P = Pos<4, 4>;
        let mut h = <(HashMap<P, String>, String) as MapPos<String, P, 1, 25>>::new("zero".into());
        let mut b = <(BTreeMap<P, String>, String) as MapPos<String, P, 1, 25>>::new("zero".into());
        let mut model = vec!["zero".to_string(); 25];
        for i in 0..500 {
            let c = u.rng.below(25);
            let v = format!("v{}", u.rng.below(50));
            MapPos::<String, P, 1, 25>::set(&mut h, cell(5, c), v.clone());
            MapPos::<String, P, 1, 25>::set(&mut b, cell(5, c), v.clone());
            model[c] = v;
            u.case(&("strings", i, c));
            for (k, want) in model.iter().enumerate() {
                let p = cell::<P>(5, k);
                ckeq!(MapPos::<String, P, 1, 25>::get(&h, &p), want, "hash map of strings");
                ckeq!(MapPos::<String, P, 1, 25>::get(&b, &p), want, "B-tree map of strings");
            }
        }
    });
    m.run()
}
