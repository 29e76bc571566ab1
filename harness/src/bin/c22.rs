//! C22: grids own each element exactly once
//!
//! The elements report their own construction and destruction to a
//! ledger.  After every operation, the values alive must be exactly the
//! ones in the grids that exist plus the ones held by the harness.

use sqmon::mon::{catch, Mon, U};
use sqmon::search::{UserPos, TP};
use sqmon::{ck, ckeq, fail};
use sqrid::{BoundedU16, Error, Grid, Pos};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

/* Ledger *********************************************************************/

#[derive(Default)]
struct Ledger {
    next: u64,
    alive: HashSet<u64>,
    births: u64,
    deaths: u64,
    /// For elements without identity
    zst: i64,
    errors: Vec<String>,
    /// Construction (by default or clone) panics when this reaches zero
    fuse: Option<u64>,
    /// A drop panics, once, when this reaches zero
    drop_fuse: Option<u64>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    LEDGER.with(|l| f(&mut l.borrow_mut()))
}

fn birth() -> u64 {
    ledger(|l| {
        l.next += 1;
        l.births += 1;
        l.alive.insert(l.next);
        l.next
    })
}

fn death(id: u64) {
    ledger(|l| {
        l.deaths += 1;
        if !l.alive.remove(&id) && l.errors.len() < 5 {
            l.errors.push(format!("value {id} was dropped twice, or never existed"));
        }
    })
}

fn fuse() {
    let blow = ledger(|l| match &mut l.fuse {
        Some(0) => true,
        Some(n) => {
            *n -= 1;
            false
        }
        None => false,
    });
    if blow {
        panic!("the constructor of an element panics");
    }
}

fn drop_fuse() {
    let blow = ledger(|l| match &mut l.drop_fuse {
        Some(0) => {
            l.drop_fuse = None;
            true
        }
        Some(n) => {
            *n -= 1;
            false
        }
        None => false,
    });
    if blow {
        panic!("the destructor of an element panics");
    }
}

/* Elements *******************************************************************/

trait Elem: Default + Clone + Ord + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn make() -> Self;
    /// Identity, zero if there is none
    fn id(&self) -> u64;
}

/// Without any allocation: a second drop is only recorded
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Plain(u64);
impl Drop for Plain {
    fn drop(&mut self) {
        death(self.0);
        drop_fuse();
    }
}
impl Default for Plain {
    fn default() -> Self {
        fuse();
        Plain(birth())
    }
}
impl Clone for Plain {
    fn clone(&self) -> Self {
        fuse();
        Plain(birth())
    }
}
impl Elem for Plain {
    const NAME: &'static str = "Plain";
    fn make() -> Self {
        Plain(birth())
    }
    fn id(&self) -> u64 {
        self.0
    }
}

/// With an allocation: a second drop is also caught by the allocator and
/// the sanitizers
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Boxed(Box<u64>, u8);
impl Drop for Boxed {
    fn drop(&mut self) {
        death(*self.0);
        drop_fuse();
    }
}
impl Default for Boxed {
    fn default() -> Self {
        fuse();
        Boxed(Box::new(birth()), 1)
    }
}
impl Clone for Boxed {
    fn clone(&self) -> Self {
        fuse();
        Boxed(Box::new(birth()), 2)
    }
}
impl Elem for Boxed {
    const NAME: &'static str = "Boxed";
    fn make() -> Self {
        Boxed(Box::new(birth()), 0)
    }
    fn id(&self) -> u64 {
        *self.0
    }
}

/// Without a size: only counted
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Nothing;
impl Drop for Nothing {
    fn drop(&mut self) {
        ledger(|l| {
            l.zst -= 1;
            l.deaths += 1;
        });
        drop_fuse();
    }
}
impl Default for Nothing {
    fn default() -> Self {
        fuse();
        Nothing::make()
    }
}
impl Clone for Nothing {
    fn clone(&self) -> Self {
        fuse();
        Nothing::make()
    }
}
impl Elem for Nothing {
    const NAME: &'static str = "Nothing";
    fn make() -> Self {
        ledger(|l| {
            l.zst += 1;
            l.births += 1;
        });
        Nothing
    }
    fn id(&self) -> u64 {
        0
    }
}

/* Monitors *******************************************************************/

struct Events {
    births: u64,
    deaths: u64,
}

fn events() -> Events {
    ledger(|l| Events {
        births: l.births,
        deaths: l.deaths,
    })
}

impl Events {
    /// Births and deaths since then
    fn since(&self) -> (u64, u64) {
        let e = events();
        (e.births - self.births, e.deaths - self.deaths)
    }
}

fn ids<'a, T: Elem>(it: impl Iterator<Item = &'a T>) -> Vec<u64> {
    it.map(|e| e.id()).collect()
}

/// The values alive are the ones in `held`, each only once
fn audit<'a, T: Elem>(u: &mut U, held: impl Iterator<Item = &'a T>, what: &str) {
    let held = ids(held);
    ledger(|l| {
        if let Some(e) = l.errors.first() {
            fail!("{what}: {e}");
        }
        if std::mem::size_of::<T>() == 0 {
            ck!(l.zst == held.len() as i64, "{what}: {} values are alive, {} are held", l.zst, held.len());
            return;
        }
        let distinct: HashSet<u64> = held.iter().copied().collect();
        ck!(distinct.len() == held.len(), "{what}: a value is held twice: {held:?}");
        for h in &held {
            ck!(l.alive.contains(h), "{what}: value {h} is observable after it was dropped");
        }
        if l.alive.len() != held.len() {
            let mut lost: Vec<_> = l.alive.difference(&distinct).copied().collect();
            lost.sort();
            fail!("{what}: {} values were leaked: {:?}", lost.len(), &lost[..lost.len().min(20)]);
        }
    });
    u.count("audits", 1);
    u.count("values audited", held.len() as u64);
}

/// The end of a case: nothing is alive
fn settle(u: &mut U, what: &str) {
    audit::<Plain>(u, [].iter(), what);
    ledger(|l| {
        ck!(l.zst == 0, "{what}: {} values without size are alive", l.zst);
        ck!(l.births == l.deaths, "{what}: {} values were constructed, {} dropped", l.births, l.deaths);
    });
    let e = events();
    u.count("constructions observed", e.births);
    u.count("drops observed", e.deaths);
    ledger(|l| *l = Ledger::default());
}

fn set_fuse(n: Option<usize>) {
    ledger(|l| l.fuse = n.map(|n| n as u64));
}

/// An iterator that may panic at some point, and owns its items
struct Source<T> {
    left: std::vec::IntoIter<T>,
    panic_after: Option<usize>,
    lie: (usize, Option<usize>),
}
impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if let Some(n) = &mut self.panic_after {
            if *n == 0 {
                panic!("the iterator panics");
            }
            *n -= 1;
        }
        self.left.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.lie
    }
}

fn source<T>(u: &mut U, v: Vec<T>) -> Source<T> {
    let n = v.len();
    let panic_after = u.rng.pct(30).then(|| u.rng.below(n + 1));
    // The size hint can't be trusted
    let lie = *u.rng.pick(&[(0, None), (n, Some(n)), (n + 7, None), (0, Some(0)), (n / 2, Some(n / 2))]);
    Source {
        left: v.into_iter(),
        panic_after,
        lie,
    }
}

fn values<T: Elem>(n: usize) -> Vec<T> {
    (0..n).map(|_| T::make()).collect()
}

type G<T, P, const S: usize> = Box<Grid<T, P, S>>;

/// Lines of nested vectors; true if they fit
fn nested<T: Elem>(u: &mut U, w: usize, h: usize) -> (Vec<Vec<T>>, bool) {
    let kind = u.rng.below(6);
    let n = match kind {
        0 => h,
        1 => h + 1,
        _ => u.rng.below(h + 1),
    };
    let mut v: Vec<Vec<T>> = (0..n)
        .map(|_| {
            let l = if u.rng.bool() { w } else { u.rng.below(w + 1) };
            values(l)
        })
        .collect();
    if kind == 2 && n > 0 {
        let k = u.rng.below(n);
        v[k].push(T::make());
        while v[k].len() <= w {
            v[k].push(T::make());
        }
    }
    if kind == 1 && v[n - 1].is_empty() {
        v[n - 1].push(T::make());
    }
    let fit = v.len() <= h && v.iter().all(|l| l.len() <= w);
    (v, fit)
}

/// A new grid, or none if its construction failed
fn create<T: Elem, P: TP, const S: usize>(u: &mut U, w: usize, h: usize, hist: &mut Vec<String>) -> Option<G<T, P, S>> {
    let ev = events();
    match u.rng.below(8) {
        0 | 1 => {
            hist.push("default".into());
            let g: G<T, P, S> = Box::default();
            let (b, d) = ev.since();
            ck!(b - d == S as u64, "default: {b} constructions and {d} drops for {S} cells");
            Some(g)
        }
        2 => {
            let n = u.rng.below(S + 2);
            hist.push(format!("default with a panic after {n} elements"));
            set_fuse(Some(n));
            let r = catch(Box::<Grid<T, P, S>>::default);
            set_fuse(None);
            u.count(if r.is_err() { "constructions that panic" } else { "constructions that succeed" }, 1);
            r.ok()
        }
        3 | 4 => {
            let (v, fit) = nested::<T>(u, w, h);
            let given = ids(v.iter().flatten());
            let boom = u.rng.pct(25).then(|| u.rng.below(S + 2));
            hist.push(format!("try_from lines of {:?}, fuse {boom:?}", v.iter().map(|l| l.len()).collect::<Vec<_>>()));
            set_fuse(boom);
            let r = catch(|| Grid::<T, P, S>::try_from(v).map(Box::new));
            set_fuse(None);
            match r {
                Ok(Ok(g)) => {
                    ck!(fit, "data that doesn't fit was accepted");
                    let have: HashSet<u64> = ids(g.iter()).into_iter().collect();
                    ck!(given.iter().all(|i| have.contains(i)), "a value of the nested vectors is not in the grid");
                    u.count("loads", 1);
                    Some(g)
                }
                Ok(Err(e)) => {
                    ckeq!(e, Error::OutOfBounds, "error");
                    ck!(!fit, "data that fits was refused");
                    u.count("failed loads", 1);
                    None
                }
                Err(e) => {
                    ck!(boom.is_some(), "{e}");
                    u.count("loads that panic", 1);
                    None
                }
            }
        }
        _ => {
            let n = match u.rng.below(6) {
                0 => u.rng.below(S + 1),
                1 => S + 1 + u.rng.below(S),
                _ => S,
            };
            let it = source(u, values::<T>(n));
            let boom = u.rng.pct(20).then(|| u.rng.below(S + 2));
            let planned = it.panic_after;
            hist.push(format!("collect {n} of {S} items, panic after {planned:?}, fuse {boom:?}"));
            let given = ids(it.left.as_slice().iter());
            set_fuse(boom);
            let r = catch(|| Box::new(it.collect::<Grid<T, P, S>>()));
            set_fuse(None);
            match r {
                Ok(g) => {
                    ckeq!(n, S, "number of items accepted");
                    ckeq!(ids(g.iter()), given, "the values collected");
                    u.count("collections", 1);
                    Some(g)
                }
                Err(e) => {
                    ck!(n != S || planned.is_some() || boom.is_some(), "{e}");
                    u.count("collections that panic", 1);
                    None
                }
            }
        }
    }
}

/// A position outside of the grid, that safe code can forge
trait Forge: TP {
    fn forged(w: usize, h: usize) -> Option<Self>;
}
impl<const X: u16, const Y: u16> Forge for Pos<X, Y> {
    fn forged(w: usize, h: usize) -> Option<Self> {
        Some(Pos((BoundedU16(w as u16), BoundedU16(h as u16))))
    }
}
impl<const X: u8, const Y: u32> Forge for UserPos<X, Y> {
    fn forged(w: usize, h: usize) -> Option<Self> {
        Some(Self::at(w, h))
    }
}
impl Forge for (u8, u8) {
    fn forged(_: usize, _: usize) -> Option<Self> {
        None
    }
}

/// One operation on a grid; may consume it
fn operate<T: Elem, P: Forge, const S: usize>(
    u: &mut U,
    w: usize,
    h: usize,
    mut g: G<T, P, S>,
    held: &mut Vec<T>,
    others: &mut Vec<G<T, P, S>>,
    hist: &mut Vec<String>,
) -> Option<G<T, P, S>> {
    let at = |u: &mut U| {
        let i = u.rng.below(S);
        (P::at(i % w, i / w), i)
    };
    let ev = events();
    let before = ids(g.iter());
    // How many values should come and go
    let mut want: Option<(u64, u64)> = None;
    let op = u.rng.below(24);
    match op {
        0 | 1 => {
            let (p, i) = at(u);
            hist.push(format!("g[{p:?}] = v"));
            g[p] = T::make();
            if before[i] != 0 {
                ck!(!ledger(|l| l.alive.contains(&before[i])), "the overwritten value is still alive");
            }
            want = Some((1, 1));
        }
        2 => {
            let (p, _) = at(u);
            hist.push(format!("replace {p:?}"));
            let e = T::make();
            let old = match u.rng.below(3) {
                0 => std::mem::replace(&mut g[&p], e),
                1 => std::mem::replace(g.get_mut(&p), e),
                _ => std::mem::replace(&mut g.line_mut(p.y())[p.co().0], e),
            };
            held.push(old);
            want = Some((1, 0));
        }
        3 => {
            let (p, q) = (at(u).1, at(u).1);
            hist.push(format!("swap {p} {q}"));
            match u.rng.below(3) {
                0 => g.as_array_mut().swap(p, q),
                1 => AsMut::<[T; S]>::as_mut(&mut *g).swap(p, q),
                _ => {
                    if let Some(e) = g.iter_mut().nth(p) {
                        *e = T::make();
                    }
                }
            }
        }
        4 => {
            hist.push("flip_h".into());
            g.flip_h();
            want = Some((0, 0));
        }
        5 => {
            hist.push("flip_v".into());
            g.flip_v();
            want = Some((0, 0));
        }
        6 => {
            let (v, fit) = nested::<T>(u, w, h);
            hist.push(format!("extend_from_vecvec lines of {:?}", v.iter().map(|l| l.len()).collect::<Vec<_>>()));
            let given = ids(v.iter().flatten());
            match g.extend_from_vecvec(v) {
                Ok(()) => {
                    ck!(fit, "data that doesn't fit was accepted");
                    let have: HashSet<u64> = ids(g.iter()).into_iter().collect();
                    ck!(given.iter().all(|i| have.contains(i)), "a value of the nested vectors is not in the grid");
                    u.count("loads", 1);
                }
                Err(e) => {
                    ckeq!(e, Error::OutOfBounds, "error");
                    ck!(!fit, "data that fits was refused");
                    u.count("failed loads", 1);
                }
            }
            want = Some((given.len() as u64, given.len() as u64));
        }
        7 | 8 => {
            let n = u.rng.below(2 * S.min(40) + 1);
            let mut v: Vec<(P, T)> = (0..n).map(|_| (at(u).0, T::make())).collect();
            let mut bad = None;
            if n > 0 && u.rng.pct(30) {
                if let Some(f) = P::forged(w, h) {
                    let k = u.rng.below(n);
                    v[k].0 = f;
                    bad = Some(k);
                }
            }
            let it = source(u, v);
            let planned = it.panic_after;
            hist.push(format!("extend with {n} pairs, panic after {planned:?}, forged position {bad:?}"));
            let r = catch(|| g.extend(it));
            match r {
                Ok(()) => {
                    ck!(planned.is_none(), "a panic disappeared");
                    ck!(bad.is_none(), "a position outside was accepted");
                    u.count("bulk updates", 1);
                }
                Err(e) => {
                    ck!(planned.is_some() || bad.is_some(), "{e}");
                    u.count("bulk updates that panic", 1);
                }
            }
            // Each update replaces one value
            want = Some((n as u64, n as u64));
        }
        9 => {
            hist.push("clone".into());
            let c = g.clone();
            ck!(ev.since().0 >= S as u64, "a clone shares its elements");
            others.push(c);
        }
        10 => {
            let n = u.rng.below(S + 2);
            hist.push(format!("clone with a panic after {n}"));
            set_fuse(Some(n));
            let r = catch(|| g.clone());
            set_fuse(None);
            u.count(if r.is_ok() { "clones" } else { "clones that panic" }, 1);
            others.extend(r.ok());
        }
        11 => {
            if let Some(o) = others.pop() {
                let n = u.rng.pct(50).then(|| u.rng.below(S + 2));
                hist.push(format!("clone_from, fuse {n:?}"));
                set_fuse(n);
                let _ = catch(|| g.clone_from(&o));
                set_fuse(None);
                others.push(o);
            }
        }
        12 => {
            if let Some(o) = others.pop() {
                hist.push("assign another grid".into());
                *g = *o;
                want = Some((0, S as u64));
            }
        }
        13 => {
            if let Some(mut o) = others.pop() {
                hist.push("swap grids".into());
                std::mem::swap(&mut *g, &mut *o);
                others.push(o);
                want = Some((0, 0));
            }
        }
        14 => {
            let n = u.rng.below(S + 2);
            hist.push(format!("iter_mut, {n} replaced"));
            for e in g.iter_mut().take(n) {
                held.push(std::mem::replace(e, T::make()));
            }
            want = Some((n.min(S) as u64, 0));
        }
        15 => {
            hist.push("iterate".into());
            let mut n = 0;
            for (p, e) in g.iter_pos() {
                let (x, y) = p.co();
                ckeq!(e.id(), before[y * w + x], "value at ({x},{y})");
                n += 1;
            }
            ckeq!(n, S, "values iterated");
            for e in &mut *g {
                ck!(e.id() == 0 || ledger(|l| l.alive.contains(&e.id())), "a dropped value");
            }
            want = Some((0, 0));
        }
        16 => {
            hist.push("into_iter, all".into());
            let v: Vec<T> = (*g).into_iter().collect();
            ckeq!(ids(v.iter()), before, "values from into_iter");
            ckeq!(ev.since(), (0, 0), "values constructed and dropped by into_iter");
            // Back to a grid
            let back: Grid<T, P, S> = v.into_iter().collect();
            ckeq!(ids(back.iter()), before, "values collected again");
            return Some(Box::new(back));
        }
        17 | 18 => {
            let (front, back) = (u.rng.below(S + 2), u.rng.below(S + 2));
            hist.push(format!("into_iter, {front} from the front and {back} from the back"));
            let mut it = (*g).into_iter();
            let mut a = vec![];
            for _ in 0..front {
                a.extend(it.next());
            }
            let mut b = vec![];
            for _ in 0..back {
                b.extend(it.next_back());
            }
            audit(u, a.iter().chain(&b).chain(it.as_slice()).chain(held.iter()).chain(others.iter().flat_map(|g| g.iter())), "during into_iter");
            ckeq!(ids(a.iter()), before[..a.len()], "values from the front");
            b.reverse();
            ckeq!(ids(b.iter()), before[S - b.len()..], "values from the back");
            drop(it);
            u.count("abandoned iterations", 1);
            audit(u, a.iter().chain(&b).chain(held.iter()).chain(others.iter().flat_map(|g| g.iter())), "after an abandoned into_iter");
            drop((a, b));
            return None;
        }
        19 => {
            hist.push("into_iter, panic half way".into());
            let n = u.rng.below(S);
            let r = catch(|| {
                for (i, _e) in (*g).into_iter().enumerate() {
                    if i == n {
                        panic!("the body of the loop panics");
                    }
                }
            });
            ck!(r.is_err(), "a panic disappeared");
            ckeq!(ev.since(), (0, S as u64), "values constructed and dropped");
            u.count("abandoned iterations", 1);
            return None;
        }
        20 => {
            hist.push("into_inner".into());
            let a = (*g).into_inner();
            ckeq!(ids(a.iter()), before, "values of the inner array");
            ckeq!(ev.since(), (0, 0), "values constructed and dropped by into_inner");
            if u.rng.bool() {
                held.extend(a);
            }
            return None;
        }
        21 => {
            hist.push("drop".into());
            drop(g);
            ckeq!(ev.since(), (0, S as u64), "values constructed and dropped by drop");
            return None;
        }
        22 => {
            hist.push("forged access".into());
            if let Some(p) = P::forged(w, h) {
                let e = T::make();
                let r = catch(|| g[p] = e);
                ck!(r.is_err(), "a position outside was accepted");
                u.count("accesses that panic", 1);
                want = Some((1, 1));
            }
        }
        _ => {
            let (p, _) = at(u);
            let line = p.y();
            hist.push(format!("rotate line {}", p.co().1));
            g.line_mut(line).rotate_left(w / 2);
            let o: Vec<T> = g.line(line).iter().map(|_| T::make()).collect();
            g.line_mut(line).iter_mut().zip(o).for_each(|(a, b)| held.push(std::mem::replace(a, b)));
            want = Some((w as u64, 0));
        }
    }
    if let Some(w) = want {
        ckeq!(ev.since(), w, "values constructed and dropped by {}", hist[hist.len() - 1]);
    }
    u.count("operations", 1);
    Some(g)
}

fn history<T: Elem, P: Forge, const S: usize>(u: &mut U, w: usize, h: usize, len: usize) {
    settle(u, "before");
    let mut hist: Vec<String> = vec![];
    let mut held: Vec<T> = vec![];
    let mut others: Vec<G<T, P, S>> = vec![];
    let mut g: Option<G<T, P, S>> = None;
    for _ in 0..len {
        u.describe(format!("Grid<{}, {}> after {hist:?}", T::NAME, P::name()));
        g = match g {
            None => create::<T, P, S>(u, w, h, &mut hist),
            Some(g) => operate(u, w, h, g, &mut held, &mut others, &mut hist),
        };
        if u.rng.pct(20) {
            held.clear();
        }
        if others.len() > 3 || u.rng.pct(5) {
            others.clear();
        }
        u.describe(format!("Grid<{}, {}> after {hist:?}", T::NAME, P::name()));
        let what = hist.last().cloned().unwrap_or_default();
        let all = g.iter().flat_map(|g| g.iter()).chain(others.iter().flat_map(|g| g.iter())).chain(held.iter());
        audit(u, all, &format!("after {what}"));
    }
    u.sample(|| format!("Grid<{}, {}>: {}", T::NAME, P::name(), hist.iter().take(6).cloned().collect::<Vec<_>>().join("; ")));
    drop((g, others, held));
    settle(u, "after everything was dropped");
    u.case(&(T::NAME, P::name(), hist));
}

/// Rotations only exist for square grids of `Pos`
fn rotations<const X: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    rotate::<Plain, X, S>(u);
    rotate::<Boxed, X, S>(u);
    rotate::<Nothing, X, S>(u);
}

fn rotate<T: Elem, const X: u16, const S: usize>(u: &mut U) {
    settle(u, "before");
    for _ in 0..u.scale(3, 40) {
        let mut g: G<T, Pos<X, X>, S> = Box::default();
        let mut hist = String::new();
        let before: HashMap<u64, usize> = ids(g.iter()).into_iter().enumerate().map(|(i, v)| (v, i)).collect();
        let ev = events();
        for _ in 0..1 + u.rng.below(6) {
            let k = u.rng.below(4);
            hist.push_str(["cw ", "cc ", "h ", "v "][k]);
            u.describe(format!("Grid<{}, Pos<{X},{X}>> after {hist}", T::NAME));
            match k {
                0 => g.rotate_cw(),
                1 => g.rotate_cc(),
                2 => g.flip_h(),
                _ => g.flip_v(),
            }
            ckeq!(ev.since(), (0, 0), "values constructed and dropped by moving");
            audit(u, g.iter(), &hist);
            ck!(g.iter().all(|e| before.contains_key(&e.id())), "an unknown value showed up");
            u.count("rotations and flips", 1);
        }
        drop(g);
        settle(u, "after the grid was dropped");
        u.case(&("rotate", hist, T::NAME, X));
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let n = u.scale(12, 300);
    for _ in 0..n {
        let len = if cfg!(miri) { 12 } else { 4 + u.rng.below(50) };
        history::<Plain, Pos<X, Y>, S>(u, w, h, len);
        history::<Boxed, Pos<X, Y>, S>(u, w, h, len);
        history::<Nothing, Pos<X, Y>, S>(u, w, h, len);
    }
}

/// A panic at each point of each constructor, one by one
fn every_point<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    every::<Plain, X, Y, S>(u);
    every::<Boxed, X, Y, S>(u);
    every::<Nothing, X, Y, S>(u);
}

fn every<T: Elem, const X: u16, const Y: u16, const S: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    settle(u, "before");
    for n in 0..=S + 1 {
        u.describe(format!("Grid<{}, Pos<{X},{Y}>>: the constructor of element {n} panics", T::NAME));
        // Default
        set_fuse(Some(n));
        let r = catch(|| drop(Box::<Grid<T, Pos<X, Y>, S>>::default()));
        set_fuse(None);
        ck!(r.is_err() || n >= S, "default: a panic disappeared");
        settle(u, "default");
        // Clone
        let g: G<T, Pos<X, Y>, S> = Box::default();
        set_fuse(Some(n));
        let r = catch(|| drop(g.clone()));
        set_fuse(None);
        ck!(r.is_err() || n >= S, "clone: a panic disappeared");
        audit(u, g.iter(), "clone");
        drop(g);
        settle(u, "clone");
        // Load
        for lines in 0..=h {
            let v: Vec<Vec<T>> = (0..lines).map(|_| values(w)).collect();
            set_fuse(Some(n));
            let r = catch(|| Grid::<T, Pos<X, Y>, S>::try_from(v).map(Box::new));
            set_fuse(None);
            match &r {
                Ok(Ok(g)) => audit(u, g.iter(), "load"),
                Ok(Err(e)) => fail!("load of {lines} lines: {e:?}"),
                Err(_) => {}
            }
            drop(r);
            settle(u, "load");
        }
        // Collect
        for give in [S.saturating_sub(1), S, S + 1] {
            for boom in [false, true] {
                let it = Source {
                    left: values::<T>(give).into_iter(),
                    panic_after: Some(n),
                    lie: (S, Some(S)),
                };
                set_fuse(boom.then_some(n));
                let r = catch(|| Box::new(it.collect::<Grid<T, Pos<X, Y>, S>>()));
                set_fuse(None);
                match &r {
                    Ok(g) => {
                        ckeq!(give, S, "number of items accepted");
                        audit(u, g.iter(), "collect")
                    }
                    Err(e) => ck!(give != S || n <= S, "{e}"),
                }
                drop(r);
                settle(u, "collect");
            }
        }
        // Extend
        let mut g: G<T, Pos<X, Y>, S> = Box::default();
        let it = Source {
            left: (0..S).map(|i| (Pos::<X, Y>::at(i % w, i / w), T::make())).collect::<Vec<_>>().into_iter(),
            panic_after: Some(n),
            lie: (0, None),
        };
        let r = catch(|| g.extend(it));
        ck!(r.is_ok() == (n > S), "extend: {r:?}");
        audit(u, g.iter(), "extend");
        // Abandoned iteration
        let mut it = (*g).into_iter();
        for _ in 0..n {
            it.next();
        }
        audit(u, it.as_slice().iter(), "into_iter");
        drop(it);
        settle(u, "into_iter");
        u.count("panic points", 1);
        u.case(&("every", n, T::NAME, X, Y));
    }
}

/// After the destructor of an element panicked: whatever is observable is
/// alive, and nothing was dropped twice.  Values may be leaked.
fn survive<'a, T: Elem>(held: impl Iterator<Item = &'a T>, what: &str) {
    let held = ids(held);
    ledger(|l| {
        if let Some(e) = l.errors.first() {
            fail!("{what}: {e}");
        }
        if std::mem::size_of::<T>() == 0 {
            ck!(l.zst >= held.len() as i64, "{what}: {} values are alive, {} are held", l.zst, held.len());
            l.zst = held.len() as i64;
        } else {
            let distinct: HashSet<u64> = held.iter().copied().collect();
            ck!(distinct.len() == held.len(), "{what}: a value is held twice: {held:?}");
            for h in &held {
                ck!(l.alive.contains(h), "{what}: value {h} is observable after it was dropped");
            }
            l.alive = distinct;
        }
        l.births = l.deaths + held.len() as u64;
    });
}

/// A panic in each drop that an operation makes, one by one
fn every_drop<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    // A destructor that panics makes rustc leak the values that a function
    // is about to return (rust-lang/rust#47949), so that LeakSanitizer has
    // nothing to say here about the library.
    #[cfg(sqmon_asan)]
    let _ignore = IgnoreLeaks::new();
    drops::<Plain, X, Y, S>(u);
    drops::<Boxed, X, Y, S>(u);
    drops::<Nothing, X, Y, S>(u);
}

#[cfg(sqmon_asan)]
extern "C" {
    fn __lsan_disable();
    fn __lsan_enable();
}
/// While it exists, what its thread allocates isn't reported as leaked
#[cfg(sqmon_asan)]
struct IgnoreLeaks;
#[cfg(sqmon_asan)]
impl IgnoreLeaks {
    fn new() -> Self {
        // SAFETY: no preconditions
        unsafe { __lsan_disable() };
        IgnoreLeaks
    }
}
#[cfg(sqmon_asan)]
impl Drop for IgnoreLeaks {
    fn drop(&mut self) {
        // SAFETY: called by the thread of new(), which calls it once
        unsafe { __lsan_enable() };
    }
}

fn drops<T: Elem, const X: u16, const Y: u16, const S: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    settle(u, "before");
    for op in 0..9 {
        for n in 0..=3 * S + 2 {
            let mut g: Option<G<T, Pos<X, Y>, S>> = Some(Box::default());
            let other: G<T, Pos<X, Y>, S> = Box::default();
            let mut seen: Vec<T> = vec![];
            let name = [
                "overwriting",
                "extend",
                "extend_from_vecvec",
                "extend_from_vecvec that fails",
                "try_from that succeeds",
                "try_from that fails",
                "collect",
                "abandoned into_iter",
                "clone_from",
            ][op];
            u.describe(format!("Grid<{}, Pos<{X},{Y}>>: {name}, and drop number {n} panics", T::NAME));
            let cells: Vec<_> = (0..2 * S).map(|i| Pos::<X, Y>::at(i % w, i / w % h)).collect();
            let mut v: Vec<Vec<T>> = (0..h).map(|_| values(w)).collect();
            if op == 3 || op == 5 {
                v[h - 1].extend(values(1 + n % 2));
            }
            let flat = values::<T>(S);
            let extra = values::<T>(2 * S);
            ledger(|l| l.drop_fuse = Some(n as u64));
            let r = catch(|| match op {
                0 => {
                    let gg = g.as_mut().unwrap();
                    for (p, e) in cells.into_iter().zip(extra) {
                        gg[p] = e;
                    }
                }
                1 => g.as_mut().unwrap().extend(cells.into_iter().zip(extra)),
                2 | 3 => {
                    ckeq!(g.as_mut().unwrap().extend_from_vecvec(v).is_ok(), op == 2, "load");
                }
                4 | 5 => match Grid::<T, Pos<X, Y>, S>::try_from(v) {
                    Ok(n) => g = Some(Box::new(n)),
                    Err(e) => ckeq!(e, Error::OutOfBounds, "error"),
                },
                6 => g = Some(Box::new(flat.into_iter().collect())),
                7 => {
                    let mut it = g.take().unwrap().into_iter();
                    for _ in 0..S / 3 {
                        seen.extend(it.next());
                        seen.extend(it.next_back());
                    }
                }
                _ => g.as_mut().unwrap().clone_from(&other),
            });
            let left = ledger(|l| l.drop_fuse.take());
            ck!(r.is_ok() == left.is_some(), "{name}: the panic of a destructor disappeared");
            survive(g.iter().flat_map(|g| g.iter()).chain(other.iter()).chain(&seen), name);
            drop((g, other, seen));
            settle(u, name);
            u.count(if r.is_err() { "drops that panic" } else { "drops that do not panic" }, 1);
            if r.is_err() {
                u.case(&("drops", op, n, T::NAME, X, Y));
            } else {
                break;
            }
        }
    }
}

fn main() {
    let mut m = Mon::new(
        "C22",
        "random histories of operations on grids of self-reporting elements (with an allocation, without one, without a size): default, load, collect, extend, overwrite, replace, swap, flip, rotate, clone, iterate by value and abandon, dismantle, with panics injected in element constructors and destructors, iterators and loop bodies, and forged positions; and a panic at each point of each constructor of small grids; after each operation the ledger of constructions and drops must match the values observable; a case is a distinct history (element type, position type, operations and their parameters)",
    );
    m.require("operations", 5_000);
    m.require("audits", 10_000);
    m.require("loads that panic", 20);
    m.require("failed loads", 100);
    m.require("collections that panic", 100);
    m.require("bulk updates that panic", 50);
    m.require("clones that panic", 50);
    m.require("abandoned iterations", 100);
    m.require("panic points", 200);
    m.require("drops that panic", 200);
    m.require("rotations and flips", 300);
    if cfg!(miri) {
        sqmon::units_dims!(m, "grid", 1, 1, grid, [(0, 0), (1, 0), (0, 2), (2, 1), (1, 3), (3, 2)]);
        sqmon::units_dims!(m, "every", 1, 1, every_point, [(0, 0), (1, 1), (2, 1)]);
        sqmon::units_dims!(m, "drops", 1, 1, every_drop, [(0, 0), (0, 1)]);
        sqmon::units_sq!(m, "rotations", 1, 1, rotations, [0, 1, 2, 3]);
    } else {
        sqmon::tiny_dims!(m, "grid", 2, 6, grid);
        sqmon::medium_dims!(m, "grid", 1, 4, grid);
        sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
        sqmon::units_dims!(m, "every", 1, 1, every_point, [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2), (3, 3), (6, 4), (0, 11), (11, 0), (7, 7)]);
        sqmon::units_dims!(m, "drops", 1, 1, every_drop, [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (3, 3), (0, 11), (11, 0)]);
        sqmon::square_dims!(m, "rotations", 1, 2, rotations);
        sqmon::seeded_square_dims!(m, "rotations", 1, 2, rotations);
        sqmon::units_dims!(m, "large", 1, 1, large, [(99, 100), (255, 3), (0, 4000)]);
        m.unit("byte pairs", |u| {
            for _ in 0..u.scale(2, 20) {
                history::<Plain, (u8, u8), 65536>(u, 256, 256, 15);
            }
        });
    }
    m.unit("user", |u| {
        for _ in 0..u.scale(30, 600) {
            history::<Boxed, UserPos<4, 2>, 15>(u, 5, 3, 20);
            history::<Plain, UserPos<0, 7>, 8>(u, 1, 8, 20);
            history::<Nothing, UserPos<3, 1>, 8>(u, 4, 2, 20);
        }
    });
    m.run()
}

fn large<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    for _ in 0..u.scale(2, 30) {
        history::<Plain, Pos<X, Y>, S>(u, X as usize + 1, Y as usize + 1, 15);
        history::<Boxed, Pos<X, Y>, S>(u, X as usize + 1, Y as usize + 1, 15);
    }
}
