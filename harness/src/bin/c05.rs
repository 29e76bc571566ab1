//! C05: moving one step is exact, reversible and never leaves the grid

use sqmon::model::{di, step, COMPASS, DIRS};
use sqmon::mon::{Mon, U};
use sqmon::search::{OffsetPos, UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::boundedint::BoundedInt;
use sqrid::postrait::PosT;
use sqrid::{direction_to, pos_dir_add, pos_dir_add_ok, Dir, Error, Pos};
use std::fmt::Debug;
use std::ops::Add;

/// Cells to look at: all of them, or borders and a sample in large grids
fn cells(u: &mut U, w: usize, h: usize, limit: usize) -> Vec<usize> {
    let n = w * h;
    if n <= limit {
        return (0..n).collect();
    }
    let mut v = vec![];
    for x in [0, 1, w / 2, w.saturating_sub(2), w - 1, 255, 256] {
        for y in [0, 1, h / 2, h.saturating_sub(2), h - 1, 255, 256] {
            if x < w && y < h {
                v.push(y * w + x);
            }
        }
    }
    while v.len() < limit {
        v.push(u.rng.below(n));
    }
    v
}

fn moves<P>(u: &mut U, w: usize, h: usize, other: impl Fn(P, Dir) -> Vec<(&'static str, Result<P, Error>)>)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    let name = P::name();
    let limit = u.scale(3000, 60_000);
    for c in cells(u, w, h, limit) {
        for (d, dir) in DIRS.iter().enumerate() {
            u.describe(format!("{name} {w}x{h} cell ({},{}) + {}", c % w, c / w, COMPASS[d].0));
            let p = P::at(c % w, c / w);
            let want = step(w, h, c, d);
            u.case(&(w, h, c, d));
            u.count(if want.is_some() { "moves inside" } else { "moves refused" }, 1);
            let got = p + *dir;
            let cell = |r: &Result<P, Error>| r.as_ref().map(|p| p.co()).map_err(|e| e.clone());
            let wanted = want.map(|o| (o % w, o / w)).ok_or(Error::OutOfBounds);
            ckeq!(cell(&got), wanted, "{name}: + {}", COMPASS[d].0);
            for (how, r) in other(p, *dir) {
                ckeq!(cell(&r), wanted, "{name}: {how}, {}", COMPASS[d].0);
            }
            if let Ok(q) = got {
                let opp = DIRS[(d + 4) % 8];
                ckeq!(cell(&(q + opp)), Ok((c % w, c / w)), "{name}: moving back");
                ckeq!(cell(&(q + (-*dir))), Ok((c % w, c / w)), "{name}: moving back by the negated direction");
            }
        }
    }
}

fn check_direction<P>(u: &mut U, w: usize, a: usize, b: usize)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    let (ax, ay, bx, by) = ((a % w) as i64, (a / w) as i64, (b % w) as i64, (b / w) as i64);
    let (pa, pb) = (P::at(a % w, a / w), P::at(b % w, b / w));
    u.case(&("direction", w, a, b));
    u.count("directions", 1);
    let (dx, dy) = (bx - ax, by - ay);
    // With diagonals there's a single choice that gets there in the
    // minimum number of steps from everywhere
    let d8 = direction_to::<P, true>(&pa, &pb);
    ckeq!(
        d8.map(|d| (COMPASS[di(d)].1, COMPASS[di(d)].2)),
        (a != b).then_some((dx.signum(), dy.signum())),
        "{}: direction_to::<_, true>(({ax},{ay}), ({bx},{by}))",
        P::name()
    );
    let d4 = direction_to::<P, false>(&pa, &pb);
    ckeq!(d4.is_some(), a != b, "{}: direction_to::<_, false>(({ax},{ay}), ({bx},{by})) is_some", P::name());
    if let Some(d) = d4 {
        let (_, mx, my) = COMPASS[di(d)];
        ck!(
            (mx != 0 && my == 0 && mx == dx.signum()) || (my != 0 && mx == 0 && my == dy.signum()),
            "{}: direction_to::<_, false>(({ax},{ay}), ({bx},{by})) = {d}, which doesn't get closer",
            P::name()
        );
    }
}

fn follow<P, const D: bool>(u: &mut U, w: usize, a: usize, b: usize)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    let (dx, dy) = ((a % w).abs_diff(b % w), (a / w).abs_diff(b / w));
    let want = if D { dx.max(dy) } else { dx + dy };
    let dest = P::at(b % w, b / w);
    let mut p = P::at(a % w, a / w);
    let mut n = 0;
    while let Some(d) = direction_to::<P, D>(&p, &dest) {
        ck!(n < want, "{}: following direction_to from {a} to {b} takes more than {want} steps", P::name());
        p = match p + d {
            Ok(p) => p,
            Err(e) => sqmon::fail!("{}: following direction_to from {a} to {b}: {d} at {p:?}: {e}", P::name()),
        };
        n += 1;
    }
    ckeq!(n, want, "{}: steps when following direction_to::<_, {D}> from {a} to {b}", P::name());
    u.count("routes followed", 1);
    u.eval();
}

fn directions<P>(u: &mut U, w: usize, h: usize)
where
    P: TP + Add<Dir, Output = Result<P, Error>>,
{
    let n = w * h;
    u.describe(format!("{} {w}x{h}: direction_to", P::name()));
    if n <= 40 || (n <= 130 && u.thorough()) {
        for a in 0..n {
            for b in 0..n {
                check_direction::<P>(u, w, a, b);
                follow::<P, true>(u, w, a, b);
                follow::<P, false>(u, w, a, b);
            }
        }
    } else {
        let limit = 40;
        let v = cells(u, w, h, limit);
        for _ in 0..u.scale(800, 20_000) {
            let a = if u.rng.bool() { *u.rng.pick(&v) } else { u.rng.below(n) };
            let b = match u.rng.below(4) {
                0 => *u.rng.pick(&v),
                1 => a / w * w + u.rng.below(w),
                2 => u.rng.below(h) * w + a % w,
                _ => u.rng.below(n),
            };
            check_direction::<P>(u, w, a, b);
            if w + h < 1000 || u.rng.pct(1) {
                follow::<P, true>(u, w, a, b);
                follow::<P, false>(u, w, a, b);
            }
        }
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    moves::<Pos<X, Y>>(u, w, h, |p, d| {
        let ok = |o: Option<Pos<X, Y>>| o.ok_or(Error::OutOfBounds);
        vec![
            ("reference", &p + d),
            ("pos_dir_add", pos_dir_add(p, d)),
            ("pos_dir_add_ok", ok(pos_dir_add_ok(p, d))),
            ("bounded pair", (p.0 + d).map(Pos::from)),
            ("bounded pair by reference", (&p.0 + d).map(Pos::from)),
        ]
    });
    directions::<Pos<X, Y>>(u, w, h);
    u.sample(|| format!("Pos<{X},{Y}>: {} cells x 8 directions", w * h));
}

fn user<const X: u8, const Y: u32>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    moves::<UserPos<X, Y>>(u, w, h, |_, _| vec![]);
    directions::<UserPos<X, Y>>(u, w, h);
}

/// Coordinate pairs of any pair of types: at both limits of the range,
/// and around zero
fn pair<T, V>(u: &mut U, name: &str)
where
    T: BoundedInt + Debug,
    V: BoundedInt + Debug,
{
    // Offsets from the minimum and to the maximum
    fn ends<T: BoundedInt>() -> Vec<T> {
        let mut v = vec![];
        let mut lo = Some(T::MIN);
        let mut hi = Some(T::MAX);
        for _ in 0..3 {
            v.extend(lo);
            v.extend(hi);
            lo = lo.filter(|x| *x < T::MAX).and_then(|x| x.checked_add(T::one()));
            hi = hi.filter(|x| *x > T::MIN).and_then(|x| x.checked_sub(T::one()));
        }
        for i in [-2i8, -1, 0, 1, 2, 100] {
            v.extend(T::try_from(i).ok());
        }
        v.sort();
        v.dedup();
        v
    }
    // Text of a value plus a delta, in decimal: independent from the
    // library's arithmetic
    fn plus<T: BoundedInt>(t: T, delta: i64) -> Option<String> {
        if (delta > 0 && t == T::MAX) || (delta < 0 && t == T::MIN) {
            return None;
        }
        let s = t.to_string();
        Some(match s.parse::<i128>() {
            Ok(v) => match v.checked_add(delta as i128) {
                Some(v) => v.to_string(),
                None => (v as u128 + 1).to_string(),
            },
            Err(_) => {
                let v = s.parse::<u128>().expect("number");
                if delta >= 0 { v + delta as u128 } else { v - 1 }.to_string()
            }
        })
    }
    u.describe(format!("pair ({name})"));
    let (xs, ys) = (ends::<T>(), ends::<V>());
    for x in &xs {
        for y in &ys {
            for (d, dir) in DIRS.iter().enumerate() {
                u.case(&(name, x.to_string(), y.to_string(), d));
                u.count("moves of coordinate pairs", 1);
                let want = match (plus(*x, COMPASS[d].1), plus(*y, COMPASS[d].2)) {
                    (Some(x), Some(y)) => Ok((x, y)),
                    _ => Err(Error::OutOfBounds),
                };
                let got = ((*x, *y) + *dir).map(|(x, y)| (x.to_string(), y.to_string()));
                ckeq!(got, want, "({name}): ({x},{y}) + {}", COMPASS[d].0);
                let got = (&(*x, *y) + *dir).map(|(x, y)| (x.to_string(), y.to_string()));
                ckeq!(got, want, "({name}): &({x},{y}) + {}", COMPASS[d].0);
                if let Ok(q) = (*x, *y) + *dir {
                    ckeq!(q + DIRS[(d + 4) % 8], Ok((*x, *y)), "({name}): ({x},{y}) + {}: moving back", COMPASS[d].0);
                }
            }
        }
    }
    u.sample(|| format!("pair ({name}): {} x {} values", xs.len(), ys.len()));
}

/// Directions between signed pairs, on both sides of zero
fn signed_direction<P: PosT>(u: &mut U, name: &str, vals: &[P], xy: impl Fn(&P) -> (i64, i64)) {
    for a in vals {
        for b in vals {
            u.case(&(name, xy(a), xy(b)));
            let (dx, dy) = (xy(b).0 - xy(a).0, xy(b).1 - xy(a).1);
            let d8 = direction_to::<P, true>(a, b);
            ckeq!(
                d8.map(|d| (COMPASS[di(d)].1, COMPASS[di(d)].2)),
                (dx != 0 || dy != 0).then_some((dx.signum(), dy.signum())),
                "{name}: direction_to({a:?}, {b:?})"
            );
            match direction_to::<P, false>(a, b) {
                None => ck!(dx == 0 && dy == 0, "{name}: no direction from {a:?} to {b:?}"),
                Some(d) => {
                    let (_, mx, my) = COMPASS[di(d)];
                    ck!(
                        (mx != 0 && my == 0 && mx == dx.signum()) || (my != 0 && mx == 0 && my == dy.signum()),
                        "{name}: direction_to::<_, false>({a:?}, {b:?}) = {d}"
                    );
                }
            }
        }
    }
}

macro_rules! pairs {
    ($u:expr, $(($t:ty, $v:ty)),* $(,)?) => { $( pair::<$t, $v>($u, &format!("{}, {}", stringify!($t), stringify!($v))); )* };
}

fn main() {
    let mut m = Mon::new(
        "C05",
        "for each grid size and position type: every cell (a sample favouring borders in large grids) x all 8 directions through every form of addition, and pairs of cells through direction_to (exhaustive in small grids), compared with integer arithmetic; coordinate pairs of all integer types at both limits of their range; a case is a distinct (grid, cell, direction) or (grid, cell, cell)",
    );
    m.require("moves inside", 10_000);
    m.require("moves refused", 1_000);
    m.require("directions", 10_000);
    m.require("routes followed", 10_000);
    m.require("moves of coordinate pairs", 10_000);
    sqmon::tiny_dims!(m, "grid", 1, 1, grid);
    sqmon::medium_dims!(m, "grid", 1, 1, grid);
    sqmon::large_dims!(m, "grid", 1, 2, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 1, grid);
    m.unit("user", |u| {
        user::<0, 0>(u);
        user::<3, 2>(u);
        user::<9, 4>(u);
        user::<255, 3>(u);
        user::<2, 70000>(u);
    });
    m.unit("tuples as positions", |u| {
        moves::<(u8, u8)>(u, 256, 256, |p, d| vec![("reference", &p + d)]);
        directions::<(u8, u8)>(u, 256, 256);
        moves::<(u16, u16)>(u, 65536, 65536, |p, d| vec![("reference", &p + d)]);
        directions::<(u16, u16)>(u, 65536, 65536);
        directions::<(u32, u32)>(u, 500, 700);
        directions::<(u64, u64)>(u, 500, 700);
        directions::<(u128, u128)>(u, 500, 700);
    });
    m.unit("signed directions", |u| {
        let small = [-128i64, -127, -100, -2, -1, 0, 1, 2, 99, 126, 127];
        let v: Vec<(i8, i8)> = small.iter().flat_map(|x| small.iter().map(|y| (*x as i8, *y as i8))).collect();
        signed_direction(u, "(i8,i8)", &v, |p| (p.0 as i64, p.1 as i64));
        let mid = [-32768i64, -300, -2, -1, 0, 1, 2, 300, 32767];
        let v: Vec<(i16, i16)> = mid.iter().flat_map(|x| mid.iter().map(|y| (*x as i16, *y as i16))).collect();
        signed_direction(u, "(i16,i16)", &v, |p| (p.0 as i64, p.1 as i64));
        let big = [i32::MIN as i64, -70000, -2, -1, 0, 1, 2, 70000, i32::MAX as i64];
        let v: Vec<(i32, i32)> = big.iter().flat_map(|x| big.iter().map(|y| (*x as i32, *y as i32))).collect();
        signed_direction(u, "(i32,i32)", &v, |p| (p.0 as i64, p.1 as i64));
        let v: Vec<OffsetPos> = OffsetPos::iter().collect();
        ckeq!(v.len(), 48, "OffsetPos positions");
        signed_direction(u, "OffsetPos", &v, |p| (p.0 .0 as i64, p.1 .0 as i64));
    });
    m.unit("pairs", |u| {
        use sqrid::*;
        pairs!(
            u,
            (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (usize, usize),
            (i8, i8), (i16, i16), (i32, i32), (i64, i64), (i128, i128), (isize, isize),
            (u8, i16), (i8, u128), (i128, u8), (usize, i64), (u32, i8),
            (BoundedU8<0, 0>, BoundedU8<0, 255>), (BoundedU8<3, 9>, BoundedU8<5, 5>),
            (BoundedI8<-128, 127>, BoundedI8<-5, -2>), (BoundedU16<0, 7>, BoundedU16<100, 65535>),
            (BoundedI16<-3, 3>, BoundedI16<-32768, 0>), (BoundedU32<0, 4294967295>, BoundedU32<1, 2>),
            (BoundedI32<-1, 0>, BoundedI32<-2147483648, 2147483647>), (BoundedU64<0, 1>, BoundedU64<7, 18446744073709551615>),
            (BoundedI64<-9, 9>, BoundedI64<-9223372036854775808, -9223372036854775807>),
            (BoundedU128<0, 5>, BoundedU128<3, 340282366920938463463374607431768211455>),
            (BoundedI128<-2, 2>, BoundedI128<-170141183460469231731687303715884105728, 170141183460469231731687303715884105727>),
            (BoundedIsize<-4, 1>, BoundedIsize<0, 9223372036854775807>),
            (u8, BoundedI16<-3, 3>), (BoundedU8<0, 3>, i128),
        );
    });
    m.run()
}
