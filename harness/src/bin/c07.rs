//! C07: geometric queries and symmetries of positions are exact

use sqmon::mon::{catch, Mon, U};
use sqmon::search::{OffsetPos, UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::postrait::PosT;
use sqrid::{Error, Pos};
use std::collections::BTreeSet;
use std::fmt::Debug;

/// Position with its coordinates as known to the model
type C<P> = (P, i64, i64);

/// Borders and a sample
fn sample<P: TP>(u: &mut U, w: usize, h: usize, limit: usize) -> Vec<C<P>> {
    let mut v = vec![];
    if w.saturating_mul(h) <= limit {
        for y in 0..h {
            for x in 0..w {
                v.push((x, y));
            }
        }
    } else {
        for x in [0, 1, w / 2, w.saturating_sub(2), w - 1, 255, 256] {
            for y in [0, 1, h / 2, h.saturating_sub(2), h - 1, 255, 256] {
                if x < w && y < h {
                    v.push((x, y));
                }
            }
        }
        while v.len() < limit {
            v.push((u.rng.below(w), u.rng.below(h)));
        }
    }
    v.into_iter().map(|(x, y)| (P::at(x, y), x as i64, y as i64)).collect()
}

fn distances<P: PosT + Debug>(u: &mut U, name: &str, v: &[C<P>], pairs: usize) {
    let exhaustive = v.len() * v.len() <= pairs;
    for k in 0..pairs.min(v.len() * v.len()) {
        let (a, b) = if exhaustive {
            (&v[k / v.len()], &v[k % v.len()])
        } else {
            (u.rng.pick(v), u.rng.pick(v))
        };
        let want = a.1.abs_diff(b.1) + a.2.abs_diff(b.2);
        u.case(&(name, "manhattan", a.1, a.2, b.1, b.2));
        u.count("distances", 1);
        ckeq!(a.0.manhattan(&b.0) as u64, want, "{name}: manhattan({:?}, {:?})", a.0, b.0);
        ckeq!(b.0.manhattan(&a.0) as u64, want, "{name}: manhattan({:?}, {:?})", b.0, a.0);
    }
}

fn insides<P: PosT + Debug>(u: &mut U, name: &str, v: &[C<P>], triples: usize) {
    let n = v.len();
    let exhaustive = n * n * n <= triples;
    for k in 0..triples.min(n * n * n) {
        let (p, a, b) = if exhaustive {
            (&v[k / n / n], &v[k / n % n], &v[k % n])
        } else {
            let p = u.rng.pick(v);
            let a = u.rng.pick(v);
            // Degenerate rectangles and borders
            let b = match u.rng.below(4) {
                0 => p,
                1 => a,
                _ => u.rng.pick(v),
            };
            (p, a, b)
        };
        let within = |t: i64, c1: i64, c2: i64| c1.min(c2) <= t && t <= c1.max(c2);
        let want = within(p.1, a.1, b.1) && within(p.2, a.2, b.2);
        u.case(&(name, "inside", p.1, p.2, a.1, a.2, b.1, b.2));
        u.count(if want { "inside" } else { "outside" }, 1);
        ckeq!(p.0.inside(&a.0, &b.0), want, "{name}: {:?}.inside({:?}, {:?})", p.0, a.0, b.0);
    }
}

fn bounds<P: PosT + Debug>(u: &mut U, name: &str, v: &[C<P>], sets: usize, xy: &impl Fn(&P) -> (i64, i64)) {
    ckeq!(P::tlbr_of(std::iter::empty()).map(|(a, b)| (xy(&a), xy(&b))), Err(Error::Empty), "{name}: tlbr_of nothing");
    for _ in 0..8 {
        ckeq!(P::tlbr_of(u.rng.odd([])).map(|(a, b)| (xy(&a), xy(&b))), Err(Error::Empty), "{name}: tlbr_of nothing");
    }
    for _ in 0..sets {
        let n = match u.rng.below(4) {
            0 => 1,
            1 => 2,
            2 => 1 + u.rng.below(6),
            _ => 1 + u.rng.below(30),
        };
        let set: Vec<&C<P>> = (0..n).map(|_| u.rng.pick(v)).collect();
        let xs = || set.iter().map(|c| c.1);
        let ys = || set.iter().map(|c| c.2);
        let want = (
            (xs().min().unwrap(), ys().min().unwrap()),
            (xs().max().unwrap(), ys().max().unwrap()),
        );
        u.case(&(name, "tlbr", set.iter().map(|c| (c.1, c.2)).collect::<Vec<_>>()));
        u.count("bounding rectangles", 1);
        let got = P::tlbr_of(u.rng.odd(set.iter().map(|c| c.0))).map(|(a, b)| (xy(&a), xy(&b)));
        ckeq!(got, Ok(want), "{name}: tlbr_of({:?})", set.iter().map(|c| c.0).collect::<Vec<_>>());
    }
    // All of them
    let want = (
        (v.iter().map(|c| c.1).min().unwrap(), v.iter().map(|c| c.2).min().unwrap()),
        (v.iter().map(|c| c.1).max().unwrap(), v.iter().map(|c| c.2).max().unwrap()),
    );
    let got = P::tlbr_of(v.iter().map(|c| c.0)).map(|(a, b)| (xy(&a), xy(&b)));
    ckeq!(got, Ok(want), "{name}: tlbr_of everything");
}

/// Every subset of a small grid
fn all_subsets<P: TP>(u: &mut U, w: usize, h: usize) {
    let n = w * h;
    for m in 1u32..1 << n {
        let set: Vec<usize> = (0..n).filter(|c| m >> c & 1 != 0).collect();
        let xs = || set.iter().map(|c| c % w);
        let ys = || set.iter().map(|c| c / w);
        let want = (
            (xs().min().unwrap(), ys().min().unwrap()),
            (xs().max().unwrap(), ys().max().unwrap()),
        );
        u.case(&("subset", w, h, m));
        u.count("bounding rectangles", 1);
        let got = P::tlbr_of(set.iter().rev().map(|c| P::at(c % w, c / w))).map(|(a, b)| (a.co(), b.co()));
        ckeq!(got, Ok(want), "{}: tlbr_of({set:?})", P::name());
        let got = P::tlbr_of(u.rng.odd(set.iter().map(|c| P::at(c % w, c / w)))).map(|(a, b)| (a.co(), b.co()));
        ckeq!(got, Ok(want), "{}: tlbr_of({set:?})", P::name());
    }
}

fn borders<P: PosT + Debug>(u: &mut U, name: &str, v: &[C<P>], xlim: (i64, i64), ylim: (i64, i64)) {
    for (p, x, y) in v {
        let bx = *x == xlim.0 || *x == xlim.1;
        let by = *y == ylim.0 || *y == ylim.1;
        u.case(&(name, "border", x, y));
        u.count("border tests", 1);
        ckeq!(p.is_corner(), bx && by, "{name}: is_corner of {p:?}");
        ckeq!(p.is_side(), bx || by, "{name}: is_side of {p:?}");
    }
}

fn flips<P: TP>(u: &mut U, name: &str, v: &[C<P>], w: usize, h: usize) {
    for (p, x, y) in v {
        let (x, y) = (*x as usize, *y as usize);
        u.case(&(name, "flip", x, y));
        u.count("flips", 1);
        ckeq!(p.flip_h().co(), (w - 1 - x, y), "{name}: flip_h of {p:?}");
        ckeq!(p.flip_v().co(), (x, h - 1 - y), "{name}: flip_v of {p:?}");
        ckeq!(p.flip_h().flip_h(), *p, "{name}: flip_h twice");
        ckeq!(p.flip_v().flip_v(), *p, "{name}: flip_v twice");
    }
}

fn positions<P: TP>(u: &mut U, w: usize, h: usize) {
    let name = P::name();
    u.describe(format!("{name} {w}x{h}"));
    let limit = u.scale(1500, 30_000);
    let v = sample::<P>(u, w, h, limit);
    let (np, nt, ns) = (u.scale(12_000, 300_000), u.scale(12_000, 300_000), u.scale(150, 5_000));
    distances(u, &name, &v, np);
    insides(u, &name, &v, nt);
    bounds(u, &name, &v, ns, &|p| (p.co().0 as i64, p.co().1 as i64));
    borders(u, &name, &v, (0, w as i64 - 1), (0, h as i64 - 1));
    flips(u, &name, &v, w, h);
    // Flips and sets
    if w.saturating_mul(h) <= limit {
        let image: BTreeSet<(usize, usize)> = v.iter().map(|c| c.0.flip_h().flip_v().co()).collect();
        ckeq!(image.len(), w * h, "{name}: flips are a bijection");
    }
    u.sample(|| format!("{name}: {} positions", v.len()));
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    positions::<Pos<X, Y>>(u, X as usize + 1, Y as usize + 1);
}

fn square<const X: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let w = X as usize + 1;
    let limit = u.scale(3000, 100_000);
    let v = sample::<Pos<X, X>>(u, w, w, limit);
    for (p, x, y) in &v {
        let (x, y) = (*x as usize, *y as usize);
        u.case(&("rotate", w, x, y));
        u.count("rotations", 1);
        // Clockwise, with y growing down: up becomes right
        ckeq!(p.rotate_cw().co(), (w - 1 - y, x), "{w}x{w}: rotate_cw of {p}");
        ckeq!(p.rotate_cc().co(), (y, w - 1 - x), "{w}x{w}: rotate_cc of {p}");
        ckeq!(p.rotate_cw().rotate_cc(), *p, "{w}x{w}: rotate_cw and back");
        ckeq!(p.rotate_cc().rotate_cw(), *p, "{w}x{w}: rotate_cc and back");
        ckeq!(p.rotate_cw().rotate_cw().rotate_cw().rotate_cw(), *p, "{w}x{w}: four turns");
        ckeq!(p.rotate_cw().rotate_cw(), p.flip_h().flip_v(), "{w}x{w}: two turns of {p}");
    }
}

/// Signed coordinates
macro_rules! signed {
    ($u:expr, $t:ty, [$($v:expr),*]) => {{
        let u: &mut U = $u;
        let name = stringify!(($t, $t));
        u.describe(name.into());
        let vals: Vec<i64> = vec![$($v as i64),*];
        let mut v: Vec<C<($t, $t)>> = vec![];
        for x in &vals {
            for y in &vals {
                v.push(((*x as $t, *y as $t), *x, *y));
            }
        }
        let lim = (<$t>::MIN as i64, <$t>::MAX as i64);
        insides(u, name, &v, 60_000);
        bounds(u, name, &v, 300, &|p| (p.0 as i64, p.1 as i64));
        borders(u, name, &v, lim, lim);
        // Distances which the coordinate type can't represent: known
        // finding, see known_findings.json
        for a in &v {
            for b in &v {
                let (dx, dy) = (a.1.abs_diff(b.1), a.2.abs_diff(b.2));
                u.case(&(name, "manhattan", a.1, a.2, b.1, b.2));
                u.count("distances", 1);
                let overflow = dx > <$t>::MAX as u64 || dy > <$t>::MAX as u64;
                match catch(|| a.0.manhattan(&b.0)) {
                    Ok(d) => ckeq!(d as u64, dx + dy, "{name}: manhattan({:?}, {:?})", a.0, b.0),
                    Err(e) if overflow => {
                        u.known("C07-manhattan-signed-tuples", format!("{name}: manhattan({:?}, {:?}): {e}", a.0, b.0))
                    }
                    Err(e) => sqmon::fail!("{name}: manhattan({:?}, {:?}): {e}", a.0, b.0),
                }
            }
        }
    }};
}

fn main() {
    let mut m = Mon::new(
        "C07",
        "for each grid size and position type: pairs (distance), triples (rectangle test), random sets and every subset of small grids (bounding rectangle), and every position (borders, flips, quarter turns) against integer arithmetic; all of them when the grid is small, otherwise a sample that favours borders; a case is a distinct (type, query, operands)",
    );
    m.require("distances", 100_000);
    m.require("inside", 10_000);
    m.require("outside", 10_000);
    m.require("bounding rectangles", 5_000);
    m.require("flips", 10_000);
    m.require("rotations", 2_000);
    sqmon::tiny_dims!(m, "grid", 1, 1, grid);
    sqmon::medium_dims!(m, "grid", 1, 1, grid);
    sqmon::large_dims!(m, "grid", 1, 1, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 1, grid);
    sqmon::square_dims!(m, "square", 1, 1, square);
    sqmon::units_sq!(m, "square", 1, 1, square, [63, 100, 254, 255, 256, 300, 999]);
    sqmon::seeded_square_dims!(m, "seeded square", 1, 1, square);
    m.unit("subsets", |u| {
        all_subsets::<Pos<2, 3>>(u, 3, 4);
        all_subsets::<Pos<3, 1>>(u, 4, 2);
        all_subsets::<UserPos<1, 4>>(u, 2, 5);
        all_subsets::<Pos<9, 0>>(u, 10, 1);
    });
    m.unit("user", |u| {
        positions::<UserPos<0, 0>>(u, 1, 1);
        positions::<UserPos<4, 2>>(u, 5, 3);
        positions::<UserPos<255, 3>>(u, 256, 4);
        positions::<UserPos<2, 70000>>(u, 3, 70001);
    });
    m.unit("unsigned tuples", |u| {
        positions::<(u8, u8)>(u, 256, 256);
        positions::<(u16, u16)>(u, 65536, 65536);
        positions::<(u32, u32)>(u, 1 << 32, 1 << 32);
        // Flips of wider tuples: the coordinates of the model don't fit
        let v = sample::<(u64, u64)>(u, 1 << 40, 1 << 33, 500);
        distances(u, "(u64, u64)", &v, 20_000);
        insides(u, "(u64, u64)", &v, 20_000);
        bounds(u, "(u64, u64)", &v, 300, &|p| (p.0 as i64, p.1 as i64));
        borders(u, "(u64, u64)", &v, (0, -1), (0, -1));
        let v = sample::<(u128, u128)>(u, 1 << 40, 1 << 33, 500);
        distances(u, "(u128, u128)", &v, 20_000);
        insides(u, "(u128, u128)", &v, 20_000);
        bounds(u, "(u128, u128)", &v, 300, &|p| (p.0 as i64, p.1 as i64));
        borders(u, "(u128, u128)", &v, (0, -1), (0, -1));
        for (p, want) in [((0, 0), (true, true)), ((5, u64::MAX), (false, true)), ((u64::MAX, 5), (false, true)), ((u64::MAX, 0), (true, true)), ((5, 6), (false, false))] {
            ckeq!((p.is_corner(), p.is_side()), want, "(u64, u64): borders of {p:?}");
            ckeq!(p.flip_h(), (u64::MAX - p.0, p.1), "(u64, u64): flip_h of {p:?}");
            ckeq!(p.flip_v(), (p.0, u64::MAX - p.1), "(u64, u64): flip_v of {p:?}");
        }
    });
    m.unit("tuple rotations", |u| {
        for x in (0..=255u8).step_by(5) {
            for y in (0..=255u8).step_by(3) {
                u.case(&("tuple rotation", x, y));
                ckeq!((x, y).rotate_cw(), (255 - y, x), "(u8,u8): rotate_cw of ({x},{y})");
                ckeq!((x, y).rotate_cc(), (y, 255 - x), "(u8,u8): rotate_cc of ({x},{y})");
            }
        }
        for _ in 0..2000 {
            let (x, y) = (u.rng.u64() as u16, u.rng.u64() as u16);
            ckeq!((x, y).rotate_cw(), (65535 - y, x), "(u16,u16): rotate_cw of ({x},{y})");
            ckeq!((x, y).rotate_cc(), (y, 65535 - x), "(u16,u16): rotate_cc of ({x},{y})");
        }
    });
    m.unit("signed", |u| {
        signed!(u, i8, [-128, -127, -100, -2, -1, 0, 1, 2, 50, 126, 127]);
        signed!(u, i16, [-32768, -32767, -300, -1, 0, 1, 300, 32766, 32767]);
        signed!(u, i32, [i32::MIN, i32::MIN + 1, -70000, -1, 0, 1, 70000, i32::MAX - 1, i32::MAX]);
        let v: Vec<C<OffsetPos>> = OffsetPos::iter().map(|p| (p, p.0 .0 as i64, p.1 .0 as i64)).collect();
        ck!(v.len() == 48, "OffsetPos positions");
        insides(u, "OffsetPos", &v, 200_000);
        bounds(u, "OffsetPos", &v, 300, &|p| (p.0 .0 as i64, p.1 .0 as i64));
        borders(u, "OffsetPos", &v, (-3, 4), (10, 15));
    });
    m.run()
}
