//! C02: positions and linear indexes are a row-major bijection

use sqmon::mon::{hash_of, Mon, U};
use sqmon::search::{OffsetPos, UserPos, TP};
use sqmon::{ck, ckeq, large_dims, medium_dims, seeded_dims, tiny_dims, units_dims};
use sqrid::postrait::PosT;
use sqrid::{Error, Pos};
use std::cmp::Ordering;

/// One index of a `w` x `h` grid, for any position type
fn index<P: TP>(u: &mut U, w: usize, h: usize, i: usize) {
    let n = w as u128 * h as u128;
    let (x, y) = (i % w, i / w);
    u.case(&(P::name(), i));
    let p = match P::tryfrom_usize(i) {
        Ok(p) => p,
        Err(e) => sqmon::fail!("{}: tryfrom_usize({i}) refused: {e:?}", P::name()),
    };
    ckeq!(p.co(), (x, y), "{}: tryfrom_usize({i})", P::name());
    let q = P::at(x, y);
    ckeq!(q.to_usize(), i, "{}: to_usize of ({x},{y})", P::name());
    ckeq!(p, q, "{}: equality of ({x},{y})", P::name());
    ckeq!(hash_of(&p), hash_of(&q), "{}: hash of equal positions ({x},{y})", P::name());
    ckeq!(p.cmp(&q), Ordering::Equal, "{}: cmp of equal positions", P::name());
    // Neighbours in row-major order
    let next = p.next().map(|p| p.co());
    let want = (((i + 1) as u128) < n).then(|| ((i + 1) % w, (i + 1) / w));
    ckeq!(next, want, "{}: next of ({x},{y})", P::name());
    let prev = p.prev().map(|p| p.co());
    let want = (i > 0).then(|| ((i.wrapping_sub(1)) % w, (i.wrapping_sub(1)) / w));
    ckeq!(prev, want, "{}: prev of ({x},{y})", P::name());
    // Neighbours in column-major order
    let j = x as u128 * h as u128 + y as u128;
    let col = |j: u128| ((j / h as u128) as usize, (j % h as u128) as usize);
    ckeq!(p.next_y().map(|p| p.co()), (j + 1 < n).then(|| col(j + 1)), "{}: next_y of ({x},{y})", P::name());
    ckeq!(p.prev_y().map(|p| p.co()), (j > 0).then(|| col(j.wrapping_sub(1))), "{}: prev_y of ({x},{y})", P::name());
    if let Some(p2) = p.next() {
        ckeq!(p2.prev().map(|p| p.co()), Some((x, y)), "{}: prev of next of ({x},{y})", P::name());
        ckeq!(p2.to_usize(), i + 1, "{}: index of next of ({x},{y})", P::name());
        ck!(p2 != p, "{}: next of ({x},{y}) equals it", P::name());
    }
    u.count("indexes", 1);
}

/// Two positions: order and equality
fn pair<P: TP>(u: &mut U, a: (usize, usize), b: (usize, usize)) {
    let (p, q) = (P::at(a.0, a.1), P::at(b.0, b.1));
    u.eval();
    ckeq!(p == q, a == b, "{}: {a:?} == {b:?}", P::name());
    ckeq!(p.cmp(&q) == Ordering::Equal, a == b, "{}: cmp({a:?},{b:?})", P::name());
    ckeq!(p.cmp(&q), q.cmp(&p).reverse(), "{}: cmp({a:?},{b:?}) is antisymmetric", P::name());
    ckeq!(p.partial_cmp(&q), Some(p.cmp(&q)), "{}: partial_cmp({a:?},{b:?})", P::name());
    if a == b {
        ckeq!(hash_of(&p), hash_of(&q), "{}: hash of {a:?}", P::name());
    } else {
        ck!(p.to_usize() != q.to_usize(), "{}: {a:?} and {b:?} have the same index", P::name());
    }
    // The order is monotonous in each coordinate
    if a.0 <= b.0 && a.1 <= b.1 && a != b {
        ck!(p < q, "{}: {a:?} is not below {b:?}", P::name());
    }
    u.count("pairs", 1);
}

fn sample_indexes(u: &mut U, w: usize, h: usize, all_below: usize) -> Vec<usize> {
    let n = w * h;
    if n <= all_below {
        return (0..n).collect();
    }
    let mut v = vec![0, 1, w - 1, w % n, (w + 1) % n, n - 1, n - 2, n - w, (2 * n - w - 1) % n, n / 2];
    let k = u.scale(1500, 60000);
    for _ in 0..k {
        v.push(u.rng.below(n));
        // Around the ends of a line
        let y = u.rng.below(h);
        v.push(y * w);
        v.push(y * w + w - 1);
    }
    v.retain(|i| *i < n);
    v
}

fn refused<P: TP>(u: &mut U, w: usize, h: usize) {
    let n = w * h;
    for i in [n, n + 1, n + w - 1, n + w, n * 2, n + (1 << 8), n + (1 << 16), n + (1 << 32), 1 << 63, usize::MAX, usize::MAX - w + 1]
        .into_iter()
        .chain((0..20).map(|k| n + k * w + k))
    {
        if i >= n {
            u.eval();
            ckeq!(P::tryfrom_usize(i).map(|p| p.co()), Err(Error::OutOfBounds), "{}: tryfrom_usize({i}) of {n}", P::name());
        }
    }
}

fn generic<P: TP>(u: &mut U, w: usize, h: usize, all_below: usize) {
    let v = sample_indexes(u, w, h, all_below);
    u.sample(|| format!("{} on {w}x{h}: {} indexes", P::name(), v.len()));
    for &i in &v {
        index::<P>(u, w, h, i);
    }
    refused::<P>(u, w, h);
    for _ in 0..u.scale(400, 5000) {
        let (i, mut j) = (*u.rng.pick(&v), *u.rng.pick(&v));
        if u.rng.pct(10) {
            j = i;
        }
        pair::<P>(u, (i % w, i / w), (j % w, j / w));
        // Positions that share a coordinate, or with swapped coordinates
        let (a, b) = ((i % w, i / w), (j % w, j / w));
        pair::<P>(u, a, (a.0, b.1));
        pair::<P>(u, a, (b.0, a.1));
        if a.0 < h && a.1 < w {
            pair::<P>(u, a, (a.1, a.0));
        }
    }
}

fn check<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    let all = if u.thorough() { 300_000 } else { 3000 };
    generic::<Pos<X, Y>>(u, w, h, all);
    for i in sample_indexes(u, w, h, 300).into_iter().take(400) {
        let p = Pos::<X, Y>::at(i % w, i / w);
        ckeq!(usize::from(p), i, "usize::from(pos)");
        ckeq!(usize::from(&p), i, "usize::from(&pos)");
        ckeq!(Pos::<X, Y>::try_from(i), Ok(p), "Pos::try_from({i})");
    }
    for i in [S, S + 1, S * 2, usize::MAX] {
        ckeq!(Pos::<X, Y>::try_from(i).is_ok(), false, "Pos::try_from({i})");
    }
    if S <= 5000 {
        // Whole walks in all four orders
        let mut seen = vec![false; S];
        let mut p = Some(Pos::<X, Y>::FIRST);
        let mut k = 0;
        while let Some(q) = p {
            ck!(k < S, "walking with next() doesn't end");
            ck!(!seen[q.co().1 * w + q.co().0], "next() comes twice through {q}");
            seen[q.co().1 * w + q.co().0] = true;
            k += 1;
            p = PosT::next(&q);
        }
        ckeq!(k, S, "positions walked with next()");
        let mut p = Some(Pos::<X, Y>::LAST);
        let mut k = 0;
        while let Some(q) = p {
            ck!(k < S, "walking with prev_y() doesn't end");
            k += 1;
            p = PosT::prev_y(&q);
        }
        ckeq!(k, S, "positions walked with prev_y()");
    }
}

/// As many indexes as there are
fn u32_pairs(u: &mut U) {
    let w = 1usize << 32;
    let mut v = vec![0, 1, w - 1, w, w + 1, usize::MAX - 1, usize::MAX - w, usize::MAX - w + 1, 1 << 63, (1 << 63) - 1];
    for _ in 0..u.scale(3000, 60000) {
        v.push(u.rng.u64() as usize);
        v.push(u.rng.below(1 << 20) * w + u.rng.below(1 << 20));
        v.push(u.rng.below(w) * w + *u.rng.pick(&[0, 1, w - 1, w - 2, w / 2]));
    }
    v.retain(|i| *i != usize::MAX);
    for &i in &v {
        index::<(u32, u32)>(u, w, w, i);
    }
    type P = (u32, u32);
    ckeq!((u32::MAX, u32::MAX).to_usize(), usize::MAX, "index of the last pair");
    ckeq!(P::tryfrom_usize(usize::MAX), Ok((u32::MAX, u32::MAX)), "last index");
    ckeq!(P::tryfrom_usize(usize::MAX).unwrap().next(), None, "next of the last pair");
    for _ in 0..u.scale(500, 5000) {
        let (i, j) = (*u.rng.pick(&v), *u.rng.pick(&v));
        let (a, b) = ((i % w, i / w), (j % w, j / w));
        pair::<P>(u, a, b);
        pair::<P>(u, a, (a.0, b.1));
        pair::<P>(u, a, (b.0, a.1));
        pair::<P>(u, a, (a.1, a.0));
    }
}

fn offset(u: &mut U) {
    // Coordinates that don't start at zero: -3..=4 and 10..=15
    let at = |x: i64, y: i64| OffsetPos(sqrid::BoundedI8(x as i8), sqrid::BoundedU16(y as u16));
    let co = |p: OffsetPos| (p.x().into_inner() as i64, p.y().into_inner() as i64);
    let mut rows = vec![];
    for y in 10..=15 {
        for x in -3..=4 {
            rows.push((x, y));
        }
    }
    let mut cols = rows.clone();
    cols.sort();
    for k in 0..rows.len() {
        u.case(&k);
        let p = at(rows[k].0, rows[k].1);
        ckeq!(p.next().map(co), rows.get(k + 1).copied(), "next of {p:?}");
        ckeq!(p.prev().map(co), k.checked_sub(1).map(|k| rows[k]), "prev of {p:?}");
        let p = at(cols[k].0, cols[k].1);
        ckeq!(p.next_y().map(co), cols.get(k + 1).copied(), "next_y of {p:?}");
        ckeq!(p.prev_y().map(co), k.checked_sub(1).map(|k| cols[k]), "prev_y of {p:?}");
    }
}

fn main() {
    let mut m = Mon::new(
        "C02",
        "for each grid size: every index (a sample that favours line ends in grids above 3000 cells) through index -> position -> index, the four neighbour functions, and pairs of positions for equality/order/hash, against integer arithmetic; a case is a distinct (position type, index)",
    );
    m.require("indexes", 10_000);
    m.require("pairs", 10_000);
    tiny_dims!(m, "index", 1, 1, check);
    medium_dims!(m, "index", 1, 1, check);
    large_dims!(m, "index", 1, 2, check);
    sqmon::huge_dims!(m, "index", 1, 2, check);
    seeded_dims!(m, "index", 1, 1, check);
    units_dims!(m, "index", 1, 2, check, [(65535, 65535), (65535, 3), (1, 65535), (40000, 30000)]);
    m.shards("u8 pairs", 1, 2, |u| generic::<(u8, u8)>(u, 256, 256, 4000));
    m.shards("u16 pairs", 1, 2, |u| generic::<(u16, u16)>(u, 65536, 65536, 4000));
    m.unit("user 5x7", |u| generic::<UserPos<4, 6>>(u, 5, 7, 4000));
    m.unit("user 1x1", |u| generic::<UserPos<0, 0>>(u, 1, 1, 4000));
    m.unit("user 256x2", |u| generic::<UserPos<255, 1>>(u, 256, 2, 4000));
    m.unit("user 3x70001", |u| generic::<UserPos<2, 70000>>(u, 3, 70001, 4000));
    m.unit("user 200x2^24", |u| generic::<UserPos<199, 0xFF_FFFF>>(u, 200, 1 << 24, 4000));
    m.unit("user 256x2^32", |u| generic::<UserPos<255, 0xFFFF_FFFF>>(u, 256, 1 << 32, 4000));
    m.shards("u32 pairs", 1, 2, u32_pairs);
    m.unit("offset", offset);
    m.run()
}
