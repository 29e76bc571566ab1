//! C03: position and bounded-integer iterators yield each value exactly once

use sqmon::mon::{Mon, U};
use sqmon::search::{OffsetPos, UserPos, TP};
use sqmon::{ck, ckeq, large_dims, medium_dims, seeded_dims, tiny_dims};
use sqrid::postrait::PosT;
use sqrid::{BoundedInt, BoundedIntIterator, Pos};
use std::fmt::Debug;

/// The whole iteration, forwards; bounded
fn whole<T: PartialEq + Debug + Copy>(u: &mut U, what: &str, it: impl Iterator<Item = T>, want: &[T]) {
    let mut it = it;
    u.eval();
    for (i, w) in want.iter().enumerate() {
        let (lo, hi) = it.size_hint();
        let left = want.len() - i;
        ck!(lo <= left && hi.map(|hi| left <= hi).unwrap_or(true), "{what}: size_hint {:?} with {left} left", (lo, hi));
        let got = it.next();
        if got != Some(*w) {
            sqmon::fail!("{what}: item {i} of {}: observed {got:?}, expected {w:?}", want.len());
        }
    }
    for _ in 0..3 {
        let (lo, _) = it.size_hint();
        ckeq!(lo, 0, "{what}: lower size_hint at the end");
        ckeq!(it.next(), None, "{what}: after all {} items", want.len());
    }
    u.count("items yielded", want.len() as u64);
}

/// Consume an iterator in one go, by any of the ways that the standard
/// library offers (iterators may specialise each of them)
fn finish<T: PartialEq + Debug + Copy>(u: &mut U, what: &str, it: impl Iterator<Item = T>, want: &[T]) {
    let mut got: Vec<T> = vec![];
    let limit = want.len() + 2;
    let mut push = |v: T| {
        got.push(v);
        ck!(got.len() < limit, "{what}: more than {} items", limit - 2);
    };
    let mut it = it;
    let how = match u.rng.below(13) {
        0 => {
            it.for_each(push);
            "for_each"
        }
        1 => {
            it.fold((), |_, v| push(v));
            "fold"
        }
        2 => {
            for v in it {
                push(v);
            }
            "for"
        }
        3 => {
            let r = it.try_for_each(|v| {
                push(v);
                Some(())
            });
            ckeq!(r, Some(()), "{what}: try_for_each");
            "try_for_each"
        }
        4 => {
            it.map(push).for_each(drop);
            "map and for_each"
        }
        5 => {
            ckeq!(it.last(), want.last().copied(), "{what}: last");
            got.extend(want);
            "last"
        }
        6 => {
            ckeq!(it.count(), want.len(), "{what}: count");
            got.extend(want);
            "count"
        }
        7 => {
            let r = it.find(|v| {
                push(*v);
                false
            });
            ckeq!(r, None, "{what}: find");
            "find"
        }
        8 => {
            let r = it.by_ref().all(|v| {
                push(v);
                true
            });
            ck!(r, "{what}: all");
            ckeq!(it.next(), None, "{what}: after all()");
            "all"
        }
        9 => {
            if let Some(v) = it.next() {
                push(v);
            }
            it.reduce(|a, b| {
                push(b);
                a
            });
            if want.len() > 1 {
                // The first one goes into the accumulator
                got.insert(1, want[1]);
            }
            "reduce"
        }
        10 => {
            ck!(it.eq(want.iter().copied()), "{what}: not equal to what is expected");
            got.extend(want);
            "eq"
        }
        11 => {
            if let Some(last) = want.last() {
                ckeq!(it.position(|v| v == *last), want.iter().position(|v| v == last), "{what}: position");
            }
            got.extend(want);
            "position"
        }
        _ => {
            got = it.take(limit).collect();
            "collect"
        }
    };
    u.count("finished in one go", 1);
    if got != want {
        let i = got.iter().zip(want).position(|(g, w)| g != w).unwrap_or(got.len().min(want.len()));
        sqmon::fail!("{what}: {how}: {} items instead of {}, item {i}: observed {:?}, expected {:?}", got.len(), want.len(), got.get(i), want.get(i));
    }
}

/// As above, from the back
fn finish_back<T: PartialEq + Debug + Copy>(u: &mut U, what: &str, it: impl DoubleEndedIterator<Item = T>, want: &[T]) {
    let mut rev = want.to_vec();
    rev.reverse();
    let mut got: Vec<T> = vec![];
    let mut it = it;
    match u.rng.below(4) {
        0 => {
            it.rfold((), |_, v| got.push(v));
            ck!(got == rev, "{what}: rfold: {} items, {:?}...", got.len(), &got[..got.len().min(4)]);
        }
        1 => {
            let r = it.rfind(|v| {
                got.push(*v);
                false
            });
            ckeq!(r, None, "{what}: rfind");
            ck!(got == rev, "{what}: rfind: {} items, {:?}...", got.len(), &got[..got.len().min(4)]);
        }
        _ => finish(u, &format!("{what}.rev()"), it.rev(), &rev),
    }
}

/// A jump past the end
fn far(u: &mut U, left: usize) -> usize {
    let bits = 1usize << u.rng.below(usize::BITS as usize);
    let k = match u.rng.below(4) {
        0 => usize::MAX,
        1 => usize::MAX - u.rng.below(left + 2),
        2 => bits,
        _ => bits.wrapping_add(u.rng.below(left + 2)),
    };
    if k < left {
        left + 1
    } else {
        k
    }
}

/// A random history of operations on an iterator
fn history<const F: bool, T, I>(u: &mut U, what: &str, mk: impl Fn() -> I, want: &[T])
where
    T: PartialEq + Debug + Copy,
    I: Iterator<Item = T> + Clone,
{
    let mut it = mk();
    let mut i = 0;
    let mut log = String::new();
    let mut ops = vec![];
    for _ in 0..200 {
        let left = want.len() - i;
        let op = u.rng.below(9);
        ops.push(op);
        match op {
            0 | 1 => {
                log.push_str(" next");
                ckeq!(it.next(), want.get(i).copied(), "{what}:{log}");
                i = (i + 1).min(want.len());
            }
            2 => {
                let k = if u.rng.pct(70) {
                    u.rng.below(4)
                } else if u.rng.pct(90) {
                    u.rng.below(left + 2)
                } else {
                    far(u, left)
                };
                log.push_str(&format!(" nth({k})"));
                ckeq!(it.nth(k), want.get(i.saturating_add(k)).copied(), "{what}:{log}");
                i = i.saturating_add(k).saturating_add(1).min(want.len());
            }
            3 => {
                let (lo, hi) = it.size_hint();
                ck!(lo <= left && hi.map(|hi| left <= hi).unwrap_or(true), "{what}:{log} size_hint {:?} with {left} left", (lo, hi));
            }
            4 => {
                log.push_str(" clone");
                let c = it.clone();
                whole(u, what, c, &want[i..]);
                if u.rng.bool() {
                    it = it.clone();
                }
            }
            5 => {
                let k = u.rng.below(left.min(10) + 2);
                log.push_str(&format!(" take({k})"));
                let got: Vec<T> = it.by_ref().take(k).collect();
                let end = (i + k).min(want.len());
                ckeq!(got, want[i..end].to_vec(), "{what}:{log}");
                i = end;
            }
            6 => {
                // Known to be bounded: checked on a clone first
                whole(u, what, it.clone(), &want[i..]);
                ckeq!(it.clone().count(), left, "{what}:{log} count");
                ckeq!(it.clone().last(), want[i..].last().copied(), "{what}:{log} last");
            }
            7 => {
                let k = 1 + u.rng.below(5);
                log.push_str(&format!(" step_by({k})"));
                let got: Vec<T> = it.clone().step_by(k).take(want.len() + 2).collect();
                let w: Vec<T> = want[i..].iter().copied().step_by(k).collect();
                ckeq!(got, w, "{what}:{log}");
            }
            _ => {
                let k = u.rng.below(left + 2);
                log.push_str(&format!(" skip({k})"));
                let got: Vec<T> = it.clone().skip(k).take(want.len() + 2).collect();
                let w: Vec<T> = want[i..].iter().copied().skip(k).collect();
                ckeq!(got, w, "{what}:{log}");
            }
        }
        if i >= want.len() && u.rng.pct(30) {
            break;
        }
        if log.len() > 400 {
            log = " (...)".into();
        }
    }
    if F {
        finish(u, &format!("{what}:{log}"), it, &want[i..]);
    }
    u.case(&(what, ops));
    u.count("histories", 1);
}

/// As above, consuming from both ends
fn both_ends<const F: bool, T, I>(u: &mut U, what: &str, mut it: I, want: &[T], clone: Option<fn(&I) -> I>)
where
    T: PartialEq + Debug + Copy,
    I: DoubleEndedIterator<Item = T>,
{
    let (mut i, mut j) = (0, want.len());
    let mut log = String::new();
    let mut ops = vec![];
    let bias = *u.rng.pick(&[10, 50, 50, 90]);
    let jump = u.rng.pct(40);
    let mut after_end = 0;
    let early = u.rng.pct(40);
    while after_end < 6 {
        if F && early && u.rng.below(want.len().min(60) + 2) == 0 {
            // The rest at once
            if u.rng.bool() {
                finish(u, &format!("{what}:{log}"), it, &want[i..j]);
            } else {
                finish_back(u, &format!("{what}:{log}"), it, &want[i..j]);
            }
            u.case(&(what, ops, "early"));
            u.count("two-ended histories", 1);
            return;
        }
        let left = j - i;
        if left == 0 {
            after_end += 1;
        }
        if log.len() > 400 {
            log = " (...)".into();
        }
        let (lo, hi) = it.size_hint();
        ck!(lo <= left && hi.map(|hi| left <= hi).unwrap_or(true), "{what}:{log} size_hint {:?} with {left} left", (lo, hi));
        let back = !u.rng.pct(bias);
        let k = if jump && u.rng.pct(30) {
            u.rng.below(left / 2 + 2)
        } else if u.rng.below(want.len() + 10) == 0 {
            far(u, left)
        } else {
            0
        };
        ops.push((back, k));
        match (back, k) {
            (false, 0) => {
                log.push_str(" next");
                let w = (left > 0).then(|| want[i]);
                ckeq!(it.next(), w, "{what}:{log}");
            }
            (true, 0) => {
                log.push_str(" next_back");
                let w = (left > 0).then(|| want[j - 1]);
                ckeq!(it.next_back(), w, "{what}:{log}");
            }
            (false, k) => {
                log.push_str(&format!(" nth({k})"));
                let w = (k < left).then(|| want[i + k]);
                ckeq!(it.nth(k), w, "{what}:{log}");
            }
            (true, k) => {
                log.push_str(&format!(" nth_back({k})"));
                let w = (k < left).then(|| want[j - 1 - k]);
                ckeq!(it.nth_back(k), w, "{what}:{log}");
            }
        }
        if back {
            j = j.saturating_sub(k.saturating_add(1)).max(i);
        } else {
            i = i.saturating_add(k).saturating_add(1).min(j);
        }
        if let (Some(clone), true) = (clone, u.rng.pct(if want.len() < 100 { 5 } else { 1 })) {
            log.push_str(" clone");
            let mut w: Vec<T> = want[i..j].to_vec();
            whole(u, what, clone(&it), &w);
            w.reverse();
            whole(u, what, clone(&it).rev(), &w);
        }
        if ops.len() > 3000 {
            // Long enough: finish with the rest in one go
            whole(u, what, it, &want[i..j]);
            break;
        }
    }
    u.case(&(what, ops));
    u.count("two-ended histories", 1);
}

/// All iterators over the positions of a `w` x `h` position type
fn positions<P: TP, const F: bool>(u: &mut U, w: usize, h: usize) {
    let name = P::name();
    let rows: Vec<P> = (0..w * h).map(|i| P::at(i % w, i / w)).collect();
    let cols: Vec<P> = (0..w * h).map(|i| P::at(i / h, i % h)).collect();
    u.describe(format!("{name} whole iterations"));
    whole(u, &format!("{name} iter"), P::iter(), &rows);
    whole(u, &format!("{name} iter_horizontal"), P::iter_horizontal(), &rows);
    whole(u, &format!("{name} iter_vertical"), P::iter_vertical(), &cols);
    whole(u, &format!("{name} iter_orientation<true>"), P::iter_orientation::<true>(), &rows);
    whole(u, &format!("{name} iter_orientation<false>"), P::iter_orientation::<false>(), &cols);
    let mut rev = rows.clone();
    rev.reverse();
    whole(u, &format!("{name} iter().rev()"), P::iter().rev(), &rev);
    rev = cols.clone();
    rev.reverse();
    whole(u, &format!("{name} iter_vertical().rev()"), P::iter_vertical().rev(), &rev);
    u.sample(|| format!("{name}: {} positions by row and by column, forwards, backwards, and in random histories", rows.len()));
    let big = w * h > 2000;
    for _ in 0..if big { 2 } else { u.scale(40, 400) } {
        history::<F, _, _>(u, &format!("{name} iter"), P::iter, &rows);
        history::<F, _, _>(u, &format!("{name} iter_vertical"), P::iter_vertical, &cols);
        both_ends::<F, _, _>(u, &format!("{name} iter"), P::iter(), &rows, Some(Clone::clone));
        both_ends::<F, _, _>(u, &format!("{name} iter_vertical"), P::iter_vertical(), &cols, Some(Clone::clone));
    }
    // Axis values
    let xs: Vec<P::Xtype> = rows[..w].iter().map(|p| p.x()).collect();
    let ys: Vec<P::Ytype> = cols[..h].iter().map(|p| p.y()).collect();
    whole(u, &format!("{name} iter_x"), P::iter_x(), &xs);
    whole(u, &format!("{name} iter_y"), P::iter_y(), &ys);
    for _ in 0..if F { 3 } else { 0 } {
        finish(u, &format!("{name} iter_x"), P::iter_x(), &xs);
        finish(u, &format!("{name} iter_y"), P::iter_y(), &ys);
        finish(u, &format!("{name} iter"), P::iter(), &rows);
        finish(u, &format!("{name} iter_vertical"), P::iter_vertical(), &cols);
        finish_back(u, &format!("{name} iter"), P::iter(), &rows);
        finish_back(u, &format!("{name} iter_vertical"), P::iter_vertical(), &cols);
    }
    // One row, one column
    for _ in 0..if big { 4 } else { u.scale(30, 200) } {
        let (x, y) = (u.rng.below(w), u.rng.below(h));
        let col: Vec<P> = (0..h).map(|y| P::at(x, y)).collect();
        let row: Vec<P> = (0..w).map(|x| P::at(x, y)).collect();
        u.describe(format!("{name} column {x}, row {y}"));
        whole(u, &format!("{name} iter_in_x({x})"), P::iter_in_x(xs[x]), &col);
        whole(u, &format!("{name} iter_in_y({y})"), P::iter_in_y(ys[y]), &row);
        if F {
            finish(u, &format!("{name} iter_in_x({x})"), P::iter_in_x(xs[x]), &col);
            finish(u, &format!("{name} iter_in_y({y})"), P::iter_in_y(ys[y]), &row);
        }
        if !big {
            history::<F, _, _>(u, &format!("{name} iter_in_x({x})"), || P::iter_in_x(xs[x]), &col);
            history::<F, _, _>(u, &format!("{name} iter_in_y({y})"), || P::iter_in_y(ys[y]), &row);
        }
    }
    // Rectangles
    let mut rects = vec![];
    if w * h <= 36 {
        for a in 0..w * h {
            for b in 0..w * h {
                rects.push((a % w, a / w, b % w, b / w));
            }
        }
    } else {
        let n = if big { 12 } else { u.scale(300, 3000) };
        for _ in 0..n {
            let mut pickc = |n: usize| match u.rng.below(5) {
                0 => 0,
                1 => n - 1,
                _ => u.rng.below(n),
            };
            rects.push((pickc(w), pickc(h), pickc(w), pickc(h)));
        }
        rects.push((0, 0, w - 1, h - 1));
        rects.push((0, h - 1, w - 1, h - 1));
        rects.push((w - 1, 0, w - 1, h - 1));
        rects.push((w - 1, h - 1, w - 1, h - 1));
    }
    for (ax, ay, bx, by) in rects {
        // Only rectangles with ordered corners
        let (x0, x1, y0, y1) = (ax.min(bx), ax.max(bx), ay.min(by), ay.max(by));
        let mut want = vec![];
        for y in y0..=y1 {
            for x in x0..=x1 {
                want.push(P::at(x, y));
            }
        }
        u.case(&("rect", x0, y0, x1, y1));
        let what = format!("{name} iter_range(({x0},{y0}),({x1},{y1}))");
        u.describe(what.clone());
        whole(u, &what, P::iter_range(P::at(x0, y0), P::at(x1, y1)), &want);
        if F {
            finish(u, &what, P::iter_range(P::at(x0, y0), P::at(x1, y1)), &want);
        }
        if want.len() < 2000 && u.rng.pct(20) {
            history::<F, _, _>(u, &what, || P::iter_range(P::at(x0, y0), P::at(x1, y1)), &want);
        }
        u.count("rectangles", 1);
    }
}

fn check<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    positions::<Pos<X, Y>, false>(u, X as usize + 1, Y as usize + 1);
}

/// With whole iterations in one go
fn check_full<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    positions::<Pos<X, Y>, true>(u, X as usize + 1, Y as usize + 1);
}

fn offset(u: &mut U) {
    let at = |x: i64, y: i64| OffsetPos(sqrid::BoundedI8(x as i8), sqrid::BoundedU16(y as u16));
    let (mut rows, mut cols) = (vec![], vec![]);
    for y in 10..=15 {
        for x in -3..=4 {
            rows.push(at(x, y));
        }
    }
    for x in -3..=4 {
        for y in 10..=15 {
            cols.push(at(x, y));
        }
    }
    whole(u, "OffsetPos iter", OffsetPos::iter(), &rows);
    whole(u, "OffsetPos iter_vertical", OffsetPos::iter_vertical(), &cols);
    for x in -3..=4 {
        let col: Vec<_> = (10..=15).map(|y| at(x, y)).collect();
        let mk = || OffsetPos::iter_in_x(sqrid::BoundedI8(x as i8));
        whole(u, "OffsetPos iter_in_x", mk(), &col);
        for _ in 0..u.scale(30, 200) {
            history::<true, _, _>(u, "OffsetPos iter_in_x", mk, &col);
            finish(u, "OffsetPos iter_in_x", mk(), &col);
        }
    }
    for y in 10..=15 {
        let row: Vec<_> = (-3..=4).map(|x| at(x, y)).collect();
        let mk = || OffsetPos::iter_in_y(sqrid::BoundedU16(y as u16));
        whole(u, "OffsetPos iter_in_y", mk(), &row);
        for _ in 0..u.scale(30, 200) {
            history::<true, _, _>(u, "OffsetPos iter_in_y", mk, &row);
            finish(u, "OffsetPos iter_in_y", mk(), &row);
        }
    }
    for x0 in -3..=4 {
        for x1 in x0..=4 {
            for y0 in 10..=15 {
                for y1 in y0..=15 {
                    let mut want = vec![];
                    for y in y0..=y1 {
                        for x in x0..=x1 {
                            want.push(at(x, y));
                        }
                    }
                    u.case(&(x0, x1, y0, y1));
                    let what = format!("OffsetPos iter_range(({x0},{y0}),({x1},{y1}))");
                    whole(u, &what, OffsetPos::iter_range(at(x0, y0), at(x1, y1)), &want);
                    finish(u, &what, OffsetPos::iter_range(at(x0, y0), at(x1, y1)), &want);
                    history::<true, _, _>(u, &what, || OffsetPos::iter_range(at(x0, y0), at(x1, y1)), &want);
                }
            }
        }
    }
    for _ in 0..u.scale(50, 500) {
        finish(u, "OffsetPos iter", OffsetPos::iter(), &rows);
        finish_back(u, "OffsetPos iter", OffsetPos::iter(), &rows);
        finish(u, "OffsetPos iter_vertical", OffsetPos::iter_vertical(), &cols);
        finish_back(u, "OffsetPos iter_vertical", OffsetPos::iter_vertical(), &cols);
        both_ends::<true, _, _>(u, "OffsetPos iter", OffsetPos::iter(), &rows, Some(Clone::clone));
        both_ends::<true, _, _>(u, "OffsetPos iter_vertical", OffsetPos::iter_vertical(), &cols, Some(Clone::clone));
    }
}

/// Signed plain positions: ranges, rows and columns around zero
fn signed(u: &mut U) {
    type P = (i8, i8);
    for _ in 0..u.scale(60, 600) {
        let mut c: Vec<i8> = (0..4).map(|_| u.rng.range(-128, 127) as i8).collect();
        match u.rng.below(4) {
            0 => c[1] = 127,
            1 => c[0] = -128,
            2 => c[3] = 127,
            _ => c[2] = -128,
        }
        let (x0, x1) = (c[0].min(c[1]), c[0].max(c[1]));
        let (y0, y1) = (c[2].min(c[3]), c[2].max(c[3]));
        let mut want = vec![];
        for y in y0..=y1 {
            for x in x0..=x1 {
                want.push((x, y));
            }
        }
        u.case(&c);
        let what = format!("(i8,i8) iter_range(({x0},{y0}),({x1},{y1}))");
        whole(u, &what, P::iter_range((x0, y0), (x1, y1)), &want);
        let col: Vec<P> = (-128..=127).map(|y| (c[0], y)).collect();
        whole(u, "(i8,i8) iter_in_x", P::iter_in_x(c[0]), &col);
        let row: Vec<P> = (-128..=127).map(|x| (x, c[1])).collect();
        whole(u, "(i8,i8) iter_in_y", P::iter_in_y(c[1]), &row);
    }
    let rows: Vec<P> = (-128..=127).flat_map(|y| (-128..=127).map(move |x| (x, y))).collect();
    whole(u, "(i8,i8) iter", P::iter(), &rows);
    both_ends::<true, _, _>(u, "(i8,i8) iter", P::iter(), &rows, Some(Clone::clone));
    let cols: Vec<P> = (-128..=127).flat_map(|x| (-128..=127).map(move |y| (x, y))).collect();
    whole(u, "(i8,i8) iter_vertical", P::iter_vertical(), &cols);
}

/// Position types that are too large to be iterated completely
fn huge(u: &mut U) {
    fn ends<P: TP>(u: &mut U, w: usize, h: usize) {
        let k = 3000.min(w + 20);
        let k = if w > 70000 { 500 } else { k };
        let first: Vec<P> = (0..k).map(|i| P::at(i % w, i / w)).collect();
        let got: Vec<P> = P::iter().take(k).collect();
        ckeq!(got, first, "{}: first items", P::name());
        let last: Vec<P> = (0..k).map(|i| P::at((w - 1) - i % w, (h - 1) - i / w)).collect();
        let got: Vec<P> = P::iter().rev().take(k).collect();
        ckeq!(got, last, "{}: last items", P::name());
        let got: Vec<P> = P::iter_vertical().rev().take(k).collect();
        let last: Vec<P> = (0..k).map(|i| P::at((w - 1) - i / h, (h - 1) - i % h)).collect();
        ckeq!(got, last, "{}: last items, vertically", P::name());
        for _ in 0..u.scale(30, 300) {
            // Rectangles that touch the last corner
            let (a, b) = (u.rng.below(20), u.rng.below(20));
            let mut want = vec![];
            for y in (0..=b).rev() {
                for x in (0..=a).rev() {
                    want.push(P::at(w - 1 - x, h - 1 - y));
                }
            }
            u.case(&(P::name(), a, b));
            whole(u, "rectangle at the last corner", P::iter_range(P::at(w - 1 - a, h - 1 - b), P::at(w - 1, h - 1)), &want);
            let (x, y) = (u.rng.below(w - 20), u.rng.below(h - 20));
            let mut want = vec![];
            for dy in 0..=b {
                for dx in 0..=a {
                    want.push(P::at(x + dx, y + dy));
                }
            }
            whole(u, "rectangle", P::iter_range(P::at(x, y), P::at(x + a, y + b)), &want);
        }
    }
    ends::<Pos<65535, 65535>>(u, 65536, 65536);
    ends::<(u16, u16)>(u, 65536, 65536);
    ends::<(u32, u32)>(u, 1 << 32, 1 << 32);
    ends::<UserPos<255, 0xFFFFFFFF>>(u, 256, 1 << 32);
}

/// Bounded integers
fn ints(u: &mut U) {
    macro_rules! full {
        ($t:ty, $lo:expr, $hi:expr, $mk:expr) => {{
            let want: Vec<$t> = ($lo..=$hi).map($mk).collect();
            let what = stringify!($t);
            u.describe(what.into());
            whole(u, what, <$t as BoundedInt>::iter(), &want);
            let mut rev = want.clone();
            rev.reverse();
            whole(u, what, <$t as BoundedInt>::iter().rev(), &rev);
            ckeq!(<$t as BoundedInt>::iter().count(), want.len(), "{what} count");
            for _ in 0..u.scale(20, 200) {
                both_ends::<true, _, _>(u, what, <$t as BoundedInt>::iter(), &want, None);
                // Part of the range
                let (mut a, mut b) = (u.rng.below(want.len()), u.rng.below(want.len()));
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                match u.rng.below(4) {
                    0 => a = 0,
                    1 => b = want.len() - 1,
                    2 => b = a,
                    _ => {}
                }
                both_ends::<true, _, _>(u, what, BoundedIntIterator::new(want[a], want[b]), &want[a..=b], None);
                whole(u, what, BoundedIntIterator::new(want[a], want[b]), &want[a..=b]);
            }
            u.count("bounded integer ranges", 1);
        }};
    }
    full!(u8, 0u8, 255u8, |v| v);
    full!(i8, -128i8, 127i8, |v| v);
    full!(u16, 0u16, 65535u16, |v| v);
    full!(i16, -32768i16, 32767i16, |v| v);
    full!(sqrid::BoundedU8<0, 255>, 0u8, 255u8, sqrid::BoundedU8);
    full!(sqrid::BoundedU8<0, 0>, 0u8, 0u8, sqrid::BoundedU8);
    full!(sqrid::BoundedU8<255, 255>, 255u8, 255u8, sqrid::BoundedU8);
    full!(sqrid::BoundedU8<7, 19>, 7u8, 19u8, sqrid::BoundedU8);
    full!(sqrid::BoundedI8<-128, 127>, -128i8, 127i8, sqrid::BoundedI8);
    full!(sqrid::BoundedI8<-5, -2>, -5i8, -2i8, sqrid::BoundedI8);
    full!(sqrid::BoundedI8<-1, 0>, -1i8, 0i8, sqrid::BoundedI8);
    full!(sqrid::BoundedU16<0, 1>, 0u16, 1u16, sqrid::BoundedU16);
    full!(sqrid::BoundedU16<0, 65535>, 0u16, 65535u16, sqrid::BoundedU16);
    full!(sqrid::BoundedU16<65530, 65535>, 65530u16, 65535u16, sqrid::BoundedU16);
    full!(sqrid::BoundedI16<-300, 300>, -300i16, 300i16, sqrid::BoundedI16);
    full!(sqrid::BoundedU32<4294967290, 4294967295>, 4294967290u32, 4294967295u32, sqrid::BoundedU32);
    full!(sqrid::BoundedI32<-2147483648, -2147483640>, -2147483648i32, -2147483640i32, sqrid::BoundedI32);
    full!(sqrid::BoundedU64<18446744073709551600, 18446744073709551615>, 18446744073709551600u64, 18446744073709551615u64, sqrid::BoundedU64);
    full!(sqrid::BoundedI64<-3, 3>, -3i64, 3i64, sqrid::BoundedI64);
    full!(sqrid::BoundedU128<100, 130>, 100u128, 130u128, sqrid::BoundedU128);
    full!(sqrid::BoundedI128<-9, 9>, -9i128, 9i128, sqrid::BoundedI128);
    full!(sqrid::BoundedIsize<-2, 11>, -2isize, 11isize, sqrid::BoundedIsize);
    // Ends of wide types
    macro_rules! wide {
        ($($t:ty),*) => { $( for k in [0, 1, 2, 50] {
            let want: Vec<$t> = ((<$t>::MAX - k)..=<$t>::MAX).collect();
            both_ends::<true, _, _>(u, stringify!($t), BoundedIntIterator::new(<$t>::MAX - k, <$t>::MAX), &want, None);
            whole(u, stringify!($t), BoundedIntIterator::new(<$t>::MAX - k, <$t>::MAX), &want);
            let want: Vec<$t> = (<$t>::MIN..=<$t>::MIN + k).collect();
            both_ends::<true, _, _>(u, stringify!($t), BoundedIntIterator::new(<$t>::MIN, <$t>::MIN + k), &want, None);
            let want: Vec<$t> = (0..=k).collect();
            both_ends::<true, _, _>(u, stringify!($t), BoundedIntIterator::new(0, k), &want, None);
            let got: Vec<$t> = <$t as BoundedInt>::iter().take(30).collect();
            ckeq!(got, (0..30).map(|i| <$t>::MIN + i).collect::<Vec<_>>(), "first of {}", stringify!($t));
            let got: Vec<$t> = <$t as BoundedInt>::iter().rev().take(30).collect();
            ckeq!(got, (0..30).map(|i| <$t>::MAX - i).collect::<Vec<_>>(), "last of {}", stringify!($t));
        } )* };
    }
    wide!(u32, i32, u64, i64, u128, i128, usize, isize);
}

fn main() {
    let mut m = Mon::new(
        "C03",
        "whole iterations and random histories (next, next_back, nth, nth_back, skip, step_by, take, clone, count, last, size_hint) of every iterator against the list of expected values, for each grid size, rectangle, row, column and integer range; a case is a distinct (iterator, history) or rectangle",
    );
    m.require("histories", 1000);
    m.require("two-ended histories", 1000);
    m.require("rectangles", 2000);
    m.require("bounded integer ranges", 20);
    tiny_dims!(m, "iterate", 1, 2, check);
    medium_dims!(m, "iterate", 1, 2, check);
    large_dims!(m, "iterate", 1, 2, check);
    sqmon::huge_dims!(m, "iterate", 1, 2, check);
    seeded_dims!(m, "iterate", 1, 2, check);
    sqmon::units_dims!(m, "one go", 1, 2, check_full, [(0, 0), (1, 1), (4, 0), (0, 5), (3, 4), (12, 9), (254, 1), (255, 0), (0, 256), (2, 65535)]);
    m.shards("user 5x7", 1, 2, |u| positions::<UserPos<4, 6>, true>(u, 5, 7));
    m.shards("user 1x1", 1, 2, |u| positions::<UserPos<0, 0>, true>(u, 1, 1));
    m.shards("user 256x3", 1, 2, |u| positions::<UserPos<255, 2>, true>(u, 256, 3));
    m.shards("u8 pairs", 1, 2, |u| positions::<(u8, u8), true>(u, 256, 256));
    m.unit("offset", offset);
    m.unit("signed", signed);
    m.unit("huge", huge);
    m.unit("integers", ints);
    m.run()
}
