#![allow(irrefutable_let_patterns)]
//! C01: only in-grid positions can be created, coordinates survive exactly

use sqmon::mon::{catch, Mon, U};
use sqmon::search::{OffsetPos, UserPos, TP};
use sqmon::{ck, ckeq, large_dims, medium_dims, seeded_dims, tiny_dims};
use sqrid::postrait::PosT;
use sqrid::{BoundedInt, BoundedU16, BoundedU32, BoundedU8, Error, Pos};

/// Coordinate candidates: around the range, and around what truncation,
/// sign changes and wrapping would alias to it
fn candidates(u: &mut U, max: i128) -> Vec<i128> {
    let mut v: Vec<i128> = vec![];
    if max <= 12 {
        v.extend(-2..=max + 2);
    } else {
        v.extend([-2, -1, 0, 1, 2, max / 2, max - 1, max, max + 1, max + 2]);
        for _ in 0..6 {
            v.push(u.rng.below(max as usize + 1) as i128);
        }
    }
    for base in [0, 1, max, u.rng.below(max as usize + 1) as i128] {
        for p in [8, 15, 16, 31, 32, 63, 64, 100] {
            v.push(base + (1i128 << p));
            v.push(base - (1i128 << p));
        }
    }
    for p in [7, 8, 15, 16, 31, 32, 63, 64] {
        v.push((1i128 << p) - 1);
        v.push(1i128 << p);
        v.push(-(1i128 << p));
        v.push(-(1i128 << p) - 1);
    }
    v.push(i128::MAX);
    v.push(i128::MIN);
    v.sort();
    v.dedup();
    v
}

/// Everything a position says about itself
fn observe<const X: u16, const Y: u16>(p: Pos<X, Y>, x: i128, y: i128, how: &str) {
    let (ux, uy) = (x as u16, y as u16);
    let (ix, iy) = (x as i32, y as i32);
    ckeq!((p.x(), p.y()), (ux, uy), "{how}: x(), y()");
    ckeq!(p.tuple(), (ux, uy), "{how}: tuple()");
    ckeq!(p.co(), (ux as usize, uy as usize), "{how}: stored coordinates");
    let t = <Pos<X, Y> as PosT>::tuple(&p);
    ckeq!((t.0.into_inner(), t.1.into_inner()), (ux, uy), "{how}: PosT::tuple()");
    let t = p.into_tuple();
    ckeq!((t.0.into_inner(), t.1.into_inner()), (ux, uy), "{how}: into_tuple()");
    ckeq!(PosT::inner_tuple(p), (ux, uy), "{how}: inner_tuple()");
    ckeq!(PosT::x(&p).into_inner(), ux, "{how}: PosT::x()");
    ckeq!(PosT::y(&p).into_inner(), uy, "{how}: PosT::y()");
    ckeq!(<(u16, u16)>::from(p), (ux, uy), "{how}: into (u16,u16)");
    ckeq!(<(u16, u16)>::from(&p), (ux, uy), "{how}: &pos into (u16,u16)");
    ckeq!(<(i32, i32)>::from(p), (ix, iy), "{how}: into (i32,i32)");
    ckeq!(<(i32, i32)>::from(&p), (ix, iy), "{how}: &pos into (i32,i32)");
}

fn judge<const X: u16, const Y: u16>(r: Result<Pos<X, Y>, Error>, x: i128, y: i128, how: &str) {
    let inside = 0 <= x && x <= X as i128 && 0 <= y && y <= Y as i128;
    match r {
        Ok(p) => {
            ck!(inside, "{how}({x},{y}) on {}x{}: accepted, as {:?}", X as u32 + 1, Y as u32 + 1, p.co());
            observe(p, x, y, how);
        }
        Err(e) => {
            ck!(!inside, "{how}({x},{y}) on {}x{}: refused", X as u32 + 1, Y as u32 + 1);
            ckeq!(e, Error::OutOfBounds, "{how}({x},{y}): error");
        }
    }
}

fn check<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    type P<const X: u16, const Y: u16> = Pos<X, Y>;
    let xs = candidates(u, X as i128);
    let ys = candidates(u, Y as i128);
    let mut pairs = vec![];
    for &x in &xs {
        for &y in &ys {
            pairs.push((x, y));
        }
    }
    u.rng.shuffle(&mut pairs);
    pairs.truncate(u.scale(1500, 12000));
    // Always include all the pairs around the range
    for x in [-1, 0, X as i128, X as i128 + 1] {
        for y in [-1, 0, Y as i128, Y as i128 + 1] {
            pairs.push((x, y));
        }
    }
    if S <= 200 {
        pairs.extend((0..S as i128).map(|i| (i % (X as i128 + 1), i / (X as i128 + 1))));
    } else {
        for _ in 0..200 {
            pairs.push((u.rng.below(X as usize + 1) as i128, u.rng.below(Y as usize + 1) as i128));
        }
    }
    for &(x, y) in &pairs {
        let before = u.rng.below(1 << 20);
        let mut n = 0;
        u.describe(format!("coordinates ({x},{y})"));
        macro_rules! generic {
            ($(($t:ty, $v:ty)),*) => { $(
                if let (Ok(tx), Ok(ty)) = (<$t>::try_from(x), <$v>::try_from(y)) {
                    judge::<X, Y>(<P<X, Y> as PosT>::new(tx, ty), x, y,
                        concat!("PosT::new::<", stringify!($t), ",", stringify!($v), ">"));
                    n += 1;
                }
            )* };
        }
        generic!(
            (u8, u8), (u16, u16), (u32, u32), (u64, u64), (u128, u128), (usize, usize),
            (i8, i8), (i16, i16), (i32, i32), (i64, i64), (i128, i128), (isize, isize),
            (u8, i32), (i64, u16), (usize, i8), (i128, u32), (u16, usize), (i32, u64)
        );
        if let (Ok(a), Ok(b)) = (u16::try_from(x), u16::try_from(y)) {
            judge::<X, Y>(P::<X, Y>::new(a, b), x, y, "Pos::new");
            judge::<X, Y>(P::<X, Y>::try_from((a, b)), x, y, "TryFrom<(u16,u16)>");
            judge::<X, Y>(P::<X, Y>::try_from(&(a, b)), x, y, "TryFrom<&(u16,u16)>");
            let inside = x <= X as i128 && y <= Y as i128;
            if inside || before % 8 == 0 {
                let r = catch(|| P::<X, Y>::new_unwrap(a, b)).map_err(|_| Error::OutOfBounds);
                judge::<X, Y>(r, x, y, "Pos::new_unwrap");
            }
            judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos((a, b)), x, y, "tryfrom_pos((u16,u16))");
            if let (Ok(bx), Ok(by)) = (BoundedU16::<0, X>::new(a), BoundedU16::<0, Y>::new(b)) {
                judge::<X, Y>(Ok(P::<X, Y>::from((bx, by))), x, y, "From<(BoundedU16,BoundedU16)>");
                judge::<X, Y>(Ok(P::<X, Y>::from(&(bx, by))), x, y, "From<&(BoundedU16,BoundedU16)>");
                judge::<X, Y>(Ok(<P<X, Y> as PosT>::new_((bx, by))), x, y, "new_");
                judge::<X, Y>(<P<X, Y> as PosT>::new(bx.into_inner(), by.into_inner()), x, y, "new(inner)");
            } else {
                ck!(!inside, "BoundedU16::new refused the coordinates ({x},{y})");
            }
            if let Ok(o) = Pos::<40, 7>::new(a, b) {
                judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos(o), x, y, "tryfrom_pos(Pos<40,7>)");
            }
            if let Ok(o) = Pos::<2, 3000>::new(a, b) {
                judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos(o), x, y, "tryfrom_pos(Pos<2,3000>)");
            }
            if let Ok(o) = <UserPos<200, 70000> as PosT>::new(a, b) {
                judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos(o), x, y, "tryfrom_pos(UserPos)");
            }
            n += 8;
        }
        if let (Ok(a), Ok(b)) = (i32::try_from(x), i32::try_from(y)) {
            judge::<X, Y>(P::<X, Y>::try_from((a, b)), x, y, "TryFrom<(i32,i32)>");
            judge::<X, Y>(P::<X, Y>::try_from(&(a, b)), x, y, "TryFrom<&(i32,i32)>");
            judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos((a, b)), x, y, "tryfrom_pos((i32,i32))");
            n += 3;
        }
        if let (Ok(a), Ok(b)) = (u8::try_from(x), u8::try_from(y)) {
            judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos((a, b)), x, y, "tryfrom_pos((u8,u8))");
        }
        if let (Ok(a), Ok(b)) = (i8::try_from(x), i8::try_from(y)) {
            judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos((a, b)), x, y, "tryfrom_pos((i8,i8))");
        }
        if let (Ok(a), Ok(b)) = (u128::try_from(x), u128::try_from(y)) {
            judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos((a, b)), x, y, "tryfrom_pos((u128,u128))");
        }
        if let (Ok(a), Ok(b)) = (u64::try_from(x), u64::try_from(y)) {
            judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_pos((a, b)), x, y, "tryfrom_pos((u64,u64))");
        }
        if n > 0 {
            u.case(&(x, y));
            u.evals(n);
            let inside = 0 <= x && x <= X as i128 && 0 <= y && y <= Y as i128;
            u.count(if inside { "pairs inside" } else { "pairs outside" }, 1);
        }
    }
    u.sample(|| format!("{} coordinate pairs, e.g. {:?}", pairs.len(), &pairs[..3.min(pairs.len())]));
    // Linear indexes
    let mut idx: Vec<usize> = vec![];
    if S <= 5000 {
        idx.extend(0..S + 20);
    } else {
        idx.extend([0, 1, S - 2, S - 1, S, S + 1]);
        for _ in 0..500 {
            idx.push(u.rng.below(S * 2));
        }
    }
    for base in [0usize, 1, S - 1, S / 2] {
        for p in [8, 16, 31, 32, 48, 63] {
            idx.push(base + (1usize << p));
        }
        // These wrap to an index inside the grid in narrower arithmetic
        idx.push(base.wrapping_add((X as usize + 1) << 16));
        idx.push(base.wrapping_add((X as usize + 1) << 32));
    }
    idx.extend([usize::MAX, usize::MAX - 1, isize::MAX as usize]);
    for i in idx {
        let (x, y) = ((i % (X as usize + 1)) as i128, (i / (X as usize + 1)) as i128);
        u.describe(format!("index {i}"));
        u.case(&("index", i));
        judge::<X, Y>(P::<X, Y>::try_from(i), x, y, "TryFrom<usize> as");
        judge::<X, Y>(<P<X, Y> as PosT>::tryfrom_usize(i), x, y, "tryfrom_usize as");
    }
    // Named positions and dimensions
    u.describe("named positions".into());
    let (mx, my) = (X as i128, Y as i128);
    observe(P::<X, Y>::FIRST, 0, 0, "FIRST");
    observe(P::<X, Y>::LAST, mx, my, "LAST");
    observe(P::<X, Y>::TOP_LEFT, 0, 0, "TOP_LEFT");
    observe(P::<X, Y>::TOP_RIGHT, mx, 0, "TOP_RIGHT");
    observe(P::<X, Y>::BOTTOM_LEFT, 0, my, "BOTTOM_LEFT");
    observe(P::<X, Y>::BOTTOM_RIGHT, mx, my, "BOTTOM_RIGHT");
    observe(<P<X, Y> as PosT>::first(), 0, 0, "first()");
    observe(<P<X, Y> as PosT>::last(), mx, my, "last()");
    observe(P::<X, Y>::default(), 0, 0, "default()");
    // The centre, rounded towards the first position
    let (cx, cy) = (P::<X, Y>::CENTER.co().0 as i128, P::<X, Y>::CENTER.co().1 as i128);
    ckeq!((cx, cy), (mx / 2, my / 2), "CENTER");
    observe(P::<X, Y>::CENTER, cx, cy, "CENTER");
    observe(P::<X, Y>::new_static::<0, 0>(), 0, 0, "new_static::<0,0>");
    observe(P::<X, Y>::new_static::<X, Y>(), mx, my, "new_static::<XMAX,YMAX>");
    let (w, h) = (X as usize + 1, Y as usize + 1);
    ckeq!((P::<X, Y>::XMAX, P::<X, Y>::YMAX), (X, Y), "XMAX, YMAX");
    ckeq!((<P<X, Y> as PosT>::WIDTH, <P<X, Y> as PosT>::HEIGHT), (w, h), "PosT::WIDTH, PosT::HEIGHT");
    ckeq!((<P<X, Y> as PosT>::width(), <P<X, Y> as PosT>::height()), (w, h), "width(), height()");
    ckeq!(<P<X, Y> as PosT>::dimensions(), w * h, "dimensions()");
    u.evals(16);
}

/// Constants that only exist below the limit of 16 bits
fn consts<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    ckeq!((Pos::<X, Y>::WIDTH, Pos::<X, Y>::HEIGHT), (X + 1, Y + 1), "WIDTH, HEIGHT");
    ckeq!(Pos::<X, Y>::SIZE, S, "SIZE");
    ckeq!(sqrid::Sqrid::<X, Y, false, W, S>::XMAX, X, "Sqrid::XMAX");
    ckeq!(sqrid::Sqrid::<X, Y, true, W, S>::YMAX, Y, "Sqrid::YMAX");
    u.case(&0);
}

/// Positions made of plain integers, and user-written ones
fn others(u: &mut U) {
    macro_rules! tuple {
        ($t:ty, $src:ty) => {{
            let max = <$t>::MAX as i128;
            for x in candidates(u, max.min(1 << 40)) {
                for y in [0i128, 1, max, max / 3] {
                    if let (Ok(a), Ok(b)) = (<$src>::try_from(x), <$src>::try_from(y)) {
                        u.describe(format!("({x},{y}) into {}", stringify!($t)));
                        u.case(&(stringify!($t), stringify!($src), x, y));
                        let fits = <$t>::try_from(x).is_ok() && <$t>::try_from(y).is_ok();
                        match <($t, $t) as PosT>::new(a, b) {
                            Ok(p) => {
                                ck!(fits, "PosT::new({x},{y}) accepted as {p:?}");
                                ckeq!((p.0 as i128, p.1 as i128), (x, y), "PosT::new({x},{y})");
                                ckeq!(p.tuple(), p, "tuple()");
                                ckeq!(p.into_tuple(), p, "into_tuple()");
                                ckeq!(p.inner_tuple(), p, "inner_tuple()");
                                ckeq!((PosT::x(&p), PosT::y(&p)), p, "x(), y()");
                            }
                            Err(e) => {
                                ck!(!fits, "PosT::new({x},{y}) refused by {}", stringify!($t));
                                ckeq!(e, Error::OutOfBounds, "error");
                            }
                        }
                        let r = <($t, $t) as PosT>::tryfrom_pos(Pair(a, b));
                        ckeq!(r.is_ok(), fits, "tryfrom_pos(({x},{y}) of {})", stringify!($src));
                        if let Ok(p) = r {
                            ckeq!((p.0 as i128, p.1 as i128), (x, y), "tryfrom_pos({x},{y})");
                        }
                    }
                }
            }
        }};
    }
    tuple!(u8, u8);
    tuple!(u8, u16);
    tuple!(u8, i32);
    tuple!(u8, i128);
    tuple!(u16, u8);
    tuple!(u16, u32);
    tuple!(u16, i16);
    tuple!(u16, i64);
    tuple!(u32, u64);
    tuple!(u32, i32);
    tuple!(u32, usize);
    tuple!(u64, i8);
    tuple!(u64, i128);
    tuple!(i8, u8);
    tuple!(i8, i16);
    tuple!(i16, u16);
    tuple!(i16, i64);
    tuple!(i32, u32);
    tuple!(i32, i64);
    tuple!(i32, u16);

    // User-written types
    fn user<const X: u8, const Y: u32>(u: &mut U) {
        for x in candidates(u, X as i128) {
            for y in candidates(u, Y as i128) {
                if let (Ok(a), Ok(b)) = (i64::try_from(x), i128::try_from(y)) {
                    u.case(&("user", X, Y, x, y));
                    let fits = 0 <= x && x <= X as i128 && 0 <= y && y <= Y as i128;
                    match <UserPos<X, Y> as PosT>::new(a, b) {
                        Ok(p) => {
                            ck!(fits, "UserPos<{X},{Y}>::new({x},{y}) accepted as {p:?}");
                            ckeq!(p.co(), (x as usize, y as usize), "UserPos::new");
                            ckeq!((p.x().0 as i128, p.y().0 as i128), (x, y), "UserPos::x/y");
                            ckeq!(p.inner_tuple(), (x as u8, y as u32), "UserPos::inner_tuple");
                            ckeq!(p.into_tuple(), (p.0, p.1), "UserPos::into_tuple");
                            let _: (BoundedU8<0, X>, BoundedU32<0, Y>) = p.tuple();
                        }
                        Err(e) => {
                            ck!(!fits, "UserPos<{X},{Y}>::new({x},{y}) refused");
                            ckeq!(e, Error::OutOfBounds, "error");
                        }
                    }
                }
            }
        }
        ckeq!(<UserPos<X, Y> as PosT>::first().co(), (0, 0), "first()");
        ckeq!(<UserPos<X, Y> as PosT>::last().co(), (X as usize, Y as usize), "last()");
        ckeq!(<UserPos<X, Y> as PosT>::width(), X as usize + 1, "width()");
        ckeq!(<UserPos<X, Y> as PosT>::height(), Y as usize + 1, "height()");
        let n = (X as usize + 1) * (Y as usize + 1);
        ckeq!(<UserPos<X, Y> as PosT>::dimensions(), n, "dimensions()");
        for i in (0..n.min(2000)).chain([n - 1, n, n + 1, n * 2, usize::MAX, 1 << 32, 1 << 40]) {
            u.case(&("useridx", X, Y, i));
            let r = <UserPos<X, Y> as PosT>::tryfrom_usize(i);
            ckeq!(r.is_ok(), i < n, "tryfrom_usize({i})");
            if let Ok(p) = r {
                ckeq!(p.co(), (i % (X as usize + 1), i / (X as usize + 1)), "tryfrom_usize({i})");
            }
        }
    }
    user::<0, 0>(u);
    user::<4, 6>(u);
    user::<255, 1>(u);
    user::<2, 70000>(u);
    // Coordinates that don't start at zero
    for x in -130i128..=130 {
        for y in -5i128..=25 {
            let fits = (-3..=4).contains(&x) && (10..=15).contains(&y);
            u.case(&("offset", x, y));
            let r = OffsetPos::new(x as i16, y as i64);
            ckeq!(r.is_ok(), fits, "OffsetPos::new({x},{y})");
            if let Ok(p) = r {
                ckeq!((p.0 .0 as i128, p.1 .0 as i128), (x, y), "OffsetPos::new");
                ckeq!((p.tuple().0 .0 as i128, p.tuple().1 .0 as i128), (x, y), "OffsetPos::tuple");
            }
        }
    }
    ckeq!((OffsetPos::first().0 .0, OffsetPos::first().1 .0), (-3, 10), "first()");
    ckeq!((OffsetPos::last().0 .0, OffsetPos::last().1 .0), (4, 15), "last()");
    // Dimensions of the plain integer types
    ckeq!((<(u8, u8)>::width(), <(u8, u8)>::height()), (256, 256), "(u8,u8) dimensions");
    ckeq!((<(u8, u8) as PosT>::WIDTH, <(u8, u8) as PosT>::HEIGHT), (256, 256), "(u8,u8) WIDTH");
    ckeq!(<(u8, u8)>::dimensions(), 65536, "(u8,u8) dimensions()");
    ckeq!((<(u16, u16)>::width(), <(u16, u16)>::height()), (65536, 65536), "(u16,u16) dimensions");
    ckeq!((<(u16, u16) as PosT>::WIDTH, <(u16, u16) as PosT>::HEIGHT), (65536, 65536), "(u16,u16) WIDTH");
    ckeq!(<(u16, u16)>::dimensions(), 1 << 32, "(u16,u16) dimensions()");
    ckeq!(<(u32, u32)>::width(), 1 << 32, "(u32,u32) width");
    ckeq!(<(u32, u32) as PosT>::WIDTH, 1 << 32, "(u32,u32) WIDTH");
    ckeq!(<(u32, u32) as PosT>::HEIGHT, 1 << 32, "(u32,u32) HEIGHT");
    // As near as it gets
    ckeq!((<(u64, u64)>::width(), <(u64, u64)>::height(), <(u64, u64)>::dimensions()), (usize::MAX, usize::MAX, usize::MAX), "(u64,u64) dimensions");
    ckeq!((<(u64, u64) as PosT>::WIDTH, <(u64, u64) as PosT>::HEIGHT), (usize::MAX, usize::MAX), "(u64,u64) WIDTH, HEIGHT");
    ckeq!((<(u128, u128)>::width(), <(u128, u128)>::height(), <(u128, u128)>::dimensions()), (usize::MAX, usize::MAX, usize::MAX), "(u128,u128) dimensions");
    ckeq!((<(i8, i8) as PosT>::WIDTH, <(i16, i16) as PosT>::HEIGHT), (256, 65536), "signed WIDTH, HEIGHT");
}

/// A pair of any integers as a position, to convert from
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd)]
struct Pair<T>(T, T);
impl<T: BoundedInt> PosT for Pair<T> {
    type Xtype = T;
    type Ytype = T;
    const WIDTH: usize = 0;
    const HEIGHT: usize = 0;
    fn new_(xy: (T, T)) -> Self {
        Pair(xy.0, xy.1)
    }
    fn x(&self) -> T {
        self.0
    }
    fn y(&self) -> T {
        self.1
    }
}

fn main() {
    let mut m = Mon::new(
        "C01",
        "for each grid size: coordinate pairs around the range, around the limits of every integer type and at the aliases that truncation/sign change would produce, given to every constructor; linear indexes likewise; a case is a distinct (grid, pair or index) given to at least one constructor",
    );
    m.require("pairs inside", 1000);
    m.require("pairs outside", 1000);
    tiny_dims!(m, "create", 1, 1, check);
    medium_dims!(m, "create", 1, 1, check);
    large_dims!(m, "create", 1, 1, check);
    seeded_dims!(m, "create", 1, 1, check);
    sqmon::units_dims!(m, "create", 1, 1, check, [(127, 128), (32767, 32768), (65534, 2), (65535, 65535), (255, 65535), (12345, 54321)]);
    tiny_dims!(m, "consts", 1, 1, consts);
    medium_dims!(m, "consts", 1, 1, consts);
    sqmon::units_dims!(m, "consts", 1, 1, consts, [(254, 1), (255, 0), (0, 256), (255, 255), (300, 700), (65534, 65534)]);
    m.unit("other position types", others);
    m.run()
}
