//! C04: bounded integers never leave their range, arithmetic is exact

use sqmon::mon::{catch, hash_of, Mon, U};
use sqmon::{ck, ckeq};
use sqrid::{BoundedInt, Error};
use std::cmp::Ordering;
use std::fmt::{Debug, Display};

/// A mathematical integer, wide enough for all types and sums
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Z {
    neg: bool,
    mag: u128,
}

impl Z {
    fn new(neg: bool, mag: u128) -> Z {
        Z { neg: neg && mag != 0, mag }
    }
    /// `None`: the magnitude is beyond 128 bits, i.e. beyond all types
    fn add(self, o: Z) -> Option<Z> {
        if self.neg == o.neg {
            Some(Z::new(self.neg, self.mag.checked_add(o.mag)?))
        } else if self.mag >= o.mag {
            Some(Z::new(self.neg, self.mag - o.mag))
        } else {
            Some(Z::new(o.neg, o.mag - self.mag))
        }
    }
    fn minus(self) -> Z {
        Z::new(!self.neg, self.mag)
    }
    fn sub(self, o: Z) -> Option<Z> {
        self.add(o.minus())
    }
}
impl PartialOrd for Z {
    fn partial_cmp(&self, o: &Z) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Z {
    fn cmp(&self, o: &Z) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
}
impl Debug for Z {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{}", if self.neg { "-" } else { "" }, self.mag)
    }
}

trait Int: Copy + Debug + Display + 'static {
    const NAME: &'static str;
    const LO: Z;
    const HI: Z;
    fn z(self) -> Z;
    fn of(z: Z) -> Option<Self>;
}
macro_rules! int {
    (signed $($t:ident),*) => { $( impl Int for $t {
        const NAME: &'static str = stringify!($t);
        const LO: Z = Z { neg: true, mag: <$t>::MAX as u128 + 1 };
        const HI: Z = Z { neg: false, mag: <$t>::MAX as u128 };
        fn z(self) -> Z { Z::new(self < 0, self.unsigned_abs() as u128) }
        fn of(z: Z) -> Option<$t> {
            if z < Self::LO || z > Self::HI { return None }
            Some(if z.neg { (z.mag as $t).wrapping_neg() } else { z.mag as $t })
        }
    } )* };
    (unsigned $($t:ident),*) => { $( impl Int for $t {
        const NAME: &'static str = stringify!($t);
        const LO: Z = Z { neg: false, mag: 0 };
        const HI: Z = Z { neg: false, mag: <$t>::MAX as u128 };
        fn z(self) -> Z { Z::new(false, self as u128) }
        fn of(z: Z) -> Option<$t> {
            if z < Self::LO || z > Self::HI { return None }
            Some(z.mag as $t)
        }
    } )* };
}
int!(signed i8, i16, i32, i64, i128, isize);
int!(unsigned u8, u16, u32, u64, u128, usize);

/// Values around the limits of the range and of all types, and their
/// aliases modulo powers of two
fn candidates(u: &mut U, lo: Z, hi: Z) -> Vec<Z> {
    let one = Z::new(false, 1);
    let mut v = vec![Z::new(false, 0), one, one.minus(), Z::new(false, u128::MAX), Z::new(true, 1 << 127)];
    for p in [7, 8, 15, 16, 31, 32, 63, 64, 127] {
        let m = 1u128 << p;
        for d in [-1i128, 0, 1] {
            v.push(Z::new(false, m.wrapping_add(d as u128)));
            v.push(Z::new(true, m.wrapping_add(d as u128)));
        }
    }
    let span = hi.sub(lo).map(|z| z.mag).unwrap_or(u128::MAX);
    let mut inside = vec![lo, hi];
    for _ in 0..6 {
        let k = if span == u128::MAX {
            u.rng.u64() as u128
        } else {
            (((u.rng.u64() as u128) << 64) | u.rng.u64() as u128) % (span + 1)
        };
        inside.extend(lo.add(Z::new(false, k)));
        inside.extend(lo.add(Z::new(false, k % 7 % (span.saturating_add(1)))));
    }
    for z in inside {
        for d in [-2i128, -1, 0, 1, 2] {
            v.extend(z.add(Z::new(d < 0, d.unsigned_abs())));
        }
        for p in [8, 16, 32, 64] {
            v.extend(z.add(Z::new(false, 1u128 << p)));
            v.extend(z.add(Z::new(true, 1u128 << p)));
        }
    }
    if span < 600 {
        let mut z = Some(lo);
        for _ in 0..=span {
            v.extend(z);
            z = z.and_then(|z| z.add(one));
        }
    }
    v.sort();
    v.dedup();
    v
}

/// What every bounded integer type must do, given its mathematical range
fn arithmetic<T: BoundedInt + std::hash::Hash>(u: &mut U, name: &str, lo: Z, hi: Z, of: impl Fn(Z) -> T, z: impl Fn(T) -> Z) {
    let within = |r: Option<Z>| r.filter(|r| lo <= *r && *r <= hi);
    let vals: Vec<Z> = candidates(u, lo, hi).into_iter().filter(|v| lo <= *v && *v <= hi).collect();
    ckeq!(z(T::MIN), lo, "{name}::MIN");
    ckeq!(z(T::MAX), hi, "{name}::MAX");
    let mut pairs = vec![];
    if vals.len() <= 260 {
        for a in &vals {
            for b in &vals {
                pairs.push((*a, *b));
            }
        }
    } else {
        for _ in 0..60_000 {
            pairs.push((*u.rng.pick(&vals), *u.rng.pick(&vals)));
        }
    }
    for (a, b) in pairs {
        let (ta, tb) = (of(a), of(b));
        u.case(&("arith", a, b));
        u.count("additions and subtractions", 1);
        ckeq!(BoundedInt::checked_add(ta, tb).map(&z), within(a.add(b)), "{name}: checked_add({a:?},{b:?})");
        ckeq!(BoundedInt::checked_sub(ta, tb).map(&z), within(a.sub(b)), "{name}: checked_sub({a:?},{b:?})");
        ckeq!(ta.cmp(&tb), a.cmp(&b), "{name}: cmp({a:?},{b:?})");
        ckeq!(ta.partial_cmp(&tb), Some(a.cmp(&b)), "{name}: partial_cmp({a:?},{b:?})");
        ckeq!(ta == tb, a == b, "{name}: {a:?} == {b:?}");
        if a == b {
            ckeq!(hash_of(&ta), hash_of(&tb), "{name}: hash of {a:?}");
        }
    }
    let one = Z::new(false, 1);
    for a in &vals {
        let t = of(*a);
        u.evals(1);
        ckeq!(t.inc().map(&z), within(a.add(one)), "{name}: inc of {a:?}");
        ckeq!(t.dec().map(&z), within(a.sub(one)), "{name}: dec of {a:?}");
        ckeq!(format!("{t}"), format!("{a:?}"), "{name}: Display");
        ckeq!(format!("{t:?}"), format!("{a:?}"), "{name}: Debug");
        let us: Option<usize> = t.try_into().ok();
        ckeq!(us, usize::of(*a), "{name}: {a:?} into usize");
    }
}

fn convert<D: Copy, S: Int>(name: &str, lo: Z, hi: Z, v: Z, z: &impl Fn(D) -> Z, u: &mut U)
where
    D: TryFrom<S>,
{
    if let Some(s) = S::of(v) {
        let r = D::try_from(s);
        u.case(&("conv", S::NAME, v));
        u.count("conversions", 1);
        match r {
            Ok(d) => {
                ck!(lo <= v && v <= hi, "{name}: try_from({v:?} as {}) accepted, as {:?}", S::NAME, z(d));
                ckeq!(z(d), v, "{name}: try_from({v:?} as {})", S::NAME);
            }
            Err(_) => ck!(!(lo <= v && v <= hi), "{name}: try_from({v:?} as {}) refused", S::NAME),
        }
    }
}

fn conversions<D>(u: &mut U, name: &str, lo: Z, hi: Z, z: impl Fn(D) -> Z)
where
    D: BoundedInt,
{
    for v in candidates(u, lo, hi) {
        convert::<D, u8>(name, lo, hi, v, &z, u);
        convert::<D, u16>(name, lo, hi, v, &z, u);
        convert::<D, u32>(name, lo, hi, v, &z, u);
        convert::<D, u64>(name, lo, hi, v, &z, u);
        convert::<D, u128>(name, lo, hi, v, &z, u);
        convert::<D, usize>(name, lo, hi, v, &z, u);
        convert::<D, i8>(name, lo, hi, v, &z, u);
        convert::<D, i16>(name, lo, hi, v, &z, u);
        convert::<D, i32>(name, lo, hi, v, &z, u);
        convert::<D, i64>(name, lo, hi, v, &z, u);
        convert::<D, i128>(name, lo, hi, v, &z, u);
        convert::<D, isize>(name, lo, hi, v, &z, u);
    }
}

macro_rules! bounded {
    ($u:expr, $ty:ident, $in:ty, $lo:expr, $hi:expr) => {{
        type T = sqrid::$ty<{ $lo }, { $hi }>;
        let name = format!("{}<{},{}>", stringify!($ty), $lo as $in, $hi as $in);
        let u: &mut U = $u;
        u.describe(name.clone());
        let (lo, hi) = (<$in as Int>::z($lo), <$in as Int>::z($hi));
        arithmetic::<T>(u, &name, lo, hi, |z| sqrid::$ty(<$in as Int>::of(z).unwrap()), |t| Int::z(t.0));
        conversions::<T>(u, &name, lo, hi, |t| Int::z(t.0));
        for v in candidates(u, lo, hi) {
            let Some(i) = <$in as Int>::of(v) else { continue };
            let fits = lo <= v && v <= hi;
            u.eval();
            let r = T::new(i);
            ckeq!(r.map(|t| t.0), if fits { Ok::<$in, Error>(i) } else { Err(Error::OutOfBounds) }, "{name}::new({v:?})");
            if fits || u.rng.pct(20) {
                ckeq!(catch(|| T::new_unwrap(i)).ok().map(|t| t.0), fits.then_some(i), "{name}::new_unwrap({v:?})");
            }
            if fits {
                let t = T::new_unwrap(i);
                ckeq!(t.into_inner(), i, "{name}: into_inner of {v:?}");
                ckeq!(BoundedInt::into_inner(t), i, "{name}: BoundedInt::into_inner of {v:?}");
                ckeq!(*BoundedInt::as_ref(&t), i, "{name}: as_ref of {v:?}");
                ckeq!(<$in>::from(t), i, "{name}: {v:?} into the inner type");
            }
        }
        ckeq!(T::new_static::<{ $lo }>().0, $lo, "{name}::new_static::<MIN>");
        ckeq!(T::new_static::<{ $hi }>().0, $hi, "{name}::new_static::<MAX>");
        // Values made from bool and Default
        let z0 = Z::new(false, 0);
        let z1 = Z::new(false, 1);
        for (how, t, v) in [("from(false)", T::from(false), z0), ("from(true)", T::from(true), z1), ("default()", T::default(), z0)] {
            u.eval();
            let got = Int::z(t.0);
            if lo <= v && v <= hi {
                ckeq!(got, v, "{name}::{how}");
            } else if got == v {
                // An invalid value: known finding, see known_findings.json
                u.known("C04-from-bool-default", format!("{name}::{how} yields the out-of-range value {got:?}"));
            } else {
                ck!(lo <= got && got <= hi, "{name}::{how} is out of range: {got:?}");
            }
        }
        u.sample(|| name.clone());
        u.count("bounded types", 1);
    }};
}

macro_rules! builtin {
    ($u:expr, $($t:ident),*) => {{ $( {
        let u: &mut U = $u;
        u.describe(stringify!($t).into());
        arithmetic::<$t>(u, stringify!($t), <$t as Int>::LO, <$t as Int>::HI, |z| <$t as Int>::of(z).unwrap(), |t| Int::z(t));
        for v in candidates(u, <$t as Int>::LO, <$t as Int>::HI) {
            if let Some(i) = <$t as Int>::of(v) {
                ckeq!(BoundedInt::into_inner(i), i, "into_inner");
                ckeq!(*BoundedInt::as_ref(&i), i, "as_ref");
            }
        }
        ckeq!(<$t as BoundedInt>::one(), 1, "one()");
        u.count("bounded types", 1);
    } )* }};
}

fn main() {
    let mut m = Mon::new(
        "C04",
        "for each bounded type and range (every builtin integer, with full, single-valued, negative, offset and zero-based ranges): operands and source values around the limits of the range and of all integer types, at aliases modulo powers of two, and the whole range when it is small; a case is a distinct (type, operation, operands)",
    );
    m.require("conversions", 20_000);
    m.require("additions and subtractions", 100_000);
    m.require("bounded types", 60);
    m.unit("u8", |u| {
        bounded!(u, BoundedU8, u8, 0, 255);
        bounded!(u, BoundedU8, u8, 0, 0);
        bounded!(u, BoundedU8, u8, 0, 1);
        bounded!(u, BoundedU8, u8, 255, 255);
        bounded!(u, BoundedU8, u8, 5, 10);
        bounded!(u, BoundedU8, u8, 1, 254);
        bounded!(u, BoundedU8, u8, 0, 7);
        bounded!(u, BoundedU8, u8, 100, 200);
    });
    m.unit("i8", |u| {
        bounded!(u, BoundedI8, i8, -128, 127);
        bounded!(u, BoundedI8, i8, -128, -128);
        bounded!(u, BoundedI8, i8, -10, -3);
        bounded!(u, BoundedI8, i8, -1, 1);
        bounded!(u, BoundedI8, i8, 0, 100);
        bounded!(u, BoundedI8, i8, -127, 0);
        bounded!(u, BoundedI8, i8, 3, 127);
    });
    m.unit("u16", |u| {
        bounded!(u, BoundedU16, u16, 0, 65535);
        bounded!(u, BoundedU16, u16, 0, 0);
        bounded!(u, BoundedU16, u16, 0, 3);
        bounded!(u, BoundedU16, u16, 0, 255);
        bounded!(u, BoundedU16, u16, 0, 256);
        bounded!(u, BoundedU16, u16, 300, 40000);
        bounded!(u, BoundedU16, u16, 65535, 65535);
    });
    m.unit("i16", |u| {
        bounded!(u, BoundedI16, i16, -32768, 32767);
        bounded!(u, BoundedI16, i16, -300, -200);
        bounded!(u, BoundedI16, i16, -5, 500);
    });
    m.unit("u32", |u| {
        bounded!(u, BoundedU32, u32, 0, 4294967295);
        bounded!(u, BoundedU32, u32, 0, 9);
        bounded!(u, BoundedU32, u32, 65536, 70000);
        bounded!(u, BoundedU32, u32, 0, 65536);
    });
    m.unit("i32", |u| {
        bounded!(u, BoundedI32, i32, -2147483648, 2147483647);
        bounded!(u, BoundedI32, i32, -70000, 5);
        bounded!(u, BoundedI32, i32, 2147483647, 2147483647);
        bounded!(u, BoundedI32, i32, 0, 12);
    });
    m.unit("u64", |u| {
        bounded!(u, BoundedU64, u64, 0, 18446744073709551615);
        bounded!(u, BoundedU64, u64, 0, 0);
        bounded!(u, BoundedU64, u64, 4294967296, 4294967300);
    });
    m.unit("i64", |u| {
        bounded!(u, BoundedI64, i64, -9223372036854775808, 9223372036854775807);
        bounded!(u, BoundedI64, i64, -9223372036854775808, -4294967297);
        bounded!(u, BoundedI64, i64, -2, 2);
    });
    m.unit("u128", |u| {
        bounded!(u, BoundedU128, u128, 0, 340282366920938463463374607431768211455);
        bounded!(u, BoundedU128, u128, 0, 5);
        bounded!(u, BoundedU128, u128, 18446744073709551616, 18446744073709551620);
    });
    m.unit("i128", |u| {
        bounded!(u, BoundedI128, i128, -170141183460469231731687303715884105728, 170141183460469231731687303715884105727);
        bounded!(u, BoundedI128, i128, -7, -7);
        bounded!(u, BoundedI128, i128, -18446744073709551617, 10);
    });
    m.unit("isize", |u| {
        bounded!(u, BoundedIsize, isize, -9223372036854775808, 9223372036854775807);
        bounded!(u, BoundedIsize, isize, -4, 9);
        bounded!(u, BoundedIsize, isize, 1000, 1000);
    });
    m.unit("builtin small", |u| builtin!(u, u8, i8, u16, i16, u32, i32));
    m.unit("builtin wide", |u| builtin!(u, u64, i64, u128, i128, usize, isize));
    m.run()
}
