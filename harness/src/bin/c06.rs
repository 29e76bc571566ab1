//! C06: directions form a consistent compass in every representation

use sqmon::model::{allowed, di, COMPASS, DIRS};
use sqmon::mon::{hash_of, Mon, U};
use sqmon::{ck, ckeq};
use sqrid::{Dir, DirIter, Error};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::str::FromStr;

// The representations, as documented
const ASCII: [char; 8] = ['^', '7', '>', '\\', 'v', 'L', '<', '`'];
const ARROWS: [char; 8] = ['↑', '↗', '→', '↘', '↓', '↙', '←', '↖'];
const LETTERS: [(char, usize); 8] =
    [('N', 0), ('n', 0), ('E', 2), ('e', 2), ('S', 4), ('s', 4), ('W', 6), ('w', 6)];

/// What a character means
fn meaning(c: char) -> Option<usize> {
    ASCII
        .iter()
        .position(|x| *x == c)
        .or_else(|| ARROWS.iter().position(|x| *x == c))
        .or_else(|| LETTERS.iter().find(|(x, _)| *x == c).map(|(_, d)| *d))
}

fn algebra(u: &mut U) {
    ckeq!(Dir::SIZE, 8, "Dir::SIZE");
    ckeq!(Dir::ALL8.map(di), [0, 1, 2, 3, 4, 5, 6, 7], "Dir::ALL8");
    ckeq!(Dir::ALL4.map(di), [0, 2, 4, 6], "Dir::ALL4");
    ckeq!(di(Dir::default()), 0, "default direction");
    for (i, d) in DIRS.into_iter().enumerate() {
        let (_, dx, dy) = COMPASS[i];
        u.case(&("unary", i));
        ckeq!(d.is_diagonal(), dx != 0 && dy != 0, "{d:?}.is_diagonal()");
        ckeq!(di(-d), (i + 4) % 8, "-{d:?}");
        ckeq!(di(d.flip()), (i + 4) % 8, "{d:?}.flip()");
        ckeq!(d.next::<true>().map(di), (i < 7).then_some(i + 1), "{d:?}.next::<true>()");
        ckeq!(
            d.next::<false>().map(di),
            [2, 4, 6].into_iter().find(|n| *n > i),
            "{d:?}.next::<false>()"
        );
        ckeq!(d as usize, i, "{d:?} as usize");
        ckeq!(hash_of(&d), hash_of(&d.clone()), "hash of {d:?}");
        for (j, e) in DIRS.into_iter().enumerate() {
            u.case(&("binary", i, j));
            u.count("pairs of directions", 1);
            ckeq!(di(d + e), (i + j) % 8, "{d:?} + {e:?}");
            ckeq!(di(d.rotate(&e)), (i + j) % 8, "{d:?}.rotate({e:?})");
            let mut a = d;
            a += e;
            ckeq!(di(a), (i + j) % 8, "{d:?} += {e:?}");
            ckeq!(d == e, i == j, "{d:?} == {e:?}");
            ckeq!(d.cmp(&e), i.cmp(&j), "{d:?} cmp {e:?}");
            ckeq!(d.partial_cmp(&e), Some(i.cmp(&j)), "{d:?} partial_cmp {e:?}");
            for f in DIRS {
                u.case(&("ternary", i, j, di(f)));
                ckeq!((d + e) + f, d + (e + f), "associativity of {d:?} {e:?} {f:?}");
            }
        }
    }
    let h: HashSet<Dir> = DIRS.into_iter().collect();
    ckeq!(h.len(), 8, "directions in a hash set");
    let b: BTreeSet<Dir> = DIRS.into_iter().rev().collect();
    ckeq!(b.into_iter().map(di).collect::<Vec<_>>(), (0..8).collect::<Vec<_>>(), "ordered set");
}

fn iteration<const D: bool>(u: &mut U) {
    let want = allowed(D);
    ckeq!(Dir::iter::<D>().map(di).collect::<Vec<_>>(), want, "Dir::iter::<{D}>()");
    ckeq!(DirIter::<D>::default().map(di).collect::<Vec<_>>(), want, "DirIter::<{D}>::default()");
    // Copies and fused ends
    let mut it = Dir::iter::<D>();
    for k in 0..=want.len() {
        u.case(&("iteration", D, k));
        let copy = it;
        ckeq!(copy.map(di).collect::<Vec<_>>(), &want[k..], "copy of Dir::iter::<{D}>() after {k}");
        let mut skip = Dir::iter::<D>();
        ckeq!(skip.nth(k).map(di), want.get(k).copied(), "Dir::iter::<{D}>().nth({k})");
        ckeq!(skip.map(di).collect::<Vec<_>>(), want.get(k + 1..).unwrap_or(&[]), "rest after nth({k})");
        // Jumps past the end, and everything that is left in one go
        let rest = &want[k..];
        for far in (0..usize::BITS).map(|b| 1 << b).filter(|n| *n > 8).chain([usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 2 + k]) {
            let mut skip = it;
            ckeq!(skip.nth(far), None, "Dir::iter::<{D}>() after {k}: nth({far})");
            ckeq!(skip.next(), None, "Dir::iter::<{D}>() after {k}: next after nth({far})");
            ckeq!(it.skip(far).map(di).next(), None, "Dir::iter::<{D}>() after {k}: skip({far})");
            ckeq!(it.step_by(far).map(di).collect::<Vec<_>>(), &rest[..rest.len().min(1)], "Dir::iter::<{D}>() after {k}: step_by({far})");
        }
        ckeq!(it.count(), rest.len(), "Dir::iter::<{D}>() after {k}: count");
        ckeq!(it.last().map(di), rest.last().copied(), "Dir::iter::<{D}>() after {k}: last");
        ckeq!(it.max().map(di), rest.last().copied(), "Dir::iter::<{D}>() after {k}: max");
        ckeq!(it.min().map(di), rest.first().copied(), "Dir::iter::<{D}>() after {k}: min");
        let mut got = vec![];
        it.for_each(|d| got.push(di(d)));
        ckeq!(got, rest, "Dir::iter::<{D}>() after {k}: for_each");
        let got = it.fold(vec![], |mut v, d| {
            v.push(di(d));
            v
        });
        ckeq!(got, rest, "Dir::iter::<{D}>() after {k}: fold");
        for step in 1..4 {
            let w: Vec<_> = rest.iter().copied().step_by(step).collect();
            ckeq!(it.step_by(step).map(di).collect::<Vec<_>>(), w, "Dir::iter::<{D}>() after {k}: step_by({step})");
        }
        let (lo, hi) = it.size_hint();
        let left = want.len() - k;
        if lo > left || hi.map(|hi| hi < left).unwrap_or(false) {
            if k > 0 && (lo, hi) == (want.len(), Some(want.len())) {
                // See known_findings.json
                u.known(
                    "C06-diriter-size-hint",
                    format!("DirIter::<{D}>::size_hint() is {:?} with {left} directions left", (lo, hi)),
                );
            } else {
                sqmon::fail!("DirIter::<{D}>::size_hint() is {:?} with {left} directions left", (lo, hi));
            }
        }
        it.next();
    }
    for _ in 0..3 {
        ckeq!(it.next(), None, "Dir::iter::<{D}>() after the end");
    }
}

fn names(u: &mut U) {
    let str1 = |c: char| c.to_string();
    for (i, d) in DIRS.into_iter().enumerate() {
        u.case(&("names", i));
        ckeq!(d.name_cardinal(), COMPASS[i].0, "{d:?}.name_cardinal()");
        ckeq!(Dir::NAMES_CARDINAL[i], COMPASS[i].0, "NAMES_CARDINAL[{i}]");
        ckeq!(format!("{d}"), COMPASS[i].0, "Display of {d:?}");
        ckeq!(d.to_string(), COMPASS[i].0, "to_string of {d:?}");
        ckeq!(d.name_utf8(), str1(ARROWS[i]), "{d:?}.name_utf8()");
        ckeq!(Dir::NAMES_UTF8[i], str1(ARROWS[i]), "NAMES_UTF8[{i}]");
        ckeq!(d.name_utf8_char(), ARROWS[i], "{d:?}.name_utf8_char()");
        ckeq!(Dir::NAMES_UTF8_CHAR[i], ARROWS[i], "NAMES_UTF8_CHAR[{i}]");
        ckeq!(d.name_ascii(), str1(ASCII[i]), "{d:?}.name_ascii()");
        ckeq!(Dir::NAMES_ASCII[i], str1(ASCII[i]), "NAMES_ASCII[{i}]");
        ckeq!(d.name_ascii_char(), ASCII[i], "{d:?}.name_ascii_char()");
        ckeq!(Dir::NAMES_ASCII_CHAR[i], ASCII[i], "NAMES_ASCII_CHAR[{i}]");
        // Round trips
        ckeq!(Dir::try_from(d.name_utf8_char()), Ok(d), "{d:?} from its arrow");
        ckeq!(Dir::try_from(d.name_ascii_char()), Ok(d), "{d:?} from its ascii symbol");
        ckeq!(d.name_utf8().parse::<Dir>(), Ok(d), "{d:?} parsed from its arrow");
        ckeq!(d.name_ascii().parse::<Dir>(), Ok(d), "{d:?} parsed from its ascii symbol");
        if !d.is_diagonal() {
            ckeq!(d.name_cardinal().parse::<Dir>(), Ok(d), "{d:?} parsed from its name");
        }
    }
}

fn chars(u: &mut U) {
    for code in 0..=char::MAX as u32 {
        let Some(c) = char::from_u32(code) else { continue };
        let want = meaning(c).ok_or(Error::DirParseError);
        u.evals(1);
        let got = Dir::try_from(c).map(di);
        if want.is_ok() || got.is_ok() || code < 0x3000 {
            u.case(&("char", c));
        }
        ckeq!(got, want, "Dir::try_from({c:?})");
        u.count("characters", 1);
        if code < 0x3000 || code % 97 == 0 {
            ckeq!(Dir::from_str(&c.to_string()).map(di), want, "Dir::from_str({c:?})");
        }
    }
    u.sample(|| "every Unicode scalar value".into());
}

fn strings(u: &mut U) {
    let mut alphabet: Vec<char> = ASCII.into_iter().chain(ARROWS).chain(LETTERS.map(|(c, _)| c)).collect();
    alphabet.extend([' ', 'x', '0', '\0', '\n', 'é', '\u{301}', '\u{fe0f}', '\u{10ffff}']);
    let mut check = |s: &str| {
        let mut it = s.chars();
        let want = match (it.next(), it.next()) {
            (Some(c), None) => meaning(c),
            _ => None,
        };
        u.case(&("string", s));
        u.count("strings", 1);
        ckeq!(Dir::from_str(s).map(di), want.ok_or(Error::DirParseError), "Dir::from_str({s:?})");
    };
    check("");
    for a in &alphabet {
        check(&a.to_string());
        for b in &alphabet {
            check(&format!("{a}{b}"));
            for c in &alphabet {
                check(&format!("{a}{b}{c}"));
            }
        }
    }
    for s in ["North", "north", "NORTH", "NE", "ne", " N", "N ", "N\0", "NN", "->", "<-", "<>", "L7", "↑↑", "N\u{301}"] {
        check(s);
    }
    for _ in 0..u.scale(20_000, 500_000) {
        let n = u.rng.below(6);
        let s: String = (0..n).map(|_| *u.rng.pick(&alphabet)).collect();
        let mut it = s.chars();
        let want = match (it.next(), it.next()) {
            (Some(c), None) => meaning(c),
            _ => None,
        };
        u.case(&("string", &s));
        ckeq!(Dir::from_str(&s).map(di), want.ok_or(Error::DirParseError), "Dir::from_str({s:?})");
    }
}

fn tuples<T>(u: &mut U, name: &str, all: bool)
where
    T: Copy + Debug + TryFrom<i128> + Into<W>,
    (T, T): From<Dir>,
    Dir: for<'a> TryFrom<&'a (T, T), Error = Error> + TryFrom<(T, T), Error = Error>,
{
    for (i, d) in DIRS.into_iter().enumerate() {
        u.case(&(name, i));
        let t: (T, T) = d.into();
        let (x, y): (W, W) = (t.0.into(), t.1.into());
        ckeq!((x.0, y.0), (COMPASS[i].1 as i128, COMPASS[i].2 as i128), "{d:?} into ({name}, {name})");
        ckeq!(Dir::try_from(&t), Ok(d), "{d:?} back from &({name}, {name})");
        ckeq!(Dir::try_from(t), Ok(d), "{d:?} back from ({name}, {name})");
    }
    let mut vals: Vec<i128> = (-4..=4).collect();
    for p in [6, 7, 8, 15, 16, 31, 32, 63, 64, 126] {
        for d in [-1, 0, 1] {
            vals.push((1i128 << p) + d);
            vals.push(-(1i128 << p) + d);
        }
    }
    vals.extend([i128::MAX, i128::MIN, i128::MAX - 1, i128::MIN + 1]);
    if all {
        vals.extend(-128..128);
    }
    vals.sort();
    vals.dedup();
    for x in &vals {
        for y in &vals {
            let (Ok(tx), Ok(ty)) = (T::try_from(*x), T::try_from(*y)) else { continue };
            let want = COMPASS
                .iter()
                .position(|(_, dx, dy)| *dx as i128 == *x && *dy as i128 == *y)
                .ok_or(Error::InvalidDirection);
            u.case(&(name, x, y));
            u.count("integer pairs", 1);
            ckeq!(Dir::try_from(&(tx, ty)).map(di), want, "Dir::try_from(&({x}{name}, {y}{name}))");
            ckeq!(Dir::try_from((tx, ty)).map(di), want, "Dir::try_from(({x}{name}, {y}{name}))");
        }
    }
}

/// A wide integer
struct W(i128);
macro_rules! wide {
    ($($t:ty),*) => { $( impl From<$t> for W { fn from(t: $t) -> W { W(t as i128) } } )* };
}
wide!(i8, i16, i32, i64, i128, isize);

fn main() {
    let mut m = Mon::new(
        "C06",
        "exhaustive: all directions, pairs and triples, both enumerations at every stage, every Unicode scalar value, all strings of up to 3 symbols of an alphabet with every meaningful one, all (i8,i8) pairs; pairs around every power of two for the other types; compared with the compass written out as data. A case is a distinct input (characters without meaning above U+3000 are not counted)",
    );
    m.require("characters", 1_112_064);
    m.require("pairs of directions", 64);
    m.require("strings", 10_000);
    m.require("integer pairs", 65_536);
    m.unit("algebra", algebra);
    m.unit("iteration", |u| {
        iteration::<true>(u);
        iteration::<false>(u);
    });
    m.unit("names", names);
    m.unit("chars", chars);
    m.unit("strings", strings);
    m.unit("tuples", |u| {
        tuples::<i8>(u, "i8", true);
        tuples::<i16>(u, "i16", false);
        tuples::<i32>(u, "i32", false);
        tuples::<i64>(u, "i64", false);
        tuples::<i128>(u, "i128", false);
        tuples::<isize>(u, "isize", false);
    });
    ck!(meaning('7') == Some(1) && meaning('x').is_none(), "model self-check");
    m.run()
}
