//! C20: text rendering is faithful to content and layout

use sqmon::model::{COMPASS, DIRS};
use sqmon::mon::{Mon, U};
use sqmon::search::{UserPos, TP};
use sqmon::{ck, ckeq};
use sqrid::*;
use std::fmt::{Display, Write};

/// How padding is requested
#[derive(Clone, Copy, Debug, Hash)]
struct Spec {
    fill: char,
    align: Option<char>,
    width: Option<usize>,
    precision: Option<usize>,
}

impl Spec {
    fn random(u: &mut U) -> Spec {
        let align = *u.rng.pick(&[None, None, Some('<'), Some('>'), Some('^')]);
        Spec {
            fill: if align.is_some() { *u.rng.pick(&[' ', ' ', '*', '0', 'é']) } else { ' ' },
            align,
            width: *u.rng.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(9), Some(13)]),
            precision: if u.rng.pct(10) { Some(u.rng.below(4)) } else { None },
        }
    }
    /// Independent padding
    fn pad(&self, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        if let Some(p) = self.precision {
            v.truncate(p);
        }
        let missing = self.width.unwrap_or(0).saturating_sub(v.len());
        let before = match self.align {
            Some('>') => missing,
            Some('^') => missing / 2,
            _ => 0,
        };
        let mut o = String::new();
        o.extend(std::iter::repeat(self.fill).take(before));
        o.extend(v);
        o.extend(std::iter::repeat(self.fill).take(missing - before));
        o
    }
    /// Through the formatting machinery
    fn format(&self, v: &dyn Display) -> String {
        let w = self.width.unwrap_or(0);
        macro_rules! fills {
            ($a:literal) => {
                match (self.fill, self.precision) {
                    ('*', None) => format!(concat!("{:*", $a, "w$}"), v, w = w),
                    ('0', None) => format!(concat!("{:0", $a, "w$}"), v, w = w),
                    ('é', None) => format!(concat!("{:é", $a, "w$}"), v, w = w),
                    (_, None) => format!(concat!("{:", $a, "w$}"), v, w = w),
                    ('*', Some(p)) => format!(concat!("{:*", $a, "w$.p$}"), v, w = w, p = p),
                    ('0', Some(p)) => format!(concat!("{:0", $a, "w$.p$}"), v, w = w, p = p),
                    ('é', Some(p)) => format!(concat!("{:é", $a, "w$.p$}"), v, w = w, p = p),
                    (_, Some(p)) => format!(concat!("{:", $a, "w$.p$}"), v, w = w, p = p),
                }
            };
        }
        match (self.align, self.width, self.precision) {
            (None, None, None) => format!("{v}"),
            (None, None, Some(p)) => format!("{v:.p$}"),
            (None, Some(w), None) => format!("{v:w$}"),
            (None, Some(w), Some(p)) => format!("{v:w$.p$}"),
            (Some('<'), ..) => fills!("<"),
            (Some('>'), ..) => fills!(">"),
            _ => fills!("^"),
        }
    }
}

fn number(mut n: usize, len: usize) -> String {
    let mut v = vec![];
    loop {
        v.push((b'0' + (n % 10) as u8) as char);
        n /= 10;
        if n == 0 {
            break;
        }
    }
    while v.len() < len {
        v.push(' ');
    }
    v.into_iter().rev().collect()
}

/// Independent rendering
fn render(w: usize, h: usize, spec: Spec, cell: impl Fn(usize, usize) -> String) -> String {
    let (lx, ly) = (number(w - 1, 0).len(), number(h - 1, 0).len());
    let mut labels = String::new();
    for digit in 0..lx {
        labels.push_str(&" ".repeat(ly + 1));
        for x in 0..w {
            labels.push_str(&spec.pad(&number(x, lx)[digit..digit + 1]));
        }
        labels.push('\n');
    }
    let mut o = labels.clone();
    for y in 0..h {
        o.push_str(&number(y, ly));
        o.push(' ');
        for x in 0..w {
            o.push_str(&spec.pad(&cell(x, y)));
        }
        o.push('\n');
    }
    o + &labels
}

fn same(what: &str, got: &str, want: &str) {
    if got != want {
        for (i, (g, w)) in got.split('\n').zip(want.split('\n')).enumerate() {
            ckeq!(g, w, "{what}: line {i}");
        }
        ckeq!(got.split('\n').count(), want.split('\n').count(), "{what}: number of lines");
    }
}

/// Also read the rendering back, as somebody who looks at it does
fn read_back(got: &str, w: usize, h: usize, field: usize, cell: impl Fn(usize, usize) -> String) {
    let lines: Vec<Vec<char>> = got.lines().map(|l| l.chars().collect()).collect();
    let labels = (lines.len() - h) / 2;
    let margin = lines[0].len() - w * field;
    for y in 0..h {
        let l = &lines[labels + y];
        let label: String = l[..margin].iter().collect();
        ckeq!(label.trim().parse::<usize>().ok(), Some(y), "label of line {y}");
        for x in 0..w {
            let s: String = l[margin + x * field..margin + (x + 1) * field].iter().collect();
            ckeq!(s.trim(), cell(x, y), "cell ({x},{y})");
        }
    }
    for block in [&lines[..labels], &lines[labels + h..]] {
        for x in 0..w {
            let digits: String = block.iter().map(|l| l[margin + x * field..margin + (x + 1) * field].iter().collect::<String>().trim().to_string()).collect();
            ckeq!(digits.parse::<usize>().ok(), Some(x), "label of column {x}");
        }
    }
}

/// A writer that fails after some bytes
struct Failing(usize);
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

fn one<T, P: TP, const S: usize>(u: &mut U, w: usize, h: usize, kind: &str, mut gen: impl FnMut(&mut U) -> T)
where
    T: Display + Default,
{
    let cells: Vec<T> = (0..S).map(|_| gen(u)).collect();
    let text: Vec<String> = cells.iter().map(|c| c.to_string()).collect();
    let g: Grid<T, P, S> = cells.into_iter().collect();
    let spec = Spec::random(u);
    u.describe(format!("Grid<{kind}, {}> with {spec:?} and cells {:?}", P::name(), text.iter().take(30).collect::<Vec<_>>()));
    let got = spec.format(&g);
    same("rendering", &got, &render(w, h, spec, |x, y| text[y * w + x].clone()));
    u.count("renderings", 1);
    u.count("cells rendered", S as u64);
    // Wide enough for every cell
    let field = text.iter().map(|t| t.chars().count()).max().unwrap().max(1);
    let field = field + u.rng.below(3);
    if !text.iter().any(|t| t.contains(char::is_whitespace)) {
        let got = match u.rng.below(3) {
            0 => format!("{g:field$}"),
            1 => format!("{g:>field$}"),
            _ => format!("{g:^field$}"),
        };
        read_back(&got, w, h, field, |x, y| text[y * w + x].clone());
        u.count("renderings read back", 1);
    }
    if S <= 70 {
        let room = u.rng.below(format!("{g:>field$}").len());
        ck!(write!(Failing(room), "{g:>field$}").is_err(), "an error of the writer (after {room} bytes) is lost");
    }
    u.case(&(P::name(), kind, &text, spec));
    u.sample(|| got.clone());
}

fn bools<P: TP, const W: usize>(u: &mut U, w: usize, h: usize) {
    let p = *u.rng.pick(&[0, 10, 50, 100]);
    let cells: Vec<bool> = (0..w * h).map(|_| u.rng.pct(p)).collect();
    let mut g = Gridbool::<P, W>::default();
    for (i, b) in cells.iter().enumerate() {
        g.set(&P::at(i % w, i / w), *b);
    }
    let spec = Spec::random(u);
    u.describe(format!("Gridbool<{}, {W}> with {spec:?} and cells {:?}", P::name(), cells.iter().take(99).collect::<Vec<_>>()));
    let cell = |x: usize, y: usize| if cells[y * w + x] { "#" } else { "." }.to_string();
    let got = spec.format(&g);
    same("rendering", &got, &render(w, h, spec, cell));
    let field = 1 + u.rng.below(4);
    read_back(&format!("{g:field$}"), w, h, field, cell);
    u.count("boolean renderings", 1);
    u.case(&(P::name(), W, &cells, spec));
}

fn kinds<P: TP, const S: usize, const W: usize, const W2: usize>(u: &mut U, w: usize, h: usize, rounds: usize) {
    for _ in 0..rounds {
        one::<i32, P, S>(u, w, h, "i32", |u| u.rng.range(-200, 2000) as i32);
        one::<char, P, S>(u, w, h, "char", |u| *u.rng.pick(&['x', '#', '·', '0', '→', '9']));
        one::<String, P, S>(u, w, h, "String", |u| {
            let n = u.rng.below(5);
            (0..n).map(|_| *u.rng.pick(&['a', 'é', '7', ' ', '·', '{'])).collect()
        });
        one::<Dir, P, S>(u, w, h, "Dir", |u| DIRS[u.rng.below(8)]);
        one::<bool, P, S>(u, w, h, "bool", |u| u.rng.bool());
        bools::<P, W>(u, w, h);
        bools::<P, W2>(u, w, h);
    }
}

fn grid<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let n = u.scale(if S > 70 { 6 } else { 25 }, if S > 70 { 100 } else { 400 });
    kinds::<Pos<X, Y>, S, W, W2>(u, X as usize + 1, Y as usize + 1, n);
}

/// Numbers of digits of the labels
fn digits<const X: u16, const Y: u16, const S: usize, const W: usize, const W2: usize>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for _ in 0..u.scale(2, 12) {
        one::<u16, Pos<X, Y>, S>(u, w, h, "u16", |u| u.rng.u64() as u16);
        bools::<Pos<X, Y>, W>(u, w, h);
        bools::<Pos<X, Y>, W2>(u, w, h);
        u.count("large renderings", 2);
    }
}

fn positions<const X: u16, const Y: u16>(u: &mut U) {
    let (w, h) = (X as usize + 1, Y as usize + 1);
    for k in 0..u.scale(400, 20_000) {
        let (x, y) = match k {
            0 => (0, 0),
            1 => (w - 1, 0),
            2 => (0, h - 1),
            3 => (w - 1, h - 1),
            _ => (u.rng.below(w), u.rng.below(h)),
        };
        u.describe(format!("Pos<{X},{Y}> ({x},{y})"));
        let p = Pos::<X, Y>::at(x, y);
        ckeq!(p.to_string(), format!("({},{})", number(x, 0), number(y, 0)), "rendering of a position");
        ckeq!(p.x().to_string(), number(x, 0), "rendering of x");
        ckeq!(p.y().to_string(), number(y, 0), "rendering of y");
        u.case(&(X, Y, x, y));
        u.count("positions", 1);
    }
}

fn scalars(u: &mut U) {
    macro_rules! bounded {
        ($($n:ident $t:ty, $min:expr, $max:expr);* $(;)?) => { $(
            for k in 0..200i128 {
                let (min, max): ($t, $t) = ($min, $max);
                let (min, max) = (min as i128, if min < 1 && min != 0 { max as i128 } else { (max as u128).min(i128::MAX as u128) as i128 });
                for v in [min + k, max - k] {
                    if v < min || v > max { continue; }
                    let v = v as $t;
                    let b = <$n<{ $min }, { $max }>>::try_from(v);
                    let Ok(b) = b else { sqmon::fail!("{v} refused by {}<{},{}>", stringify!($n), $min, $max) };
                    ckeq!(format!("{b}"), v.to_string(), "rendering of {}<{},{}>", stringify!($n), $min, $max);
                    u.case(&(stringify!($n), min, max, v));
                    u.count("bounded integers", 1);
                }
            }
        )* };
    }
    bounded!(
        BoundedU8 u8, 0, 255; BoundedU8 u8, 3, 9; BoundedU8 u8, 200, 255;
        BoundedI8 i8, -128, 127; BoundedI8 i8, -7, -2;
        BoundedU16 u16, 0, 65535; BoundedU16 u16, 999, 1001; BoundedU16 u16, 32760, 32776;
        BoundedI16 i16, -32768, 32767;
        BoundedU32 u32, 0, u32::MAX; BoundedI32 i32, i32::MIN, i32::MAX;
        BoundedU64 u64, 0, u64::MAX; BoundedI64 i64, i64::MIN, i64::MAX;
        BoundedU128 u128, 0, 12345678901234567890123456789u128; BoundedI128 i128, -1000, i128::MAX;
    );
    for (d, c) in DIRS.iter().zip(&COMPASS) {
        ckeq!(d.to_string(), c.0, "rendering of the direction");
        u.case(&c.0);
        u.count("directions", 1);
    }
    u.sample(|| "bounded integers of every type near their bounds, and the eight directions".to_string());
}

fn main() {
    let mut m = Mon::new(
        "C20",
        "grids of integers, characters, strings, directions and booleans, and boolean grids, of many sizes (label lengths of 1 to 5 digits), rendered with random width, fill, alignment and precision; compared with an independent renderer, and read back by columns; positions, bounded integers and directions; a case is a distinct (grid type, content, format) or value",
    );
    m.require("renderings", 2_000);
    m.require("renderings read back", 1_000);
    m.require("boolean renderings", 1_000);
    m.require("large renderings", 50);
    m.require("positions", 1_000);
    m.require("bounded integers", 1_000);
    sqmon::tiny_dims!(m, "grid", 1, 2, grid);
    sqmon::medium_dims!(m, "grid", 1, 4, grid);
    sqmon::seeded_dims!(m, "seeded", 1, 4, grid);
    sqmon::units_dims!(m, "digits", 1, 1, digits, [
        (8, 9), (9, 8), (9, 10), (10, 9), (98, 1), (99, 1), (100, 1), (1, 98), (1, 99), (1, 100), (998, 0), (999, 0), (1000, 0),
        (0, 998), (0, 999), (0, 1000), (9999, 0), (0, 9999), (10000, 0), (0, 10000), (254, 1), (255, 0), (0, 256), (256, 1),
        (99, 99), (100, 100), (65534, 0), (0, 65534)
    ]);
    m.unit("user", |u| {
        let n = u.scale(10, 200);
        kinds::<UserPos<4, 2>, 15, 1, 1>(u, 5, 3, n);
        kinds::<UserPos<7, 30>, 248, 8, 8>(u, 8, 31, n);
        kinds::<UserPos<100, 0>, 101, 4, 4>(u, 101, 1, n);
        for _ in 0..u.scale(2, 10) {
            bools::<(u8, u8), 2048>(u, 256, 256);
        }
    });
    m.unit("positions", |u| {
        positions::<0, 0>(u);
        positions::<9, 10>(u);
        positions::<99, 100>(u);
        positions::<255, 256>(u);
        positions::<65534, 65534>(u);
    });
    m.unit("scalars", scalars);
    m.run()
}
