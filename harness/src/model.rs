//! Independent executable models; nothing here calls sqrid's logic.

use crate::mon::Rng;
use sqrid::Dir;

/* Directions *****************************************************************/

/// Clockwise from north: name, dx, dy
pub const COMPASS: [(&str, i64, i64); 8] = [
    ("N", 0, -1),
    ("NE", 1, -1),
    ("E", 1, 0),
    ("SE", 1, 1),
    ("S", 0, 1),
    ("SW", -1, 1),
    ("W", -1, 0),
    ("NW", -1, -1),
];

/// Index of a direction in the compass, by matching the variants
pub fn di(d: Dir) -> usize {
    match d {
        Dir::N => 0,
        Dir::NE => 1,
        Dir::E => 2,
        Dir::SE => 3,
        Dir::S => 4,
        Dir::SW => 5,
        Dir::W => 6,
        Dir::NW => 7,
    }
}

/// The direction with an index of the compass
pub const DIRS: [Dir; 8] = [
    Dir::N,
    Dir::NE,
    Dir::E,
    Dir::SE,
    Dir::S,
    Dir::SW,
    Dir::W,
    Dir::NW,
];

pub fn opposite(i: usize) -> usize {
    (i + 4) % 8
}

/// The indexes of the allowed directions
pub fn allowed(diag: bool) -> &'static [usize] {
    if diag {
        &[0, 1, 2, 3, 4, 5, 6, 7]
    } else {
        &[0, 2, 4, 6]
    }
}

pub fn step(w: usize, h: usize, c: usize, d: usize) -> Option<usize> {
    let (x, y) = ((c % w) as i64, (c / w) as i64);
    let (nx, ny) = (x + COMPASS[d].1, y + COMPASS[d].2);
    if nx < 0 || ny < 0 || nx >= w as i64 || ny >= h as i64 {
        None
    } else {
        Some(ny as usize * w + nx as usize)
    }
}

/* Terrains *******************************************************************/

/// A movement function over the cells of a `w` x `h` grid: for each cell
/// and direction, the target cell and the cost
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Terrain {
    pub w: usize,
    pub h: usize,
    pub tgt: Vec<[Option<usize>; 8]>,
    pub cost: Vec<[usize; 8]>,
    pub style: &'static str,
    pub coststyle: &'static str,
}

impl Terrain {
    pub fn n(&self) -> usize {
        self.w * self.h
    }

    pub fn open(w: usize, h: usize) -> Terrain {
        let n = w * h;
        let tgt = (0..n)
            .map(|c| {
                let mut a = [None; 8];
                for (d, t) in a.iter_mut().enumerate() {
                    *t = step(w, h, c, d);
                }
                a
            })
            .collect();
        Terrain {
            w,
            h,
            tgt,
            cost: vec![[1; 8]; n],
            style: "open",
            coststyle: "unit",
        }
    }

    /// Remove all moves into and out of a cell
    pub fn block(&mut self, c: usize) {
        self.tgt[c] = [None; 8];
        for d in 0..8 {
            if let Some(o) = step(self.w, self.h, c, d) {
                self.tgt[o][opposite(d)] = None;
            }
        }
    }

    /// Remove the move in both ways
    pub fn cut(&mut self, c: usize, d: usize) {
        self.tgt[c][d] = None;
        if let Some(o) = step(self.w, self.h, c, d) {
            self.tgt[o][opposite(d)] = None;
        }
    }

    /// One corridor through every cell: walls between the lines (or the
    /// columns), with a gap at alternating ends
    pub fn serpentine(w: usize, h: usize, by_line: bool) -> Terrain {
        let mut t = Terrain::open(w, h);
        t.style = "serpentine";
        for c in 0..w * h {
            let (x, y) = (c % w, c / w);
            let (line, along, len) = if by_line { (y, x, w) } else { (x, y, h) };
            let gap = if line % 2 == 0 { len - 1 } else { 0 };
            for d in 0..8 {
                let across = if by_line { COMPASS[d].2 } else { COMPASS[d].1 };
                let sideways = if by_line { COMPASS[d].1 } else { COMPASS[d].2 };
                if across > 0 && (along != gap || sideways != 0) {
                    t.cut(c, d);
                }
            }
        }
        t
    }

    /// Only one-step moves
    pub fn random(rng: &mut Rng, w: usize, h: usize) -> Terrain {
        let n = w * h;
        let mut t = Terrain::open(w, h);
        match rng.below(10) {
            0 => {}
            1 | 2 => {
                t.style = "obstacles";
                let p = *rng.pick(&[10, 25, 35, 45]);
                for c in 0..n {
                    if rng.pct(p) {
                        t.block(c);
                    }
                }
            }
            3 => {
                t.style = "walls";
                let p = *rng.pick(&[15, 35, 55]);
                for c in 0..n {
                    for d in 0..8 {
                        if rng.pct(p) {
                            t.cut(c, d);
                        }
                    }
                }
            }
            4 | 5 => {
                t.style = "one-way";
                let p = *rng.pick(&[20, 45, 65, 80]);
                for c in 0..n {
                    for d in 0..8 {
                        if rng.pct(p) {
                            t.tgt[c][d] = None;
                        }
                    }
                }
            }
            6 => {
                let by_line = rng.bool();
                t = Terrain::serpentine(w, h, by_line);
            }
            7 => {
                t.style = "maze";
                // Spanning tree, plus a few extra passages
                let mut keep = vec![[false; 8]; n];
                let mut seen = vec![false; n];
                let mut stack = vec![rng.below(n)];
                seen[stack[0]] = true;
                let diag = rng.bool();
                while let Some(&c) = stack.last() {
                    let mut ds = allowed(diag).to_vec();
                    rng.shuffle(&mut ds);
                    let nx = ds
                        .iter()
                        .find_map(|&d| step(w, h, c, d).filter(|&o| !seen[o]).map(|o| (d, o)));
                    match nx {
                        Some((d, o)) => {
                            keep[c][d] = true;
                            keep[o][opposite(d)] = true;
                            seen[o] = true;
                            stack.push(o);
                        }
                        None => {
                            stack.pop();
                        }
                    }
                }
                let extra = *rng.pick(&[0, 3, 10]);
                for c in 0..n {
                    for d in 0..8 {
                        if !keep[c][d] && !rng.pct(extra) {
                            t.tgt[c][d] = None;
                        }
                    }
                }
            }
            8 => {
                t.style = "pocket";
                // A wall with one hole between the halves, to force detours
                let vertical = rng.bool();
                let len = if vertical { h } else { w };
                let line = rng.below(if vertical { w } else { h });
                let hole = rng.below(len + 1);
                for i in 0..len {
                    if i != hole {
                        let c = if vertical { i * w + line } else { line * w + i };
                        t.block(c);
                    }
                }
                for _ in 0..rng.below(3) {
                    let c = rng.below(n);
                    t.block(c);
                }
            }
            _ => {
                t.style = "currents";
                // One-way everywhere, with preferred headings by region
                for c in 0..n {
                    let favourite = rng.below(8);
                    for d in 0..8 {
                        let turn = (d + 8 - favourite) % 8;
                        let p = match turn {
                            0 => 5,
                            1 | 7 => 30,
                            2 | 6 => 60,
                            _ => 85,
                        };
                        if rng.pct(p) {
                            t.tgt[c][d] = None;
                        }
                    }
                }
            }
        }
        t
    }

    /// A tree of jumps, where each cell leads to `k` new ones: layers as
    /// wide as they can be
    pub fn fan(w: usize, h: usize, diag: bool, k: usize) -> Self {
        let mut t = Terrain::open(w, h);
        t.style = "fan";
        let dirs = allowed(diag);
        for c in 0..w * h {
            t.tgt[c] = [None; 8];
            for (i, &d) in dirs.iter().take(k).enumerate() {
                let o = c * k + 1 + i;
                if o < w * h {
                    t.tgt[c][d] = Some(o);
                }
            }
        }
        t
    }

    /// Add "stay where you are" moves
    pub fn add_stays(&mut self, rng: &mut Rng) {
        let p = *rng.pick(&[5, 30]);
        for c in 0..self.n() {
            for d in 0..8 {
                if self.tgt[c][d].is_none() && rng.pct(p) {
                    self.tgt[c][d] = Some(c);
                }
            }
        }
    }

    /// Add moves to anywhere
    pub fn add_warps(&mut self, rng: &mut Rng) {
        let p = *rng.pick(&[2, 10, 40]);
        let n = self.n();
        for c in 0..n {
            for d in 0..8 {
                if rng.pct(p) {
                    self.tgt[c][d] = Some(rng.below(n));
                }
            }
        }
    }

    pub fn random_costs(&mut self, rng: &mut Rng) {
        let n = self.n();
        let kind = rng.below(9);
        let m = usize::MAX;
        self.coststyle = [
            "unit", "small", "zeros", "mostly-zero", "powers", "huge", "by-direction", "wide", "by-cell",
        ][kind];
        let bydir: Vec<usize> = (0..8).map(|_| rng.below(12)).collect();
        for c in 0..n {
            let bycell = rng.below(20);
            for d in 0..8 {
                self.cost[c][d] = match kind {
                    0 => 1,
                    1 => 1 + rng.below(9),
                    2 => rng.below(3),
                    3 => {
                        if rng.pct(85) {
                            0
                        } else {
                            1 + rng.below(100)
                        }
                    }
                    4 => 1usize << rng.below(20),
                    5 => {
                        // Sums overflow, but not the optimal ones (usually)
                        *rng.pick(&[1, 2, 3, m / 2, m / 2 + 1, m - 1, m - 2, m, m / 3, 1, 1, 2])
                    }
                    6 => bydir[d],
                    7 => rng.below(1_000_000),
                    _ => bycell,
                };
            }
        }
    }

    /// Number of steps from `orig` to each cell
    pub fn dist(&self, orig: usize, diag: bool) -> Vec<Option<usize>> {
        let mut dist = vec![None; self.n()];
        dist[orig] = Some(0);
        let mut cur = vec![orig];
        let mut k = 0;
        while !cur.is_empty() {
            k += 1;
            let mut nx = vec![];
            for &c in &cur {
                for &d in allowed(diag) {
                    if let Some(o) = self.tgt[c][d] {
                        if dist[o].is_none() {
                            dist[o] = Some(k);
                            nx.push(o);
                        }
                    }
                }
            }
            cur = nx;
        }
        dist
    }

    /// Minimum cost from `orig` to each cell, in exact arithmetic, by
    /// label correction (not by a priority queue)
    pub fn mincost(&self, orig: usize, diag: bool) -> Vec<Option<u128>> {
        let mut best: Vec<Option<u128>> = vec![None; self.n()];
        best[orig] = Some(0);
        let mut queue = std::collections::VecDeque::from([orig]);
        let mut inq = vec![false; self.n()];
        inq[orig] = true;
        while let Some(c) = queue.pop_front() {
            inq[c] = false;
            let b = best[c].unwrap();
            for &d in allowed(diag) {
                if let Some(o) = self.tgt[c][d] {
                    let nb = b + self.cost[c][d] as u128;
                    if best[o].map(|x| nb < x).unwrap_or(true) {
                        best[o] = Some(nb);
                        if !inq[o] {
                            inq[o] = true;
                            queue.push_back(o);
                        }
                    }
                }
            }
        }
        best
    }

    /// Text picture for reports: each cell's moves
    pub fn show(&self) -> String {
        let mut s = format!("{}x{} {}/{}:", self.w, self.h, self.style, self.coststyle);
        if self.n() > 64 {
            return s;
        }
        for c in 0..self.n() {
            s.push_str(&format!(" ({},{})[", c % self.w, c / self.w));
            for d in 0..8 {
                if let Some(o) = self.tgt[c][d] {
                    s.push_str(COMPASS[d].0);
                    if Some(o) != step(self.w, self.h, c, d) {
                        s.push_str(&format!("->({},{})", o % self.w, o / self.w));
                    }
                    if self.coststyle != "unit" {
                        s.push_str(&format!("={}", self.cost[c][d]));
                    }
                    s.push(' ');
                }
            }
            s.push(']');
        }
        s
    }
}

/* Exhaustive families ********************************************************/

/// A family of terrains in which every member is a bit mask
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Family {
    /// Any subset of the moves, one-way
    Directed,
    /// Any subset of the passages, both ways
    Passages,
    /// Any subset of the cells is blocked
    Obstacles,
}

impl Family {
    fn elements(self, w: usize, h: usize, diag: bool) -> Vec<(usize, usize)> {
        match self {
            Family::Obstacles => (0..w * h).map(|c| (c, 0)).collect(),
            _ => {
                let mut v = vec![];
                for c in 0..w * h {
                    for &d in allowed(diag) {
                        if let Some(o) = step(w, h, c, d) {
                            if self == Family::Directed || o > c {
                                v.push((c, d));
                            }
                        }
                    }
                }
                v
            }
        }
    }

    pub fn bits(self, w: usize, h: usize, diag: bool) -> usize {
        self.elements(w, h, diag).len()
    }

    /// The member with number `i`
    pub fn member(self, w: usize, h: usize, diag: bool, i: u64) -> Terrain {
        let mut t = Terrain::open(w, h);
        t.style = match self {
            Family::Directed => "any one-way moves",
            Family::Passages => "any passages",
            Family::Obstacles => "any obstacles",
        };
        for (k, (c, d)) in self.elements(w, h, diag).into_iter().enumerate() {
            if i >> k & 1 != 0 {
                match self {
                    Family::Directed => t.tgt[c][d] = None,
                    Family::Passages => t.cut(c, d),
                    Family::Obstacles => t.block(c),
                }
            }
        }
        t
    }
}
