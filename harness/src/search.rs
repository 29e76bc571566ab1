//! Position types that the generic harnesses drive, and search helpers.

use sqrid::postrait::PosT;
use sqrid::{BoundedI8, BoundedU16, BoundedU32, BoundedU8, Dir, Error, Pos};
use std::fmt::Debug;
use std::hash::Hash;

/// Position types whose coordinates start at zero
pub trait TP: PosT + Ord + Hash + Copy + Debug + Send + Sync + 'static {
    fn at(x: usize, y: usize) -> Self;
    fn co(&self) -> (usize, usize);
    fn name() -> String;
}

impl<const X: u16, const Y: u16> TP for Pos<X, Y> {
    fn at(x: usize, y: usize) -> Self {
        Pos((BoundedU16(x as u16), BoundedU16(y as u16)))
    }
    fn co(&self) -> (usize, usize) {
        (self.0 .0 .0 as usize, self.0 .1 .0 as usize)
    }
    fn name() -> String {
        format!("Pos<{X},{Y}>")
    }
}

macro_rules! tp_tuple {
    ($t:ty) => {
        impl TP for ($t, $t) {
            fn at(x: usize, y: usize) -> Self {
                (x as $t, y as $t)
            }
            fn co(&self) -> (usize, usize) {
                (self.0 as usize, self.1 as usize)
            }
            fn name() -> String {
                format!("({0},{0})", stringify!($t))
            }
        }
    };
}
tp_tuple!(u8);
tp_tuple!(u16);
tp_tuple!(u32);
tp_tuple!(u64);
tp_tuple!(u128);
tp_tuple!(i16);
tp_tuple!(i32);

/// A user-written position type, with different coordinate types,
/// that defines the tuple accessor only
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct UserPos<const X: u8, const Y: u32>(pub BoundedU8<0, X>, pub BoundedU32<0, Y>);

impl<const X: u8, const Y: u32> PosT for UserPos<X, Y> {
    type Xtype = BoundedU8<0, X>;
    type Ytype = BoundedU32<0, Y>;
    const WIDTH: usize = X as usize + 1;
    const HEIGHT: usize = Y as usize + 1;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        UserPos(xy.0, xy.1)
    }
    fn tuple(&self) -> (Self::Xtype, Self::Ytype) {
        (self.0, self.1)
    }
}

impl<const X: u8, const Y: u32> std::ops::Add<Dir> for UserPos<X, Y> {
    type Output = Result<Self, Error>;
    fn add(self, d: Dir) -> Self::Output {
        let (x, y) = ((self.0, self.1) + d)?;
        Ok(UserPos(x, y))
    }
}

impl<const X: u8, const Y: u32> TP for UserPos<X, Y> {
    fn at(x: usize, y: usize) -> Self {
        UserPos(BoundedU8(x as u8), BoundedU32(y as u32))
    }
    fn co(&self) -> (usize, usize) {
        (self.0 .0 as usize, self.1 .0 as usize)
    }
    fn name() -> String {
        format!("UserPos<{X},{Y}>")
    }
}

/// A user-written position type with a coordinate that can be negative
/// and one whose range doesn't include zero; defines x and y only
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct OffsetPos(pub BoundedI8<-3, 4>, pub BoundedU16<10, 15>);

impl PosT for OffsetPos {
    type Xtype = BoundedI8<-3, 4>;
    type Ytype = BoundedU16<10, 15>;
    const WIDTH: usize = 8;
    const HEIGHT: usize = 6;
    fn new_(xy: (Self::Xtype, Self::Ytype)) -> Self {
        OffsetPos(xy.0, xy.1)
    }
    fn x(&self) -> Self::Xtype {
        self.0
    }
    fn y(&self) -> Self::Ytype {
        self.1
    }
}

/* Search helpers *************************************************************/

use crate::model::{di, Terrain, COMPASS};
use std::cell::Cell;

/// The cell of a position in a terrain; positions outside of it must
/// never show up
pub fn cell_of<P: TP>(t: &Terrain, p: P) -> usize {
    let (x, y) = p.co();
    if x >= t.w || y >= t.h {
        crate::fail!("position {p:?} is outside of the {}x{} area", t.w, t.h);
    }
    y * t.w + x
}

pub fn pos_of<P: TP>(t: &Terrain, c: usize) -> P {
    P::at(c % t.w, c / t.w)
}

/// Far more moves than any sane search asks for; stops runaway ones
const RUNAWAY: u64 = 30_000_000;

fn tick(n: &Cell<u64>) {
    n.set(n.get() + 1);
    if n.get() > RUNAWAY {
        crate::fail!("the search does not end: {RUNAWAY} moves were considered");
    }
}

/// Movement function of a terrain
pub fn go_of<P: TP>(t: &Terrain) -> impl Fn(P, Dir) -> Option<P> + Clone + '_ {
    let n = Cell::new(0);
    move |p, d| {
        tick(&n);
        t.tgt[cell_of(t, p)][di(d)].map(|c| pos_of(t, c))
    }
}

/// Movement and cost function of a terrain
pub fn gocost_of<P: TP>(t: &Terrain) -> impl Fn(P, Dir) -> Option<(P, usize)> + Clone + '_ {
    let n = Cell::new(0);
    move |p, d| {
        tick(&n);
        let c = cell_of(t, p);
        t.tgt[c][di(d)].map(|o| (pos_of(t, o), t.cost[c][di(d)]))
    }
}

/// Follow a path: the final cell and the cost
pub fn walk(t: &Terrain, diag: bool, orig: usize, path: &[Dir]) -> Result<(usize, u128), String> {
    let mut c = orig;
    let mut cost = 0u128;
    for (i, d) in path.iter().enumerate() {
        if !diag && di(*d) % 2 == 1 {
            return Err(format!("step {i} is {}, a diagonal", COMPASS[di(*d)].0));
        }
        match t.tgt[c][di(*d)] {
            Some(o) => {
                cost += t.cost[c][di(*d)] as u128;
                c = o;
            }
            None => {
                return Err(format!("step {i}, {} from ({},{}), is not allowed", COMPASS[di(*d)].0, c % t.w, c / t.w))
            }
        }
    }
    Ok((c, cost))
}
