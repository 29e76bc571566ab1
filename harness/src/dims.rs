//! Lists of grid sizes to instantiate the const generics with.
//!
//! Sizes are given as coordinate maxima (inclusive), as in the library.
//! The generic functions receive `X, Y, SIZE, WORDS, WORDS2`: `WORDS` is
//! the number of words that `gridbool_create!` would use, `WORDS2` the one
//! that `sqrid_create!` would use; both are legal.

#[macro_export]
macro_rules! units_dims {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident, [$(($x:literal, $y:literal)),* $(,)?]) => {
        $( $m.shards(format!("{}/{}x{}", $n, $x as usize + 1, $y as usize + 1), $q, $t, |u: &mut $crate::mon::U| {
            $f::<$x, $y,
                 { ($x as usize + 1) * ($y as usize + 1) },
                 { (($x as usize + 1) * ($y as usize + 1) + 31) / 32 },
                 { ($x as usize + 1) * ($y as usize + 1) / 32 + 1 }>(u)
        }); )*
    };
}

#[macro_export]
macro_rules! units_sq {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident, [$($x:literal),* $(,)?]) => {
        $( $m.shards(format!("{}/{}x{}", $n, $x as usize + 1, $x as usize + 1), $q, $t, |u: &mut $crate::mon::U| {
            $f::<$x,
                 { ($x as usize + 1) * ($x as usize + 1) },
                 { (($x as usize + 1) * ($x as usize + 1) + 31) / 32 },
                 { ($x as usize + 1) * ($x as usize + 1) / 32 + 1 }>(u)
        }); )*
    };
}

/// Every shape up to 4x4, and some more small ones
#[macro_export]
macro_rules! tiny_dims {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {
        $crate::units_dims!(
            $m, $n, $q, $t, $f,
            [
                (0, 0), (0, 1), (0, 2), (0, 3), (1, 0), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1),
                (2, 2), (2, 3), (3, 0), (3, 1), (3, 2), (3, 3), (4, 1), (1, 4), (4, 4), (2, 4),
                (0, 4), (5, 0)
            ]
        );
    };
}

/// Medium shapes: word boundaries of the bitmaps (31, 32, 33, 63, 64, 65,
/// 96, 128 cells), odd/even, thin
#[macro_export]
macro_rules! medium_dims {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {
        $crate::units_dims!(
            $m, $n, $q, $t, $f,
            [
                (5, 5), (6, 4), (4, 6), (7, 3), (3, 7), (30, 0), (0, 31), (31, 0), (32, 0), (0, 32),
                (10, 2), (2, 10), (8, 6), (6, 8), (62, 0), (7, 7), (0, 63), (12, 4), (4, 12),
                (11, 7), (15, 7), (9, 9), (10, 11)
            ]
        );
    };
}

/// Few shapes, for expensive generic code
#[macro_export]
macro_rules! few_dims {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {
        $crate::units_dims!(
            $m, $n, $q, $t, $f,
            [(0, 0), (1, 1), (4, 0), (0, 5), (2, 1), (2, 2), (3, 4), (5, 3), (7, 7), (31, 0), (12, 9)]
        );
    };
}

/// Large shapes around the limits of 8 and 16 bits
#[macro_export]
macro_rules! large_dims {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {
        $crate::units_dims!(
            $m, $n, $q, $t, $f,
            [(254, 1), (255, 0), (0, 256), (256, 1), (99, 100), (255, 255), (300, 7), (3, 400), (65535, 0), (0, 65535)]
        );
    };
}

/// More cells than fit in 16 bits
#[macro_export]
macro_rules! huge_dims {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {
        $crate::units_dims!($m, $n, $q, $t, $f, [(299, 299), (2, 65535), (65535, 1), (1023, 99)]);
    };
}

#[macro_export]
macro_rules! square_dims {
    ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {
        $crate::units_sq!($m, $n, $q, $t, $f, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 31, 32]);
    };
}
