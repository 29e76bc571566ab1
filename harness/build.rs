//! Generates `seeded_dims!`: a few grid dimensions derived from VERIF_SEED,
//! so that different seeds also try different const-generic grid sizes.

use std::io::Write;

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-changed=build.rs");
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    let mut next = |n: u64| {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        (s >> 11) % n
    };
    for _ in 0..8 {
        next(2);
    }
    let mut dims = vec![];
    // medium sizes, maxima of the coordinates (inclusive)
    for _ in 0..3 {
        dims.push((next(14), next(14)));
    }
    // long and thin
    dims.push((next(3), 9 + next(50)));
    dims.push((9 + next(50), next(3)));
    let sq: Vec<u64> = (0..2).map(|_| 8 + next(9)).collect();
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("seeded.rs");
    let mut f = std::fs::File::create(out).unwrap();
    let list = |v: &[(u64, u64)]| {
        v.iter()
            .map(|(x, y)| format!("({x},{y})"))
            .collect::<Vec<_>>()
            .join(",")
    };
    let sql: Vec<(u64, u64)> = sq.iter().map(|&q| (q, q)).collect();
    writeln!(
        f,
        "#[macro_export] macro_rules! seeded_dims {{ ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {{ $crate::units_dims!($m, $n, $q, $t, $f, [{}]); }} }}",
        list(&dims)
    )
    .unwrap();
    writeln!(
        f,
        "#[macro_export] macro_rules! seeded_square_dims {{ ($m:expr, $n:expr, $q:expr, $t:expr, $f:ident) => {{ $crate::units_sq!($m, $n, $q, $t, $f, [{}]); }} }}",
        sql.iter().map(|(x, _)| x.to_string()).collect::<Vec<_>>().join(",")
    )
    .unwrap();
}
