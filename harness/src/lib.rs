//! Monitoring harness for sqrid: shared machinery.
//!
//! - [`mon`]: runs units of work, catches violations and panics, counts
//!   what was observed and reports it as JSON.
//! - [`model`]: independent executable models (directions, terrains,
//!   shortest paths) that never call the library.
//! - [`dims`]: lists of grid sizes to instantiate const generics with.

pub mod dims;
pub mod model;
pub mod mon;
pub mod search;

include!(concat!(env!("OUT_DIR"), "/seeded.rs"));
