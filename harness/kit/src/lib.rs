//! Everything the checks share: exploration, interposition, reference model.
pub use futures_cpupool::mc;

pub mod ctx;
pub mod hash;
pub mod interpose;
pub mod json;
pub mod model;
