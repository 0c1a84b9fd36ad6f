//! Explicit enumeration harness for rawloader: explorer, worker pool, file builders, reference models.
pub mod ex;
pub mod run;
pub mod bits;
pub mod tiffb;
pub mod camdb;
pub mod dev;
pub mod enc;
pub mod chk;
pub mod samples;
pub mod corpus;
pub mod fmt;
pub mod lj;
pub mod nikon;
