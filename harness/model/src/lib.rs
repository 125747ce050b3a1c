//! Independent model of the FlatBuffers binary format and of the schema
//! language: it shares no code with butte and never calls it.
pub mod dec;
pub mod enc;
pub mod names;
pub mod schema;
pub mod gen;
pub mod rng;
pub mod run;
pub mod ty;
pub use rng::Rng;
pub use ty::*;
