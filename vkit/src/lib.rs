pub mod run;
pub mod tape;
pub use run::*;
pub use tape::{hash_bytes, splitmix, Rng, Tape};
