//! `serde` with its derive macros (the feature is left out of the build here).
//@ deps: serde serde_derive
pub use serde::*;
pub use serde_derive::{Deserialize, Serialize};
