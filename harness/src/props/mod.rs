//! The properties and the suites that decide them.
use crate::engine::*;
#[cfg(verif_hooks)]
pub mod hooks;
pub mod meta;
pub mod meta2;
pub mod num;
pub mod query;
pub mod structure;
pub mod tools;
pub fn all() -> Vec<Property> { let mut v = vec![]; structure::add(&mut v); meta::add(&mut v); meta2::add(&mut v); query::add(&mut v); tools::add(&mut v); num::add(&mut v);
    #[cfg(verif_hooks)]
    hooks::add(&mut v);
    v
}
