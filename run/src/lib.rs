//! Only makes cargo build what the woven text links to when it is run (see ../driver.rs).
pub use {aoc_parse, num_bigint, num_traits, regex};
