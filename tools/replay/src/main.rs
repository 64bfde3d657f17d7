//! Replay and bounded-search harness: runs executable forms of the contracts
//! against the compiled crate in /repo.
mod canon;
mod driver;
mod gen;
mod model;
mod props;
mod rng;
mod tree;

use driver::Prop;

fn main() { driver::main(props::find); }
