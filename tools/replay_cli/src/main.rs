//! Harness for the command line (P17), sharing driver and generators with tools/replay.
mod cli;
#[path = "../../replay/src/driver.rs"]
mod driver;
#[allow(dead_code)]
#[path = "../../replay/src/canon.rs"]
mod canon;
#[path = "../../replay/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../replay/src/rng.rs"]
mod rng;

use driver::Prop;

fn main() { driver::main(|id| if id == "P17" { Some(Box::new(cli::Cli) as Box<dyn Prop>) } else { None }); }
