mod common;
mod digest;
mod gen;
mod lat;
mod offset;
mod props;
mod structure;
mod util;
fn main() { kit::main(props::all()) }
