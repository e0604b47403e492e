#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod alloc;
mod drive;
mod gen;
mod interpose;
mod model;
mod obs;
mod oracle;
mod probes;
mod props;
mod rng;
mod run;
mod scen;
mod sched;
mod shrink;
mod sim;
mod vfs;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    drive::main(props::generate, props::run);
}
