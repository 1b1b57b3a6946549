//! Deterministic simulation of aegir: see ../DESIGN.md.
mod alloc;
mod ast;
mod build;
mod exact;
mod exactgrad;
mod extreme;
mod userland;
mod refer;
mod world;
mod field;
mod jac;
mod node;
mod orch;
mod props;
mod sim;
mod store;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(orch::main(&args[1..]));
}
