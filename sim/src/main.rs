#[global_allocator]
static ALLOC: simcore::SimAlloc = simcore::SimAlloc;
mod exec;
mod gen;
mod judge;
mod minim;
mod model;
mod plan;
mod worker;

fn main() {
    worker::main();
}
