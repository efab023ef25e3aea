//! C28-C30: the JavaScript bindings, compiled in place against a stand-in for neon.

#[global_allocator]
static ALLOC: pbt::alloc::PoisonOnFree = pbt::alloc::PoisonOnFree;

mod fuzzy;
mod js;
mod node;
mod props;
#[allow(dead_code)]
#[path = "../../../harness/src/stacks.rs"]
mod stacks;
#[allow(dead_code)]
#[path = "../../../harness/src/world.rs"]
mod world;

fn main() {
    let mut props = Vec::new();
    props.extend(props::all());
    props.extend(fuzzy::all());
    pbt::main(props)
}
