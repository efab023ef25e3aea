//! C34: stores and requests written out as JSON come back the same, through the library of the tools
//! and through the programs `dump_store` and `load_store`.

#[global_allocator]
static ALLOC: pbt::alloc::PoisonOnFree = pbt::alloc::PoisonOnFree;

mod props;
#[allow(dead_code)]
#[path = "../../harness/src/stacks.rs"]
mod stacks;
#[allow(dead_code)]
#[path = "../../harness/src/world.rs"]
mod world;

fn main() {
    // before there are threads
    if std::env::var_os("PBT_TMP").is_some() {
        props::scratch();
    }
    pbt::main(props::all())
}
