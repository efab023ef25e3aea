//! C01-C05, C32: the storage format, compiled in place from /repo.

#[global_allocator]
static ALLOC: pbt::alloc::PoisonOnFree = pbt::alloc::PoisonOnFree;

// the modules of the crate, see build.rs
include!(concat!(env!("OUT_DIR"), "/modules.rs"));

mod beside;
mod disk;
mod gen;
mod props;

fn main() {
    let mut props = props::all();
    props.push(disk::prop());
    pbt::main(props)
}
