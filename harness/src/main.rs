//! C06-C27, C31 and C33: everything above the storage format, through the public interface of the crate.

#[global_allocator]
static ALLOC: pbt::alloc::PoisonOnFree = pbt::alloc::PoisonOnFree;

mod coalesce_props;
mod disk_props;
mod misc_props;
mod opts_props;
mod stacks;
mod store_props;
mod world;

fn main() {
    let mut props = Vec::new();
    props.extend(store_props::all());
    props.extend(opts_props::all());
    props.extend(coalesce_props::all());
    props.extend(misc_props::all());
    props.push(disk_props::prop());
    pbt::main(props)
}
