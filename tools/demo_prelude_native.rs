// Calls the bindings as JavaScript would, over stand-ins for neon and neon-serde.
#![allow(dead_code, unused_imports)]
use neon::context::{Exports, ModuleContext};
use neon::vm::{self, Raw, Slot};

fn exports() -> Exports {
    let mut m = ModuleContext { exports: Default::default(), phantom: std::marker::PhantomData };
    native::neon_module_init(&mut m).unwrap();
    m.exports
}
fn dir() -> Raw {
    vm::string(&std::env::var("DEMO_DIR").expect("DEMO_DIR"))
}
fn num(n: f64) -> Raw {
    vm::num(n)
}
fn nums(v: &[f64]) -> Raw {
    vm::array(v.iter().map(|n| num(*n)).collect())
}
fn key(phrase_id: f64, langs: &[f64]) -> Raw {
    vm::object(vec![("phrase_id", num(phrase_id)), ("lang_set", nums(langs))])
}
fn entry(id: f64) -> Raw {
    vm::object(vec![
        ("relev", num(1.0)),
        ("score", num(1.0)),
        ("x", num(1.0)),
        ("y", num(1.0)),
        ("id", num(id)),
        ("source_phrase_hash", num(0.0)),
    ])
}
fn thrown(e: Raw) -> String {
    vm::error_of(e).1
}

