//! Values as JavaScript code would write them, and results as it would read them.

use carmen_core::gridstore::*;
use neon::vm::{self, Prop, Raw, Slot};
use pbt::Src;
use serde_json::{json, Value};

pub const ALL: u128 = std::u128::MAX;

pub type Thrown = (String, String);

pub fn exports() -> &'static neon::context::Exports {
    use std::sync::OnceLock;
    static E: OnceLock<neon::context::Exports> = OnceLock::new();
    E.get_or_init(|| {
        let mut m = neon::context::ModuleContext { exports: Default::default(), phantom: std::marker::PhantomData };
        native::neon_module_init(&mut m).expect("the module initialises");
        m.exports
    })
}

pub fn new(class: &str, args: &[Raw]) -> Result<Raw, Thrown> {
    exports().construct(class, args).map_err(vm::error_of)
}
pub fn call(class: &str, this: Raw, method: &str, args: &[Raw]) -> Result<Raw, Thrown> {
    exports().method(class, this, method, args).map_err(vm::error_of)
}
pub fn function(name: &str, args: &[Raw]) -> Result<Raw, Thrown> {
    exports().function(name, args).map_err(vm::error_of)
}

pub fn num(n: impl Into<f64>) -> Raw {
    vm::num(n.into())
}
pub fn s(t: &str) -> Raw {
    vm::string(t)
}
pub fn nums<T: Copy + Into<f64>>(v: &[T]) -> Raw {
    vm::array(v.iter().map(|n| num(*n)).collect())
}

/// The languages of a set, in some order, some twice, with numbers that stand for no language.
/// All languages can also be left out.
pub fn langs(src: &mut Src, l: u128) -> Option<Raw> {
    if l == ALL {
        match src.us(5) {
            0 => return None,
            1 => return Some(vm::undefined()),
            2 => return Some(vm::null()),
            _ => (),
        }
    }
    let mut v: Vec<f64> = (0..128).filter(|i| l >> i & 1 == 1).map(|i| i as f64).collect();
    match src.us(6) {
        0 => v.reverse(),
        1 => {
            for i in (0..v.len()).rev() {
                if src.bool() {
                    let x = v[i];
                    v.push(x);
                }
            }
        }
        2 => {
            let at = src.us(v.len() + 1);
            v.insert(at, *src.pick(&[128.0, 129.0, 255.0, 256.0, 1000.0, 4294967296.0]));
        }
        _ => (),
    }
    Some(vm::array(v.into_iter().map(vm::num).collect()))
}

pub fn object(src: &mut Src, mut props: Vec<(&str, Option<Raw>)>) -> Raw {
    // the order of properties means nothing
    if src.chance(1, 4) {
        let n = props.len();
        for i in (1..n).rev() {
            props.swap(i, src.us(i + 1));
        }
    }
    vm::object(props.into_iter().filter_map(|(k, v)| v.map(|v| (k, v))).collect())
}

pub fn key(src: &mut Src, k: &GridKey) -> Raw {
    let l = langs(src, k.lang_set);
    object(src, vec![("phrase_id", Some(num(k.phrase_id))), ("lang_set", l)])
}

pub fn entry(src: &mut Src, e: &GridEntry) -> Raw {
    let extra = if src.chance(1, 6) { Some(s("x")) } else { None };
    object(
        src,
        vec![
            ("relev", Some(num(e.relev))),
            ("score", Some(num(e.score))),
            ("x", Some(num(e.x))),
            ("y", Some(num(e.y))),
            ("id", Some(num(e.id))),
            ("source_phrase_hash", Some(num(e.source_phrase_hash))),
            ("unrelated", extra),
        ],
    )
}

pub fn entries(src: &mut Src, v: &[GridEntry]) -> Raw {
    vm::array(v.iter().map(|e| entry(src, e)).collect())
}

pub fn is_undefined(r: Raw) -> bool {
    vm::with(r, |s| matches!(s, Slot::Undefined))
}

/// A result as JSON; `undefined` becomes the string "undefined", which no result contains.
pub fn json(r: Raw) -> Value {
    enum Step {
        Done(Value),
        Arr(Vec<Raw>),
        Obj(Vec<(String, Prop)>),
    }
    let step = vm::with(r, |s| match s {
        Slot::Undefined => Step::Done(json!("undefined")),
        Slot::Null => Step::Done(Value::Null),
        Slot::Bool(b) => Step::Done(json!(*b)),
        Slot::Num(n) if n.trunc() == *n && n.abs() < 9e15 => Step::Done(json!(*n as i64)),
        Slot::Num(n) => Step::Done(json!(*n)),
        Slot::Str(t) => Step::Done(json!(t)),
        Slot::Array(v) => Step::Arr(v.clone()),
        Slot::Object(p) => Step::Obj(p.clone()),
        Slot::Buffer(v, n) => Step::Done(json!({ "words": v, "bytes": n })),
        Slot::Instance(i) => Step::Done(json!(format!("instance of {}", i.class))),
        Slot::Function(_) => Step::Done(json!("function")),
        Slot::Error(k, m) => Step::Done(json!(format!("{}: {}", k, m))),
    });
    match step {
        Step::Done(v) => v,
        Step::Arr(v) => Value::Array(v.into_iter().map(json).collect()),
        Step::Obj(p) => Value::Object(
            p.into_iter()
                .map(|(k, v)| {
                    let v = match v {
                        Prop::Value(v) => json(v),
                        Prop::Throws => json!("throws"),
                    };
                    (k, v)
                })
                .collect(),
        ),
    }
}

/// JSON with whole numbers written as integers, as JavaScript has only one kind of number.
pub fn norm(v: Value) -> Value {
    match v {
        Value::Number(n) => {
            let f = n.as_f64().unwrap();
            if f.trunc() == f && f.abs() < 9e15 { json!(f as i64) } else { json!(f) }
        }
        Value::Array(a) => Value::Array(a.into_iter().map(norm).collect()),
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, norm(v))).collect()),
        v => v,
    }
}

/// Something of none of the named kinds.
pub fn junk(src: &mut Src, not: &str) -> Raw {
    let kinds = ["number", "string", "undefined", "null", "boolean", "array", "object", "function"];
    let left: Vec<&str> = kinds.iter().filter(|k| !not.split(' ').any(|n| n == **k)).copied().collect();
    match *src.pick(&left) {
        "undefined" => vm::undefined(),
        "null" => vm::null(),
        "boolean" => vm::boolean(true),
        "number" => vm::num(7.0),
        "string" => s("seven"),
        "array" => vm::array(vec![]),
        "object" => vm::object(vec![]),
        _ => vm::function(|_| Ok(vm::undefined())),
    }
}

pub fn dir(p: &std::path::Path) -> Raw {
    s(p.to_str().expect("UTF-8 path"))
}

/// Marks a store's object as collected: nothing refers to it any more.
pub fn collect(r: Raw) {
    let old = vm::with(r, |s| std::mem::replace(s, Slot::Undefined));
    drop(old);
}
