//! C30: the fuzzy phrase bindings hand on what they are given and hand back what they get.

use crate::js;
use crate::props::{ok, throws, undefined, ASSUME};
use fuzzy_phrase::glue::*;
use fuzzy_phrase::probe::{self, Reply};
use neon::vm::{self, Prop as JsProp, Raw};
use pbt::{check, check_eq, Ctx, Family, Prop, Src, R};
use serde_json::json;

const B: &str = "FuzzyPhraseSetBuilder";
const F: &str = "FuzzyPhraseSet";

fn word(s: &mut Src) -> String {
    s.pick(&["main", "st", "", "a", "100", "é", "東京", "main street", "\u{0}", "𝄞", "\"", "MAIN"]).to_string()
}
fn phrase(s: &mut Src) -> Vec<String> {
    s.list(0, 6, 3, |s, _| word(s))
}
fn js_phrase(p: &[String]) -> Raw {
    vm::array(p.iter().map(|w| js::s(w)).collect())
}
fn ending(s: &mut Src) -> EndingType {
    *s.pick(&[EndingType::NonPrefix, EndingType::AnyPrefix, EndingType::WordBoundaryPrefix])
}
fn id(s: &mut Src) -> u32 {
    s.draw(1 << 32, |r| match r.below(4) {
        0 => r.below(5),
        1 => (1 << 31) - 2 + r.below(4),
        2 => 0xffff_fffc + r.below(3),
        _ => r.below(1 << 32),
    }) as u32
}
fn matched(s: &mut Src) -> FuzzyMatchResult {
    FuzzyMatchResult { phrase: phrase(s), edit_distance: s.us(256) as u8, ending_type: ending(s), phrase_id_range: (id(s), id(s)) }
}
fn window(s: &mut Src) -> FuzzyWindowResult {
    FuzzyWindowResult {
        phrase: phrase(s),
        edit_distance: s.us(256) as u8,
        start_position: s.us(300),
        ending_type: ending(s),
        phrase_id_range: (id(s), id(s)),
    }
}
/// Numbers around those whose count of bytes needs 16 bits or more.
fn many(s: &mut Src) -> std::ops::Range<u32> {
    0..[16_383u32, 16_384, 16_385, 65_535, 65_536, 65_537, 30_000][s.us(7)]
}
fn reply(s: &mut Src) -> Reply {
    Reply {
        error: if s.chance(1, 6) { Some("no such luck".into()) } else { None },
        id: id(s),
        map: if s.chance(1, 400) { many(s).map(|i| i.wrapping_mul(0x0100_0101)).collect() } else { s.list(0, 20, 5, |s, _| id(s)) },
        found: s.bool(),
        matches: s.list(0, 4, 2, |s, _| matched(s)),
        windows: s.list(0, 4, 2, |s, _| window(s)),
        multi: s.list(0, 3, 2, |s, _| s.list(0, 3, 1, |s, _| matched(s))),
        phrase: if s.chance(1, 4) { None } else { Some(phrase(s)) },
        bins: if s.chance(1, 400) {
            many(s).map(|i| (3 * i as u64, 3 * i as u64 + 2)).collect()
        } else {
            let mut at = 0u64;
            s.list(0, 6, 3, |s, _| {
                let first = at;
                at += 1 + if s.chance(1, 5) { s.u(1 << 28) } else { s.u(50) };
                (first, at - 1)
            })
        },
    }
}

fn bad_phrase(s: &mut Src) -> Raw {
    match s.us(3) {
        0 => js::junk(s, "array"),
        1 => {
            let j = js::junk(s, "string");
            vm::array(vec![js::s("main"), j])
        }
        _ => {
            let j = js::junk(s, "string");
            vm::array(vec![j])
        }
    }
}

fn bad_ending(s: &mut Src) -> Raw {
    match s.us(3) {
        0 => js::num(3),
        1 => js::num(-1),
        _ => js::junk(s, "number"),
    }
}

fn words(p: &[String]) -> String {
    format!("{:?}", p)
}

fn c30_builder(s: &mut Src, c: &mut Ctx) -> R {
    vm::reset();
    probe::set(Reply::default());
    let b = ok(js::new(B, &[js::s("/some/where")]), "new FuzzyPhraseSetBuilder")?;
    check_eq!(probe::calls(), vec!["builder \"/some/where\"".to_string()], "calls of the constructor");
    let mut done = false;
    let mut kinds = 0u32;
    let mut steps = vec![];
    for _ in 0..s.ri(1, 14) {
        let r = reply(s);
        probe::set(r.clone());
        let kind = s.weighted(&[5, 2, 1, 3]);
        kinds |= 1 << kind;
        let (call, want, got) = match kind {
            0 => {
                let p = phrase(s);
                let got = js::call(B, b, "insert", &[js_phrase(&p)]);
                (format!("insert {}", words(&p)), json!(r.id), got)
            }
            1 => {
                let w = s.list(0, 4, 2, |s, _| (word(s), word(s)));
                let a = w
                    .iter()
                    .map(|(f, t)| js::object(s, vec![("from", Some(js::s(f))), ("to", Some(js::s(t)))]))
                    .collect();
                let got = js::call(B, b, "loadWordReplacements", &[vm::array(a)]);
                let shown: Vec<(&String, &String)> = w.iter().map(|w| (&w.0, &w.1)).collect();
                (format!("replacements {:?}", shown), json!("undefined"), got)
            }
            2 => ("finish".to_string(), json!({ "words": r.map, "bytes": r.map.len() * 4 }), js::call(B, b, "finish", &[])),
            _ => {
                let (name, args) = match s.us(4) {
                    0 => ("insert", vec![]),
                    1 => ("insert", vec![bad_phrase(s)]),
                    2 => ("loadWordReplacements", vec![]),
                    _ => {
                        let bad = match s.us(4) {
                            0 => js::junk(s, "array"),
                            1 => vm::array(vec![js::junk(s, "object array function")]),
                            2 => vm::array(vec![vm::object(vec![("from", js::s("a"))])]),
                            _ => {
                                let p = vec![("from".to_string(), JsProp::Throws), ("to".to_string(), JsProp::Value(js::s("b")))];
                                vm::array(vec![vm::object_props(p)])
                            }
                        };
                        ("loadWordReplacements", vec![bad])
                    }
                };
                let shown: Vec<String> = args.iter().map(|a| js::json(*a).to_string()).collect();
                throws(js::call(B, b, name, &args), &format!("{}({})", name, shown.join(", ")))?;
                check!(probe::calls().is_empty(), "a refused {} reached the builder", name);
                steps.push("refused".to_string());
                continue;
            }
        };
        steps.push(call.clone());
        if done {
            throws(got, &format!("{} after finish()", call))?;
            check!(probe::calls().is_empty(), "{} after finish() reached the builder", call);
            c.label("called after finish()");
            continue;
        }
        check_eq!(probe::calls(), vec![call.clone()], "what reached the builder");
        match &r.error {
            Some(e) => match got {
                Err((_, m)) => check!(m.contains(e.as_str()), "{} threw {}, not {}", call, m, e),
                Ok(v) => return Err(format!("{} failed but returned {}", call, js::json(v))),
            },
            None => check_eq!(js::json(ok(got, &call)?), want, "{}", call),
        }
        done |= kind == 2;
    }
    c.input("steps", &steps);
    c.nontrivial_if(steps.len() >= 3 && kinds.count_ones() >= 2);
    c.label_if(done, "finished");
    let bad = match s.us(3) {
        0 => js::new(B, &[]),
        1 => {
            let j = js::junk(s, "string");
            js::new(B, &[j])
        }
        _ => {
            probe::set(Reply { error: Some("no".into()), ..Reply::default() });
            js::new(B, &[js::s("x")])
        }
    };
    throws(bad, "FuzzyPhraseSetBuilder")?;
    vm::reset();
    Ok(())
}

fn c30_set(s: &mut Src, c: &mut Ctx) -> R {
    vm::reset();
    probe::set(Reply::default());
    let f = ok(js::new(F, &[js::s("/some/where")]), "new FuzzyPhraseSet")?;
    check_eq!(probe::calls(), vec!["open \"/some/where\"".to_string()], "calls of the constructor");
    let mut kinds = 0u32;
    for _ in 0..s.ri(1, 8) {
        let r = reply(s);
        c.input("reply", &r);
        probe::set(r.clone());
        let kind = s.us(6);
        kinds |= 1 << kind;
        let p = phrase(s);
        let (w, d, e) = (s.us(256) as u8, s.us(256) as u8, ending(s));
        let value = |v: serde_json::Value| js::norm(v);
        let (name, mut args, call, want) = match kind {
            0 => ("contains", vec![js_phrase(&p), js::num(e.number())], format!("contains {} {}", words(&p), e.number()), json!(r.found)),
            1 => (
                "fuzzyMatch",
                vec![js_phrase(&p), js::num(w), js::num(d), js::num(e.number())],
                format!("match {} {} {} {}", words(&p), w, d, e.number()),
                value(serde_json::to_value(&r.matches).unwrap()),
            ),
            2 => (
                "fuzzyMatchWindows",
                vec![js_phrase(&p), js::num(w), js::num(d), js::num(e.number())],
                format!("windows {} {} {} {}", words(&p), w, d, e.number()),
                value(serde_json::to_value(&r.windows).unwrap()),
            ),
            3 => {
                let ps = s.list(0, 4, 2, |s, _| (phrase(s), ending(s)));
                let a = ps.iter().map(|(p, e)| vm::array(vec![js_phrase(p), js::num(e.number())])).collect();
                let shown: Vec<(Vec<String>, u8)> = ps.iter().map(|(p, e)| (p.clone(), e.number())).collect();
                (
                    "fuzzyMatchMulti",
                    vec![vm::array(a), js::num(w), js::num(d)],
                    format!("multi {:?} {} {}", shown, w, d),
                    value(serde_json::to_value(&r.multi).unwrap()),
                )
            }
            4 => {
                let n = id(s);
                let want = match &r.phrase {
                    Some(p) => json!(p),
                    None => json!("undefined"),
                };
                ("getByPhraseId", vec![js::num(n)], format!("phrase {}", n), want)
            }
            _ => {
                let n = s.us(100_000) as u32;
                let mut ids: Vec<u32> = r.bins.iter().map(|b| b.0 as u32).collect();
                if let Some(b) = r.bins.last() {
                    ids.push(b.1 as u32 + 1);
                }
                ("getPrefixBins", vec![js::num(n)], format!("bins {}", n), json!({ "words": ids, "bytes": ids.len() * 4 }))
            }
        };
        c.input("call", &call);
        if s.chance(1, 4) {
            // something wrong with the arguments
            if s.bool() {
                let n = s.us(args.len());
                args.truncate(n);
            } else {
                let at = s.us(args.len());
                args[at] = match (name, at) {
                    ("contains", 0) | ("fuzzyMatch", 0) | ("fuzzyMatchWindows", 0) => bad_phrase(s),
                    ("contains", 1) | ("fuzzyMatch", 3) | ("fuzzyMatchWindows", 3) => bad_ending(s),
                    ("fuzzyMatchMulti", 0) => {
                        let bad = match s.us(3) {
                            0 => vm::array(vec![bad_phrase(s), js::num(0)]),
                            1 => vm::array(vec![js_phrase(&p), bad_ending(s)]),
                            _ => vm::array(vec![js_phrase(&p)]),
                        };
                        vm::array(vec![bad])
                    }
                    _ => js::junk(s, "number"),
                };
            }
            let shown: Vec<String> = args.iter().map(|a| js::json(*a).to_string()).collect();
            throws(js::call(F, f, name, &args), &format!("{}({})", name, shown.join(", ")))?;
            check!(probe::calls().is_empty(), "a refused {} reached the set", name);
            c.label("refused");
            continue;
        }
        let got = js::call(F, f, name, &args);
        check_eq!(probe::calls(), vec![call.clone()], "what reached the set");
        match &r.error {
            Some(e) => match got {
                Err((_, m)) => check!(m.contains(e.as_str()), "{} threw {}, not {}", call, m, e),
                Ok(v) => return Err(format!("{} failed but returned {}", call, js::json(v))),
            },
            None => check_eq!(js::json(ok(got, &call)?), want, "{}", call),
        }
    }
    let bad = match s.us(3) {
        0 => js::new(F, &[]),
        1 => {
            let j = js::junk(s, "string");
            js::new(F, &[j])
        }
        _ => {
            probe::set(Reply { error: Some("no".into()), ..Reply::default() });
            js::new(F, &[js::s("x")])
        }
    };
    throws(bad, "FuzzyPhraseSet")?;
    c.nontrivial_if(kinds.count_ones() >= 2);
    let _ = undefined;
    vm::reset();
    Ok(())
}

pub fn all() -> Vec<Prop> {
    let f = Family::new;
    vec![Prop {
        id: "C30",
        rule: "random sequences of calls on a phrase set builder and on a phrase set, with a recorder in the place \
               of fuzzy-phrase that answers or fails at random: what reached it, what came back, and that wrong \
               arguments and calls after finish() throw and reach nothing. Non-trivial: at least two kinds of calls",
        assumptions: ASSUME,
        families: vec![f("builder", 150_000, 600_000, c30_builder), f("set", 150_000, 600_000, c30_set)],
    }]
}
