//! index.js itself, run by node over a stand-in for the compiled addon.

use pbt::{check, check_eq, Ctx, Src, R};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const HOST: &str = include_str!("host.js");

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Node {
    fn start() -> Node {
        let mut child = Command::new("node")
            .args(["-e", HOST])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node starts");
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        Node { child, to, from }
    }
    fn ask(&mut self, req: &Value) -> Option<Value> {
        writeln!(self.to, "{}", req).ok()?;
        self.to.flush().ok()?;
        let mut line = String::new();
        self.from.read_line(&mut line).ok()?;
        serde_json::from_str(&line).ok()
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static NODE: RefCell<Option<Node>> = RefCell::new(None);
}

pub fn c28_index_js(s: &mut Src, c: &mut Ctx) -> R {
    let stores: Vec<Vec<Value>> = (0..s.ri(1, 3))
        .map(|i| (0..s.ri(0, 5)).map(|j| json!({"phrase_id": 10 * i + j, "lang_set": [j]})).collect())
        .collect();
    let (mut steps, mut want): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
    let mut iterables: Vec<usize> = vec![];
    let mut iterators: Vec<(usize, usize)> = vec![];
    let mut crossed = false;
    let mut last = None;
    for _ in 0..s.ri(6, 50) {
        let kind = s.us(13);
        match kind {
            0 => {
                steps.push(json!(["exports"]));
                want.push(json!([[], {"nonPrefix": 0, "anyPrefix": 1, "wordBoundaryPrefix": 2}]));
            }
            1 => {
                let i = s.us(stores.len());
                steps.push(json!(["get", i, {"phrase_id": 1}]));
                want.push(json!(["get", {"phrase_id": 1}]));
            }
            2 => {
                let i = s.us(stores.len());
                steps.push(json!(["from", i]));
                want.push(json!(stores[i]));
            }
            3 => {
                let i = s.us(stores.len());
                steps.push(json!(["keys", i]));
                want.push(Value::Null);
                iterables.push(i);
            }
            4 | 5 if !iterables.is_empty() => {
                let a = s.us(iterables.len());
                let n = s.us(7);
                let all = &stores[iterables[a]];
                if kind == 4 {
                    steps.push(json!(["spread", a]));
                    want.push(json!(all));
                } else {
                    steps.push(json!(["some", a, n]));
                    want.push(json!(all[..n.min(all.len())]));
                }
            }
            6 if !iterables.is_empty() => {
                let a = s.us(iterables.len());
                steps.push(json!(["iterator", a]));
                want.push(Value::Null);
                iterators.push((iterables[a], 0));
            }
            _ if !iterators.is_empty() => {
                let a = s.us(iterators.len());
                steps.push(json!(["next", a]));
                let (st, at) = &mut iterators[a];
                want.push(stores[*st].get(*at).cloned().unwrap_or(json!("done")));
                crossed |= *at > 0 && last != Some(a);
                *at += 1;
                last = Some(a);
            }
            _ => (),
        }
    }
    let req = json!({"stores": stores, "steps": steps});
    c.input("stores and steps", &req);
    let answer = NODE.with(|n| {
        let mut n = n.borrow_mut();
        let a = n.get_or_insert_with(Node::start).ask(&req);
        if a.is_none() {
            *n = None
        }
        a
    });
    let answer = match answer {
        Some(a) => a,
        None => return Err("node running /repo/index.js ended".into()),
    };
    check!(answer.get("threw").is_none(), "threw {}", answer["threw"]);
    let got = answer["ok"].as_array().cloned().unwrap_or_default();
    check_eq!(got.len(), want.len(), "steps");
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        check_eq!(g, w, "outcome of step {} {}", i, steps[i]);
    }
    c.nontrivial_if(crossed);
    Ok(())
}
