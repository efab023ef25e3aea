//! Runs the families of a property: a supervising parent, one worker process per build of the code
//! under test, eight threads per worker.

use crate::shrink::shrink;
use crate::src::{mix, Span, Src};
use crate::{Ctx, R};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    /// Cases per run and build; for an enumerated family the size of the space.
    pub quick: u64,
    pub thorough: u64,
    /// The index is the first choice of the case, so the family covers 0..quick completely.
    pub enumerate: bool,
    /// 0: as many as there are cores.
    pub threads: usize,
    pub case: fn(&mut Src, &mut Ctx) -> R,
}

impl Family {
    pub fn new(name: &'static str, quick: u64, thorough: u64, case: fn(&mut Src, &mut Ctx) -> R) -> Self {
        Family { name, quick, thorough, enumerate: false, threads: 0, case }
    }
    pub fn all(name: &'static str, size: u64, case: fn(&mut Src, &mut Ctx) -> R) -> Self {
        Family { name, quick: size, thorough: size, enumerate: true, threads: 0, case }
    }
    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

#[derive(Clone)]
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub families: Vec<Family>,
}

const EXIT_ERROR: i32 = 3;
/// A case takes milliseconds, the largest ones a few seconds.
const CASE_LIMIT_S: u64 = 100;
const ONE_LIMIT_S: u64 = 60;

// ---------------------------------------------------------------- panics

thread_local! {
    static PANIC_AT: RefCell<Option<(String, String)>> = RefCell::new(None);
}
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let at = info.location().map(|l| (l.file().to_string(), format!("{}:{}", l.file(), l.line())));
        let at = at.unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = Some(at.clone()));
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(at);
    }));
}

enum Outcome {
    Pass,
    Fail(String),
    /// The harness itself failed: no verdict.
    Broken(String),
}

fn harness_file(f: &str) -> bool {
    // everything compiled from the harness crates has a relative path or lies below /verif;
    // the shims stand in for the crate's dependencies and count as part of the code under test
    let own = f.contains("/pbt/src/") || f.contains("/harness/src/") || f.contains("/fmtcheck/src/");
    own || f.starts_with("src/")
}

fn run_case(fam: &Family, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    PANIC_AT.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| (fam.case)(src, ctx))) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(payload) => {
            let msg = payload
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| payload.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".to_string());
            let (file, at) = PANIC_AT
                .with(|p| p.borrow().clone())
                .or_else(|| LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
                .unwrap_or_default();
            let text = format!("panicked at {}: {}", at, msg);
            if harness_file(&file) {
                Outcome::Broken(text)
            } else {
                Outcome::Fail(text)
            }
        }
    }
}

fn case_seed(seed: u64, salt: u64, id: &str, fam: &str, idx: u64) -> u64 {
    let mut h = mix(seed) ^ mix(salt.wrapping_add(0x1234));
    for b in id.bytes().chain([0]).chain(fam.bytes()) {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(idx))
}

fn make_src(seed: u64, salt: u64, id: &str, fam: &Family, idx: u64) -> Src {
    let s = Src::random(case_seed(seed, salt, id, fam.name, idx));
    if fam.enumerate {
        s.force_first(idx)
    } else {
        s
    }
}

// ---------------------------------------------------------------- options

#[derive(Clone, Debug)]
struct Opts {
    id: String,
    tier: String,
    seed: u64,
    salt: u64,
    scale: f64,
    threads: usize,
    family: Option<String>,
    index: Option<u64>,
    choices: Option<PathBuf>,
    slots: Option<PathBuf>,
    out: Option<PathBuf>,
    also: Vec<PathBuf>,
    evidence: Option<PathBuf>,
    replays: PathBuf,
    tee: Option<PathBuf>,
    limit_s: u64,
}

fn parse(args: &[String]) -> Opts {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| {
        s.trim().parse::<i64>().ok().map(|v| v as u64)
    });
    let mut o = Opts {
        id: String::new(),
        tier: if tier == "thorough" { "thorough".into() } else { "quick".into() },
        seed: seed.unwrap_or(1),
        salt: 0,
        scale: 1.0,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16),
        family: None,
        index: None,
        choices: None,
        slots: None,
        out: None,
        also: vec![],
        evidence: None,
        replays: PathBuf::from("replays"),
        tee: None,
        limit_s: 0,
    };
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().cloned().unwrap_or_else(|| die(&format!("{} needs a value", a)));
        match a.as_str() {
            "--tier" => o.tier = val(),
            "--seed" => o.seed = val().parse().unwrap(),
            "--salt" => o.salt = val().parse().unwrap(),
            "--scale" => o.scale = val().parse().unwrap(),
            "--threads" => o.threads = val().parse().unwrap(),
            "--family" => o.family = Some(val()),
            "--index" => o.index = Some(val().parse().unwrap()),
            "--choices" => o.choices = Some(val().into()),
            "--slots" => o.slots = Some(val().into()),
            "--out" => o.out = Some(val().into()),
            "--also" => o.also.push(val().into()),
            "--evidence" => o.evidence = Some(val().into()),
            "--replays" => o.replays = val().into(),
            "--tee" => o.tee = Some(val().into()),
            "--limit" => o.limit_s = val().parse().unwrap(),
            _ if o.id.is_empty() => o.id = a.clone(),
            _ => die(&format!("unknown argument {}", a)),
        }
    }
    if o.limit_s == 0 {
        o.limit_s = if o.tier == "thorough" { 6 * 3600 } else { 600 };
    }
    o
}

fn die(m: &str) -> ! {
    eprintln!("ERROR: {}", m);
    std::process::exit(EXIT_ERROR)
}

pub fn main(props: Vec<Prop>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (mode, rest) = match args.first().map(|s| s.as_str()) {
        Some("worker") | Some("one") | Some("replay") | Some("run") | Some("list") => {
            (args[0].clone(), &args[1..])
        }
        _ => ("run".to_string(), &args[..]),
    };
    let o = parse(rest);
    if mode == "list" {
        for p in &props {
            for f in &p.families {
                println!("{} {} quick={} thorough={}", p.id, f.name, f.quick, f.thorough);
            }
        }
        std::process::exit(0)
    }
    if mode == "replay" {
        std::process::exit(replay(&props, &o))
    }
    let prop = match props.iter().find(|p| p.id == o.id) {
        Some(p) => p.clone(),
        None => die(&format!("no such property: {}", o.id)),
    };
    let code = match mode.as_str() {
        "worker" => worker(&prop, &o),
        "one" => one(&prop, &o),
        _ => supervise(&prop, &o),
    };
    std::process::exit(code)
}

// ---------------------------------------------------------------- worker

struct Slots(*mut u64);
unsafe impl Sync for Slots {}
const SLOT_WORDS: usize = 4;
const MAX_THREADS: usize = 64;

impl Slots {
    fn open(p: &Path) -> Slots {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(p).expect("slots");
        let len = MAX_THREADS * SLOT_WORDS * 8;
        let m = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(m != libc::MAP_FAILED);
        Slots(m as *mut u64)
    }
    fn set(&self, thread: usize, fam: u64, idx: u64) {
        unsafe {
            let p = self.0.add(thread * SLOT_WORDS);
            std::ptr::write_volatile(p, fam);
            std::ptr::write_volatile(p.add(1), idx);
            std::ptr::write_volatile(p.add(2), std::ptr::read_volatile(p.add(2)).wrapping_add(1));
        }
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    sample_idx: Vec<u64>,
}

struct Failure {
    idx: u64,
    msg: String,
    choices: Vec<u64>,
    spans: Vec<Span>,
}

fn count_of(f: &Family, o: &Opts) -> u64 {
    let n = if o.tier == "thorough" { f.thorough } else { f.quick };
    if f.enumerate {
        n
    } else {
        ((n as f64 * o.scale).ceil() as u64).max(1)
    }
}

fn worker(prop: &Prop, o: &Opts) -> i32 {
    install_hook();
    let slots = o.slots.as_ref().map(|p| Slots::open(p));
    let mut fam_json = vec![];
    let mut samples = vec![];
    let mut all_hashes: Vec<u64> = vec![];
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let out = o.out.clone().unwrap_or_else(|| die("worker needs --out"));

    for (fi, fam) in prop.families.iter().enumerate() {
        if o.family.as_deref().map_or(false, |f| f != fam.name) {
            continue;
        }
        let started = Instant::now();
        let count = count_of(fam, o);
        let next = AtomicU64::new(0);
        let stop_at = AtomicU64::new(u64::MAX);
        let failure: Mutex<Option<Failure>> = Mutex::new(None);
        let broken: Mutex<Option<String>> = Mutex::new(None);
        let total: Mutex<Stats> = Mutex::new(Stats::default());
        let threads = if fam.threads == 0 { o.threads } else { fam.threads.min(o.threads) };
        let threads = threads.min(count as usize).max(1);

        std::thread::scope(|sc| {
            for t in 0..threads {
                let (next, stop_at, failure, broken, total, slots) =
                    (&next, &stop_at, &failure, &broken, &total, &slots);
                let body = move || {
                    let mut st = Stats::default();
                    loop {
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= count || idx > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(s) = slots {
                            s.set(t, fi as u64 + 1, idx);
                        }
                        let mut src = make_src(o.seed, o.salt, prop.id, fam, idx);
                        let mut ctx = Ctx::default();
                        let res = run_case(fam, &mut src, &mut ctx);
                        st.evaluations += 1;
                        for l in &ctx.labels {
                            *st.labels.entry(l).or_insert(0) += 1;
                        }
                        if ctx.nontrivial {
                            st.nontrivial += 1;
                            let h = ctx.hash.unwrap_or_else(|| {
                                src.choices.iter().fold(7, |a, c| mix(a ^ c))
                            });
                            st.hashes.insert(h ^ mix(fi as u64));
                            if idx < 64 {
                                st.sample_idx.push(idx);
                            }
                        }
                        match res {
                            Outcome::Pass => {}
                            Outcome::Broken(m) => {
                                *broken.lock().unwrap() =
                                    Some(format!("family {} case {}: {}", fam.name, idx, m));
                                stop_at.store(0, Ordering::Relaxed);
                                break;
                            }
                            Outcome::Fail(msg) => {
                                stop_at.fetch_min(idx, Ordering::Relaxed);
                                let mut f = failure.lock().unwrap();
                                if f.as_ref().map_or(true, |f| idx < f.idx) {
                                    *f = Some(Failure {
                                        idx,
                                        msg,
                                        choices: src.choices.clone(),
                                        spans: src.spans.clone(),
                                    });
                                }
                            }
                        }
                    }
                    if let Some(s) = slots {
                        s.set(t, 0, 0);
                    }
                    let mut g = total.lock().unwrap();
                    g.evaluations += st.evaluations;
                    g.nontrivial += st.nontrivial;
                    g.hashes.extend(st.hashes);
                    for (k, v) in st.labels {
                        *g.labels.entry(k).or_insert(0) += v;
                    }
                    g.sample_idx.extend(st.sample_idx);
                };
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(sc, body)
                    .expect("thread");
            }
        });

        let mut st = total.into_inner().unwrap();
        evals += st.evaluations;
        nontriv += st.nontrivial;
        st.sample_idx.sort();
        fam_json.push(json!({
            "family": fam.name,
            "evaluations": st.evaluations,
            "nontrivial": st.nontrivial,
            "distinct_nontrivial": st.hashes.len(),
            "enumerated_completely": fam.enumerate && st.evaluations == count,
            "labels": st.labels,
            "wall_s": (started.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        }));
        all_hashes.extend(st.hashes);
        for idx in st.sample_idx.iter().take(if prop.families.len() > 3 { 1 } else { 2 }) {
            let mut src = make_src(o.seed, o.salt, prop.id, fam, *idx);
            let mut ctx = Ctx { describe: true, ..Ctx::default() };
            let _ = run_case(fam, &mut src, &mut ctx);
            samples.push(json!({
                "family": fam.name,
                "index": idx,
                "case": clip(&ctx.text, 1500),
            }));
        }

        if let Some(m) = broken.into_inner().unwrap() {
            eprintln!("ERROR: the harness itself failed: {}", m);
            return EXIT_ERROR;
        }
        let mut failed = None;
        if let Some(f) = failure.into_inner().unwrap() {
            let mk = |choices: &[u64], msg: &str, shrunk: usize| {
                json!({
                    "property": prop.id, "family": fam.name, "index": f.idx, "seed": o.seed,
                    "salt": o.salt, "message": msg, "choices": choices, "shrink_attempts": shrunk,
                })
            };
            // in case shrinking takes the process down
            let early = json!({"failure": mk(&f.choices, &f.msg, 0)});
            std::fs::write(out.with_extension("early"), early.to_string()).expect("write");
            if let Some(s) = &slots {
                s.set(0, 0, 0);
            }
            let mut msg = f.msg.clone();
            let s = shrink(
                f.choices.clone(),
                f.spans.clone(),
                4000,
                Instant::now() + Duration::from_secs(60),
                |c| {
                    let mut src = Src::replay(c.to_vec());
                    let mut ctx = Ctx::default();
                    match run_case(fam, &mut src, &mut ctx) {
                        Outcome::Fail(_) => Some((src.choices, src.spans)),
                        _ => None,
                    }
                },
            );
            let mut src = Src::replay(s.choices.clone());
            let mut ctx = Ctx { describe: true, ..Ctx::default() };
            match run_case(fam, &mut src, &mut ctx) {
                Outcome::Fail(m) => msg = m,
                _ => msg = format!("{} (not reproduced by the shrunk case)", msg),
            }
            let mut v = mk(&s.choices, &msg, s.attempts);
            v["case"] = json!(ctx.text);
            failed = Some(v);
        }
        if let Some(v) = failed {
            write_out(&out, evals, nontriv, &all_hashes, fam_json, samples, Some(v));
            return 1;
        }
    }
    write_out(&out, evals, nontriv, &all_hashes, fam_json, samples, None);
    0
}

fn write_out(
    out: &Path,
    evals: u64,
    nontriv: u64,
    hashes: &[u64],
    fams: Vec<Value>,
    samples: Vec<Value>,
    failure: Option<Value>,
) {
    let v = json!({
        "evaluations": evals, "nontrivial": nontriv, "families": fams, "samples": samples,
        "failure": failure,
    });
    let mut b = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(out.with_extension("hashes"), b).expect("write");
    std::fs::write(out, v.to_string()).expect("write");
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}…", &s[..k])
}

/// Runs one case in this process; the exit status or the signal is the verdict.
fn one(prop: &Prop, o: &Opts) -> i32 {
    install_hook();
    let fam = prop
        .families
        .iter()
        .find(|f| Some(f.name) == o.family.as_deref())
        .unwrap_or_else(|| die("no such family"));
    let mut src = if let Some(c) = &o.choices {
        let v: Vec<u64> = std::fs::read_to_string(c)
            .expect("choices")
            .split_whitespace()
            .map(|x| x.parse().unwrap())
            .collect();
        Src::replay(v)
    } else {
        make_src(o.seed, o.salt, prop.id, fam, o.index.unwrap_or(0))
    };
    if let Some(t) = &o.tee {
        src.tee = Some(std::fs::File::create(t).expect("tee"));
    }
    let mut ctx = Ctx { describe: true, ..Ctx::default() };
    let r = run_case(fam, &mut src, &mut ctx);
    print!("{}", ctx.text);
    match r {
        Outcome::Pass => 0,
        Outcome::Fail(m) => {
            println!("FAILED: {}", m);
            1
        }
        Outcome::Broken(m) => {
            println!("HARNESS ERROR: {}", m);
            EXIT_ERROR
        }
    }
}

fn replay(props: &[Prop], o: &Opts) -> i32 {
    install_hook();
    let text = std::fs::read_to_string(&o.id).unwrap_or_else(|e| die(&e.to_string()));
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| die(&e.to_string()));
    let prop = props.iter().find(|p| Some(p.id) == v["property"].as_str());
    let prop = prop.unwrap_or_else(|| die("unknown property"));
    let fam = prop.families.iter().find(|f| Some(f.name) == v["family"].as_str());
    let fam = fam.unwrap_or_else(|| die("unknown family"));
    let choices: Vec<u64> =
        v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
    let mut src = Src::replay(choices);
    let mut ctx = Ctx { describe: true, ..Ctx::default() };
    let r = run_case(fam, &mut src, &mut ctx);
    println!("{}", ctx.text);
    match r {
        Outcome::Pass => {
            println!("property {} family {}: holds on this case", prop.id, fam.name);
            0
        }
        Outcome::Fail(m) => {
            println!("property {} family {}: VIOLATED: {}", prop.id, fam.name, m);
            1
        }
        Outcome::Broken(m) => {
            println!("harness error: {}", m);
            EXIT_ERROR
        }
    }
}

// ---------------------------------------------------------------- supervisor

struct Child {
    code: Option<i32>,
    signal: Option<i32>,
    stderr: String,
    stuck: Option<(u64, u64)>,
    timed_out: bool,
}

fn run_child(
    bin: &Path,
    args: &[String],
    tmp: &Path,
    slots: Option<&Path>,
    limit: Duration,
    gib: u64,
) -> Child {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let err_path = tmp.join("stderr");
    let err = std::fs::File::create(&err_path).expect("stderr file");
    let mut cmd = Command::new(bin);
    cmd.args(args).env("PBT_TMP", tmp).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    unsafe {
        cmd.pre_exec(move || {
            // no core files; keep well below the memory of the machine
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let mem = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            Ok(())
        });
    }
    let mut child = cmd.spawn().unwrap_or_else(|e| die(&format!("{}: {}", bin.display(), e)));
    let started = Instant::now();
    let mut seen: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); MAX_THREADS];
    let mut stuck = None;
    let mut timed_out = false;
    let mut nap = 2;
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break s;
        }
        if let Some(words) = slots.and_then(read_slots) {
            for t in 0..MAX_THREADS {
                let (fam, idx, n) =
                    (words[t * SLOT_WORDS], words[t * SLOT_WORDS + 1], words[t * SLOT_WORDS + 2]);
                if fam == 0 || seen[t].0 != n {
                    seen[t] = (n, Instant::now());
                } else if seen[t].1.elapsed() > Duration::from_secs(CASE_LIMIT_S) {
                    stuck = Some((fam - 1, idx));
                }
            }
        }
        if stuck.is_some() || started.elapsed() > limit {
            timed_out = true;
            let _ = child.kill();
            let s = child.wait().expect("wait");
            break s;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    };
    let stderr = std::fs::read(&err_path).unwrap_or_default();
    Child {
        code: status.code(),
        signal: status.signal(),
        stderr: String::from_utf8_lossy(&stderr).into_owned(),
        stuck,
        timed_out,
    }
}

fn read_slots(p: &Path) -> Option<Vec<u64>> {
    let b = std::fs::read(p).ok()?;
    if b.len() < MAX_THREADS * SLOT_WORDS * 8 {
        return None;
    }
    Some(b.chunks(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect())
}

fn is_crash(c: &Child) -> bool {
    matches!(
        c.signal,
        Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGABRT) | Some(libc::SIGILL)
            | Some(libc::SIGFPE) | Some(libc::SIGTRAP)
    )
}

fn out_of_memory(c: &Child) -> bool {
    is_crash(c) && c.stderr.contains("memory allocation of")
}

struct Base(PathBuf);
impl Drop for Base {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn supervise(prop: &Prop, o: &Opts) -> i32 {
    let started = Instant::now();
    let base = Base(crate::tmp::new_base());
    let tmp = base.0.clone();
    let me = std::env::current_exe().expect("current_exe");
    let mut bins = vec![me];
    bins.extend(o.also.iter().cloned());

    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut evals, mut nontriv) = (0u64, 0u64);
    let mut builds = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut failure: Option<Value> = None;
    let mut error: Option<String> = None;
    let mut exhaustive = !prop.families.is_empty();

    for (bi, bin) in bins.iter().enumerate() {
        let build = bin
            .parent()
            .and_then(|p| p.file_name())
            .map(|s| s.to_string_lossy().into_owned())
            .unwrap_or_default();
        let slots = tmp.join(format!("slots{}", bi));
        std::fs::write(&slots, vec![0u8; MAX_THREADS * SLOT_WORDS * 8]).expect("slots");
        let out = tmp.join(format!("out{}.json", bi));
        let mut args: Vec<String> = ["worker", prop.id].iter().map(|s| s.to_string()).collect();
        let mut push = |k: &str, v: String| {
            args.push(k.to_string());
            args.push(v);
        };
        push("--tier", o.tier.clone());
        push("--seed", o.seed.to_string());
        push("--salt", bi.to_string());
        push("--scale", o.scale.to_string());
        push("--threads", o.threads.to_string());
        push("--slots", slots.display().to_string());
        push("--out", out.display().to_string());
        if let Some(f) = &o.family {
            push("--family", f.clone());
        }
        let left = Duration::from_secs(o.limit_s).saturating_sub(started.elapsed());
        let c = run_child(bin, &args, &tmp, Some(&slots), left, 26);
        let parsed: Option<Value> =
            std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok());
        match (&c.code, &parsed) {
            (Some(0), Some(v)) | (Some(1), Some(v)) => {
                evals += v["evaluations"].as_u64().unwrap_or(0);
                nontriv += v["nontrivial"].as_u64().unwrap_or(0);
                if let Ok(b) = std::fs::read(out.with_extension("hashes")) {
                    for ch in b.chunks_exact(8) {
                        hashes.insert(u64::from_le_bytes(ch.try_into().unwrap()));
                    }
                }
                for f in v["families"].as_array().into_iter().flatten() {
                    exhaustive &= f["enumerated_completely"].as_bool().unwrap_or(false);
                }
                builds.push(json!({"build": build, "families": v["families"]}));
                if bi == 0 {
                    samples = v["samples"].as_array().cloned().unwrap_or_default();
                }
                if !v["failure"].is_null() {
                    let mut f = v["failure"].clone();
                    f["build"] = json!(build);
                    failure = Some(f);
                }
            }
            _ if c.stuck.is_some() => {
                // a violation if the case, alone in a fresh process, does not end either
                let (fi, idx) = c.stuck.unwrap();
                match confirm(prop, o, bin, bi as u64, &[(fi + 1, idx)], &tmp, |c| c.timed_out) {
                    Some(mut f) => {
                        f["build"] = json!(build);
                        failure = Some(f);
                    }
                    None => {
                        let fam = prop.families.get(fi as usize).map_or("?", |f| f.name);
                        error = Some(format!("no verdict: family {} case {} did not end", fam, idx));
                    }
                }
            }
            _ if c.signal == Some(libc::SIGKILL) => {
                error = Some("no verdict: the worker was killed (time or memory)".into());
            }
            _ if is_crash(&c) => {
                let early: Option<Value> = std::fs::read_to_string(out.with_extension("early"))
                    .ok()
                    .and_then(|s| serde_json::from_str(&s).ok());
                if let Some(e) = early {
                    let mut f = e["failure"].clone();
                    f["build"] = json!(build);
                    failure = Some(f);
                } else {
                    let at: Vec<(u64, u64)> = read_slots(&slots)
                        .unwrap_or_default()
                        .chunks(SLOT_WORDS)
                        .map(|w| (w[0], w[1]))
                        .collect();
                    match confirm(prop, o, bin, bi as u64, &at, &tmp, is_crash) {
                        Some(mut f) => {
                            f["build"] = json!(build);
                            failure = Some(f);
                        }
                        None => {
                            error = Some(format!(
                                "no verdict: the worker died (signal {:?}) and no single case reproduces it: {}",
                                c.signal,
                                clip(&c.stderr, 2000)
                            ))
                        }
                    }
                }
            }
            _ => {
                error = Some(format!(
                    "the worker failed: exit {:?} signal {:?}: {}",
                    c.code,
                    c.signal,
                    clip(&c.stderr, 4000)
                ));
            }
        }
        if failure.is_some() || error.is_some() {
            break;
        }
    }

    let replay_path = failure.as_ref().map(|f| {
        let dir = &o.replays;
        let _ = std::fs::create_dir_all(dir);
        let p = dir.join(format!("{}-{}.json", prop.id, f["family"].as_str().unwrap_or("case")));
        let mut fl = std::fs::File::create(&p).expect("replay file");
        let _ = fl.write_all(serde_json::to_string_pretty(f).unwrap().as_bytes());
        p
    });

    let wall = (started.elapsed().as_secs_f64() * 100.0).round() / 100.0;
    if let Some(ev) = &o.evidence {
        if let Some(d) = ev.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        let mut v = json!({
            "property": prop.id,
            "tier": o.tier,
            "seed": o.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "nontrivial": nontriv,
                "distinct_nontrivial": hashes.len(),
                "rule": prop.rule,
                "samples": samples,
                "builds": builds,
                "exhaustive": exhaustive && error.is_none() && failure.is_none(),
            },
            "assumptions": prop.assumptions,
            "wall_s": wall,
            "violations": failure.is_some() as u32,
        });
        if let Some(e) = &error {
            v["coverage"]["error"] = json!(e);
        }
        if let Err(e) = std::fs::write(ev, serde_json::to_string_pretty(&v).unwrap() + "\n") {
            error = Some(format!("cannot write evidence: {}", e));
        }
    }
    drop(base);

    println!(
        "{} tier={} seed={} evaluations={} nontrivial={} distinct_nontrivial={} wall_s={}",
        prop.id, o.tier, o.seed, evals, nontriv, hashes.len(), wall
    );
    for b in &builds {
        for f in b["families"].as_array().into_iter().flatten() {
            println!(
                "  [{}] {}: {} cases, {} non-trivial ({} distinct), {} s, {}",
                b["build"].as_str().unwrap_or(""),
                f["family"].as_str().unwrap_or(""),
                f["evaluations"], f["nontrivial"], f["distinct_nontrivial"], f["wall_s"], f["labels"]
            );
        }
    }
    if let (Some(f), Some(p)) = (&failure, &replay_path) {
        println!("{}", clip(f["case"].as_str().unwrap_or(""), 6000));
        println!("{}", clip(f["message"].as_str().unwrap_or(""), 6000));
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR: {}", e);
        return EXIT_ERROR;
    }
    0
}

/// Finds the in-flight case that takes a fresh process down (or never ends), and shrinks it in
/// subprocesses.
fn confirm(
    prop: &Prop,
    o: &Opts,
    bin: &Path,
    salt: u64,
    at: &[(u64, u64)],
    tmp: &Path,
    bad: fn(&Child) -> bool,
) -> Option<Value> {
    for (fam, idx) in at {
        if *fam == 0 {
            continue;
        }
        let fam = prop.families.get(*fam as usize - 1)?;
        let tee = tmp.join("tee");
        let base_args = |extra: &[String]| -> Vec<String> {
            let mut a: Vec<String> = ["one", prop.id, "--family", fam.name]
                .iter()
                .map(|s| s.to_string())
                .collect();
            a.extend_from_slice(extra);
            a
        };
        for _ in 0..3 {
            let args = base_args(&[
                "--seed".into(),
                o.seed.to_string(),
                "--salt".into(),
                salt.to_string(),
                "--index".into(),
                idx.to_string(),
                "--tee".into(),
                tee.display().to_string(),
            ]);
            let c = run_child(bin, &args, tmp, None, Duration::from_secs(ONE_LIMIT_S), 12);
            if !bad(&c) {
                if c.timed_out {
                    break;
                }
                continue;
            }
            let read_tee = || -> Vec<u64> {
                std::fs::read_to_string(&tee)
                    .unwrap_or_default()
                    .split_whitespace()
                    .filter_map(|x| x.parse().ok())
                    .collect()
            };
            let choices = read_tee();
            let cf = tmp.join("choices");
            let slow = c.timed_out || out_of_memory(&c);
            let s = shrink(
                choices,
                vec![],
                if slow { 12 } else { 400 },
                Instant::now() + Duration::from_secs(60),
                |cand| {
                    let text: Vec<String> = cand.iter().map(|c| c.to_string()).collect();
                    std::fs::write(&cf, text.join("\n")).ok()?;
                    let args = base_args(&[
                        "--choices".into(),
                        cf.display().to_string(),
                        "--tee".into(),
                        tee.display().to_string(),
                    ]);
                    let limit = Duration::from_secs(if slow { 20 } else { ONE_LIMIT_S });
                    let c = run_child(bin, &args, tmp, None, limit, 12);
                    if bad(&c) {
                        Some((read_tee(), vec![]))
                    } else {
                        None
                    }
                },
            );
            let msg = if c.timed_out {
                format!("the case, alone, did not end within {} s", ONE_LIMIT_S)
            } else if out_of_memory(&c) {
                "the case, alone, ran out of 12 GiB of memory".to_string()
            } else {
                format!("the process died with signal {:?}: {}", c.signal, clip(&c.stderr, 500))
            };
            return Some(json!({
                "property": prop.id, "family": fam.name, "index": idx, "seed": o.seed, "salt": salt,
                "message": msg, "choices": s.choices, "shrink_attempts": s.attempts,
            }));
        }
    }
    None
}
