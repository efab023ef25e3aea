"""Mutation run, for development: makes small edits to copies of /repo's sources one at a time and reports
those that no check notices.  mutate.py OUT.jsonl [--workers N] [--sample N] [--files a.rs,b.rs] [--seed N]
Works in /tmp/mut, never in /repo."""
import argparse, json, os, random, re, shutil, subprocess, threading, queue, time

V = "/verif"
SRC = "rust-src/src/gridstore"
FMT = ["C01", "C02", "C03", "C04", "C05", "C32"]
ORDER = {
    "builder.rs": ["C07", "C06", "C09", "C08", "C11"],
    "coalesce.rs": ["C21", "C18", "C19", "C22", "C23", "C24"],
    "common.rs": ["C10", "C26", "C27", "C16", "C17", "C18", "C21", "C08"],
    "spatial.rs": ["C15", "C12", "C13", "C16", "C14", "C21"],
    "stackable.rs": ["C20", "C21"],
    "store.rs": ["C10", "C14", "C13", "C12", "C25", "C11", "C08"],
    "gridstore_format.rs": FMT,
}
ALL = ["C%02d" % i for i in range(1, 28)] + ["C31", "C33"]

def code_lines(text):
    lines = text.split("\n")
    keep, skip, depth = [], False, 0
    cut = len(lines)
    for i, l in enumerate(lines):
        if re.match(r"#\[cfg\(test\)\]", l) and i + 1 < len(lines) and lines[i + 1].startswith("mod "):
            cut = i
            break
    i = 0
    comment = False
    while i < cut:
        l = lines[i]
        if l.startswith("#[test]") or l.startswith("#[cfg(test)]"):
            use = l.startswith("#[cfg(test)]") and lines[i + 1].startswith("use ")
            while i < cut and lines[i] != "}" and not (use and lines[i].endswith(";")):
                i += 1
            i += 1
            continue
        s = l.strip()
        if s.startswith("/*"):
            comment = True
        if not comment and s and not s.startswith("//") and not s.startswith("#[") and not s.startswith("use ") \
                and not s.startswith("debug_assert") and not s.startswith("pub use"):
            keep.append(i)
        if "*/" in s:
            comment = False
        i += 1
    return lines, keep

SUBS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "),
    (r" == ", " != "), (r" != ", " == "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r" \+ 1\b", ""), (r" - 1\b", ""),
    (r" && ", " || "), (r" \|\| ", " && "),
    (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r" >> ", " << "),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bcontinue;", ""), (r"\bbreak;", ""),
    (r"\.rev\(\)", ""), (r"\.dedup\(\)", ""), (r"\.next\(\)", ".last()"),
    (r"!(?=[a-z(])", ""), (r"\bNone\b(?= =>)", "Some(_)"),
    (r"saturating_sub", "wrapping_sub"), (r"saturating_add", "wrapping_add"),
    (r"Some\(([a-z_]+)\)", "None"), (r"\bReverse\(", "("), (r"filter_map\(", "map("),
    (r"\b(x|y)\b", "@xy"), (r"\bstart\b", "end"), (r"\bend\b", "start"),
    (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[3]"), (r"\[3\]", "[2]"), (r"\[0\]", "[2]"), (r"\[1\]", "[3]"),
    (r"max_relev", "min_relev"), (r"\.insert\(", ".remove("), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"),
    (r" as u32\b", " as u16 as u32"), (r" as usize\b", " as u16 as usize"), (r" as u64\b", " as u32 as u64"),
    (r"u64\b", "u32"), (r"\bpeek_min\b", "peek_max"), (r"\bpeek_max\b", "peek_min"), (r"pop_max", "pop_min"), (r"pop_min", "pop_max"),
    (r"\.unwrap_or\(([^)]*)\)", ".unwrap()"), (r"LittleEndian", "BigEndian"), (r"BigEndian", "LittleEndian"),
]

def mutants(f, text):
    lines, keep = code_lines(text)
    out = []
    for i in keep:
        l = lines[i]
        code = l.split("//")[0]
        seen = set()
        def add(new):
            if new != l and new not in seen:
                seen.add(new)
                out.append((f, i, l, new))
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                if rep == "@xy":
                    r = "y" if m.group(0) == "x" else "x"
                else:
                    r = rep
                add(l[:m.start()] + r + l[m.end():])
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.]|\.)", code):
            n = int(m.group(1))
            for v in {n + 1, max(n - 1, 0)} - {n}:
                add(l[:m.start()] + str(v) + l[m.end():])
        for m in re.finditer(r"(?<![\w.])(\d+\.\d*)", code):
            add(l[:m.start()] + str(float(m.group(1)) * 1.01 + 0.001) + l[m.end():])
        s = code.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".", "pub ", "const ", "mod ", "type ")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            add(re.match(r"\s*", l).group(0) + "// removed")
        m = re.match(r"(\s*)(\} else )?if (?!let)(.*) \{$", code)
        if m:
            for v in ("true", "false"):
                add(f"{m.group(1)}{m.group(2) or ''}if {v} {{")
    return out

def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, **(env or {})), start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, ""

def worker(w, q, out, lock, args):
    base = f"/tmp/mut/w{w}"
    for crate in ("harness", "fmtcheck"):
        pass
    env = {"RUSTFLAGS": "-Awarnings", "CARGO_TARGET_DIR": f"{base}/target", "CARGO_BUILD_JOBS": "2"}
    while True:
        try:
            f, i, old, new = q.get_nowait()
        except queue.Empty:
            return
        path = f"{base}/repo/{SRC}/{f}"
        clean = open(f"/tmp/mut/clean/{f}").read()
        lines = clean.split("\n")
        lines[i] = new
        open(path, "w").write("\n".join(lines))
        t0 = time.time()
        res = None
        crate = "fmtcheck" if f == "gridstore_format.rs" else "harness"
        rc, o = sh(f"cargo build --offline --profile checked", f"{base}/{crate}", 300, env)
        if rc != 0:
            res = "nobuild"
        else:
            order = ORDER.get(f, [])
            order = FMT if crate == "fmtcheck" else order + [c for c in ALL if c not in order and c not in FMT]
            for scale in (0.05, args.scale):
                for c in order if scale < 0.1 else ORDER[f]:
                    rc, o = sh(f"{base}/target/checked/{crate} run {c} --threads 2 --scale {scale} --replays {base}/rep", base, 900)
                    if rc != 0:
                        res = f"{c}:{rc}@{scale}"
                        break
                if res:
                    break
        open(path, "w").write(clean)
        with lock:
            out.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "result": res or "SURVIVED", "s": round(time.time() - t0)}) + "\n")
            out.flush()

def main():
    a = argparse.ArgumentParser()
    a.add_argument("out"); a.add_argument("--workers", type=int, default=4); a.add_argument("--sample", type=int, default=0)
    a.add_argument("--files", default=""); a.add_argument("--seed", type=int, default=1); a.add_argument("--scale", type=float, default=0.5)
    a.add_argument("--count", action="store_true"); a.add_argument("--only", default="")
    args = a.parse_args()
    files = args.files.split(",") if args.files else list(ORDER)
    ms = []
    for f in files:
        ms += mutants(f, open(f"/repo/{SRC}/{f}").read())
    if args.only:
        want = [json.loads(l) for l in open(args.only)]
        want = {(w["file"], w["old"], w["new"]) for w in want if w["result"] == "SURVIVED"}
        ms = [m for m in ms if (m[0], m[2].strip(), m[3].strip()) in want]
    random.Random(args.seed).shuffle(ms)
    done = set()
    if os.path.exists(args.out):
        done = {(d["file"], d["line"], d["new"]) for d in map(json.loads, open(args.out))}
    ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done]
    if args.count:
        from collections import Counter
        print(len(ms), Counter(m[0] for m in ms)); return
    if args.sample:
        ms = ms[:args.sample]
    shutil.rmtree("/tmp/mut/clean", ignore_errors=True)
    shutil.copytree(f"/repo/{SRC}", "/tmp/mut/clean")
    q = queue.Queue()
    for m in ms:
        q.put(m)
    for w in range(args.workers):
        base = f"/tmp/mut/w{w}"
        shutil.rmtree(f"{base}/repo", ignore_errors=True)
        os.makedirs(base, exist_ok=True)
        subprocess.check_call(f"mkdir -p {base}/repo && git -C /repo archive HEAD | tar -x -C {base}/repo", shell=True)
        for d in ("harness", "fmtcheck", "pbt", "shims"):
            shutil.rmtree(f"{base}/{d}", ignore_errors=True)
            shutil.copytree(f"{V}/{d}", f"{base}/{d}", ignore=shutil.ignore_patterns("target"))
        subprocess.check_call(f"grep -rl '/repo' {base}/harness {base}/fmtcheck | xargs sed -i -e 's#\"/repo#\"{base}/repo#g' -e 's#=/repo#={base}/repo#g'", shell=True)
    lock = threading.Lock()
    with open(args.out, "a") as out:
        ts = [threading.Thread(target=worker, args=(w, q, out, lock, args)) for w in range(args.workers)]
        [t.start() for t in ts]; [t.join() for t in ts]

main()
