//! Runs the cases of a property in worker processes, shrinks failures, writes evidence.

use crate::known;
use crate::props::{all, Prop};
use crate::stats::{Check, Stats};
use crate::tape::{hash_bytes, mix, show, Src};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// CPU seconds that no case needs
const HANG_CPU: f64 = 40.0;
const MAX_KEYS: usize = 6_000_000;

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = format!("panic: {}{}", m, at));
    }));
}

fn guarded<F: FnOnce() -> Check>(f: F) -> Check {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

fn find(id: &str) -> Prop {
    match all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            exit(2)
        }
    }
}

fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(7, id.as_bytes())), idx)
}

/// One case from a tape: bytes used and outcome.
fn case(p: &Prop, tape: &[u8]) -> (usize, Check) {
    let mut src = Src::replay(tape);
    let mut st = Stats::default();
    let r = guarded(|| (p.f)(&mut src, &mut st));
    (src.used().min(tape.len()), r)
}

// -------------------------------------------------------------------------------------- shrinking

/// Make a failing tape shorter and its bytes smaller. `fails` gives the number of used bytes and a
/// message for a tape that fails.
pub fn shrink(mut tape: Vec<u8>, mut msg: String, limit: Duration, fails: &mut dyn FnMut(&[u8]) -> Option<(usize, String)>) -> (Vec<u8>, String) {
    let start = Instant::now();
    let out_of_time = || start.elapsed() > limit;
    macro_rules! try_tape {
        ($t:expr) => {{
            let t: Vec<u8> = $t;
            match fails(&t) {
                Some((used, m)) => {
                    tape = t;
                    tape.truncate(used);
                    msg = m;
                    true
                }
                None => false,
            }
        }};
    }
    while tape.last() == Some(&0) {
        tape.pop();
    }
    loop {
        let before = tape.clone();
        // shorter
        let mut n = tape.len() / 2;
        while n > 0 && !out_of_time() {
            let t = tape[..tape.len() - n.min(tape.len())].to_vec();
            if !try_tape!(t) {
                n /= 2;
            } else {
                n = n.min(tape.len() / 2);
            }
        }
        // without blocks
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= tape.len() && !out_of_time() {
                let mut t = tape[..i].to_vec();
                t.extend_from_slice(&tape[i + size..]);
                if !try_tape!(t) {
                    i += if size > 4 { size / 2 } else { 1 };
                }
            }
            if size == 1 || out_of_time() {
                break;
            }
            size /= 2;
        }
        // smaller bytes
        let mut i = 0;
        while i < tape.len() && !out_of_time() {
            if tape[i] != 0 {
                let mut t = tape.clone();
                t[i] = 0;
                if !try_tape!(t) {
                    let mut lo = 0u32;
                    let mut hi = tape[i] as u32;
                    while lo + 1 < hi && i < tape.len() && !out_of_time() {
                        let mid = (lo + hi) / 2;
                        let mut t = tape.clone();
                        t[i] = mid as u8;
                        if try_tape!(t) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if tape == before || out_of_time() {
            return (tape, msg);
        }
    }
}

// ----------------------------------------------------------------------------------------- worker

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

fn cpu_seconds() -> f64 {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    // fields 14 and 15 of the line, counted after the name
    let t: f64 = f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    t / 100.0
}

fn watchdog(limit: f64) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = CURRENT.load(Ordering::Relaxed);
            if now != last {
                last = now;
                since = cpu_seconds();
            } else if cpu_seconds() - since > limit {
                exit(4);
            }
        }
    });
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    s.chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect()
}

struct Failure {
    /// a tape, or the number of an enumerated case
    tape: Result<Vec<u8>, u64>,
    idx: u64,
    msg: String,
}

impl Failure {
    fn write(&self, path: &Path) {
        let mut s = String::new();
        match self.tape {
            Ok(ref t) => {
                let _ = writeln!(s, "tape {}", hex(t));
            }
            Err(i) => {
                let _ = writeln!(s, "enumerated {}", i);
            }
        }
        let _ = writeln!(s, "case {}", self.idx);
        let _ = writeln!(s, "message\n{}", self.msg);
        let _ = fs::write(path, s);
    }

    fn read(path: &Path) -> Option<Failure> {
        let s = fs::read_to_string(path).ok()?;
        let tape = s.lines().find_map(|l| {
            if let Some(h) = l.strip_prefix("tape") {
                Some(Ok(unhex(h)))
            } else {
                l.strip_prefix("enumerated ").and_then(|n| n.trim().parse().ok()).map(Err)
            }
        })?;
        let idx = s.lines().find_map(|l| l.strip_prefix("case ")).and_then(|n| n.trim().parse().ok()).unwrap_or(0);
        let msg = s.splitn(2, "message\n").nth(1).unwrap_or("").trim_end().to_string();
        Some(Failure { tape, idx, msg })
    }
}

/// Numbers below `enumerated` are enumerated cases, the others random ones.
pub fn worker(id: &str, seed: u64, total: u64, w: u64, first: u64, deadline: u64, dir: &str) {
    quiet_panics();
    watchdog(HANG_CPU);
    let p = find(id);
    let dir = PathBuf::from(dir);
    let progress = fs::File::create(dir.join(format!("{}.progress", w))).expect("progress file");
    let stop = dir.join("stop");
    let start = Instant::now();
    let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let (mut cases, mut enumerated, mut runs, mut nontrivial) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut failure = None;
    let mut idx = first;
    while idx < total {
        CURRENT.store(idx, Ordering::Relaxed);
        let _ = progress.write_all_at(&idx.to_le_bytes(), 0);
        if cases & 63 == 0 && (start.elapsed().as_secs() >= deadline || stop.exists()) {
            break;
        }
        let mut st = Stats::default();
        if idx < p.fixed() {
            let r = guarded(|| p.run_fixed(idx, &mut st));
            enumerated += 1;
            cases += 1;
            runs += st.runs;
            if let Err(msg) = r {
                failure = Some(Failure { tape: Err(idx), idx, msg });
                break;
            }
            idx += WORKERS;
            continue;
        }
        st.want_sample = samples.len() < 3;
        let mut src = Src::random(case_seed(seed, id, idx));
        let r = guarded(|| (p.f)(&mut src, &mut st));
        cases += 1;
        runs += st.runs;
        for (k, v) in st.classes {
            *classes.entry(k).or_insert(0) += v.min(1);
        }
        if st.nontrivial {
            nontrivial += 1;
            if keys.len() < MAX_KEYS {
                keys.insert(st.key);
            }
            if let Some(s) = st.sample {
                if s.len() < 1500 {
                    samples.push(s);
                }
            }
        }
        if let Err(msg) = r {
            let tape = src.tape.clone();
            let (tape, msg) = shrink(tape, msg, shrink_time(), &mut |t| {
                CURRENT.fetch_add(1, Ordering::Relaxed);
                match case(&p, t) {
                    (used, Err(m)) => Some((used, m)),
                    _ => None,
                }
            });
            failure = Some(Failure { tape: Ok(tape), idx, msg });
            break;
        }
        idx += WORKERS;
    }
    CURRENT.store(u64::MAX - 1, Ordering::Relaxed);
    if let Some(ref f) = failure {
        f.write(&dir.join(format!("{}.failure", w)));
        let _ = fs::write(&stop, b"");
    }
    let mut o = String::new();
    let _ = writeln!(o, "cases {}\nenumerated {}\nruns {}\nnontrivial {}", cases, enumerated, runs, nontrivial);
    for (k, v) in &classes {
        let _ = writeln!(o, "class {} {}", v, k);
    }
    for s in &samples {
        let _ = writeln!(o, "sample {}", s.replace('\n', " | "));
    }
    let mut k = fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("{}.keys", w))).expect("keys");
    let mut buf = Vec::with_capacity(keys.len() * 8);
    for x in &keys {
        buf.extend_from_slice(&x.to_le_bytes());
    }
    let _ = k.write_all(&buf);
    let mut f = fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("{}.stats", w))).expect("stats");
    let _ = f.write_all(o.as_bytes());
    exit(if failure.is_some() { 3 } else { 0 });
}

/// Run one tape (or random case, dumping its tape) in this process.
pub fn one(id: &str, what: &str) {
    quiet_panics();
    watchdog(HANG_CPU);
    CURRENT.store(1, Ordering::Relaxed);
    let p = find(id);
    let parts: Vec<&str> = what.split(':').collect();
    let mut st = Stats::default();
    let r = match parts[0] {
        "tape" => {
            let t = fs::read(parts[1]).expect("tape");
            case(&p, &t).1
        }
        "enum" => guarded(|| p.run_fixed(parts[1].parse().unwrap(), &mut st)),
        // seed : idx : file
        _ => {
            let (seed, idx): (u64, u64) = (parts[1].parse().unwrap(), parts[2].parse().unwrap());
            let mut src = Src::random(case_seed(seed, id, idx)).dump_to(parts[3]);
            guarded(|| (p.f)(&mut src, &mut st))
        }
    };
    match r {
        Ok(()) => exit(0),
        Err(m) => {
            println!("{}", m);
            exit(3)
        }
    }
}

// ------------------------------------------------------------------------------------- supervisor

fn me() -> Command {
    Command::new(std::env::current_exe().expect("own path"))
}

/// How a child ended: None = passed, Some(message) = failed, crashed or hung.
fn child_outcome(args: &[&str]) -> Option<String> {
    let out = me().args(args).stdin(Stdio::null()).output().expect("child");
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => None,
        (Some(3), _) => Some(String::from_utf8_lossy(&out.stdout).trim_end().to_string()),
        (Some(4), _) => Some(format!("hang: no result after {} s of CPU time", HANG_CPU)),
        (_, Some(n)) => {
            let e = String::from_utf8_lossy(&out.stderr).to_string();
            let e: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).take(6).collect();
            Some(format!("killed by signal {}: {}", n, e.join(" | ")))
        }
        (c, _) => Some(format!("exit code {:?}: {}", c, String::from_utf8_lossy(&out.stderr))),
    }
}

/// A worker crashed or hung in case `idx`: find its tape and shrink it in child processes.
fn investigate(p: &Prop, seed: u64, idx: u64, hang: bool, dir: &Path) -> Option<Failure> {
    if idx < p.fixed() {
        let msg = child_outcome(&["one", p.id, &format!("enum:{}", idx)])?;
        return Some(Failure { tape: Err(idx), idx, msg });
    }
    let file = dir.join("crash.tape");
    let msg = child_outcome(&["one", p.id, &format!("case:{}:{}:{}", seed, idx, file.display())])?;
    let tape = fs::read(&file).unwrap_or_default();
    if hang {
        return Some(Failure { tape: Ok(tape), idx, msg });
    }
    let t2 = dir.join("shrink.tape");
    let spec = format!("tape:{}", t2.display());
    let (tape, msg) = shrink(tape, msg, shrink_time(), &mut |t| {
        fs::write(&t2, t).ok()?;
        child_outcome(&["one", p.id, &spec]).map(|m| (t.len(), m))
    });
    Some(Failure { tape: Ok(tape), idx, msg })
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn listed(dir: &Path, k: &known::Known) -> bool {
    let f = fs::read_to_string(dir.join("known_findings.txt")).unwrap_or_default();
    let start = format!("known: property={} {} ", k.property, k.id);
    f.lines().any(|l| l.starts_with(&start))
}

/// Probe the recorded findings of a property. Exit 0, or 3 and a message.
pub fn probe(id: &str) {
    quiet_panics();
    watchdog(HANG_CPU);
    let dir = verif();
    let mut bad = String::new();
    for k in known::ALL.iter().filter(|k| k.property == id) {
        let r = catch_unwind(AssertUnwindSafe(|| (k.probe)()));
        match r {
            Ok(known::Found::Gone) => {}
            Ok(known::Found::AsRecorded) if listed(&dir, k) => {
                println!("KNOWN-FINDING: property={} {}: {}", id, k.id, k.what);
            }
            Ok(known::Found::AsRecorded) => bad = format!("{} ({}), which is not listed as known", k.what, k.id),
            Ok(known::Found::Other(m)) => bad = format!("the input of known finding {} now gives {}", k.id, m),
            Err(_) => bad = format!("the input of known finding {}: {}", k.id, PANIC.with(|p| p.borrow().clone())),
        }
    }
    if !bad.is_empty() {
        println!("{}", bad);
        exit(3);
    }
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn stats_value(s: &str, key: &str) -> u64 {
    s.lines().filter_map(|l| l.strip_prefix(key)).filter_map(|v| v.trim().parse::<u64>().ok()).sum()
}

pub fn run(id: &str) -> i32 {
    let start = Instant::now();
    let p = find(id);
    let dir = verif();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let deadline: u64 = std::env::var("VERIF_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 240 });
    let total = p.fixed() + n;
    let work = dir.join("build").join("work").join(format!("{}-{}", id, std::process::id()));
    let _ = fs::remove_dir_all(&work);
    fs::create_dir_all(&work).expect("work directory");
    fs::create_dir_all(dir.join("evidence")).expect("evidence directory");
    fs::create_dir_all(dir.join("replays")).expect("replays directory");

    let mut failure: Option<Failure> = None;
    // recorded findings
    let k = me().args(["probe", id]).stdin(Stdio::null()).output().expect("probe");
    let text = String::from_utf8_lossy(&k.stdout).to_string();
    for l in text.lines().filter(|l| l.starts_with("KNOWN-FINDING:")) {
        println!("{}", l);
    }
    if !k.status.success() {
        let m = text.lines().filter(|l| !l.starts_with("KNOWN-FINDING:")).collect::<Vec<_>>().join("\n");
        failure = Some(Failure { tape: Err(u64::MAX), idx: 0, msg: format!("{} {:?}", m, k.status) });
    }

    let spawn = |w: u64, first: u64| -> Child {
        me()
            .args([
                "worker", id, &seed.to_string(), &total.to_string(), &w.to_string(), &first.to_string(),
                &deadline.to_string(), &work.display().to_string(),
            ])
            .stdin(Stdio::null())
            .stderr(fs::File::create(work.join(format!("{}.err", w))).expect("err"))
            .spawn()
            .expect("worker")
    };
    let mut children: Vec<Option<Child>> = vec![];
    if failure.is_none() {
        children = (0..WORKERS).map(|w| Some(spawn(w, w))).collect();
    }
    let mut lost = 0;
    while children.iter().any(|c| c.is_some()) {
        std::thread::sleep(Duration::from_millis(15));
        for w in 0..children.len() {
            let status = match children[w].as_mut().map(|c| c.try_wait()) {
                Some(Ok(Some(s))) => s,
                _ => continue,
            };
            children[w] = None;
            if status.code() == Some(0) || status.code() == Some(3) {
                continue;
            }
            // a crash or a hang
            let _ = fs::write(work.join("stop"), b"");
            let idx = fs::read(work.join(format!("{}.progress", w))).ok().filter(|b| b.len() == 8).map_or(u64::MAX, |b| {
                let mut a = [0; 8];
                a.copy_from_slice(&b);
                u64::from_le_bytes(a)
            });
            let hang = status.code() == Some(4);
            eprintln!("worker {} ended with {:?} in case {}", w, status, idx);
            if failure.is_none() && idx != u64::MAX {
                failure = investigate(&p, seed, idx, hang, &work);
            }
            if failure.is_none() {
                // it does not happen again: not a property of the code (memory, a signal from outside)
                lost += 1;
                let _ = fs::remove_file(work.join("stop"));
                if lost < 20 && idx != u64::MAX {
                    children[w] = Some(spawn(w as u64, idx));
                }
            }
        }
    }
    if failure.is_none() {
        failure = (0..WORKERS).filter_map(|w| Failure::read(&work.join(format!("{}.failure", w)))).min_by_key(|f| match f.tape {
            Ok(ref t) => t.len() as u64 + 2,
            Err(_) => 1,
        });
    }

    // what was covered
    let mut stats = String::new();
    let mut keys: HashSet<u64> = HashSet::new();
    for w in 0..WORKERS {
        stats.push_str(&fs::read_to_string(work.join(format!("{}.stats", w))).unwrap_or_default());
        for c in fs::read(work.join(format!("{}.keys", w))).unwrap_or_default().chunks_exact(8) {
            let mut a = [0; 8];
            a.copy_from_slice(c);
            keys.insert(u64::from_le_bytes(a));
        }
    }
    let cases = stats_value(&stats, "cases ");
    let enumerated = stats_value(&stats, "enumerated ");
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    for l in stats.lines().filter_map(|l| l.strip_prefix("class ")) {
        let mut it = l.splitn(2, ' ');
        let n: u64 = it.next().and_then(|n| n.parse().ok()).unwrap_or(0);
        *classes.entry(it.next().unwrap_or("").to_string()).or_insert(0) += n;
    }
    let samples: Vec<String> = stats.lines().filter_map(|l| l.strip_prefix("sample ")).take(8).map(|s| s.to_string()).collect();
    let mut e = String::from("{\n");
    let _ = writeln!(e, " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",", json(id), json(if thorough { "thorough" } else { "quick" }), seed);
    let _ = writeln!(e, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},", cases, keys.len() as u64 + enumerated);
    let _ = writeln!(e, "  \"rule\": {},", json(&format!("{} Distinct: a hash of the generated input; enumerated cases are distinct by their number.", p.rule)));
    let _ = writeln!(e, "  \"enumerated_cases\": {},\n  \"runs_of_the_code\": {},", enumerated, stats_value(&stats, "runs "));
    let _ = writeln!(e, "  \"classes\": {{{}}},", classes.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(e, "  \"samples\": [{}]\n }},", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",\n   "));
    let _ = writeln!(
        e,
        " \"assumptions\": [{}],",
        json("Search, not proof: inputs outside the generators' reach are not covered. The oracle is the harness's own model of the grammar (DESIGN.md).")
    );
    let _ = writeln!(e, " \"wall_s\": {:.3},\n \"violations\": {}\n}}", start.elapsed().as_secs_f64(), failure.is_some() as u32);
    fs::write(dir.join("evidence").join(format!("{}.json", id)), e).expect("evidence");

    let _ = fs::remove_dir_all(&work);
    if let Some(f) = failure {
        let path = dir.join("replays").join(format!("{}-{:016x}.txt", id, hash_bytes(1, f.msg.as_bytes())));
        let mut s = format!("property {}\n", id);
        let _ = writeln!(s, "# replay: {}/run.sh replay {}", dir.display(), path.display());
        let tmp = path.with_extension("part");
        f.write(&tmp);
        s.push_str(crate::dict::source());
        s.push_str(&fs::read_to_string(&tmp).unwrap_or_default());
        let _ = fs::remove_file(&tmp);
        let _ = fs::write(&path, s);
        println!("{}", f.msg);
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    println!(
        "{}: {} cases ({} enumerated), {} distinct and non-trivial, {} runs, {:.1} s",
        id, cases, enumerated, keys.len() as u64 + enumerated, stats_value(&stats, "runs "), start.elapsed().as_secs_f64()
    );
    if cases == 0 || lost >= 20 {
        eprintln!("no cases were run");
        return 2;
    }
    0
}

pub fn replay(file: &str) -> i32 {
    let s = fs::read_to_string(file).expect("replay file");
    let id = s.lines().find_map(|l| l.strip_prefix("property ")).expect("property").to_string();
    let f = Failure::read(Path::new(file)).expect("tape");
    if s.contains("\ndict-") {
        // with the dictionary of the run that found it
        std::env::set_var("VERIF_DICT", file);
    }
    let r = match f.tape {
        Err(u64::MAX) => {
            probe(&id);
            None
        }
        Err(i) => child_outcome(&["one", &id, &format!("enum:{}", i)]),
        Ok(t) => {
            println!("tape of {} bytes: {}", t.len(), show(&t));
            let tmp = std::env::temp_dir().join(format!("vharness-{}.tape", std::process::id()));
            fs::write(&tmp, t).expect("tape file");
            let r = child_outcome(&["one", &id, &format!("tape:{}", tmp.display())]);
            let _ = fs::remove_file(&tmp);
            r
        }
    };
    match r {
        None => {
            println!("{} holds", id);
            0
        }
        Some(m) => {
            println!("{}\n{} is violated", m, id);
            1
        }
    }
}

fn shrink_time() -> Duration {
    Duration::from_secs(std::env::var("VERIF_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(25))
}
