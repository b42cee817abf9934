//! Runs a property's cases in worker processes and watches them.
//!
//! Parent: `vh check <ID> <quick|thorough>`; worker: `vh work <ID> ...`.
//! A worker records the case it is about to execute in a file, so that the
//! parent can tell what a worker was doing when it died or stopped responding.
use crate::rng::{hash, Rng};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// A violated property: what the monitor saw.
pub struct Violation {
    pub what: String,
}
pub type Outcome = Result<(), Violation>;

pub fn violation<T>(what: String) -> Result<T, Violation> {
    Err(Violation { what })
}

/// What a check function gets to report to.
pub struct Cx {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub hashes: HashSet<u64>,
    pub samples: Vec<String>,
    note_file: Option<fs::File>,
    pub case: u64,
    pub thorough: bool,
    pub verbose: bool,
    pub last_note: String,
}

impl Cx {
    pub fn new(note: Option<&Path>, thorough: bool) -> Cx {
        Cx {
            evals: 0, counters: BTreeMap::new(), hashes: HashSet::new(), samples: vec![],
            note_file: note.map(|p| fs::File::create(p).expect("note file")),
            case: 0, thorough, verbose: false, last_note: String::new(),
        }
    }
    /// One monitored event of the given kind.
    pub fn count(&mut self, k: &str) {
        if let Some(n) = self.counters.get_mut(k) { *n += 1; } else { self.counters.insert(k.to_string(), 1); }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// One oracle evaluation; `key` identifies the distinct situation (None: trivial).
    pub fn eval(&mut self, key: Option<&str>) {
        self.evals += 1;
        if let Some(k) = key {
            if self.hashes.len() < 400_000 { self.hashes.insert(hash(k)); }
        }
    }
    pub fn sample(&mut self, s: String) {
        if self.samples.len() < 6 { self.samples.push(s.chars().take(400).collect()); }
    }
    /// Records what is about to be executed against the real code.
    pub fn note(&mut self, s: &str) {
        if self.verbose { eprintln!("--- case {}: {}", self.case, s); }
        self.last_note.clear();
        self.last_note.push_str(s);
        if let Some(f) = &self.note_file {
            let mut buf = format!("{:020} {:010} ", self.case, s.len()).into_bytes();
            buf.extend_from_slice(s.as_bytes());
            let _ = f.write_all_at(&buf, 0);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    /// number of cases: quick, thorough
    pub cases: (u64, u64),
    /// what a distinct non-trivial case is
    pub rule: &'static str,
    pub run: fn(&mut Cx, &mut Rng) -> Outcome,
    /// fixed inputs of known findings: key and description of those that fail
    pub known: Option<fn() -> Vec<(&'static str, String)>>,
    /// counters that must be non-zero for the run to count as having observed anything
    pub must: &'static [&'static str],
}

pub fn case_seed(id: &str, seed: u64, case: u64) -> u64 {
    hash(&format!("{}/{}/{}", id, seed, case))
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

/// Runs one case; a panic inside the code under test is a violation.
pub fn run_case(p: &Prop, cx: &mut Cx, seed: u64, case: u64) -> Outcome {
    cx.case = case;
    let mut rng = Rng::new(case_seed(p.id, seed, case));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(cx, &mut rng)));
    match r {
        Ok(o) => o,
        Err(_) => {
            let msg = PANIC.with(|m| m.borrow().clone());
            violation(format!("panic: {}", msg))
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { String::from("?") };
        if !loc.contains("/repo/") {
            eprintln!("HARNESS PANIC at {}: {}", loc, msg);
        }
        PANIC.with(|m| *m.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap()
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn un_one_line(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() { Some('n') => o.push('\n'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} }
        } else { o.push(c) }
    }
    o
}

/// Worker: cases first, first+n, first+2n ... below `total`, within `secs`; `shard` names its files.
pub fn work(p: &'static Prop, seed: u64, shard: u64, first: u64, n: u64, total: u64, secs: u64, dir: &str, thorough: bool) {
    let dir = dir.to_string();
    install_panic_hook();
    on_big_stack(move || {
        let start = Instant::now();
        let mut cx = Cx::new(Some(&Path::new(&dir).join(format!("note{}", shard))), thorough);
        let mut case = first;
        let mut done = 0u64;
        let mut out = String::new();
        let mut fail = None;
        let mut slowest = (0u64, 0u64);
        while case < total {
            if start.elapsed().as_secs() >= secs { break; }
            let t = Instant::now();
            let res = run_case(p, &mut cx, seed, case);
            slowest = slowest.max((t.elapsed().as_millis() as u64, case));
            if let Err(v) = res {
                fail = Some((case, v.what, cx.last_note.clone()));
                done += 1;
                break;
            }
            done += 1;
            case += n;
        }
        out.push_str(&format!("cases {}\nevals {}\nslow {} {}\n", done, cx.evals, slowest.0, slowest.1));
        for (k, v) in &cx.counters { out.push_str(&format!("c {} {}\n", v, k)); }
        for s in &cx.samples { out.push_str(&format!("s {}\n", one_line(s))); }
        if let Some((c, w, note)) = fail {
            out.push_str(&format!("v {} {}\n", c, one_line(&w)));
            out.push_str(&format!("n {}\n", one_line(&note)));
        }
        let mut hb = Vec::with_capacity(cx.hashes.len() * 8);
        for h in &cx.hashes { hb.extend_from_slice(&h.to_le_bytes()); }
        fs::write(Path::new(&dir).join(format!("hash{}", shard)), hb).unwrap();
        fs::write(Path::new(&dir).join(format!("out{}.tmp", shard)), out).unwrap();
        fs::rename(Path::new(&dir).join(format!("out{}.tmp", shard)), Path::new(&dir).join(format!("out{}", shard))).unwrap();
    });
    // the result is on disk: skip destructors of leaked state
    std::process::exit(0);
}

fn read_note(dir: &Path, shard: u64) -> (u64, String) {
    let b = fs::read(dir.join(format!("note{}", shard))).unwrap_or_default();
    if b.len() < 32 { return (0, String::new()); }
    let case: u64 = String::from_utf8_lossy(&b[0..20]).trim().parse().unwrap_or(0);
    let len: usize = String::from_utf8_lossy(&b[21..31]).trim().parse().unwrap_or(0);
    let end = (32 + len).min(b.len());
    (case, String::from_utf8_lossy(&b[32..end]).to_string())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found { case: u64, what: String, note: String }

fn spawn_worker(p: &Prop, seed: u64, shard: u64, first: u64, n: u64, total: u64, secs: u64, dir: &Path, tier: &str) -> Child {
    Command::new("sh")
        .arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"")
        .arg(std::env::current_exe().unwrap())
        .args(["work", p.id, &seed.to_string(), &shard.to_string(), &first.to_string(), &n.to_string(),
            &total.to_string(), &secs.to_string()]).arg(dir).arg(tier)
        .stdin(Stdio::null()).stdout(Stdio::null())
        .stderr(fs::File::create(dir.join(format!("err{}", shard))).map(Stdio::from).unwrap_or(Stdio::null()))
        .spawn().expect("spawn worker")
}

/// A worker that died or stopped responding is a violation only if its case,
/// executed alone, does so again (or violates the property).
fn confirmed(p: &Prop, seed: u64, case: u64, limit: u64, dir: &Path, tier: &str) -> bool {
    let mut kid = Command::new("sh")
        .arg("-c").arg("ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\"")
        .arg(std::env::current_exe().unwrap())
        .args(["replay", p.id, &seed.to_string(), &case.to_string(), tier])
        .stdin(Stdio::null()).stdout(Stdio::null())
        .stderr(fs::File::create(dir.join("confirm")).map(Stdio::from).unwrap_or(Stdio::null()))
        .spawn().expect("spawn worker");
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = kid.try_wait() { return !st.success(); }
        if t.elapsed().as_secs() > limit {
            let _ = kid.kill();
            let _ = kid.wait();
            return true;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

pub fn check(p: &'static Prop, tier: &str, seed: u64, verif: &Path) -> i32 {
    let thorough = tier == "thorough";
    let total = if thorough { p.cases.1 } else { p.cases.0 };
    let secs: u64 = std::env::var("VH_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 60 });
    let hang = if thorough { 120 } else { 40 };
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("scratch dir");
    let n = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).min(8);
    let mut kids: Vec<(u64, Child, u64, Instant, bool)> = vec![];
    let mut shards = n;
    for shard in 0..n {
        let kid = spawn_worker(p, seed, shard, shard, n, total, secs, &dir, tier);
        kids.push((shard, kid, u64::MAX, Instant::now(), false));
    }
    let mut unconfirmed: Vec<String> = vec![];
    let mut suspects: Vec<Found> = vec![];
    let mut found: Vec<Found> = vec![];
    let mut harness_errors: Vec<String> = vec![];
    loop {
        let mut alive = 0;
        for k in kids.iter_mut() {
            if k.4 { continue; }
            match k.1.try_wait() {
                Ok(Some(st)) => {
                    k.4 = true;
                    let err = fs::read_to_string(dir.join(format!("err{}", k.0))).unwrap_or_default();
                    if !dir.join(format!("out{}", k.0)).exists() {
                        let (case, note) = read_note(&dir, k.0);
                        let tail: String = err.lines().rev().take(3).collect::<Vec<_>>().join(" | ");
                        suspects.push(Found { case, what: format!("process died ({}) {}", st, tail), note });
                    } else if err.contains("HARNESS PANIC") {
                        harness_errors.push(err);
                    }
                }
                Ok(None) => {
                    alive += 1;
                    let (case, _) = read_note(&dir, k.0);
                    if case != k.2 { k.2 = case; k.3 = Instant::now(); }
                    else if k.3.elapsed().as_secs() > hang {
                        let _ = k.1.kill();
                        let _ = k.1.wait();
                        k.4 = true;
                        let (case, note) = read_note(&dir, k.0);
                        suspects.push(Found { case, what: format!("no progress for {} s", hang), note });
                    }
                }
                Err(_) => { k.4 = true; }
            }
        }
        for f in suspects.drain(..) {
            if !found.is_empty() { continue; } // one confirmed failure is enough
            if confirmed(p, seed, f.case, hang, &dir, tier) {
                found.push(f);
            } else {
                // inconclusive: say so, and go on with the cases after it
                unconfirmed.push(format!("case {}: {}", f.case, f.what));
                if unconfirmed.len() < 20 {
                    let spent = start.elapsed().as_secs();
                    let kid = spawn_worker(p, seed, shards, f.case + n, n, total, secs.saturating_sub(spent), &dir, tier);
                    kids.push((shards, kid, u64::MAX, Instant::now(), false));
                    shards += 1;
                    alive += 1;
                }
            }
        }
        if alive == 0 { break; }
        std::thread::sleep(Duration::from_millis(if start.elapsed().as_secs() < 2 { 20 } else { 100 }));
    }
    // merge
    let (mut cases, mut evals) = (0u64, 0u64);
    let mut slowest = (0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for shard in 0..shards {
        let mut pending: Option<(u64, String)> = None;
        for l in fs::read_to_string(dir.join(format!("out{}", shard))).unwrap_or_default().lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "cases" => cases += rest.parse::<u64>().unwrap_or(0),
                "slow" => if let Some((a, b)) = rest.split_once(' ') { slowest = slowest.max((a.parse().unwrap_or(0), b.parse().unwrap_or(0))); },
                "evals" => evals += rest.parse::<u64>().unwrap_or(0),
                "c" => { let (v, k) = rest.split_once(' ').unwrap(); *counters.entry(k.to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0); }
                "s" => if samples.len() < 12 && samples.len() < (shard as usize + 1) * 2 { samples.push(un_one_line(rest)) },
                "v" => { let (c, w) = rest.split_once(' ').unwrap(); pending = Some((c.parse().unwrap_or(0), un_one_line(w))); }
                "n" => if let Some((c, w)) = pending.take() { found.push(Found { case: c, what: w, note: un_one_line(rest) }); },
                _ => {}
            }
        }
        let b = fs::read(dir.join(format!("hash{}", shard))).unwrap_or_default();
        for c in b.chunks_exact(8) { distinct.insert(u64::from_le_bytes(c.try_into().unwrap())); }
    }
    let _ = fs::remove_dir_all(&dir);

    // known findings are probed on their fixed inputs; one that is not listed is a violation
    let mut known_lines: Vec<String> = vec![];
    if let Some(f) = p.known {
        install_panic_hook();
        let list = fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
        for (key, l) in f() {
            let start = format!("known: property={} {}:", p.id, key);
            if list.lines().any(|x| x.starts_with(&start)) {
                println!("KNOWN-FINDING: property={} {}: {}", p.id, key, l);
                known_lines.push(l);
            } else {
                found.push(Found { case: 0, what: l, note: key.to_string() });
            }
        }
    }

    for m in p.must {
        if found.is_empty() && counters.get(*m).copied().unwrap_or(0) == 0 {
            found.push(Found { case: 0, what: format!("the monitor observed no event of kind '{}'", m), note: String::new() });
        }
    }
    let wall = start.elapsed().as_secs_f64();

    // replay files
    let rdir = verif.join("replays");
    let mut replay_paths: Vec<PathBuf> = vec![];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    found.sort_by_key(|f| f.case);
    for f in &found {
        let key: String = f.what.chars().take(60).collect();
        if !seen.insert(key) { continue; }
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}.txt", p.id, seed, f.case));
        let mut t = String::new();
        t.push_str(&format!("property={}\nseed={}\ncase={}\n", p.id, seed, f.case));
        t.push_str(&format!("rerun: {}/harness/run.sh replay {} {} {} {}\n\n", verif.display(), p.id, seed, f.case, tier));
        t.push_str(&format!("what the monitor saw:\n{}\n\nlast recorded input:\n{}\n", f.what, f.note));
        if let Ok(mut fh) = fs::File::create(&path) { let _ = fh.write_all(t.as_bytes()); }
        replay_paths.push(path.clone());
        println!("VIOLATION property={} replay={}", p.id, path.display());
        println!("  {}", f.what.chars().take(600).collect::<String>());
    }

    // evidence
    let mut e = String::from("{\n");
    e.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n",
        json_str(p.id), json_str(tier), seed));
    e.push_str("  \"coverage\": {\n");
    e.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"cases\": {},\n    \"slowest_case\": {{\"case\": {}, \"ms\": {}}},\n",
        evals, distinct.len(), json_str(p.rule), cases, slowest.1, slowest.0));
    e.push_str("    \"monitor_events\": {");
    e.push_str(&counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    e.push_str("},\n    \"samples\": [");
    e.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    e.push_str("]\n  },\n");
    e.push_str(&format!("  \"assumptions\": [{}],\n", [
        "the reference model in /verif/harness/src states the specified behaviour correctly",
        "inputs are drawn pseudo-randomly from the generators described in DESIGN.md; nothing is claimed beyond the executions observed",
    ].iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!("  \"inconclusive\": [{}],\n", unconfirmed.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!("  \"known_findings\": [{}],\n", known_lines.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!("  \"wall_s\": {:.3},\n  \"violation_details\": [{}],\n  \"violations\": {}\n}}\n", wall,
        found.iter().map(|f| json_str(&format!("case {}: {}", f.case, f.what.chars().take(300).collect::<String>()))).collect::<Vec<_>>().join(", "),
        found.len()));
    let _ = fs::create_dir_all(verif.join("evidence"));
    fs::write(verif.join("evidence").join(format!("{}.json", p.id)), e).expect("write evidence");

    println!("{} {}: {} cases, {} evaluations, {} distinct, {:.1} s (slowest case {}: {:.1} s)", p.id, tier, cases, evals, distinct.len(), wall, slowest.1, slowest.0 as f64 / 1000.0);
    for u in &unconfirmed { println!("INCONCLUSIVE (not reproduced when executed alone): {}", u); }
    for h in harness_errors.iter().take(3) { eprintln!("HARNESS ERROR: {}", h); }
    if !found.is_empty() { 1 } else { 0 }
}
