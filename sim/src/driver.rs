//! Driver, workers, minimiser, replay files, evidence.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

use crate::registry::{self, Prop};
use crate::run::{run_once, Outcome, EXIT_HANG, EXIT_SLOW};
use crate::tape::{hash_str, mix, SplitMix, Tape, TAPE_CAP};

const CPU_LIMIT_MS: u64 = 10_000;
const SHRINK_CPU_LIMIT_MS: u64 = 3_000;

fn home() -> PathBuf {
    std::env::var_os("SIM_HOME").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}

fn run_seed(prop: &Prop, seed: u64, index: u64) -> u64 {
    mix(mix(seed, hash_str(prop.id)), index)
}

fn escape(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

fn limit_memory() {
    unsafe {
        let gb = env_u64("SIM_MEM_GB", 3) << 30;
        let r = libc::rlimit {
            rlim_cur: gb,
            rlim_max: gb,
        };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

/// The scratch directory of this process (only created for properties that
/// touch files).
fn scratch(prop: &Prop) -> Option<PathBuf> {
    if !prop.files {
        return None;
    }
    let base = std::env::var_os("SIM_SCRATCH").map(PathBuf::from)?;
    let dir = base.join(format!("p{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    Some(dir)
}

// ---- worker ----------------------------------------------------------------

pub fn worker(a: &[&str]) -> i32 {
    let prop = registry::find(a[0]).expect("property");
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let stride: u64 = a[3].parse().unwrap();
    let total: u64 = a[4].parse().unwrap();
    let deadline = Instant::now() + Duration::from_millis(a[5].parse().unwrap());
    limit_memory();
    let hashes = std::env::var_os("SIM_HASHES").is_some();
    let slow = std::env::var_os("SIM_SLOW");
    let scratch = scratch(prop);
    let out = std::io::stdout();
    let mut steps = 0u64;
    let mut evals = 0u64;
    let mut max_steps = 0u64;
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = Vec::new();
    let mut i = start;
    while i < total && Instant::now() < deadline {
        writeln!(out.lock(), "B {}", i).unwrap();
        let cpu = crate::run::cpu_ms();
        let o = run_once(
            prop,
            Tape::random(run_seed(prop, seed, i)),
            false,
            scratch.clone(),
            CPU_LIMIT_MS,
        );
        // runs that come near the limit have to be made cheaper
        let cpu = crate::run::cpu_ms() - cpu;
        if let Some(p) = slow.as_ref().filter(|_| cpu > 700) {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
                let _ = writeln!(f, "{} {} {} ms", prop.id, i, cpu);
            }
        }
        evals += 1;
        steps += o.steps;
        max_steps = max_steps.max(o.steps);
        for (k, v) in o.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if o.nontrivial {
            distinct.insert(o.hash);
            if samples.len() < 2 {
                samples.push(i);
            }
        }
        if hashes {
            writeln!(
                out.lock(),
                "X {} {:016x} {} {}",
                i,
                o.hash,
                o.steps,
                o.result.as_ref().err().map(|f| f.class.as_str()).unwrap_or("ok")
            )
            .unwrap();
        }
        if let Err(f) = o.result {
            writeln!(out.lock(), "F {} {} {}", i, f.class, escape(&f.msg)).unwrap();
            if !hashes {
                break;
            }
        }
        i += stride;
    }
    let mut s = String::new();
    let _ = writeln!(s, "T {} {} {}", evals, steps, max_steps);
    for (k, v) in faults {
        let _ = writeln!(s, "f {} {}", k, v);
    }
    for (k, v) in probes {
        let _ = writeln!(s, "p {} {}", k, v);
    }
    for x in samples {
        let _ = writeln!(s, "s {}", x);
    }
    for h in distinct {
        let _ = writeln!(s, "h {:x}", h);
    }
    let mut l = out.lock();
    l.write_all(s.as_bytes()).unwrap();
    l.flush().unwrap();
    0
}

// ---- serving single tapes ---------------------------------------------------

/// Read tapes from stdin, one per line, and report what happens.
pub fn serve(id: &str, limit: &str) -> i32 {
    let prop = registry::find(id).expect("property");
    let limit: u64 = limit.parse().unwrap();
    limit_memory();
    let scratch = scratch(prop);
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("stdin");
        let mut it = line.split(' ');
        let mode = it.next();
        let verbose = mode == Some("V");
        let vals: Vec<u64> = it.filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        if mode == Some("P") {
            // earlier runs of the process, by seed
            for x in vals {
                run_once(prop, Tape::random(x), false, scratch.clone(), limit);
            }
            continue;
        }
        let o = run_once(prop, Tape::replay(vals), verbose, scratch.clone(), limit);
        let mut s = String::new();
        match &o.result {
            Ok(()) => s.push_str("OK\n"),
            Err(f) => {
                let _ = writeln!(s, "FAIL {} {}", f.class, escape(&f.msg));
            }
        }
        let _ = writeln!(s, "USED {}", join(&o.used));
        let _ = writeln!(s, "HASH {:016x} {}", o.hash, o.steps);
        for l in &o.log {
            let _ = writeln!(s, "L {}", escape(l));
        }
        s.push_str("END\n");
        let mut out = std::io::stdout().lock();
        out.write_all(s.as_bytes()).unwrap();
        out.flush().unwrap();
    }
    0
}

fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
}

struct Server {
    id: String,
    limit: u64,
    /// Seeds of runs made in the process before anything else.
    prelude: Vec<u64>,
    child: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
}

#[derive(Clone, Default)]
struct Reply {
    /// Class and message of the failure.
    fail: Option<(String, String)>,
    used: Option<Vec<u64>>,
    hash: String,
    log: Vec<String>,
}

impl Server {
    fn new(id: &str, limit: u64) -> Server {
        Server {
            id: id.into(),
            limit,
            prelude: Vec::new(),
            child: None,
        }
    }

    fn after(id: &str, limit: u64, prelude: &[u64]) -> Server {
        let mut sv = Server::new(id, limit);
        sv.prelude = prelude.to_vec();
        sv
    }

    fn ask(&mut self, vals: &[u64], verbose: bool) -> Reply {
        if self.child.is_none() {
            let mut c = Command::new(std::env::current_exe().expect("own path"))
                .args(["serve", &self.id, &self.limit.to_string()])
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("subprocess");
            let mut i = c.stdin.take().unwrap();
            for x in &self.prelude {
                let _ = writeln!(i, "P {}", x);
            }
            let o = BufReader::new(c.stdout.take().unwrap());
            self.child = Some((c, i, o));
        }
        let (c, i, o) = self.child.as_mut().unwrap();
        let _ = writeln!(i, "{} {}", if verbose { "V" } else { "T" }, join(vals));
        let _ = i.flush();
        let mut r = Reply::default();
        let mut line = String::new();
        loop {
            line.clear();
            if o.read_line(&mut line).unwrap_or(0) == 0 {
                break;
            }
            let l = line.trim_end_matches('\n');
            if l == "END" {
                return r;
            }
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "FAIL" => {
                    let (c, m) = rest.split_once(' ').unwrap_or((rest, ""));
                    r.fail = Some((c.into(), unescape(m)));
                }
                "USED" => {
                    r.used = Some(
                        rest.split(' ')
                            .filter(|x| !x.is_empty())
                            .map(|x| x.parse().unwrap())
                            .collect(),
                    )
                }
                "HASH" => r.hash = rest.into(),
                "L" => r.log.push(unescape(rest)),
                _ => {}
            }
        }
        let st = c.wait().expect("subprocess");
        self.child = None;
        Reply {
            fail: Some(death(st)),
            ..Reply::default()
        }
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        if let Some((mut c, i, _)) = self.child.take() {
            drop(i);
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

fn death(st: std::process::ExitStatus) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    if st.code() == Some(EXIT_HANG) {
        ("hang".into(), "the code under test does not return (CPU limit)".into())
    } else if st.code() == Some(EXIT_SLOW) {
        ("harness".into(), "the run takes too long".into())
    } else if let Some(s) = st.signal() {
        (
            "abort".into(),
            format!("the process was ended by signal {} (memory limit, stack overflow or abort)", s),
        )
    } else {
        ("abort".into(), format!("the process ended with {}", st))
    }
}

// ---- minimisation ------------------------------------------------------------

fn minimise(id: &str, class: &str, mut best: Vec<u64>) -> Vec<u64> {
    let slow = class == "hang";
    let budget = Duration::from_secs(if slow { 45 } else { 30 });
    let t0 = Instant::now();
    let mut sv = Server::new(id, SHRINK_CPU_LIMIT_MS);
    let mut tries = 0u32;
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>| -> bool {
        tries += 1;
        if t0.elapsed() > budget || tries > 20_000 {
            return false;
        }
        let r = sv.ask(cand, false);
        match r.fail {
            Some((c, _)) if c == class => {
                let mut n = r.used.unwrap_or_else(|| cand.to_vec());
                if n.len() > cand.len() {
                    n = cand.to_vec();
                }
                while n.last() == Some(&0) {
                    n.pop();
                }
                *best = n;
                true
            }
            _ => false,
        }
    };
    // normalise, then shorten
    {
        let b = best.clone();
        attempt(&b, &mut best);
    }
    let mut lo = 0;
    let mut hi = best.len();
    while lo < hi {
        let mid = (lo + hi) / 2;
        let cand = best[..mid.min(best.len())].to_vec();
        if attempt(&cand, &mut best) {
            hi = mid.min(best.len());
        } else {
            lo = mid + 1;
        }
    }
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut cand = best.clone();
                let e = (i + size).min(cand.len());
                cand.drain(i..e);
                if !attempt(&cand, &mut best) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks, then lower single values
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..e] {
                        *x = 0;
                    }
                    attempt(&cand, &mut best);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for w in [1, v / 2, v.saturating_sub(1)] {
                if i < best.len() && w < best[i] && best[i] > 1 {
                    let mut cand = best.clone();
                    cand[i] = w;
                    if attempt(&cand, &mut best) {
                        break;
                    }
                }
            }
            i += 1;
        }
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    best
}

/// The runs that have to come before the failing one.
fn fewer(id: &str, class: &str, mut best: Vec<u64>, tape: &[u64]) -> Vec<u64> {
    let t0 = Instant::now();
    let mut size = best.len() / 2;
    while size > 0 && t0.elapsed() < Duration::from_secs(60) {
        let mut i = 0;
        while i < best.len() && t0.elapsed() < Duration::from_secs(60) {
            let mut p = best.clone();
            p.drain(i..(i + size).min(best.len()));
            match Server::after(id, CPU_LIMIT_MS, &p).ask(tape, false).fail {
                Some((c, _)) if c == class => best = p,
                _ => i += size,
            }
        }
        size /= 2;
    }
    best
}

// ---- replay files --------------------------------------------------------------

struct Replay {
    property: String,
    class: String,
    tape: Vec<u64>,
    prelude: Vec<u64>,
}

fn write_replay(
    path: &Path,
    prop: &Prop,
    seed: u64,
    index: u64,
    class: &str,
    msg: &str,
    prelude: &[u64],
    tape: &[u64],
    hash: &str,
    log: &[String],
) {
    let mut s = String::new();
    let _ = writeln!(s, "property {}", prop.id);
    let _ = writeln!(s, "seed {}", seed);
    let _ = writeln!(s, "run {}", index);
    let _ = writeln!(s, "class {}", class);
    let _ = writeln!(s, "hash {}", hash);
    let _ = writeln!(s, "tape {}", join(tape));
    if !prelude.is_empty() {
        let _ = writeln!(s, "prelude {}", join(prelude));
    }
    let _ = writeln!(s, "--- violation\n{}\n--- trace of the minimised run", msg);
    for l in log {
        let _ = writeln!(s, "{}", l);
    }
    std::fs::create_dir_all(path.parent().unwrap()).expect("replay directory");
    std::fs::write(path, s).expect("replay file");
}

fn read_replay(path: &str) -> Replay {
    let s = std::fs::read_to_string(path).expect("replay file");
    let field = |k: &str| {
        s.lines()
            .take_while(|l| !l.starts_with("---"))
            .find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string()))
            .unwrap_or_default()
    };
    let nums = |k: &str| -> Vec<u64> {
        field(k)
            .split(' ')
            .filter(|x| !x.is_empty())
            .map(|x| x.parse().expect("number"))
            .collect()
    };
    Replay {
        property: field("property "),
        class: field("class "),
        tape: nums("tape "),
        prelude: nums("prelude "),
    }
}

struct ScratchBase(PathBuf);

impl ScratchBase {
    fn new() -> ScratchBase {
        let p = std::env::temp_dir().join(format!("lumberjack-sim-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        std::env::set_var("SIM_SCRATCH", &p);
        ScratchBase(p)
    }
}

impl Drop for ScratchBase {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn replay(path: &str) -> i32 {
    let _base = ScratchBase::new();
    let r = read_replay(path);
    let prop = registry::find(&r.property).expect("property");
    let mut sv = Server::after(prop.id, CPU_LIMIT_MS, &r.prelude);
    let a = sv.ask(&r.tape, true);
    for l in &a.log {
        println!("{}", l);
    }
    println!("hash {}", a.hash);
    match a.fail {
        Some((c, m)) => {
            println!("{} (recorded: {})\n{}", c, r.class, m);
            if c == "harness" || m.starts_with("harness") {
                return 2;
            }
            println!("VIOLATION property={} replay={}", prop.id, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

pub fn show_seed(id: &str, seed: &str, index: &str) -> i32 {
    let _base = ScratchBase::new();
    let prop = registry::find(id).expect("property");
    let t = raw_tape(run_seed(prop, seed.parse().unwrap(), index.parse().unwrap()));
    let mut sv = Server::new(prop.id, CPU_LIMIT_MS);
    let a = sv.ask(&t, true);
    for l in &a.log {
        println!("{}", l);
    }
    println!("hash {}", a.hash);
    match a.fail {
        Some((c, m)) => {
            println!("{}\n{}", c, m);
            1
        }
        None => 0,
    }
}

/// The tape a seed stands for, as raw values.
fn raw_tape(seed: u64) -> Vec<u64> {
    let mut g = SplitMix(seed);
    (0..TAPE_CAP).map(|_| g.next()).collect()
}

pub fn determinism(id: &str, runs: &str) -> i32 {
    let _base = ScratchBase::new();
    let prop = registry::find(id).expect("property");
    std::env::set_var("SIM_HASHES", "1");
    let seed = env_u64("VERIF_SEED", 1);
    let collect = |stride: u64| -> BTreeMap<u64, String> {
        let cs: Vec<Child> = (0..stride)
            .map(|w| {
                Command::new(std::env::current_exe().unwrap())
                    .args([
                        "worker",
                        prop.id,
                        &seed.to_string(),
                        &w.to_string(),
                        &stride.to_string(),
                        runs,
                        "100000000",
                    ])
                    .stdout(Stdio::piped())
                    .spawn()
                    .unwrap()
            })
            .collect();
        let mut m = BTreeMap::new();
        for c in cs {
            let o = c.wait_with_output().unwrap();
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if let Some(r) = l.strip_prefix("X ") {
                    let (i, rest) = r.split_once(' ').unwrap();
                    m.insert(i.parse().unwrap(), rest.to_string());
                }
            }
        }
        m
    };
    let a = collect(8);
    let b = collect(3);
    let bad: Vec<_> = a.iter().filter(|(k, v)| b.get(k) != Some(v)).collect();
    println!(
        "{}: {} runs compared (8 and 3 workers), {} differ",
        id,
        a.len(),
        bad.len()
    );
    for (k, v) in bad.iter().take(5) {
        println!("  run {}: {} / {:?}", k, v, b.get(k));
    }
    (bad.len() > 0 || a.len() != b.len()) as i32
}

// ---- known findings -------------------------------------------------------------

struct Known {
    property: String,
    class: String,
    pattern: String,
    text: String,
}

/// Lines `finding: property=<id> class=<class> match=<text in the message> | <description>`.
fn known_findings() -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(home().join("known_findings.txt")) else {
        return Vec::new();
    };
    let mut v = Vec::new();
    for l in s.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else {
            continue;
        };
        let Some((head, text)) = r.split_once(" | ") else { continue };
        let Some((property, r)) = head.split_once(" class=") else {
            continue;
        };
        let Some((class, pattern)) = r.split_once(" match=") else {
            continue;
        };
        v.push(Known {
            property: property.into(),
            class: class.into(),
            pattern: pattern.into(),
            text: text.into(),
        });
    }
    v
}

// ---- check ------------------------------------------------------------------------

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    format!("{{{}}}", v.join(", "))
}

#[derive(Default)]
struct Totals {
    evals: u64,
    steps: u64,
    max_steps: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<u64>,
    fails: Vec<(u64, String, String)>,
    slow: u64,
}

impl Totals {
    fn add(&mut self, x: Totals) {
        self.evals += x.evals;
        self.steps += x.steps;
        self.max_steps = self.max_steps.max(x.max_steps);
        for (k, v) in x.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in x.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(x.distinct);
        self.samples.extend(x.samples);
        self.fails.extend(x.fails);
        self.slow += x.slow;
    }
}

pub fn check(id: &str) -> i32 {
    let Some(prop) = registry::find(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let t0 = Instant::now();
    let base = ScratchBase::new();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let (runs, cap_s) = if thorough {
        (prop.thorough, env_u64("SIM_CAP_S", 3600))
    } else {
        (prop.quick, env_u64("SIM_CAP_S", 180))
    };
    let runs = env_u64("SIM_RUNS", (runs / env_u64("SIM_DIV", 1).max(1)).max(1));
    let n_workers = env_u64("SIM_WORKERS", 8).min(runs.max(1));
    let handles: Vec<_> = (0..n_workers)
        .map(|w| {
            let mut args: Vec<String> = vec![
                "worker".into(),
                prop.id.into(),
                seed.to_string(),
                w.to_string(),
                n_workers.to_string(),
                runs.to_string(),
                (cap_s * 1000).to_string(),
            ];
            std::thread::spawn(move || {
                let mut all = Totals::default();
                loop {
                let mut c = Command::new(std::env::current_exe().expect("own path"))
                    .args(&args)
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("worker");
                let mut t = Totals::default();
                let mut last = 0u64;
                let mut o = BufReader::new(c.stdout.take().unwrap());
                let mut buf = Vec::new();
                while {
                    buf.clear();
                    o.read_until(b'\n', &mut buf).unwrap_or(0) > 0
                } {
                    let l = String::from_utf8_lossy(&buf);
                    let mut f = l.trim_end().splitn(3, ' ');
                    let k = f.next().unwrap_or("");
                    let x = f.next().unwrap_or("");
                    let rest = f.next().unwrap_or("");
                    match k {
                        "B" => last = x.parse().unwrap_or(0),
                        "F" => {
                            let (c, m) = rest.split_once(' ').unwrap_or((rest, ""));
                            t.fails.push((x.parse().unwrap(), c.to_string(), unescape(m)));
                        }
                        "T" => {
                            t.evals = x.parse().unwrap();
                            let (a, b) = rest.split_once(' ').unwrap();
                            t.steps = a.parse().unwrap();
                            t.max_steps = b.parse().unwrap();
                        }
                        "f" => {
                            t.faults.insert(x.into(), rest.parse().unwrap());
                        }
                        "p" => {
                            t.probes.insert(x.into(), rest.parse().unwrap());
                        }
                        "s" => t.samples.push(x.parse().unwrap()),
                        "h" => {
                            t.distinct.insert(u64::from_str_radix(x, 16).unwrap());
                        }
                        _ => {}
                    }
                }
                let st = c.wait().expect("worker");
                if st.code() == Some(EXIT_SLOW) && t0.elapsed() < Duration::from_secs(cap_s) {
                    // carry on behind the run that took too long
                    all.slow += 1;
                    all.add(t);
                    args[3] = (last + n_workers).to_string();
                    continue;
                }
                if !st.success() {
                    let (c, m) = death(st);
                    t.fails.push((last, c, m));
                }
                all.add(t);
                return all;
                }
            })
        })
        .collect();
    let mut t = Totals::default();
    for h in handles {
        t.add(h.join().expect("worker thread"));
    }
    if t.slow > 0 {
        println!("{}: {} runs were abandoned as too long", prop.id, t.slow);
    }
    let search_s = t0.elapsed().as_secs_f64();
    t.fails.sort();
    let mut code = 0;
    let mut violations = 0;
    let known = known_findings();
    let mut seen_known: Vec<String> = Vec::new();
    for k in known.iter().filter(|k| k.property == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
    }
    for (index, _, _) in &t.fails {
        // confirm in a fresh process
        let tape = raw_tape(run_seed(prop, seed, *index));
        let mut sv = Server::new(prop.id, CPU_LIMIT_MS);
        let mut r = sv.ask(&tape, false);
        drop(sv);
        let mut prelude: Vec<u64> = Vec::new();
        if r.fail.is_none() {
            // state of the process that earlier runs left behind?
            let earlier: Vec<u64> = (index % n_workers..*index)
                .step_by(n_workers as usize)
                .map(|i| run_seed(prop, seed, i))
                .collect();
            let t1 = Instant::now();
            let mut k = if earlier.is_empty() { usize::MAX } else { 1 };
            while k != usize::MAX && t1.elapsed() < Duration::from_secs(150) {
                if k >= earlier.len() {
                    k = usize::MAX;
                }
                let p = &earlier[earlier.len() - k.min(earlier.len())..];
                r = Server::after(prop.id, CPU_LIMIT_MS, p).ask(&tape, false);
                if r.fail.is_some() {
                    prelude = p.to_vec();
                    break;
                }
                k = k.saturating_mul(8);
            }
        }
        let Some((class, msg)) = r.fail else {
            eprintln!("run {} failed in its worker but not on its own; not reported", index);
            continue;
        };
        if known
            .iter()
            .any(|k| k.property == prop.id && k.class == class && msg.contains(&k.pattern))
        {
            seen_known.push(class.clone());
            continue;
        }
        if class == "harness" || msg.starts_with("harness") {
            // the simulator could not do its part: no verdict
            println!("{}: run {} (seed {}): {}", prop.id, index, seed, clip(&msg, 1500));
            return 2;
        }
        violations += 1;
        println!("{}: run {} (seed {}): {}: {}", prop.id, index, seed, class, clip(&msg, 1500));
        let used = r.used.unwrap_or(tape);
        let min = match std::env::var_os("SIM_NOMIN") {
            Some(_) => used.clone(),
            None if prelude.is_empty() => minimise(prop.id, &class, used.clone()),
            None => {
                prelude = fewer(prop.id, &class, prelude, &used);
                used.clone()
            }
        };
        let mut v = Server::after(prop.id, CPU_LIMIT_MS, &prelude).ask(&min, true);
        let mut min = min;
        if v.fail.is_none() {
            // the shorter run failed because of those before it
            min = used;
            v = Server::after(prop.id, CPU_LIMIT_MS, &prelude).ask(&min, true);
        }
        let (c2, m2) = v.fail.clone().unwrap_or((class.clone(), msg.clone()));
        let path = home().join("replays").join(format!("{}-{}-{}.txt", prop.id, seed, index));
        write_replay(&path, prop, seed, *index, &c2, &m2, &prelude, &min, &v.hash, &v.log);
        if !prelude.is_empty() {
            println!("needs {} runs before it in the same process", prelude.len());
        }
        println!("minimised to {} choices: {}", min.len(), clip(&m2, 3000));
        println!("VIOLATION property={} replay={}", prop.id, path.display());
        code = 1;
        break;
    }
    // evidence
    let mut samples = Vec::new();
    t.samples.sort();
    for i in t.samples.iter().take(3) {
        let mut sv = Server::new(prop.id, CPU_LIMIT_MS);
        let r = sv.ask(&raw_tape(run_seed(prop, seed, *i)), true);
        let mut log = r.log;
        log.truncate(70);
        samples.push(format!(
            "{{\"run\": {}, \"hash\": {}, \"trace\": {}}}",
            i,
            json_str(&r.hash),
            json_str(&clip(&log.join("\n"), 5000))
        ));
    }
    let hours = search_s.max(0.001) / 3600.0;
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \
         \"planned_runs\": {},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \
         \"simulated_time\": {{\"unit\": \"simulated events (I/O calls, callbacks, operations, scheduling decisions)\", \"total\": {}, \"longest_run\": {}}},\n  \
         \"faults_injected\": {},\n  \"situations_reached\": {},\n  \
         \"distinct_measure\": \"distinct hashes of the event trace (every I/O call with offset and size, operation, scheduling decision, document bytes) among non-trivial runs\",\n  \
         \"real_code\": {},\n  \"stubs\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(if thorough { "thorough" } else { "quick" }),
        seed,
        json_str(prop.level),
        t.evals,
        t.distinct.len(),
        json_str(prop.rule),
        runs,
        (t.evals as f64 / hours) as u64,
        (t.evals as f64 / hours) as u64,
        t.steps,
        t.max_steps,
        json_map(&t.faults),
        json_map(&t.probes),
        json_str(prop.real),
        json_str(prop.stub),
        samples.join(", "),
        prop.assume.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let dir = home().join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence directory");
    std::fs::write(dir.join(format!("{}.json", prop.id)), ev).expect("evidence");
    println!(
        "{}: {} of {} runs, {} distinct non-trivial, {} events, {:.1}s",
        prop.id,
        t.evals,
        runs,
        t.distinct.len(),
        t.steps,
        t0.elapsed().as_secs_f64()
    );
    if code == 0 && t.evals < runs && t.fails.is_empty() {
        println!("{}: stopped at the time limit", prop.id);
    }
    drop(base);
    code
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... [{} bytes]", &s[..e], s.len())
}

#[allow(dead_code)]
fn _unused(o: &Outcome, mut r: impl Read) {
    let _ = (&o.log, r.read(&mut []));
}
