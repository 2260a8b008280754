//! Shared parts of the bounded exhaustive explorers: scratch space, running the real binary,
//! enumeration helpers, reports.
pub mod craft;
pub mod crash;
pub mod db;
pub mod glob;
pub mod mark;
pub mod run;
pub mod sched;
pub mod sys;
pub mod tree;
pub mod world;

use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub scratch: PathBuf,
    pub out: PathBuf,
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub fixtures: PathBuf,
    pub only: Option<String>,
    pub threads: usize,
    pub t0: Instant,
    pub deadline: Duration,
    evals: AtomicU64,
    runs: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    distinct: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<String, String>>,
    capped: AtomicBool,
    notes: Mutex<Vec<String>>,
    seq: AtomicUsize,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub case: String,
    pub detail: String,
    pub log: Vec<String>,
}

/// An entry of the known-findings file: a case id and what fails there.
#[derive(Clone, Debug)]
pub struct Known {
    pub case: String,
    pub what: String,
}

pub fn hash64(b: &[u8]) -> u64 {
    let h = blake3::hash(b);
    let mut a = [0u8; 8];
    a.copy_from_slice(&h.as_bytes()[..8]);
    u64::from_le_bytes(a)
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Picks a bound by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn eval(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn set_count(&self, name: &str, n: u64) {
        self.counters.lock().unwrap().insert(name.to_string(), n);
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.counters.lock().unwrap().get(name).copied().unwrap_or(0)
    }
    pub fn ran(&self) {
        self.runs.fetch_add(1, Ordering::Relaxed);
    }
    /// Records a distinct non-trivial case by its content.
    pub fn distinct(&self, what: &[u8]) -> bool {
        let h = hash64(what);
        self.distinct[(h % 64) as usize].lock().unwrap().insert(h)
    }
    pub fn ndistinct(&self) -> u64 {
        self.distinct.iter().map(|x| x.lock().unwrap().len() as u64).sum()
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let mut s = s.into();
            if s.len() > 2000 {
                let mut n = 2000;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            v.push(s);
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        let mut n = self.notes.lock().unwrap();
        if n.len() < 50 && !n.contains(&s) {
            n.push(s);
        }
    }
    pub fn over_time(&self) -> bool {
        if self.t0.elapsed() > self.deadline {
            self.capped.store(true, Ordering::Relaxed);
            return true;
        }
        false
    }
    pub fn failed(&self) -> bool {
        self.violations.lock().unwrap().len() >= 3
    }
    pub fn nviolations(&self) -> usize {
        self.violations.lock().unwrap().len()
    }
    pub fn violate(&self, case: &str, detail: String, log: Vec<String>) {
        for k in &self.known {
            if k.case == case {
                self.known_hit.lock().unwrap().insert(k.case.clone(), k.what.clone());
                return;
            }
        }
        self.violations.lock().unwrap().push(Violation { case: case.to_string(), detail, log });
    }
    /// A new empty directory.
    pub fn fresh(&self, what: &str) -> PathBuf {
        let n = self.seq.fetch_add(1, Ordering::Relaxed);
        let d = self.scratch.join("w").join(format!("{}{}", what, n));
        std::fs::create_dir_all(&d).unwrap();
        d
    }
    pub fn selected(&self, case: &str) -> bool {
        match &self.only {
            Some(o) => case == o,
            None => true,
        }
    }

    /// Runs `f` on every case on all cores, stops after a few violations. A case that fails is run
    /// again; only failures that come back are reported.
    pub fn par<C: Sync, F>(&self, cases: &[C], id: impl Fn(&C) -> String + Sync, f: F)
    where
        F: Fn(&C) -> Result<(), String> + Sync,
    {
        let next = AtomicUsize::new(0);
        let fails: Mutex<Vec<(usize, Violation)>> = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(cases.len().max(1)) {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= cases.len() || self.over_time() || fails.lock().unwrap().len() >= 8 {
                        return;
                    }
                    let c = &cases[i];
                    if self.only.is_some() && !self.selected(&id(c)) {
                        continue;
                    }
                    self.eval(1);
                    run::log_reset();
                    if let Err(first) = f(c) {
                        let log = run::log_take();
                        let mut again = false;
                        for _ in 0..4 {
                            run::log_reset();
                            if f(c).is_err() {
                                again = true;
                                break;
                            }
                        }
                        let case = id(c);
                        if again {
                            fails.lock().unwrap().push((i, Violation { case, detail: first, log }));
                        } else {
                            self.note(format!("not reproducible: {}: {}", case, first));
                        }
                    }
                });
            }
        });
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|x| x.0);
        for (_, v) in fails {
            self.violate(&v.case, v.detail, v.log);
        }
    }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// What a check is made of.
pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

fn write_evidence(ctx: &Ctx, c: &Check) {
    let counters = ctx.counters.lock().unwrap().clone();
    let mut cov: Vec<(String, String)> = Vec::new();
    let evals = ctx.evals.load(Ordering::Relaxed);
    cov.push(("evaluations".into(), evals.to_string()));
    cov.push(("distinct_nontrivial".into(), ctx.ndistinct().to_string()));
    cov.push(("rule".into(), jstr(c.rule)));
    cov.push(("binary_runs".into(), ctx.runs.load(Ordering::Relaxed).to_string()));
    for (k, v) in &counters {
        cov.push((k.clone(), v.to_string()));
    }
    let capped = ctx.capped.load(Ordering::Relaxed);
    cov.push(("exhaustive".into(), (!capped && ctx.only.is_none() && ctx.nviolations() == 0).to_string()));
    if capped {
        cov.push(("capped_after_s".into(), ctx.deadline.as_secs().to_string()));
    }
    let samples = ctx.samples.lock().unwrap().clone();
    cov.push(("samples".into(), format!("[{}]", samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n   "))));
    let notes = ctx.notes.lock().unwrap().clone();
    if !notes.is_empty() {
        cov.push(("notes".into(), format!("[{}]", notes.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", "))));
    }
    let cov = cov.iter().map(|(k, v)| format!("  {}: {}", jstr(k), v)).collect::<Vec<_>>().join(",\n");
    let ass = c.assumptions.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(", ");
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        jstr(c.id),
        jstr(if ctx.quick() { "quick" } else { "thorough" }),
        ctx.seed,
        jstr(c.level),
        cov,
        ass,
        ctx.t0.elapsed().as_secs_f64(),
        ctx.nviolations(),
    );
    std::fs::write(ctx.out.join("evidence.json"), s).unwrap();
}

fn parse_known(text: &str, prop: &str) -> Vec<Known> {
    // known: property=<id> case=<case id> :: <what fails>
    let mut r = Vec::new();
    let head = format!("known: property={} case=", prop);
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&head) {
            if let Some((case, what)) = rest.split_once(" :: ") {
                r.push(Known { case: case.to_string(), what: what.to_string() });
            }
        }
    }
    r
}

/// Entry point of both binaries.
///
/// `vx <property> <quick|thorough> [--only CASE]` with VX_BIN, VX_SHIM, VX_VERIF in the environment
/// makes a scratch directory and re-executes itself in it as an unprivileged user, then copies the
/// results out.
pub fn main_with(checks: &[Check]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} <property> <quick|thorough> [--only CASE]", args[0]);
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let Some(check) = checks.iter().find(|c| c.id == prop) else {
        eprintln!("no check for {}", prop);
        std::process::exit(2);
    };
    let only = args.iter().position(|x| x == "--only").map(|i| args[i + 1].clone());
    if std::env::var_os("VX_CHILD").is_some() {
        child(check, &args[2], only);
    }
    parent(check, &args[2], only)
}

fn free_bytes(p: &Path) -> u64 {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        let mut s: libc::statvfs = std::mem::zeroed();
        if libc::statvfs(c.as_ptr(), &mut s) != 0 {
            return 0;
        }
        s.f_bavail as u64 * s.f_frsize as u64
    }
}

fn copy_tree(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_tree(&e.path(), &t);
        } else {
            std::fs::copy(e.path(), &t).unwrap();
        }
    }
}

fn chown_tree(p: &Path, uid: u32) {
    let _ = std::os::unix::fs::chown(p, Some(uid), Some(uid));
    if p.is_dir() {
        for e in std::fs::read_dir(p).unwrap() {
            chown_tree(&e.unwrap().path(), uid);
        }
    }
}

fn parent(check: &Check, tier: &str, only: Option<String>) -> ! {
    let env = |n: &str| PathBuf::from(std::env::var_os(n).unwrap_or_else(|| panic!("{} not set", n)));
    let verif = env("VX_VERIF");
    let mut base = PathBuf::from("/dev/shm");
    if let Some(b) = std::env::var_os("VX_SCRATCH_BASE") {
        base = b.into();
    } else if free_bytes(&base) < 2 << 30 || std::fs::write(base.join(format!(".vx{}", std::process::id())), b"x").is_err() {
        base = PathBuf::from("/tmp");
    } else {
        let _ = std::fs::remove_file(base.join(format!(".vx{}", std::process::id())));
    }
    let scratch = base.join(format!("snapcd-vx-{}-{}", check.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(scratch.join("out")).unwrap();
    std::fs::create_dir_all(scratch.join("w")).unwrap();
    std::fs::create_dir_all(scratch.join("bin")).unwrap();
    for (n, f) in [("snapcd", env("VX_BIN")), ("shim.so", env("VX_SHIM")), ("vx", std::env::current_exe().unwrap())] {
        std::fs::copy(&f, scratch.join("bin").join(n)).unwrap_or_else(|e| panic!("{:?}: {}", f, e));
    }
    let fx = verif.join("fixtures");
    if fx.is_dir() {
        copy_tree(&fx, &scratch.join("fixtures"));
    }
    let _ = std::fs::copy(verif.join("known-findings.txt"), scratch.join("known-findings.txt"));
    let root = unsafe { libc::geteuid() } == 0;
    let mut cmd = std::process::Command::new(scratch.join("bin/vx"));
    cmd.arg(check.id).arg(tier);
    if let Some(o) = &only {
        cmd.arg("--only").arg(o);
    }
    cmd.env_clear()
        .env("VX_CHILD", &scratch)
        .env("PATH", "/usr/bin:/bin")
        .env("VERIF_SEED", std::env::var("VERIF_SEED").unwrap_or_else(|_| "1".into()))
        .current_dir(&scratch);
    for v in ["VX_THREADS", "VX_DEADLINE", "RUST_BACKTRACE", "VX_PART"] {
        if let Some(x) = std::env::var_os(v) {
            cmd.env(v, x);
        }
    }
    if root {
        chown_tree(&scratch, 65534);
        use std::os::unix::process::CommandExt;
        cmd.uid(65534).gid(65534);
    }
    use std::os::unix::process::CommandExt;
    cmd.process_group(0);
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(_) if root => {
            // No right to change user here: run as we are.
            let mut c2 = std::process::Command::new(scratch.join("bin/vx"));
            c2.arg(check.id).arg(tier);
            c2.env_clear().env("VX_CHILD", &scratch).env("PATH", "/usr/bin:/bin").env("VERIF_SEED", "1").current_dir(&scratch).process_group(0);
            c2.spawn().unwrap()
        }
        Err(e) => panic!("{}", e),
    };
    let st = ch.wait().unwrap();
    // Whatever the child started goes with it.
    unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
    let evdir = verif.join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    let _ = std::fs::copy(scratch.join("out/evidence.json"), evdir.join(format!("{}.json", check.id)));
    let rdir = verif.join("replays").join(check.id);
    let mut code = st.code().unwrap_or(3);
    if let Ok(list) = std::fs::read_to_string(scratch.join("out/violations")) {
        let _ = std::fs::remove_dir_all(&rdir);
        std::fs::create_dir_all(&rdir).unwrap();
        for l in list.lines() {
            std::fs::copy(scratch.join("out").join(l), rdir.join(l)).unwrap();
            println!("VIOLATION property={} replay={}", check.id, rdir.join(l).display());
        }
    } else if code == 1 {
        code = 3;
    }
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(if code == 0 || code == 1 { code } else { 3 });
}

fn child(check: &Check, tier: &str, only: Option<String>) -> ! {
    let scratch = PathBuf::from(std::env::var_os("VX_CHILD").unwrap());
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let num = |n: &str, d: u64| std::env::var(n).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let known = parse_known(&std::fs::read_to_string(scratch.join("known-findings.txt")).unwrap_or_default(), check.id);
    let ctx = Ctx {
        prop: check.id.to_string(),
        tier,
        seed: num("VERIF_SEED", 1),
        out: scratch.join("out"),
        bin: scratch.join("bin/snapcd"),
        shim: scratch.join("bin/shim.so"),
        fixtures: scratch.join("fixtures"),
        scratch,
        only,
        threads: num("VX_THREADS", std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) as u64) as usize,
        t0: Instant::now(),
        deadline: Duration::from_secs(num("VX_DEADLINE", if tier == Tier::Quick { 420 } else { 3 * 3600 })),
        evals: AtomicU64::new(0),
        runs: AtomicU64::new(0),
        counters: Default::default(),
        distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        samples: Default::default(),
        violations: Default::default(),
        known,
        known_hit: Default::default(),
        capped: AtomicBool::new(false),
        notes: Default::default(),
        seq: AtomicUsize::new(0),
    };
    run::start_watchdog();
    (check.run)(&ctx);
    for (case, what) in ctx.known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} [{}]", check.id, what, case);
    }
    write_evidence(&ctx, check);
    let v = ctx.violations.lock().unwrap().clone();
    println!(
        "{}: {} evaluations, {} distinct, {} runs of the binary, {} violations, {:.1} s{}",
        check.id,
        ctx.evals.load(Ordering::Relaxed),
        ctx.ndistinct(),
        ctx.runs.load(Ordering::Relaxed),
        v.len(),
        ctx.t0.elapsed().as_secs_f64(),
        if ctx.capped.load(Ordering::Relaxed) { " (time cap reached)" } else { "" }
    );
    for n in ctx.notes.lock().unwrap().iter() {
        println!("note: {}", n);
    }
    if v.is_empty() {
        std::process::exit(0);
    }
    let mut list = String::new();
    for (i, x) in v.iter().take(5).enumerate() {
        let name = format!("{}.txt", i + 1);
        let text = format!(
            "property: {}\ncase: {}\n\n{}\n\nreplay: cd /verif && ./check {} {} --only '{}'\n\ncommands of the failing case:\n{}\n",
            check.id,
            x.case,
            x.detail,
            check.id,
            if ctx.quick() { "quick" } else { "thorough" },
            x.case.replace('\'', "'\\''"),
            x.log.join("\n")
        );
        std::fs::write(ctx.out.join(&name), text).unwrap();
        list.push_str(&name);
        list.push('\n');
        let mut d = x.detail.clone();
        if d.len() > 1500 {
            let mut n = 1500;
            while !d.is_char_boundary(n) {
                n -= 1;
            }
            d.truncate(n);
        }
        println!("--- {}\n{}", x.case, d);
    }
    std::fs::write(ctx.out.join("violations"), list).unwrap();
    std::process::exit(1);
}
