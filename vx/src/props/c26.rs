//! The cache does what it is there for: status and compare read again only what changed.
use super::common::*;
use std::collections::HashSet;
use std::os::unix::fs::MetadataExt;
use std::path::PathBuf;
use vx::run::Snap;
use vx::sys::set_mtime;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C26",
    level: "model_checking",
    rule: "every sequence of up to D operations (edits, touches, replacements, renames, additions; status, compare, compare --stat, commit, insert, checkout-head, in two repositories that share files by hard links and one cache; a repository made anew; a query that cannot print) on the real binary, while the calls that read files of the working tree are recorded: a status or compare reads no file that an earlier status or compare has looked at in the state it is in (size, inode, time), as long as this repository has its content; afterwards each query once more, which then reads nothing. Plus trees of many files and sizes, of which one is changed; trees of up to 12,000 (thorough: 70,000) files; and single files of every listed size (0 to 2 GiB and, thorough, past 4 GiB), time (whole seconds, fractions, before 1970, past 2038), mode and name, next to one that changes. States: histories; transitions: operations. Non-trivial: distinct history with a query.",
    assumptions: &["an earlier query counts when it succeeded"],
    run,
};

const OPS: &[&str] = &[
    "edit a",
    "touch a",
    "replace a",
    "rename a",
    "add n",
    "status",
    "compare",
    "compare -s",
    "compare -p d",
    "status in 2",
    "commit",
    "commit in 2",
    "insert",
    "checkout-head",
    "recreate 1",
    "fail in status",
];

/// What the cache can know a file by.
type Sight = (u64, u64, i64, i64, u64);

struct Two<'a> {
    w: World<'a>,
    r2: PathBuf,
    /// What queries have looked at.
    known: HashSet<Sight>,
    /// Contents each repository has.
    has: [HashSet<Vec<u8>>; 2],
    n: u32,
    t: i64,
}

fn sights(dir: &PathBuf) -> Vec<(PathBuf, Sight)> {
    let mut v = Vec::new();
    let mut stack = vec![dir.clone()];
    while let Some(p) = stack.pop() {
        for e in std::fs::read_dir(&p).unwrap() {
            let e = e.unwrap();
            if e.file_name() == ".snapcd" {
                continue;
            }
            let m = e.metadata().unwrap();
            if m.is_dir() {
                stack.push(e.path());
            } else {
                v.push((e.path(), (m.dev(), m.ino(), m.mtime(), m.mtime_nsec(), m.size())));
            }
        }
    }
    v
}

impl<'a> Two<'a> {
    fn new(ctx: &'a Ctx) -> Result<Two<'a>, String> {
        let w = World::bare(ctx);
        let r2 = w.dir.join("r2");
        std::fs::create_dir(&r2).unwrap();
        d(&[("a", f("00000\n")), ("big", f(pattern(70_000, 3))), ("none", f("")), ("d", d(&[("b", f("b0000\n")), ("e", empty())]))]).write(&w.repo);
        std::fs::hard_link(w.repo.join("a"), r2.join("a")).unwrap();
        f("z\n").write(&r2.join("z"));
        let mut x = Two { w, r2, known: HashSet::new(), has: [HashSet::new(), HashSet::new()], n: 0, t: 1_700_000_000 };
        for i in 0..2 {
            x.snap(i).good(&["init"])?;
        }
        x.snap(0).good(&["commit", "-m", "m"])?;
        x.stored(0, "");
        x.snap(1).good(&["commit", "-m", "m", "-e", "*/a"])?;
        x.has[1].insert(b"z\n".to_vec());
        Ok(x)
    }
    fn dir(&self, i: usize) -> PathBuf {
        [&self.w.repo, &self.r2][i].clone()
    }
    fn snap(&self, i: usize) -> Snap<'a> {
        self.w.snap.at(&self.dir(i))
    }
    fn stored(&mut self, i: usize, below: &str) {
        for (p, _) in sights(&self.dir(i).join(below)) {
            self.has[i].insert(std::fs::read(p).unwrap());
        }
    }
    fn time(&mut self, p: &PathBuf) {
        self.t += 1;
        set_mtime(p, self.t, 7);
    }
    fn query(&mut self, i: usize, args: &[&str]) -> Result<(), String> {
        let trace = self.w.dir.join("trace");
        let _ = std::fs::remove_file(&trace);
        let o = self.snap(i).with("VX_ROOT", self.dir(i)).with("VX_TRACE", &trace).run(args);
        // There is nothing to compare with on a branch without commits.
        let d = vx::db::dump(&self.dir(i).join(".snapcd/snapcd.db"))?;
        if d.head().and_then(|h| d.tip(&h)).is_none() {
            return Ok(());
        }
        if !o.ok() {
            return Err(format!("{:?}: {}", args, o.show()));
        }
        let t = std::fs::read_to_string(&trace).unwrap_or_default();
        let below = if args.contains(&"-p") { "d" } else { "" };
        let read: HashSet<PathBuf> = t
            .lines()
            .filter_map(|l| {
                let x: Vec<&str> = l.splitn(4, ' ').collect();
                (x.len() == 4 && matches!(x[1], "read" | "pread" | "mmap") && !x[3].starts_with(".snapcd")).then(|| self.dir(i).join(x[3]))
            })
            .collect();
        for (p, s) in sights(&self.dir(i).join(below)) {
            let content = std::fs::read(&p).unwrap();
            if self.known.contains(&s) && self.has[i].contains(&content) {
                self.w.ctx.count("files_not_read", 1);
                if read.contains(&p) {
                    return Err(format!("{:?} in {} reads {:?}, which has not changed since it was last looked at", args, i + 1, p));
                }
            }
            self.known.insert(s);
            self.has[i].insert(content);
        }
        Ok(())
    }
    fn op(&mut self, op: usize) -> Result<(), String> {
        let a = self.w.repo.join("a");
        self.n += 1;
        let content = format!("{:05}\n", self.n);
        match OPS[op] {
            "edit a" => {
                std::fs::write(&a, content).unwrap();
                self.time(&a);
            }
            "touch a" => {
                if a.exists() {
                    self.time(&a);
                }
            }
            "replace a" => {
                let tmp = self.w.dir.join("tmp");
                std::fs::write(&tmp, content).unwrap();
                self.time(&tmp);
                std::fs::rename(&tmp, &a).unwrap();
            }
            "rename a" => {
                if a.exists() {
                    std::fs::rename(&a, self.w.repo.join("a2")).unwrap();
                } else {
                    std::fs::rename(self.w.repo.join("a2"), &a).unwrap();
                }
            }
            "add n" => {
                let p = self.w.repo.join("d/n");
                std::fs::write(&p, content).unwrap();
                self.time(&p);
            }
            "commit" => {
                self.snap(0).good(&["commit", "-m", "m"])?;
                self.stored(0, "");
            }
            "commit in 2" => {
                self.snap(1).good(&["commit", "-m", "m"])?;
                self.stored(1, "");
            }
            "insert" => {
                self.snap(0).insert("d")?;
                self.stored(0, "d");
            }
            "checkout-head" => drop(self.snap(0).run(&["checkout-head", "side"])),
            "recreate 1" => {
                std::fs::remove_dir_all(self.w.repo.join(".snapcd")).unwrap();
                self.has[0].clear();
                self.snap(0).good(&["init"])?;
                self.snap(0).good(&["commit", "-m", "m", "-p", "d"])?;
                self.stored(0, "d");
            }
            "fail in status" => {
                let mut s = self.snap(0);
                s.full_stdout = true;
                s.run(&["status"]);
            }
            "status in 2" => self.query(1, &["status"])?,
            q => {
                let args: Vec<&str> = q.split(' ').collect();
                self.query(0, &args)?;
            }
        }
        Ok(())
    }
}

fn history(ctx: &Ctx, h: &[usize]) -> Result<(), String> {
    let mut x = Two::new(ctx)?;
    let show = |h: &[usize]| h.iter().map(|&o| OPS[o]).collect::<Vec<_>>().join("; ");
    for (k, &o) in h.iter().enumerate() {
        x.op(o).map_err(|e| format!("{}\n{}", show(&h[..=k]), e))?;
        ctx.count("transitions", 1);
    }
    for (i, q) in [(0, &["status"][..]), (0, &["status"]), (0, &["compare"]), (0, &["compare", "-s"]), (1, &["status"]), (1, &["compare"])] {
        x.query(i, q).map_err(|e| format!("{}\n{}", show(h), e))?;
    }
    ctx.count("states", 1);
    ctx.count("traces_validated_against_impl", 1);
    ctx.distinct(show(h).as_bytes());
    if h == [0, 5, 1] {
        ctx.sample(show(h));
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..ctx.pick(3, 4) {
        last = last.iter().flat_map(|h| (0..OPS.len()).map(move |o| [h.clone(), vec![o]].concat())).collect();
        all.extend(last.iter().cloned());
    }
    ctx.par(&all, |h| format!("history {:?}", h), |h| history(ctx, h));
    if ctx.nviolations() > 0 {
        return;
    }
    // Many files of many sizes, of which one changes.
    let n = ctx.pick(30, 300);
    let sizes = [0usize, 1, 10, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 131072, 200_000];
    let idx: Vec<usize> = (0..n).collect();
    ctx.par(&idx, |i| format!("one of many {}", i), |&i| {
        let w = World::new(ctx);
        let name = |k: usize| if k % 3 == 0 { format!("d{}/f{}", k % 7, k) } else { format!("f{}", k) };
        let mut t = empty();
        for k in 0..7 {
            t.put(&format!("d{}", k), empty());
        }
        for k in 0..n {
            t.put(&name(k), f(pattern(sizes[k % sizes.len()], k as u64)));
        }
        w.set_tree(&t);
        if i % 2 == 0 {
            w.commit("m")?;
        } else {
            w.snap.good(&["commit", "-m", "m", "-p", "d1"])?;
        }
        w.snap.good(&["compare"])?;
        f("changed\n").write(&w.repo.join(name(i)));
        let reads = |args: &[&str]| -> Result<Vec<String>, String> {
            let trace = w.dir.join("trace");
            let _ = std::fs::remove_file(&trace);
            w.snap.with("VX_ROOT", &w.repo).with("VX_TRACE", &trace).good(args)?;
            let t = std::fs::read_to_string(&trace).map_err(|e| e.to_string())?;
            let mut v: Vec<String> = t.lines().filter_map(|l| l.split_once(" read ").and_then(|x| x.1.split_once(' ')).map(|x| x.1.to_string())).filter(|p| !p.starts_with(".snapcd")).collect();
            v.sort();
            v.dedup();
            Ok(v)
        };
        let first = reads(&["status"])?;
        if first != [name(i)] {
            return Err(format!("after changing {} status reads {:?}", name(i), first));
        }
        for q in [&["status"][..], &["compare"], &["compare", "-s"], &["compare", "-e", "*/f1"]] {
            let again = reads(q)?;
            if !again.is_empty() {
                return Err(format!("{:?} reads {:?} again", q, again));
            }
        }
        ctx.distinct(format!("many {}", i).as_bytes());
        Ok(())
    });
    if ctx.nviolations() > 0 {
        return;
    }
    // More files than fit whatever is kept of them.
    let lots: Vec<usize> = if ctx.quick() { vec![1_100, 5_000, 12_000] } else { vec![1_100, 5_000, 12_000, 40_000, 70_000] };
    ctx.par(&lots, |n| format!("lots {}", n), |&n| {
        let w = World::new(ctx);
        for k in 0..n {
            let p = w.repo.join(format!("d{}/f{}", k % 50, k));
            if k < 50 {
                std::fs::create_dir(p.parent().unwrap()).unwrap();
            }
            std::fs::write(&p, format!("{}", k)).unwrap();
        }
        f("other\n").write(&w.repo.join("other"));
        w.snap.good(&["commit", "-m", "m", "-p", "other"])?;
        w.snap.good(&["status"])?;
        let trace = w.dir.join("trace");
        for (k, q) in [&["status"][..], &["compare", "-s", "-p", "d7"], &["status"]].iter().enumerate() {
            let _ = std::fs::remove_file(&trace);
            w.snap.with("VX_ROOT", &w.repo).with("VX_TRACE", &trace).good(q)?;
            let t = std::fs::read_to_string(&trace).map_err(|e| e.to_string())?;
            let again = t.lines().filter(|l| {
                let x: Vec<&str> = l.splitn(4, ' ').collect();
                x.len() == 4 && matches!(x[1], "read" | "pread" | "mmap") && x[3].starts_with('d')
            }).count();
            if again > 0 {
                return Err(format!("{:?} reads again {} of {} files that have not changed", q, again, n));
            }
            f(format!("other {}\n", k)).write(&w.repo.join("other"));
        }
        ctx.count("files_not_read", n as u64);
        ctx.distinct(format!("lots {}", n).as_bytes());
        Ok(())
    });
    if ctx.nviolations() > 0 {
        return;
    }
    // Whatever the file is like: one at a time, next to another that changes between.
    let mut cases: Vec<(u64, i64, i64, u32, &str)> = Vec::new();
    for size in [0u64, 1, 9, 4095, 4096, 65_536, 65_537] {
        for (s, ns) in [(0, 0), (1, 0), (1_700_000_000, 0), (1_700_000_001, 1), (1_700_000_000, 999_999_999), (1_700_000_000, 500_000_000), (-1, 0), (-1, 500_000_000), (1 << 31, 0), (1 << 32, 5), (4_000_000_000, 0)] {
            for mode in [0o644, 0o400, 0o755, 0o7777] {
                cases.push((size, s, ns, mode, "f"));
            }
        }
        for name in [".f", "f~", "f.tmp", "f.log", "f.db", "F", "\u{e9}", "-f", "f f", "core", "node_modules/f", ".git/f", "target/f", "a/b/c/d/e/f"] {
            cases.push((size, 1_700_000_000, 7, 0o644, name));
        }
    }
    for size in [1u64 << 20, 1 << 24, 100_000_000, 1 << 28, (1 << 29) + 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1].iter().take(ctx.pick(8, 11)) {
        cases.push((*size, 1_700_000_000, 7, 0o644, "f"));
    }
    // The longest first.
    cases.sort_by_key(|c| std::cmp::Reverse(c.0));
    ctx.par(&cases, |c| format!("kind {:?}", c), |&(size, s, ns, mode, name)| {
        use std::os::unix::fs::PermissionsExt;
        let w = World::new(ctx);
        let p = w.repo.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        let file = std::fs::File::create(&p).unwrap();
        if size > 1 << 17 {
            file.set_len(size).unwrap();
        } else {
            std::io::Write::write_all(&mut &file, &pattern(size as usize, size)).unwrap();
        }
        file.set_permissions(std::fs::Permissions::from_mode(mode)).unwrap();
        set_mtime(&p, s, ns);
        f("other\n").write(&w.repo.join("other"));
        // The file is either known to the commit or new to it.
        let known = size % 2 == 0;
        w.snap.good(if known { &["commit", "-m", "m"] } else { &["commit", "-m", "m", "-p", "other"] })?;
        w.snap.good(&["status"])?;
        let trace = w.dir.join("trace");
        for (k, q) in [&["status"][..], &["compare", "-s"], &["compare"], &["status"]].iter().enumerate() {
            // It isn't looked at for what is listed, and what is listed is right.
            if k == 2 && (!known && size > 1 << 24) {
                continue;
            }
            let _ = std::fs::remove_file(&trace);
            w.snap.with("VX_ROOT", &w.repo).with("VX_TRACE", &trace).good(q)?;
            let t = std::fs::read_to_string(&trace).map_err(|e| e.to_string())?;
            let again = t.lines().any(|l| {
                let x: Vec<&str> = l.splitn(4, ' ').collect();
                x.len() == 4 && matches!(x[1], "read" | "pread" | "mmap") && x[3].ends_with(name)
            });
            if again {
                return Err(format!("{:?} reads {:?} (size {}, time {}.{:09}, mode {:o}) again", q, name, size, s, ns, mode));
            }
            f(format!("other {}\n", k)).write(&w.repo.join("other"));
        }
        ctx.count("files_not_read", 4);
        ctx.distinct(format!("kind {:?}", (size, s, ns, mode, name)).as_bytes());
        Ok(())
    });
}
