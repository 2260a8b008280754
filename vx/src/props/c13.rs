//! The file-hash cache never changes an answer.
use super::common::*;
use std::collections::HashMap;
use std::os::unix::fs::MetadataExt;
use std::path::PathBuf;
use vx::run::{Out, Snap};
use vx::sys::set_mtime;
use vx::tree::*;
use vx::world::{clear, World};
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C13",
    level: "model_checking",
    rule: "every sequence of up to D operations from a list (edits that change exactly one of size, inode, seconds or nanoseconds of the modification time; swaps, renames, reverts; queries and commits in two repositories that share files by hard links and one cache; recreating a repository; a query that dies) on the real binary; after it status and compare --stat in both repositories with the shared cache, and from the same database with an empty one, have to agree with each other and with the set difference. Plus every ordered pair of modification times and of sizes from lists. States: histories; transitions: operations executed. Non-trivial: distinct history that left something in the cache.",
    assumptions: &["no two different contents ever shared size, inode and modification time (checked while running)"],
    run,
};

const OPS: &[&str] = &[
    "edit a, 1 ns later",
    "replace a, same time",
    "append to a, same time",
    "edit a, 1 s later",
    "swap a and s/b",
    "put a back as it was",
    "remove or make s/b",
    "status",
    "compare -s",
    "commit",
    "status in 2",
    "commit in 2",
    "recreate 1",
    "die in status",
    "insert a in 2",
    "link t to a",
];

struct Two<'a> {
    w: World<'a>,
    r2: PathBuf,
    /// What is committed on the branch of each.
    head: [Option<Node>; 2],
    n: u32,
    t: (i64, i64),
    /// (inode, seconds, nanoseconds, size) -> content
    seen: HashMap<(u64, i64, i64, u64), Vec<u8>>,
    orig: (Vec<u8>, (i64, i64)),
}

impl<'a> Two<'a> {
    fn new(ctx: &'a Ctx) -> Result<Two<'a>, String> {
        let w = World::bare(ctx);
        let r2 = w.dir.join("r2");
        std::fs::create_dir(&r2).unwrap();
        let t0 = (1_500_000_000, 500);
        d(&[("a", f("00000\n")), ("s", d(&[("b", f("b0000\n"))]))]).write(&w.repo);
        set_mtime(&w.repo.join("a"), t0.0, t0.1);
        // a second name of the same files, in the other repository
        std::fs::hard_link(w.repo.join("a"), r2.join("a")).unwrap();
        std::fs::write(r2.join("z"), "z\n").unwrap();
        let mut x = Two { w, r2, head: [None, None], n: 0, t: t0, seen: HashMap::new(), orig: (b"00000\n".to_vec(), t0) };
        for i in 0..2 {
            x.snap(i).good(&["init"])?;
        }
        x.commit(0)?;
        // the other one has never stored a
        x.snap(1).good(&["commit", "-m", "m", "-e", "*/a"])?;
        x.head[1] = Some(d(&[("z", f("z\n"))]));
        Ok(x)
    }
    fn dir(&self, i: usize) -> PathBuf {
        if i == 0 {
            self.w.repo.clone()
        } else {
            self.r2.clone()
        }
    }
    fn snap(&self, i: usize) -> Snap<'a> {
        self.w.snap.at(&self.dir(i))
    }
    fn tree(&self, i: usize) -> Result<Node, String> {
        Node::read_skip(&self.dir(i), &[".snapcd"])
    }
    fn commit(&mut self, i: usize) -> Result<(), String> {
        self.snap(i).good(&["commit", "-m", "m"])?;
        self.head[i] = Some(self.tree(i)?);
        Ok(())
    }
    fn next(&mut self) -> Vec<u8> {
        self.n += 1;
        format!("{:05}\n", self.n).into_bytes()
    }
    fn op(&mut self, op: usize) -> Result<(), String> {
        let a = self.w.repo.join("a");
        let b = self.w.repo.join("s/b");
        match OPS[op] {
            "edit a, 1 ns later" => {
                let c = self.next();
                self.t.1 += 1;
                std::fs::write(&a, c).unwrap();
                set_mtime(&a, self.t.0, self.t.1);
            }
            "replace a, same time" => {
                let c = self.next();
                let tmp = self.w.dir.join("tmp");
                std::fs::write(&tmp, c).unwrap();
                std::fs::rename(&tmp, &a).unwrap();
                set_mtime(&a, self.t.0, self.t.1);
            }
            "append to a, same time" => {
                let mut c = std::fs::read(&a).unwrap();
                c.extend(b"more\n");
                std::fs::write(&a, c).unwrap();
                set_mtime(&a, self.t.0, self.t.1);
            }
            "edit a, 1 s later" => {
                let c = self.next();
                self.t.0 += 1;
                std::fs::write(&a, c).unwrap();
                set_mtime(&a, self.t.0, self.t.1);
            }
            "swap a and s/b" => {
                if b.exists() {
                    let tmp = self.w.dir.join("tmp");
                    std::fs::rename(&a, &tmp).unwrap();
                    std::fs::rename(&b, &a).unwrap();
                    std::fs::rename(&tmp, &b).unwrap();
                }
            }
            "put a back as it was" => {
                std::fs::write(&a, &self.orig.0).unwrap();
                set_mtime(&a, self.orig.1 .0, self.orig.1 .1);
            }
            "remove or make s/b" => {
                if b.exists() {
                    std::fs::remove_file(&b).unwrap();
                } else {
                    let c = self.next();
                    std::fs::write(&b, c).unwrap();
                    self.t.1 += 1;
                    set_mtime(&b, self.t.0, self.t.1);
                }
            }
            "status" => self.query(0, &["status"])?,
            "compare -s" => self.query(0, &["compare", "-s"])?,
            "commit" => self.commit(0)?,
            "status in 2" => self.query(1, &["status"])?,
            "commit in 2" => self.commit(1)?,
            "recreate 1" => {
                std::fs::remove_dir_all(self.w.repo.join(".snapcd")).unwrap();
                self.snap(0).good(&["init"])?;
                self.snap(0).good(&["commit", "-m", "m", "-p", "s"])?;
                self.head[0] = Some(Node::read(&self.w.repo.join("s"))?);
            }
            "die in status" => {
                let mut s = self.snap(0);
                s.full_stdout = true;
                s.run(&["status"]);
            }
            "insert a in 2" => {
                self.snap(1).insert("a")?;
            }
            "link t to a" => {
                let t = self.w.repo.join("t");
                if t.exists() {
                    std::fs::remove_file(&t).unwrap();
                }
                std::fs::hard_link(&a, &t).unwrap();
            }
            x => panic!("{}", x),
        }
        Ok(())
    }
    /// A query whose answer has to be the one from the files alone.
    fn query(&self, i: usize, args: &[&str]) -> Result<(), String> {
        let o = self.snap(i).run(args);
        self.judge(i, args, &o)
    }
    fn judge(&self, i: usize, args: &[&str], o: &Out) -> Result<(), String> {
        let (Some(old), new) = (&self.head[i], self.tree(i)?) else { return Ok(()) };
        if !o.ok() {
            return Err(format!("{} in {}: {}", args.join(" "), i + 1, o.show()));
        }
        if args[0] == "status" {
            let got = Changes::parse(&o.text(), true)?;
            let want = Changes::between(old, &new);
            if got != want {
                return Err(format!("status in {}: {}\nexpected {}", i + 1, got.show(), want.show()));
            }
        } else {
            let got: Vec<String> = o.text().lines().map(|l| l.rsplit_once("  +").map(|x| x.0).unwrap_or(l).to_string()).collect();
            let want: Vec<String> = file_changes(old, &new).into_iter().map(|x| x.0).collect();
            let mut got2 = got.clone();
            got2.sort();
            if got2 != want {
                return Err(format!("compare in {} names {:?}, expected {:?}", i + 1, got, want));
            }
        }
        Ok(())
    }
    /// The same question with the shared cache and with an empty one.
    fn both(&self, i: usize, args: &[&str]) -> Result<(), String> {
        let db = self.dir(i).join(".snapcd/snapcd.db");
        let before = std::fs::read(&db).unwrap();
        let warm = self.snap(i).run(args);
        let after = std::fs::read(&db).unwrap();
        std::fs::write(&db, &before).unwrap();
        let empty = self.w.ctx.fresh("ec");
        let cold = Snap::new(self.w.ctx, &self.dir(i), &empty).run(args);
        let _ = std::fs::remove_dir_all(&empty);
        std::fs::write(&db, &after).unwrap();
        if warm.code != cold.code || sorted(&warm) != sorted(&cold) {
            return Err(format!("{} in {} with the cache: {}\nwith an empty cache: {}", args.join(" "), i + 1, warm.show(), cold.show()));
        }
        self.judge(i, args, &warm)
    }
    /// Whether two different contents ever looked the same.
    fn alike(&mut self) -> bool {
        let mut stack = vec![self.w.repo.clone(), self.r2.clone()];
        while let Some(p) = stack.pop() {
            for e in std::fs::read_dir(&p).unwrap() {
                let e = e.unwrap();
                if e.file_name() == ".snapcd" {
                    continue;
                }
                let m = e.metadata().unwrap();
                if m.is_dir() {
                    stack.push(e.path());
                    continue;
                }
                let c = std::fs::read(e.path()).unwrap();
                let k = (m.ino(), m.mtime(), m.mtime_nsec(), m.size());
                if let Some(old) = self.seen.insert(k, c.clone()) {
                    if old != c {
                        return true;
                    }
                }
            }
        }
        false
    }
}

/// The order of lines within a listing is not part of the answer.
fn sorted(o: &Out) -> Vec<String> {
    let mut v: Vec<String> = o.text().lines().map(|x| x.to_string()).collect();
    v.sort();
    v
}

fn history(ctx: &Ctx, h: &[usize]) -> Result<(), String> {
    let mut x = Two::new(ctx)?;
    x.alike();
    let show = |h: &[usize]| h.iter().map(|&o| OPS[o]).collect::<Vec<_>>().join("; ");
    for (k, &o) in h.iter().enumerate() {
        x.op(o).map_err(|e| format!("{}\n{}", show(&h[..=k]), e))?;
        if x.alike() {
            ctx.count("excluded_by_assumption", 1);
            return Ok(());
        }
        ctx.count("transitions", 1);
    }
    for (i, args) in [(0, &["status"][..]), (0, &["compare", "-s"]), (1, &["status"]), (1, &["compare", "-s"])] {
        x.both(i, args).map_err(|e| format!("{}\n{}", show(h), e))?;
    }
    ctx.count("states", 1);
    ctx.count("traces_validated_against_impl", 1);
    if ctx.distinct(show(h).as_bytes()) && h.len() == 3 && h[0] == 7 && h[2] == 10 {
        ctx.sample(show(h));
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let depth = ctx.pick(3, 4);
    ctx.set_count("traces_validated_against_impl", 0);
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..depth {
        let mut next = Vec::new();
        for h in &last {
            for o in 0..OPS.len() {
                let mut h = h.clone();
                h.push(o);
                next.push(h);
            }
        }
        // edits that nobody looks at in between change nothing
        next.retain(|h| h.iter().any(|&o| (7..=14).contains(&o)) || h.len() < 3);
        all.extend(next.iter().cloned());
        last = next;
    }
    ctx.par(&all, |h| format!("history {:?}", h), |h| history(ctx, h));
    if ctx.nviolations() > 0 {
        return;
    }
    pairs(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    many(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    devices(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    far(ctx);
}

/// Sizes that are far apart but alike in their low bits (files with holes; inode and time stay).
fn far(ctx: &Ctx) {
    const G: u64 = 1 << 30;
    let pairs: Vec<(u64, u64)> = if ctx.quick() { vec![(6, 4 * G + 6), (4 * G, 0)] } else { vec![(6, 4 * G + 6), (4 * G, 0), (2 * G, 2 * G + 1), (0, 8 * G), (1, 2 * G + 1), (65536, 4 * G + 65536), (4 * G - 1, 4 * G), (5, 6 * G + 5), (4 * G + 1, 8 * G + 1)] };
    ctx.par(&pairs, |(a, b)| format!("sizes {} and {}", a, b), |&(a, b)| {
        let w = World::new(ctx);
        let p = w.repo.join("x");
        let put = |n: u64, t: i64| {
            let f = std::fs::File::options().write(true).create(true).open(&p).unwrap();
            f.set_len(n).unwrap();
            set_mtime(&p, 1_500_000_000, t);
        };
        std::fs::write(w.repo.join("z"), "z\n").unwrap();
        w.commit("nothing")?;
        // the first size is in the cache and stored
        put(a.min(b), 5);
        w.commit("small")?;
        let ask = |changed: bool| -> Result<(), String> {
            let o = w.snap.run(&["compare"]);
            let got = Changes::parse(&o.text(), false);
            let mut want = Changes::default();
            if changed {
                want.modified.insert("x".into());
            }
            if !o.ok() || got.as_ref() != Ok(&want) {
                return Err(format!("sizes {} and {}: {}\nexpected {}", a, b, o.show(), want.show()));
            }
            Ok(())
        };
        ask(false)?;
        if a < b {
            put(b, 5);
            ask(true)?;
            ask(true)?;
        } else {
            // and the other way: the large one is cached, then the file is what was committed
            put(a, 9);
            ask(true)?;
            put(b, 9);
            ask(false)?;
        }
        ctx.count("states", 1);
        ctx.count("traces_validated_against_impl", 1);
        ctx.distinct(format!("far sizes {} {}", a, b).as_bytes());
        Ok(())
    });
}

const DEVICE_OPS: &[&str] = &["new content in m1", "new content in m2, at the time of m1", "m1 and m2 swapped", "status", "compare -s", "commit", "die in status", "m1 is not there", "insert"];

/// Two file systems in a tree, with the same inode numbers in both.
fn devices(ctx: &Ctx) {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..ctx.pick(4, 6) {
        last = last.iter().flat_map(|h| (0..DEVICE_OPS.len()).map(move |o| [h.clone(), vec![o]].concat())).collect();
        // edits that nobody looks at in between change nothing
        last.retain(|h| h.len() < 2 || h[h.len() - 2] > 2 || h[h.len() - 1] > 2);
        all.extend(last.iter().cloned());
    }
    let show = |h: &[usize]| h.iter().map(|&o| DEVICE_OPS[o]).collect::<Vec<_>>().join("; ");
    ctx.par(&all, |h| format!("two file systems {:?}", h), |h| {
        let w = World::new(ctx);
        let snap = w.snap.with("VX_MOUNT", "1");
        let (mut n, mut t) = (0, 1);
        let mut seen: HashMap<(usize, i64), String> = HashMap::new();
        let mut files: [Option<(String, i64)>; 2] = [Some(("00000\n".into(), t)), Some(("other\n".into(), t))];
        let put = |files: &[Option<(String, i64)>; 2]| -> Node {
            let mut tree = d(&[("z", f("z\n"))]);
            for i in 0..2 {
                let p = w.repo.join(format!("m{}/x", i + 1));
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                tree.put(&format!("m{}", i + 1), empty());
                match &files[i] {
                    Some((c, t)) => {
                        std::fs::write(&p, c).unwrap();
                        set_mtime(&p, 1_500_000_000, *t);
                        tree.put(&format!("m{}/x", i + 1), f(c.clone()));
                    }
                    None => {
                        let _ = std::fs::remove_file(&p);
                    }
                }
            }
            tree
        };
        std::fs::write(w.repo.join("z"), "z\n").unwrap();
        let mut tree = put(&files);
        // A file system on which nothing was cached yet, or one seen by another repository.
        w.snap.good(&["commit", "-m", "m", "-e", "*/x"])?;
        seen.insert((0, t), "00000\n".into());
        seen.insert((1, t), "other\n".into());
        let mut head = tree.clone();
        head.remove("m1/x");
        head.remove("m2/x");
        let ask = |args: &[&str], head: &Node, tree: &Node| -> Result<(), String> {
            let o = snap.run(args);
            if !o.ok() {
                return Err(format!("{}: {}", show(h), o.show()));
            }
            if args[0] == "status" {
                let got = Changes::parse(&o.text(), true)?;
                let want = Changes::between(head, tree);
                if got != want {
                    return Err(format!("{}: {}\nexpected {}", show(h), got.show(), want.show()));
                }
            } else {
                let mut got: Vec<String> = o.text().lines().map(|l| l.rsplit_once("  +").map(|x| x.0).unwrap_or(l).to_string()).collect();
                got.sort();
                let want: Vec<String> = file_changes(head, tree).into_iter().map(|x| x.0).collect();
                if got != want {
                    return Err(format!("{}: compare names {:?}, expected {:?}", show(h), got, want));
                }
            }
            Ok(())
        };
        for &o in h {
            match o {
                0 | 1 => {
                    n += 1;
                    if o == 0 {
                        t += 1;
                    }
                    files[o] = Some((format!("{:05}\n", n), t));
                    tree = put(&files);
                }
                2 => {
                    files.swap(0, 1);
                    tree = put(&files);
                }
                3 => ask(&["status"], &head, &tree)?,
                4 => ask(&["compare", "-s"], &head, &tree)?,
                5 => {
                    snap.good(&["commit", "-m", "m"])?;
                    head = tree.clone();
                }
                6 => {
                    let mut s = snap.clone();
                    s.full_stdout = true;
                    s.run(&["status"]);
                }
                7 => {
                    files[0] = None;
                    tree = put(&files);
                }
                _ => drop(snap.insert(".")?),
            }
            // No file system had two contents that look the same.
            for i in 0..2 {
                if let Some((c, t)) = &files[i] {
                    if seen.insert((i, *t), c.clone()).map_or(false, |old| old != *c) {
                        ctx.count("excluded_by_assumption", 1);
                        return Ok(());
                    }
                }
            }
            ctx.count("transitions", 1);
        }
        ask(&["status"], &head, &tree)?;
        ask(&["compare", "-s"], &head, &tree)?;
        ctx.count("states", 1);
        ctx.count("traces_validated_against_impl", 1);
        ctx.distinct(show(h).as_bytes());
        Ok(())
    });
}

/// Every ordered pair of times, and of sizes.
fn pairs(ctx: &Ctx) {
    let secs: &[i64] = &[0, 1, 2, -1, 1000, 1_600_000_000, 1_600_000_001, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1_600_000_000];
    let nanos: &[i64] = &[0, 1, 2, 1000, 1_000_000, 500_000_000, 999_999_998, 999_999_999];
    let mut times = Vec::new();
    for &s in secs {
        for &n in nanos {
            if ctx.quick() && s.abs() > 2 && n > 2 && n < 999_999_999 {
                continue;
            }
            times.push((s, n));
        }
    }
    ctx.set_count("times", times.len() as u64);
    let idx: Vec<usize> = (0..times.len()).collect();
    ctx.par(&idx, |&i| format!("times from {:?}", times[i]), |&i| {
        let w = World::new(ctx);
        // one file for each second time, all cached with the first
        let name = |j: usize| format!("f{:03}", j);
        let mut t = empty();
        for j in 0..times.len() {
            t.put(&name(j), f(format!("{:04}", j)));
        }
        w.set_tree(&t);
        w.commit("m")?;
        for j in 0..times.len() {
            set_mtime(&w.repo.join(name(j)), times[i].0, times[i].1);
        }
        w.snap.good(&["compare"])?;
        let mut n = t.clone();
        for j in 0..times.len() {
            let p = w.repo.join(name(j));
            let before = std::fs::metadata(&p).unwrap();
            std::fs::write(&p, format!("{:04}", j + 5000)).unwrap();
            set_mtime(&p, times[j].0, times[j].1);
            let m = std::fs::metadata(&p).unwrap();
            if (m.mtime(), m.mtime_nsec()) == (before.mtime(), before.mtime_nsec()) {
                std::fs::write(&p, format!("{:04}", j)).unwrap();
                set_mtime(&p, times[i].0, times[i].1);
            } else {
                n.put(&name(j), f(format!("{:04}", j + 5000)));
                ctx.eval(1);
                ctx.distinct(format!("time {:?} {:?}", times[i], times[j]).as_bytes());
            }
        }
        let o = w.snap.good(&["compare"])?;
        let got = Changes::parse(&o.text(), false)?;
        let want = Changes::between(&t, &n);
        if got != want {
            let miss: Vec<_> = want.modified.difference(&got.modified).map(|x| times[x[1..].parse::<usize>().unwrap()]).collect();
            return Err(format!("content changed and time went from {:?} to one of {:?}, not noticed", times[i], miss));
        }
        Ok(())
    });
    let sizes: Vec<usize> = vec![0, 1, 2, 127, 128, 255, 256, 257, 512, 4096, 65535, 65536, 65537, 131072, 1 << 20, (1 << 24) + 1, 1 << 24];
    let sizes: Vec<usize> = sizes.into_iter().filter(|&n| !ctx.quick() || n <= 1 << 20).collect();
    let idx: Vec<usize> = (0..sizes.len()).collect();
    ctx.par(&idx, |&i| format!("sizes from {}", sizes[i]), |&i| {
        let w = World::new(ctx);
        let mk = |n: usize| -> Vec<u8> { vec![b'x'; n] };
        let name = |j: usize| format!("f{:03}", j);
        let mut t = empty();
        for j in 0..sizes.len() {
            t.put(&name(j), f(mk(sizes[i])));
        }
        w.set_tree(&t);
        w.commit("m")?;
        for j in 0..sizes.len() {
            set_mtime(&w.repo.join(name(j)), 1_600_000_000, 5);
        }
        w.snap.good(&["compare"])?;
        let mut n = t.clone();
        for j in 0..sizes.len() {
            let p = w.repo.join(name(j));
            std::fs::write(&p, mk(sizes[j])).unwrap();
            set_mtime(&p, 1_600_000_000, 5);
            n.put(&name(j), f(mk(sizes[j])));
            ctx.eval(1);
            ctx.distinct(format!("size {} {}", sizes[i], sizes[j]).as_bytes());
        }
        let o = w.snap.good(&["compare"])?;
        let got = Changes::parse(&o.text(), false)?;
        let want = Changes::between(&t, &n);
        if got != want {
            let miss: Vec<_> = want.modified.difference(&got.modified).map(|x| sizes[x[1..].parse::<usize>().unwrap()]).collect();
            return Err(format!("size went from {} to one of {:?} with the same time, not noticed", sizes[i], miss));
        }
        Ok(())
    });
}

/// Many files in the cache, each changed alone; a repository that never saw them.
fn many(ctx: &Ctx) {
    let n = 40;
    let idx: Vec<usize> = (0..n).collect();
    let tree = dir_of(n, |i| (format!("f{:02}", i), f(format!("{:04}\n", i))));
    ctx.par(&idx, |&i| format!("one of many {}", i), |&i| {
        let w = World::new(ctx);
        w.set_tree(&tree);
        w.commit("m")?;
        w.snap.good(&["status"])?;
        let p = w.repo.join(format!("f{:02}", i));
        let m = std::fs::metadata(&p).unwrap();
        std::fs::write(&p, format!("{:04}\n", i + 1)).unwrap();
        set_mtime(&p, m.mtime(), m.mtime_nsec() + 1);
        let mut t = tree.clone();
        t.put(&format!("f{:02}", i), f(format!("{:04}\n", i + 1)));
        let o = w.snap.good(&["status"])?;
        let got = Changes::parse(&o.text(), true)?;
        if got != Changes::between(&tree, &t) {
            return Err(format!("status after changing file {}: {}", i, o.show()));
        }
        // recreated: nothing that the cache remembers is stored here
        clear(&w.repo.join(".snapcd"), &[]);
        w.snap.good(&["init"])?;
        w.snap.good(&["commit", "-m", "m", "-e", &format!("*/f{:02}", i)])?;
        let o = w.snap.run(&["compare", "-s"]);
        let want = format!("f{:02}  +1 -0\n", i);
        if !o.ok() || o.text() != want {
            return Err(format!("recreated without file {}: {}\nexpected {:?}", i, o.show(), want));
        }
        // its content is there now
        w.snap.good(&["commit", "-m", "m"])?;
        let h = w.dump()?.tip("master").unwrap();
        let t2 = tree_of(&w, &h)?;
        if w.fetched(&t2)? != t {
            return Err("fetched tree differs".into());
        }
        ctx.distinct(format!("many {}", i).as_bytes());
        Ok(())
    });
}
