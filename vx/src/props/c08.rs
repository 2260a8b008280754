//! A failing command changes nothing and never claims success.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use vx::db::Dump;
use vx::run::{Out, Snap};
use vx::tree::*;
use vx::world::{clear, World};
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C08",
    level: "fault_enumeration",
    rule: "for every listed (command, starting point): every file-system call the undisturbed run makes below the scratch root (repository, cache, sources, destination), made to fail in every way that suits it (I/O error once and from there on, no permission, disk full once and from there on with and without a short write, short and interrupted transfers, lock refused, death before and in the middle of the call), pairs of failures at larger bounds, plus standard output on a full device; and refusals by the database: the n-th record of a table for every n, locks of every kind held by another user, files and directories that may only be read. Afterwards the repository is read back and has to be in the state before or in the complete result; success needs the complete result and the output of the undisturbed run; the same command run again undisturbed has to work. Non-trivial: distinct (command, call, failure).",
    assumptions: &["a failed call has no effect; a short write writes half", "the file system itself is not damaged by a failure"],
    run,
};

struct Base {
    name: &'static str,
    files: Node,
    /// What is put at these paths below the scratch directory before every run.
    put: Vec<(PathBuf, Vec<u8>)>,
    first: String,
    tree: String,
    file: String,
    warm: bool,
}

struct Cmd {
    base: usize,
    args: Vec<String>,
    cwd: &'static str,
}

#[derive(Clone, Debug, PartialEq)]
struct State {
    inner: Dump,
    outer: Dump,
    nested: Dump,
}

struct Clean {
    events: Vec<(u32, String)>,
    pre: State,
    post: State,
    out: Out,
    work: Node,
    dst: Option<Node>,
}

struct Place<'a> {
    w: World<'a>,
    cache: Option<Vec<u8>>,
}

impl<'a> Place<'a> {
    fn new(ctx: &'a Ctx, b: &Base) -> Result<Place<'a>, String> {
        let w = World::bare(ctx);
        let mut p = Place { w, cache: None };
        p.work(b);
        p.reset(b);
        if b.warm {
            p.w.snap.good(&["status"])?;
        } else {
            p.w.snap.run(&["debug", "get-head"]);
        }
        p.cache = std::fs::read(p.w.cache.join("snapcd/cache.db")).ok();
        p.reset(b);
        Ok(p)
    }
    /// Puts the working files back.
    fn work(&self, b: &Base) {
        clear(&self.w.repo, &[]);
        b.files.write(&self.w.repo);
    }
    /// Puts repositories and cache back.
    fn reset(&self, b: &Base) {
        for d in ["r/.snapcd", "r/s/.snapcd", ".snapcd", "dst"] {
            let _ = std::fs::remove_dir_all(self.w.dir.join(d));
        }
        let _ = std::fs::remove_file(self.w.dir.join("dst"));
        for (p, data) in &b.put {
            let p = self.w.dir.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, data).unwrap();
        }
        clear(&self.w.cache, &[]);
        if let Some(c) = &self.cache {
            std::fs::create_dir(self.w.cache.join("snapcd")).unwrap();
            std::fs::write(self.w.cache.join("snapcd/cache.db"), c).unwrap();
        }
    }
    fn snap(&self, c: &Cmd) -> Snap<'a> {
        self.w.snap.at(&self.w.repo.join(c.cwd)).with("VX_ROOT", &self.w.dir).with("SNAPCD_VERIF_CHECKOUT_ROOT", &self.w.repo)
    }
    fn state(&self) -> Result<State, String> {
        let one = |p: &str| -> Result<Dump, String> {
            let p = self.w.dir.join(p);
            if p.exists() && std::fs::metadata(&p).unwrap().len() > 0 {
                let c = vx::db::open(&p)?;
                let ok: String = c.query_row("PRAGMA integrity_check", rusqlite::params![], |r| r.get(0)).map_err(|e| format!("integrity check: {}", e))?;
                if ok != "ok" {
                    return Err(format!("integrity check: {}", ok));
                }
                return vx::db::dump_conn(&c);
            }
            Ok(Dump::default())
        };
        Ok(State { inner: one("r/.snapcd/snapcd.db")?, outer: one(".snapcd/snapcd.db")?, nested: one("r/s/.snapcd/snapcd.db")? })
    }
    fn work_tree(&self) -> Result<Node, String> {
        let mut n = Node::read_skip(&self.w.repo, &[".snapcd"])?;
        n.remove("s/.snapcd");
        Ok(n)
    }
    fn dst(&self) -> Result<Option<Node>, String> {
        let p = self.w.dir.join("dst");
        if p.exists() {
            Node::read(&p).map(Some)
        } else {
            Ok(None)
        }
    }
}

fn name(c: &Cmd, bases: &[Base]) -> String {
    let args: Vec<String> = c.args.iter().map(|a| if a.len() > 40 { "ID".to_string() } else { a.clone() }).collect();
    format!("{} [{}]{}", args.join(" "), bases[c.base].name, if c.cwd.is_empty() { "" } else { " in s" })
}

/// Failures that suit a call.
fn kinds(cls: u32, op: &str, thorough: bool) -> Vec<&'static str> {
    let (space, data, lock, read) = (cls & 1 != 0, cls & 2 != 0, cls & 4 != 0, cls & 8 != 0);
    let mut v = vec!["eio", "dead"];
    // dying without having changed anything since the last time looks the same from outside
    if cls & 16 != 0 || thorough {
        v.push("kill");
    }
    if space {
        v.extend(["enospc", "full"]);
        if data {
            v.extend(["fullshort", "torn"]);
        }
    }
    if data {
        v.extend(["short", "eintr"]);
    }
    if lock {
        v.push("eagain");
    }
    if ["open", "creat", "stat", "opendir", "unlink", "mkdir", "realpath"].contains(&op) {
        v.push("eacces");
    }
    let _ = read;
    v
}

fn run(ctx: &Ctx) {
    let bases = match bases(ctx) {
        Ok(b) => b,
        Err(e) => {
            ctx.violate("setup", e, vec![]);
            return;
        }
    };
    let cmds = cmds(ctx, &bases);
    ctx.set_count("commands", cmds.len() as u64);
    let idx: Vec<usize> = (0..cmds.len()).collect();
    let only = ctx.only.clone();
    let want: Vec<usize> = idx.iter().copied().filter(|&i| only.as_ref().map(|o| o.starts_with(&name(&cmds[i], &bases))).unwrap_or(true)).collect();
    let cleans: Mutex<BTreeMap<usize, Clean>> = Mutex::new(BTreeMap::new());
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..ctx.threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some(&i) = want.get(k) else { return };
                match clean(ctx, &cmds[i], &bases[cmds[i].base]) {
                    Ok(c) => {
                        cleans.lock().unwrap().insert(i, c);
                    }
                    Err(e) => ctx.violate(&format!("{} undisturbed", name(&cmds[i], &bases)), e, vx::run::log_take()),
                }
            });
        }
    });
    if ctx.nviolations() > 0 {
        return;
    }
    let cleans = cleans.into_inner().unwrap();
    // (command, failures; none means standard output is full)
    let mut cases: Vec<(usize, Vec<(usize, &'static str)>)> = Vec::new();
    for (&i, c) in &cleans {
        ctx.count("calls", c.events.len() as u64);
        if !c.out.stdout.is_empty() {
            cases.push((i, vec![]));
        }
        for (k, (cls, e)) in c.events.iter().enumerate() {
            let op = e.split(' ').next().unwrap();
            for kind in kinds(*cls, op, !ctx.quick()) {
                // a place that may not be looked at is taken as having no repository
                if kind == "eacces" && op == "stat" && e.ends_with("/.snapcd") {
                    continue;
                }
                cases.push((i, vec![(k + 1, kind)]));
            }
        }
        if !ctx.quick() && c.events.len() <= 320 {
            // pairs: a call fails, and then another one of those that change or lock something
            for (k, (cls, _)) in c.events.iter().enumerate() {
                for (l, (cls2, _)) in c.events.iter().enumerate().skip(k + 1) {
                    if cls & 16 != 0 && cls2 & 16 != 0 {
                        cases.push((i, vec![(k + 1, "eio"), (l + 1, "eio")]));
                        cases.push((i, vec![(k + 1, "eio"), (l + 1, "kill")]));
                    }
                }
            }
        }
    }
    ctx.set_count("faults", cases.len() as u64);
    let pools: Vec<Mutex<Vec<Place<'_>>>> = bases.iter().map(|_| Mutex::new(vec![])).collect();
    ctx.par(
        &cases,
        |(i, fs)| {
            let c = &cleans[i];
            let what: Vec<String> = fs.iter().map(|(k, kind)| format!("{} at call {} ({})", kind, k, c.events[k - 1].1)).collect();
            format!("{}: {}", name(&cmds[*i], &bases), if fs.is_empty() { "standard output full".into() } else { what.join(", ") })
        },
        |(i, fs)| {
            let c = &cmds[*i];
            let b = &bases[c.base];
            let cl = &cleans[i];
            let taken = pools[c.base].lock().unwrap().pop();
            let p = match taken {
                Some(p) => p,
                None => Place::new(ctx, b)?,
            };
            p.reset(b);
            let mut s = p.snap(c);
            if fs.is_empty() {
                s.full_stdout = true;
            } else {
                let f: Vec<String> = fs.iter().map(|(k, kind)| format!("{}:{}", k, kind)).collect();
                s = s.with("VX_FAULT", f.join(","));
            }
            let o = s.run(&c.args);
            judge(ctx, c, b, cl, &p, &o, fs.is_empty())?;
            if c.args[0] == "checkout" {
                p.work(b);
            }
            ctx.distinct(format!("{} {:?}", i, fs).as_bytes());
            pools[c.base].lock().unwrap().push(p);
            Ok(())
        },
    );
    if ctx.nviolations() == 0 {
        refusals(ctx, &bases, &cmds, &cleans);
    }
    for (i, c) in cleans.iter().take(6) {
        ctx.sample(format!("{}: {} calls, e.g. {:?}", name(&cmds[*i], &bases), c.events.len(), c.events.iter().rev().take(12).rev().map(|e| e.1.clone()).collect::<Vec<_>>()));
    }
}

/// Refusals by the database itself rather than by the file system: a record that can't be stored,
/// another user that holds a lock all the time, a place that may only be read.
#[derive(Clone, Debug)]
enum Refuse {
    /// which database, table, number of rows from which on it refuses, how
    Record(usize, &'static str, usize, &'static str),
    /// which database (or the cache), statements that take the lock
    Lock(Option<usize>, &'static str),
    /// file or directory relative to the scratch directory, and its mode
    Mode(String, u32),
}

const DBS: [&str; 3] = ["r/.snapcd/snapcd.db", ".snapcd/snapcd.db", "r/s/.snapcd/snapcd.db"];

fn refusals(ctx: &Ctx, bases: &[Base], cmds: &[Cmd], cleans: &BTreeMap<usize, Clean>) {
    let mut cases: Vec<(usize, Refuse)> = Vec::new();
    for (&i, c) in cleans {
        let b = &bases[cmds[i].base];
        if b.name == "crashed before" || b.name == "no repository" {
            continue;
        }
        let (pre, post) = ([&c.pre.inner, &c.pre.outer, &c.pre.nested], [&c.post.inner, &c.post.outer, &c.post.nested]);
        for (k, db) in DBS.iter().enumerate() {
            if !b.put.iter().any(|x| x.0 == Path::new(db)) {
                continue;
            }
            let changes = pre[k] != post[k];
            for how in ["ABORT", "FAIL", "ROLLBACK"] {
                if !changes && how != "ABORT" {
                    continue;
                }
                for (t, from, to) in [("data", pre[k].objects.len(), post[k].objects.len()), ("reflog", pre[k].refs.len(), post[k].refs.len()), ("state", 0, 0)] {
                    let step = if ctx.quick() && to - from > 40 { 9 } else { 1 };
                    for n in (from..=to).step_by(step) {
                        cases.push((i, Refuse::Record(k, t, n, how)));
                    }
                }
            }
            for l in ["BEGIN; SELECT count(*) FROM data", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE"] {
                cases.push((i, Refuse::Lock(Some(k), l)));
            }
            cases.push((i, Refuse::Mode(db.to_string(), 0o444)));
            cases.push((i, Refuse::Mode(db.to_string(), 0)));
            let folder = db.rsplit_once('/').unwrap().0;
            cases.push((i, Refuse::Mode(folder.to_string(), 0o555)));
        }
        if b.warm {
            for l in ["BEGIN; SELECT count(*) FROM cache", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE"] {
                cases.push((i, Refuse::Lock(None, l)));
            }
            cases.push((i, Refuse::Mode("cache/snapcd/cache.db".into(), 0o444)));
            cases.push((i, Refuse::Mode("cache/snapcd".into(), 0o555)));
        }
        cases.push((i, Refuse::Mode("cache".into(), 0o555)));
        if c.dst.is_some() {
            cases.push((i, Refuse::Mode(".".into(), 0o555)));
        }
    }
    ctx.set_count("refusals", cases.len() as u64);
    let pools: Vec<Mutex<Vec<Place<'_>>>> = bases.iter().map(|_| Mutex::new(vec![])).collect();
    ctx.par(
        &cases,
        |(i, r)| format!("{}: {:?}", name(&cmds[*i], bases), r),
        |(i, r)| {
            let c = &cmds[*i];
            let b = &bases[c.base];
            let taken = pools[c.base].lock().unwrap().pop();
            let p = match taken {
                Some(p) => p,
                None => Place::new(ctx, b)?,
            };
            p.reset(b);
            let s = p.snap(c);
            let open = |k: &Option<usize>| vx::db::open(&p.w.dir.join(k.map(|k| DBS[k]).unwrap_or("cache/snapcd/cache.db")));
            let o = match r {
                Refuse::Record(k, t, n, how) => {
                    let q = |sql: &str| open(&Some(*k))?.execute_batch(sql).map_err(|e| e.to_string());
                    q(&format!("CREATE TRIGGER vx BEFORE INSERT ON {t} WHEN (SELECT count(*) FROM {t}) >= {n} BEGIN SELECT RAISE({how}, 'refused'); END"))?;
                    let o = s.run(&c.args);
                    q("DROP TRIGGER vx")?;
                    o
                }
                Refuse::Lock(k, sql) => {
                    let l = open(k)?;
                    l.execute_batch(sql).map_err(|e| e.to_string())?;
                    // a batch does not go on to the first row
                    if sql.contains("SELECT") {
                        let t = if k.is_some() { "data" } else { "cache" };
                        let _: i64 = l.query_row(&format!("SELECT count(*) FROM {}", t), rusqlite::params![], |r| r.get(0)).map_err(|e| e.to_string())?;
                    }
                    let o = s.run(&c.args);
                    l.execute_batch("ROLLBACK").map_err(|e| e.to_string())?;
                    o
                }
                Refuse::Mode(path, mode) => {
                    use std::os::unix::fs::PermissionsExt;
                    let path = p.w.dir.join(path);
                    let set = |m| std::fs::set_permissions(&path, std::fs::Permissions::from_mode(m)).unwrap();
                    set(*mode);
                    let o = s.run(&c.args);
                    set(if path.is_dir() { 0o755 } else { 0o644 });
                    o
                }
            };
            judge(ctx, c, b, &cleans[i], &p, &o, false)?;
            if c.args[0] == "checkout" {
                p.work(b);
            }
            ctx.distinct(format!("{} {:?}", i, r).as_bytes());
            pools[c.base].lock().unwrap().push(p);
            Ok(())
        },
    );
}

fn clean(ctx: &Ctx, c: &Cmd, b: &Base) -> Result<Clean, String> {
    let p = Place::new(ctx, b)?;
    let pre = p.state()?;
    p.reset(b);
    let trace = p.w.ctx.scratch.join(format!("trace{}", p.w.dir.file_name().unwrap().to_string_lossy()));
    let o = p.snap(c).with("VX_TRACE", &trace).run(&c.args);
    let text = std::fs::read_to_string(&trace).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&trace);
    let events = text
        .lines()
        .map(|l| {
            let mut it = l.splitn(4, ' ');
            it.next();
            let op = it.next().unwrap();
            let cls: u32 = it.next().unwrap().parse().unwrap();
            (cls, format!("{} {}", op, it.next().unwrap()))
        })
        .collect();
    if !o.ok() {
        return Err(format!("does not work: {}", o.show()));
    }
    let post = p.state()?;
    Ok(Clean { events, pre, post, out: o, work: p.work_tree()?, dst: p.dst()? })
}

fn show(s: &State) -> String {
    format!("repository: {}\n  outer: {}\n  in s: {}", s.inner.brief(), s.outer.brief(), s.nested.brief())
}

fn judge(ctx: &Ctx, c: &Cmd, b: &Base, cl: &Clean, p: &Place<'_>, o: &Out, no_output: bool) -> Result<(), String> {
    let killed = o.signal == Some(libc::SIGKILL);
    if o.code.is_none() && !killed {
        return Err(format!("ended by a signal: {}", o.show()));
    }
    let st = p.state()?;
    if st != cl.pre && st != cl.post {
        return Err(format!("neither the state before nor the result ({}):\n{}\nbefore:\n{}\nresult:\n{}", o.show(), show(&st), show(&cl.pre), show(&cl.post)));
    }
    let checkout = c.args[0] == "checkout";
    if !checkout && p.work_tree()? != b.files {
        return Err(format!("the working tree changed: {:?}", p.work_tree()?));
    }
    if o.ok() {
        ctx.count("unaffected_or_recovered", 1);
        if no_output {
            return Err(format!("success, but nothing could be printed (it should be {:?})", cl.out.text()));
        }
        if st != cl.post {
            return Err(format!("success, but the result is not there:\n{}\nit should be\n{}", show(&st), show(&cl.post)));
        }
        if o.stdout != cl.out.stdout {
            return Err(format!("success with other output: {:?} instead of {:?}", o.text(), cl.out.text()));
        }
        if p.dst()? != cl.dst {
            return Err(format!("success, but {:?} was written instead of {:?}", p.dst()?, cl.dst));
        }
        if checkout && p.work_tree()? != cl.work {
            return Err(format!("success, but the working tree is {:?} instead of {:?}", p.work_tree()?, cl.work));
        }
        return Ok(());
    }
    ctx.count(if killed { "killed" } else { "failed" }, 1);
    ctx.count(if st == cl.pre { "ended_before" } else { "ended_after" }, 1);
    // it goes on as if nothing had happened
    if st == cl.pre {
        let _ = std::fs::remove_dir_all(p.w.dir.join("dst"));
        let _ = std::fs::remove_file(p.w.dir.join("dst"));
        let again = p.snap(c).run(&c.args);
        if !again.ok() || again.stdout != cl.out.stdout {
            return Err(format!("failed ({}), and the same command without failures then gives {}", o.show(), again.show()));
        }
        let st = p.state()?;
        if st != cl.post {
            return Err(format!("failed ({}), and the same command without failures then leaves\n{}\ninstead of\n{}", o.show(), show(&st), show(&cl.post)));
        }
        if p.dst()? != cl.dst || (checkout && p.work_tree()? != cl.work) {
            return Err(format!("failed ({}), and the same command without failures then wrote something else", o.show()));
        }
    } else if !cl.post.inner.refs.is_empty() {
        let again = p.w.snap.run(&["log"]);
        if !again.ok() && st.inner.head().and_then(|h| st.inner.tip(&h)).is_some() {
            return Err(format!("log does not work afterwards: {}", again.show()));
        }
    }
    Ok(())
}

fn read_put(w: &World<'_>, rels: &[&str]) -> Vec<(PathBuf, Vec<u8>)> {
    rels.iter().filter_map(|r| std::fs::read(w.dir.join(r)).ok().map(|d| (Path::new(r).to_path_buf(), d))).collect()
}

fn bases(ctx: &Ctx) -> Result<Vec<Base>, String> {
    let old = d(&[("a", f("1\n")), ("s", d(&[("b", f("2\n"))])), ("gone", f("0\n"))]);
    let new = d(&[("a", f("changed\n")), ("s", d(&[("b", f("2\n")), ("n", f("no line end"))])), ("t", f("3\n"))]);
    let big = d(&[("a", f(super::common::pattern(90_000, 1))), ("s", d(&[("b", f("2\n")), ("n", f(super::common::pattern(40_000, 2)))])), ("t", f(""))]);
    let huge = d(&[("a", f(super::common::pattern(3_500_000, 1))), ("s", d(&[("b", f("2\n"))]))]);
    let mut v = Vec::new();
    for (name, files, warm) in [
        ("changed", new.clone(), false),
        ("warm cache", new.clone(), true),
        ("no repository", new.clone(), false),
        ("clean", old.clone(), false),
        ("no commits", new.clone(), false),
        ("big", big, false),
        ("huge", huge, false),
        ("nested", new.clone(), false),
        ("crashed before", new.clone(), false),
        ("outer only", new, false),
    ] {
        let w = World::bare(ctx);
        let mut b = Base { name, files, put: vec![], first: String::new(), tree: String::new(), file: String::new(), warm };
        if name == "no repository" {
            v.push(b);
            continue;
        }
        let top = if name == "outer only" { w.snap.at(&w.dir) } else { w.snap.clone() };
        top.good(&["init"])?;
        if name == "nested" {
            old.write(&w.repo);
            w.snap.good(&["commit", "-m", "inner"])?;
            let o = w.snap.at(&w.dir);
            o.good(&["init"])?;
            o.good(&["commit", "-m", "outer", "-p", "r/s"])?;
        } else if name != "no commits" && name != "outer only" {
            w.set_tree(&d(&[("a", f("0\n"))]));
            b.first = w.commit("first")?;
            w.set_tree(&old);
            let c = w.commit("second")?;
            b.tree = super::common::tree_of(&w, &c)?;
            w.snap.good(&["commit", "-m", "other", "other"])?;
            // a file that does not end in a line break, and in the big case has several chunks
            w.set_tree(&b.files);
            b.file = w.snap.insert(if name == "big" || b.files.get("s/n").is_none() { "a" } else { "s/n" })?;
            w.set_tree(&old);
        }
        if name == "crashed before" {
            // die while writing the database, so that there is a journal to roll back
            w.set_tree(&b.files);
            let trace = ctx.scratch.join("trace-crash");
            let keep = std::fs::read(w.db()).unwrap();
            w.snap.with("VX_ROOT", &w.dir).with("VX_TRACE", &trace).good(&["commit", "-m", "lost"])?;
            let t = std::fs::read_to_string(&trace).unwrap();
            let _ = std::fs::remove_file(&trace);
            let k = t.lines().filter(|l| l.contains(" pwrite ") && l.ends_with("/snapcd.db") || l.contains(" write ") && l.ends_with("/snapcd.db")).last().ok_or("no write to the database")?.split(' ').next().unwrap().to_string();
            clear(&w.repo.join(".snapcd"), &[]);
            clear(&w.cache, &[]);
            std::fs::write(w.db(), keep).unwrap();
            w.snap.with("VX_ROOT", &w.dir).with("VX_FAULT", format!("{}:kill", k)).run(&["commit", "-m", "lost"]);
            if std::fs::metadata(w.repo.join(".snapcd/snapcd.db-journal")).map(|m| m.len()).unwrap_or(0) == 0 {
                ctx.note("the crashed start has no journal to roll back");
            }
        }
        b.put = read_put(&w, &["r/.snapcd/snapcd.db", "r/.snapcd/snapcd.db-journal", "r/.snapcd/snapcd.db-wal", ".snapcd/snapcd.db"]);
        v.push(b);
    }
    Ok(v)
}

fn cmds(ctx: &Ctx, bases: &[Base]) -> Vec<Cmd> {
    let list: &[(&str, &[&str])] = &[
        ("commit -m one", &["changed", "warm cache", "no commits", "big", "crashed before", "huge"]),
        ("commit -m two -p s other", &["changed", "nested"]),
        ("commit -m one new", &["changed"]),
        ("commit -m one", &["nested"]),
        ("insert s", &["changed"]),
        ("insert a", &["big", "nested", "outer only"]),
        ("init", &["no repository", "changed", "outer only", "crashed before"]),
        ("init in s", &["changed", "nested"]),
        ("status", &["changed", "warm cache", "clean", "no commits", "nested", "crashed before", "big"]),
        ("status in s", &["changed", "nested", "outer only"]),
        ("compare -s", &["changed", "warm cache"]),
        ("compare -p s TREE", &["changed"]),
        ("compare FILE -p s/b", &[]),
        ("log", &["changed", "crashed before", "nested"]),
        ("show", &["changed"]),
        ("show FILE", &["changed", "big"]),
        ("show FIRST", &["changed"]),
        ("fetch TREE ../dst", &["changed", "big", "crashed before"]),
        ("fetch FILE ../dst", &["changed"]),
        ("fetch TREE ../dst/p/q", &["changed"]),
        ("ref update FIRST", &["changed", "crashed before"]),
        ("ref update FIRST new", &["changed"]),
        ("ref log", &["changed"]),
        ("debug reflog-push FIRST master origin", &["changed"]),
        ("debug reflog-get other", &["changed"]),
        ("debug set-head other", &["changed", "nested"]),
        ("debug get-head", &["changed", "nested", "outer only"]),
        ("debug pretty-print FIRST", &["changed"]),
        ("debug walk-fs-tree s", &["changed"]),
        ("debug commit-tree TREE FIRST", &["changed"]),
        ("checkout-head other", &["clean"]),
        ("checkout-head other", &["changed", "no commits"]),
        ("checkout", &["changed", "big"]),
    ];
    let thorough: &[(&str, &[&str])] = &[
        ("commit -m one -e t", &["changed"]),
        ("commit -m one", &["clean"]),
        ("insert .", &["changed", "warm cache", "clean"]),
        ("status in s", &["clean", "no commits"]),
        ("compare", &["clean", "big", "nested"]),
        ("log", &["clean", "big"]),
        ("log /other", &["changed"]),
        ("show", &["clean", "big", "crashed before", "nested"]),
        ("ref log other", &["changed", "crashed before"]),
        ("checkout", &["clean", "crashed before"]),
        ("checkout-head other", &["warm cache", "crashed before"]),
        ("init", &["no commits", "nested"]),
        ("debug set-head other", &["no commits", "crashed before"]),
        ("insert a", &["huge"]),
        ("debug walk-tree FILE", &["changed"]),
    ];
    let mut v = Vec::new();
    let mut lists = vec![list];
    if !ctx.quick() {
        lists.push(thorough);
    }
    for l in lists {
        for (cmd, on) in l {
            let (cmd, cwd) = match cmd.strip_suffix(" in s") {
                Some(c) => (c, "s"),
                None => (*cmd, ""),
            };
            for n in *on {
                if ctx.quick() && *n == "huge" {
                    continue;
                }
                let i = bases.iter().position(|b| b.name == *n).unwrap();
                let b = &bases[i];
                let args = cmd
                    .split(' ')
                    .map(|a| match a {
                        "FIRST" => b.first.clone(),
                        "TREE" => b.tree.clone(),
                        "FILE" => b.file.clone(),
                        a => a.to_string(),
                    })
                    .collect();
                v.push(Cmd { base: i, args, cwd });
            }
        }
    }
    v
}
