//! Acknowledged changes survive a crash; interrupted ones vanish whole.
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Mutex;
use vx::crash::{self, Disk, Fs, Image};
use vx::db::Dump;
use vx::tree::*;
use vx::world::{clear, World};
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C09",
    level: "fault_enumeration",
    rule: "for every listed history of commands: the log of its file-system operations on repository and cache, cut after every operation; at every cut every subset of the operations not yet made durable by a sync (up to a size, above it all sets that differ in at most D operations from all, none, the first or the last m of them), and every unsynced write torn at sector boundaries. Every resulting disk image is opened by the real binary and has to hold the state before or after the interrupted command (after, once it has exited), and a commit on it has to work. The replayed log is compared with the real files after every command. Non-trivial: distinct disk image.",
    assumptions: &["a sync makes all earlier writes and lengths of a file durable, a directory sync the names in it; sectors of 512 bytes are written whole", "memory-mapped shared memory of the cache does not survive", "an interrupted init may leave an empty repository without HEAD, which init completes"],
    run,
};

struct Step {
    args: Vec<String>,
    /// Working tree put in place before this command.
    tree: Option<Node>,
}

struct History {
    name: String,
    /// The repository folder.
    folder: &'static str,
    base: Vec<(PathBuf, Vec<u8>)>,
    steps: Vec<Step>,
}

/// One disk image and what it has to hold.
struct Case {
    history: usize,
    image: Image,
    what: String,
    /// Dumps of which one has to be found.
    allowed: Vec<usize>,
    init: bool,
}

/// The memory shared by users of the cache is rebuilt by whoever opens it first.
fn relevant(p: &str) -> bool {
    !p.ends_with("-shm") && (p.starts_with("r/.snapcd") || p.starts_with("cache/"))
}

fn image_of(fs: &Fs) -> Image {
    fs.image().into_iter().filter(|x| relevant(&x.0)).collect()
}

fn run(ctx: &Ctx) {
    let hs = match histories(ctx) {
        Ok(h) => h,
        Err(e) => return ctx.violate("setup", e, vec![]),
    };
    let idx: Vec<usize> = (0..hs.len()).collect();
    let dumps: Mutex<HashMap<usize, Vec<Dump>>> = Mutex::new(HashMap::new());
    let cases: Mutex<Vec<Case>> = Mutex::new(Vec::new());
    let only = ctx.only.clone();
    let want: Vec<usize> = idx.into_iter().filter(|&i| only.as_ref().map(|o| o.starts_with(&format!("{}: ", hs[i].name))).unwrap_or(true)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..ctx.threads {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some(&i) = want.get(k) else { return };
                match enumerate_history(ctx, i, &hs[i]) {
                    Ok((d, c)) => {
                        dumps.lock().unwrap().insert(i, d);
                        cases.lock().unwrap().extend(c);
                    }
                    Err(e) => ctx.violate(&format!("{} undisturbed", hs[i].name), e, vx::run::log_take()),
                }
            });
        }
    });
    if ctx.nviolations() > 0 {
        return;
    }
    let dumps = dumps.into_inner().unwrap();
    let mut cases = cases.into_inner().unwrap();
    cases.sort_by(|a, b| a.history.cmp(&b.history));
    ctx.set_count("disk_images", cases.len() as u64);
    let pools: Vec<Mutex<Vec<World<'_>>>> = hs.iter().map(|_| Mutex::new(vec![])).collect();
    ctx.par(
        &cases,
        |c| format!("{}: {:016x} {}", hs[c.history].name, vx::hash64(&crash::image_hash(&c.image)), c.what.split('\n').next().unwrap()),
        |c| {
            let h = &hs[c.history];
            let taken = pools[c.history].lock().unwrap().pop();
            let w = match taken {
                Some(w) => w,
                None => {
                    let w = World::bare(ctx);
                    // the working tree does not matter any more
                    d(&[("a", f("after the crash\n")), ("s", d(&[("b", f("2\n"))]))]).write(&w.repo);
                    w
                }
            };
            let _ = std::fs::remove_dir_all(w.repo.join(".snapcd"));
            clear(&w.cache, &[]);
            crash::write_image(&c.image, &w.dir);
            judge(&w, h, c, &dumps[&c.history]).map_err(|e| format!("{}\nafter a crash in: {}\n{}", h.name, c.what, e))?;
            ctx.distinct(&crash::image_hash(&c.image));
            pools[c.history].lock().unwrap().push(w);
            Ok(())
        },
    );
}

fn judge(w: &World<'_>, h: &History, c: &Case, dumps: &[Dump]) -> Result<(), String> {
    let db = w.repo.join(h.folder).join("snapcd.db");
    let there = db.exists();
    let o = w.snap.run(&["-d", h.folder, "debug", "get-head"]);
    // opening by the program first: it has to do the recovery
    let dump = vx::db::dump(&db)?;
    if there {
        let conn = vx::db::open(&db)?;
        let ok: String = conn.query_row("PRAGMA integrity_check", rusqlite::params![], |r| r.get(0)).map_err(|e| format!("integrity check: {}", e))?;
        if ok != "ok" {
            return Err(format!("integrity check: {}", ok));
        }
    }
    let brief = |i: &usize| format!("  {}", dumps[*i].brief());
    let Some(&hit) = c.allowed.iter().find(|&&i| dumps[i] == dump) else {
        return Err(format!("the repository holds {}\nbut it has to be one of\n{}\n{}", dump.brief(), c.allowed.iter().map(brief).collect::<Vec<_>>().join("\n"), o.show()));
    };
    if dump.head().is_none() {
        // an init that was not finished
        if !c.init {
            return Err("no HEAD".into());
        }
        w.snap.good(&["-d", h.folder, "init"]).map_err(|e| format!("init again: {}", e))?;
    } else if !o.ok() {
        return Err(format!("get-head: {}", o.show()));
    }
    let s = w.snap.run(&["-d", h.folder, "status"]);
    if !s.ok() {
        return Err(format!("status does not work: {}", s.show()));
    }
    w.snap.good(&["-d", h.folder, "commit", "-m", "after"]).map_err(|e| format!("a commit does not work: {}", e))?;
    let after = vx::db::dump(&db)?;
    let before = &dumps[hit];
    if after.refs.len() != before.refs.len() + 1 || after.refs[..before.refs.len()] != before.refs[..] {
        return Err(format!("a commit afterwards gives {} from {}", after.brief(), before.brief()));
    }
    if !before.objects.iter().all(|(k, v)| after.objects.get(k) == Some(v)) {
        return Err("a commit afterwards lost objects".into());
    }
    let l = w.snap.good(&["-d", h.folder, "log"]).map_err(|e| format!("log does not work: {}", e))?.text();
    let head = after.head().unwrap();
    let first = after.tip(&head).unwrap();
    if !l.starts_with(&format!("commit: {}\n\nafter\n", first)) {
        return Err(format!("log afterwards: {}", l));
    }
    Ok(())
}

fn enumerate_history(ctx: &Ctx, hi: usize, h: &History) -> Result<(Vec<Dump>, Vec<Case>), String> {
    vx::run::log_reset();
    let w = World::bare(ctx);
    for (p, data) in &h.base {
        let p = w.dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
    let logf = ctx.scratch.join(format!("oplog{}", hi));
    let _ = std::fs::remove_file(&logf);
    let mut disk = Disk::new(Fs::load(&w.dir));
    // the state at the start is looked at in a copy: looking may roll back a journal
    let mut dumps = vec![{
        let c = World::bare(ctx);
        for (p, data) in &h.base {
            let p = c.dir.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, data).unwrap();
        }
        c.dump()?
    }];
    let mut seen: HashMap<([u8; 32], Vec<usize>), usize> = HashMap::new();
    let mut cases = Vec::new();
    let mut done = 0;
    let (full, dev) = ctx.pick((5, 1), (9, 2));
    for (si, st) in h.steps.iter().enumerate() {
        if let Some(t) = &st.tree {
            w.set_tree(t);
        }
        let mut args = vec!["-d".to_string(), h.folder.to_string()];
        args.extend(st.args.iter().cloned());
        w.snap.with("VX_ROOT", &w.dir).with("VX_LOG", &logf).good(&args)?;
        let ops = crash::parse(&std::fs::read(&logf).unwrap_or_default())?;
        // the files as they are now, for the comparison below
        let real = image_of(&Fs::load(&w.dir));
        dumps.push(vx::db::dump(&w.repo.join(h.folder).join("snapcd.db"))?);
        let (pre, post) = (dumps.len() - 2, dumps.len() - 1);
        let init = st.args[0] == "init" && dumps[pre].head().is_none();
        let n = ops.len() - done;
        for k in 0..=n {
            if k > 0 {
                let op = &ops[done + k - 1];
                if relevant(&op.path) || op.kind == b'D' {
                    disk.step(op)?;
                }
                ctx.count("operations", 1);
            }
            // once everything has run only the result is acceptable, before anything only the state before
            let mut allowed = vec![];
            if k < n || k == 0 {
                allowed.push(pre);
            }
            if k > 0 && dumps[pre] != dumps[post] {
                allowed.push(post);
            }
            if k == n && dumps[pre] == dumps[post] {
                allowed = vec![post];
            }
            if k == 0 && si > 0 {
                continue;
            }
            for c in disk.choices(full, dev) {
                let image: Image = disk.crash(&c).into_iter().filter(|x| relevant(&x.0)).collect();
                ctx.count("crash_states", 1);
                let hash = crash::image_hash(&image);
                let key = (hash, allowed.clone());
                if seen.contains_key(&key) {
                    continue;
                }
                seen.insert(key, cases.len());
                cases.push(Case {
                    history: hi,
                    image,
                    what: format!(
                        "{} ({} of {} operations done{}){}",
                        st.args.join(" "),
                        k,
                        n,
                        if k == n { ", it has exited" } else { "" },
                        disk.show(&c)
                    ),
                    allowed: allowed.clone(),
                    init,
                });
            }
        }
        done = ops.len();
        // conformance: the replayed operations give the real files
        let live = image_of(&disk.live);
        for (p, d) in &real {
            if live.get(p) != Some(d) {
                return Err(format!("the model of the disk has {} different from the real file after {}", p, st.args.join(" ")));
            }
        }
        for p in live.keys() {
            if !real.contains_key(p) {
                return Err(format!("the model of the disk has {} which does not exist after {}", p, st.args.join(" ")));
            }
        }
        ctx.count("commands_replayed", 1);
    }
    ctx.sample(format!("{}: {} operations, {} images, e.g. {}", h.name, done, cases.len(), cases.last().map(|c| c.what.clone()).unwrap_or_default()));
    let _ = std::fs::remove_file(&logf);
    Ok((dumps, cases))
}

fn st(tree: Option<&Node>, args: &str) -> Step {
    Step { args: args.split(' ').map(|x| x.to_string()).collect(), tree: tree.cloned() }
}

fn read_put(w: &World<'_>, rels: &[&str]) -> Vec<(PathBuf, Vec<u8>)> {
    rels.iter().filter_map(|r| std::fs::read(w.dir.join(r)).ok().map(|d| (Path::new(r).to_path_buf(), d))).collect()
}

fn histories(ctx: &Ctx) -> Result<Vec<History>, String> {
    let old = d(&[("a", f("1\n")), ("s", d(&[("b", f("2\n"))])), ("gone", f("0\n"))]);
    let new = d(&[("a", f("changed\n")), ("s", d(&[("b", f("2\n")), ("n", f("no line end"))])), ("t", f("3\n"))]);
    let big = d(&[("a", f(super::common::pattern(90_000, 1))), ("s", d(&[("b", f("2\n"))]))]);
    let huge = d(&[("a", f(super::common::pattern(3_000_000, 1))), ("s", d(&[("b", f("2\n"))]))]);
    let mut v = Vec::new();
    let mut add = |name: &str, base: &[(PathBuf, Vec<u8>)], steps: Vec<Step>| v.push(History { name: name.into(), folder: if name == "nested folder" { ".snapcd/x/y" } else { ".snapcd" }, base: base.to_vec(), steps });
    // a repository with two branches, made without recording
    let w = World::bare(ctx);
    w.snap.good(&["init"])?;
    w.set_tree(&d(&[("a", f("0\n"))]));
    let first = w.commit("first")?;
    w.set_tree(&old);
    w.commit("second")?;
    w.snap.good(&["commit", "-m", "other", "other"])?;
    let ready = read_put(&w, &["r/.snapcd/snapcd.db"]);
    let update = format!("ref update {}", first);
    let push = format!("debug reflog-push {} master origin", first);
    add("from nothing", &[], vec![st(None, "init"), st(Some(&old), "commit -m one"), st(Some(&new), "status"), st(None, "commit -m two")]);
    add("init twice", &[], vec![st(None, "init"), st(None, "init"), st(None, "debug set-head other"), st(Some(&old), "commit -m one")]);
    add("commits", &ready, vec![st(Some(&new), "commit -m one"), st(None, "commit -m two -p s other"), st(None, "commit -m three")]);
    add("refs", &ready, vec![st(Some(&old), &update), st(None, "debug set-head other"), st(None, &push), st(None, "checkout-head third")]);
    add("stored by looking", &ready, vec![st(Some(&new), "status"), st(None, "insert s"), st(None, "compare -s"), st(None, "commit -m one")]);
    add("several pages", &ready, vec![st(Some(&big), "commit -m big"), st(Some(&old), "commit -m small")]);
    add("nested folder", &[], vec![st(None, "init"), st(None, "debug set-head other"), st(None, "init")]);
    // more records than anything would gather before writing
    let many = |n: usize| super::common::dir_of(n, |i| (format!("f{}", i), f(format!("{}\n", i))));
    add("many records", &ready, vec![st(Some(&many(ctx.pick(700, 1500))), "commit -m many"), st(Some(&old), "commit -m few")]);
    add("many records looked at", &ready, vec![st(Some(&many(ctx.pick(300, 1100))), "status"), st(None, "commit -m many")]);
    if !ctx.quick() {
        add("very many records", &ready, vec![st(Some(&many(6000)), "commit -m many"), st(Some(&old), "commit -m few")]);
        add("spilled", &ready, vec![st(Some(&huge), "commit -m huge"), st(Some(&old), "commit -m small")]);
    }
    // starting from what a crash left behind: the recovery itself is interrupted
    for (n, which) in [("rolling back", 0), ("rolling back much", 1)] {
        let t = if which == 0 { &new } else { &big };
        let mk = |fault: Option<String>| -> Result<(World<'_>, String), String> {
            let w = World::bare(ctx);
            for (p, data) in &ready {
                let p = w.dir.join(p);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, data).unwrap();
            }
            t.write(&w.repo);
            let trace = ctx.scratch.join("trace-crash");
            let mut s = w.snap.with("VX_ROOT", &w.dir).with("VX_TRACE", &trace);
            if let Some(x) = fault {
                s = s.with("VX_FAULT", x);
            }
            s.run(&["commit", "-m", "lost"]);
            let text = std::fs::read_to_string(&trace).unwrap_or_default();
            let _ = std::fs::remove_file(&trace);
            Ok((w, text))
        };
        let (_, text) = mk(None)?;
        let writes: Vec<&str> = text.lines().filter(|l| l.contains("write ") && l.ends_with("/snapcd.db")).collect();
        let at = writes.last().ok_or("no write to the database")?.split(' ').next().unwrap();
        let (w, _) = mk(Some(format!("{}:kill", at)))?;
        let base = read_put(&w, &["r/.snapcd/snapcd.db", "r/.snapcd/snapcd.db-journal", "r/.snapcd/snapcd.db-wal"]);
        if base.len() < 2 || base[1].1.is_empty() {
            ctx.note(format!("{}: the crash left no journal", n));
        }
        add(n, &base, vec![st(Some(&new), "log"), st(None, "commit -m one")]);
        add(&format!("{} in a commit", n), &base, vec![st(Some(&new), "commit -m one"), st(None, "debug set-head other")]);
    }
    if !ctx.quick() {
        // every pair of commands that change something
        let all = ["commit -m one", "commit -m two other", update.as_str(), "debug set-head other", push.as_str(), "insert s", "status", "checkout-head other"];
        for a in all {
            for b in all {
                add(&format!("{} then {}", a, b).replace(&first, "FIRST"), &ready, vec![st(Some(&new), a), st(None, b)]);
            }
        }
    }
    Ok(v)
}
