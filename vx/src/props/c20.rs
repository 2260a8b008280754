//! Commands act on the nearest repository; init disturbs none.
use std::path::{Path, PathBuf};
use vx::db::{dump, Dump};
use vx::run::Snap;
use vx::tree::*;
use vx::world::{copy_dir, World};
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C20",
    level: "model_checking",
    rule: "every placement of repositories in a chain of nested directories x every start directory x every command x ways of naming the repository folder: the command must have exactly the effect and output that it has in a copy when started at the top of the nearest repository, all other files untouched, or fail creating nothing when there is none; the same with HOME, PWD and other variables set to every level, which must make no difference; the same for directories entered through a symbolic link below other repositories; plus every sequence of init, commit, set-head up to a depth from nested directories against a model of one repository per directory. States: placements and histories; transitions: commands. Non-trivial: distinct (placement, start, command, form).",
    assumptions: &["paths given to commands are relative to the start directory, so they are given as absolute paths when comparing start directories"],
    run,
};

const NAMES: [&str; 4] = ["w", "p q", "é", ".h"];

/// The chain of directories below a scratch directory.
fn dirs(base: &Path, n: usize) -> Vec<PathBuf> {
    let mut v = vec![];
    let mut p = base.to_path_buf();
    for i in 0..n {
        p = p.join(NAMES[i % 4]);
        v.push(p.clone());
    }
    v
}

/// All files below a directory with their bytes, databases as their contents.
fn snapshot(p: &Path) -> Vec<(PathBuf, String)> {
    let mut v = Vec::new();
    let mut stack = vec![p.to_path_buf()];
    while let Some(x) = stack.pop() {
        let m = std::fs::symlink_metadata(&x).unwrap();
        let rel = x.strip_prefix(p).unwrap().to_path_buf();
        if m.is_dir() {
            v.push((rel, "dir".into()));
            for e in std::fs::read_dir(&x).unwrap() {
                stack.push(e.unwrap().path());
            }
        } else if x.file_name().unwrap() == "snapcd.db" {
            v.push((rel, format!("{:?}", dump(&x))));
        } else {
            v.push((rel, format!("{:?}", std::fs::read(&x).unwrap())));
        }
    }
    v.sort();
    v
}

/// A repository with its own history in every directory of the chain.
fn make(ctx: &Ctx, dirs: &[PathBuf], with: &[bool], folder: &str) -> Result<(), String> {
    let cache = ctx.fresh("mk");
    for (i, d) in dirs.iter().enumerate() {
        std::fs::create_dir_all(d).unwrap();
        std::fs::write(d.join("f"), format!("level {}\n", i)).unwrap();
    }
    std::fs::create_dir_all(dirs.last().unwrap().join("sub/deep")).unwrap();
    std::fs::write(dirs.last().unwrap().join("sub/g"), "g\n").unwrap();
    for (i, d) in dirs.iter().enumerate() {
        if !with[i] {
            continue;
        }
        let s = Snap::new(ctx, d, &cache);
        s.good(&["-d", folder, "init"])?;
        let msg = format!("m{}", i);
        s.good(&["-d", folder, "debug", "set-head", &format!("h{}", i)])?;
        s.good(&["-d", folder, "commit", "-m", &msg])?;
    }
    let _ = std::fs::remove_dir_all(&cache);
    // a change in every directory
    for (i, d) in dirs.iter().enumerate() {
        std::fs::write(d.join("n"), format!("new {}\n", i)).unwrap();
    }
    Ok(())
}

fn commands(any: &Path, tree: &str, out: &Path) -> Vec<Vec<String>> {
    let a = |p: &str| any.join(p).to_str().unwrap().to_string();
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<String>>();
    vec![
        s(&["status"]),
        s(&["compare"]),
        s(&["compare", "-s"]),
        s(&["compare", "-p", &a("sub"), tree]),
        s(&["commit", "-m", "new"]),
        s(&["commit", "-m", "new", "other"]),
        s(&["commit", "-m", "new", "-p", &a("sub")]),
        s(&["commit", "-m", "new", "-e", "*/f"]),
        s(&["insert", &a("sub")]),
        s(&["log"]),
        s(&["show"]),
        s(&["show", tree]),
        s(&["fetch", tree, out.to_str().unwrap()]),
        s(&["ref", "log"]),
        s(&["ref", "update", tree]),
        s(&["ref", "update", tree, "x"]),
        s(&["checkout"]),
        s(&["checkout-head", "nh"]),
        s(&["checkout-head", "nh", "-e", "**/n"]),
        s(&["debug", "get-head"]),
        s(&["debug", "set-head", "nh"]),
        s(&["debug", "reflog-get", "h0"]),
        s(&["debug", "reflog-push", tree, "x", "r"]),
        s(&["debug", "pretty-print", tree]),
        s(&["debug", "walk-tree", tree]),
        s(&["debug", "commit-tree", tree]),
    ]
}

/// Start directories: every level, and below the last one.
fn start_dirs(dirs: &[PathBuf], folder: &str, with: &[bool]) -> Vec<PathBuf> {
    let mut v = dirs.to_vec();
    let l = dirs.last().unwrap();
    v.push(l.join("sub"));
    v.push(l.join("sub/deep"));
    for (i, d) in dirs.iter().enumerate() {
        if with[i] && !folder.contains('/') {
            v.push(d.join(folder));
        }
    }
    v
}

fn run(ctx: &Ctx) {
    ctx.set_count("traces_validated_against_impl", 0);
    placements(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    surroundings(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    through_links(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    inits(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    histories(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    depths(ctx);
}

fn placements(ctx: &Ctx) {
    let n = ctx.pick(4, 5);
    let mut jobs = Vec::new();
    for mask in 0..1u32 << n {
        for folder in [".snapcd", "meta", "x/meta"] {
            if folder != ".snapcd" && ctx.quick() && mask % 3 == 1 {
                continue;
            }
            let with: Vec<bool> = (0..n).map(|i| mask >> i & 1 == 1).collect();
            let starts = start_dirs(&dirs(Path::new("/"), n), folder, &with).len();
            for k in 0..starts {
                jobs.push((with.clone(), folder, k));
            }
        }
    }
    ctx.set_count("placements_and_starts", jobs.len() as u64);
    ctx.par(&jobs, |(w, f, k)| format!("repositories {:?} folder {} start {}", w, f, k), |(with, folder, k)| {
        let w = World::bare(ctx);
        // The nearest repository's tree, as any of its commits shows it.
        let base = w.dir.join("base");
        let ds = dirs(&base, with.len());
        make(ctx, &ds, with, folder)?;
        let start = start_dirs(&ds, folder, with)[*k].clone();
        let nearest = (0..with.len()).rev().find(|&i| with[i] && start.starts_with(&ds[i]));
        let tree = match nearest {
            Some(i) => {
                let d = dump(&ds[i].join(folder).join("snapcd.db"))?;
                d.tip(&format!("h{}", i)).ok_or("no tip")?
            }
            None => "b".to_string() + &"a".repeat(52),
        };
        let out = w.dir.join("out");
        let pristine = w.dir.join("pristine");
        copy_dir(&base, &pristine);
        let before = snapshot(&base);
        for cmd in commands(&ds[with.len() - 1], &tree, &out) {
            for cm in ["-d", ""] {
                if cm.is_empty() && *folder != ".snapcd" {
                    continue;
                }
                let mut args: Vec<String> = if cm.is_empty() { vec![] } else { vec!["-d".into(), folder.to_string()] };
                args.extend(cmd.iter().cloned());
                if cm == "-d" && *folder == ".snapcd" && cmd[0] != "status" {
                    continue;
                }
                let show = || format!("repositories {:?} folder {}, started in {:?}: {}", with, folder, start.strip_prefix(&base).unwrap(), args.join(" "));
                ctx.eval(1);
                ctx.count("transitions", 1);
                let one = |from: &Path| {
                    let _ = std::fs::remove_dir_all(&out);
                    let cache = ctx.fresh("pc");
                    let o = Snap::new(ctx, from, &cache).run(&args);
                    let _ = std::fs::remove_dir_all(&cache);
                    let after = snapshot(&base);
                    let fetched = out.exists().then(|| Node::read(&out));
                    if after != before {
                        std::fs::remove_dir_all(&base).unwrap();
                        copy_dir(&pristine, &base);
                    }
                    (o, after, fetched)
                };
                let (o, after, fetched) = one(&start);
                match nearest {
                    None => {
                        if o.ok() || o.code != Some(1) {
                            return Err(format!("{}: there is no repository, yet {}", show(), o.show()));
                        }
                        if after != before || fetched.is_some() {
                            return Err(format!("{}: there is no repository, yet files changed: {:?}", show(), diff(&before, &after)));
                        }
                    }
                    Some(i) => {
                        let (o2, after2, fetched2) = one(&ds[i]);
                        if o.code != o2.code || o.stdout != o2.stdout {
                            return Err(format!("{}: {}\nfrom the top of the repository: {}", show(), o.show(), o2.show()));
                        }
                        if after != after2 || fetched != fetched2 {
                            return Err(format!("{}: effects differ from those when started at the top: {:?}\nagainst {:?}", show(), diff(&before, &after), diff(&before, &after2)));
                        }
                        // only the nearest repository may have changed
                        let own = ds[i].join(folder).join("snapcd.db");
                        for (p, _) in diff(&before, &after) {
                            if base.join(&p) != own {
                                return Err(format!("{}: changed {:?}", show(), p));
                            }
                        }
                        if cmd[0] == "debug" && cmd[1] == "get-head" && o.text() != format!("head: Some({:?})\n", format!("h{}", i)) {
                            return Err(format!("{}: {}, expected h{}", show(), o.show(), i));
                        }
                        let changes = cmd[0] == "commit" || cmd[0] == "insert" && cmd[1].ends_with("sub") && false || cmd[..2.min(cmd.len())] == ["ref", "update"] || cmd[..2.min(cmd.len())] == ["debug", "set-head"];
                        if changes && (after == before || !o.ok()) {
                            return Err(format!("{}: nothing changed: {}", show(), o.show()));
                        }
                        if !o.ok() && cmd[0] != "checkout" && !(cmd[0] == "debug" && cmd[1] == "reflog-get") && !(cmd[0] == "compare" && cmd.len() > 3) && !(tree == cmd[cmd.len() - 1] && (cmd[1] == "walk-tree" || cmd[1] == "commit-tree")) && cmd[0] != "fetch" {
                            return Err(format!("{}: {}", show(), o.show()));
                        }
                    }
                }
                ctx.distinct(format!("{:?} {} {} {:?}", with, folder, k, args).as_bytes());
            }
        }
        ctx.count("states", 1);
        Ok(())
    });
}

fn diff(a: &[(PathBuf, String)], b: &[(PathBuf, String)]) -> Vec<(PathBuf, &'static str)> {
    let mut v = Vec::new();
    for x in b {
        match a.iter().find(|y| y.0 == x.0) {
            Some(y) if y == x => {}
            Some(_) => v.push((x.0.clone(), "changed")),
            None => v.push((x.0.clone(), "new")),
        }
    }
    for x in a {
        if !b.iter().any(|y| y.0 == x.0) {
            v.push((x.0.clone(), "gone"));
        }
    }
    v
}

/// What a process inherits besides its directory: none of it may choose the repository.
fn surroundings(ctx: &Ctx) {
    let n = 3;
    let vars = ["HOME", "PWD", "OLDPWD", "TMPDIR", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "GIT_DIR", "GIT_CEILING_DIRECTORIES", "SNAPCD_DIR", "SNAPCD_DB", "SNAPCD_REPO"];
    let mut jobs = Vec::new();
    for mask in 0..1u32 << n {
        for start in 0..=n {
            for var in vars {
                for val in 0..n + 3 {
                    if ctx.quick() && !matches!(var, "HOME" | "PWD") && val != start {
                        continue;
                    }
                    jobs.push((mask, start, var, val));
                }
            }
        }
    }
    ctx.set_count("surroundings", jobs.len() as u64);
    ctx.par(&jobs, |j| format!("repositories {:#b}, started at level {}, {} set to {}", j.0, j.1, j.2, j.3), |&(mask, start, var, val)| {
        let w = World::bare(ctx);
        let base = w.dir.join("base");
        let ds = dirs(&base, n);
        let with: Vec<bool> = (0..n).map(|i| mask >> i & 1 == 1).collect();
        make(ctx, &ds, &with, ".snapcd")?;
        let at = |i: usize| if i < n { ds[i].clone() } else { ds[n - 1].join("sub") };
        let nearest = (0..n).rev().find(|&i| with[i] && i <= start);
        // a level, below the last one, an empty value, one that isn't there
        let value = match val {
            v if v <= n => at(v).into_os_string(),
            v if v == n + 1 => "".into(),
            _ => "/nonexistent".into(),
        };
        let s = w.snap.at(&at(start));
        let e = s.with(var, &value);
        let pristine = w.dir.join("pristine");
        copy_dir(&base, &pristine);
        let before = snapshot(&base);
        for cmd in [&["debug", "get-head"][..], &["status"], &["commit", "-m", "new"], &["log"]] {
            ctx.eval(1);
            ctx.count("transitions", 1);
            let run = |s: &Snap| {
                let _ = std::fs::remove_dir_all(w.dir.join("cache"));
                std::fs::create_dir(w.dir.join("cache")).unwrap();
                let o = s.run(cmd);
                let after = snapshot(&base);
                if after != before {
                    std::fs::remove_dir_all(&base).unwrap();
                    copy_dir(&pristine, &base);
                }
                (o, after)
            };
            let (o, after) = run(&e);
            let (o2, after2) = run(&s);
            if o.code != o2.code || o.stdout != o2.stdout || after != after2 {
                return Err(format!("{:?} with {}={:?}: {} {:?}\nwithout: {} {:?}", cmd, var, value, o.show(), diff(&before, &after), o2.show(), diff(&before, &after2)));
            }
            if o.ok() != nearest.is_some() {
                return Err(format!("{:?}: {}", cmd, o.show()));
            }
            if let (true, Some(i)) = (cmd[1..] == ["get-head"], nearest) {
                if o.text() != format!("head: Some({:?})\n", format!("h{}", i)) {
                    return Err(format!("{:?}: {}, expected h{}", cmd, o.show(), i));
                }
            }
        }
        ctx.distinct(format!("around {} {} {} {}", mask, start, var, val).as_bytes());
        Ok(())
    });
}

/// A directory that was entered through a symbolic link (as a shell remembers it in PWD), where
/// other repositories are around the link.
fn through_links(ctx: &Ctx) {
    let n = 3;
    let mut jobs = Vec::new();
    for mask in 0..1u32 << n {
        for around in 1..4u32 {
            for start in 0..=n {
                for link in 0..=start {
                    jobs.push((mask, around, start, link));
                }
            }
        }
    }
    ctx.set_count("through_links", jobs.len() as u64);
    ctx.par(&jobs, |j| format!("repositories {:#b}, around the link {:#b}, started at level {} through a link to level {}", j.0, j.1, j.2, j.3), |&(mask, around, start, link)| {
        let w = World::bare(ctx);
        let (base, other) = (w.dir.join("base"), w.dir.join("other"));
        let ds = dirs(&base, n);
        let with: Vec<bool> = (0..n).map(|i| mask >> i & 1 == 1).collect();
        make(ctx, &ds, &with, ".snapcd")?;
        let os = dirs(&other, 2);
        make(ctx, &os, &[around & 1 == 1, around & 2 == 2], ".snapcd")?;
        let at = |i: usize| if i < n { ds[i].clone() } else { ds[n - 1].join("sub") };
        std::os::unix::fs::symlink(at(link), os[1].join("link")).unwrap();
        let logical = os[1].join("link").join(at(start).strip_prefix(at(link)).unwrap());
        let nearest = (0..n).rev().find(|&i| with[i] && i <= start);
        for (form, s) in [("with PWD", w.snap.at(&logical).with("PWD", &logical)), ("without PWD", w.snap.at(&logical)), ("with another PWD", w.snap.at(&at(start)).with("PWD", os[1].join("link")))] {
            for cmd in [&["debug", "get-head"][..], &["status"], &["debug", "set-head", "h9"], &["commit", "-m", "new"]] {
                let _ = std::fs::remove_dir_all(w.dir.join("cache"));
                std::fs::create_dir(w.dir.join("cache")).unwrap();
                std::fs::remove_file(os[1].join("link")).unwrap();
                let o_before = snapshot(&other);
                std::os::unix::fs::symlink(at(link), os[1].join("link")).unwrap();
                let before: Vec<_> = (0..n).filter(|&i| with[i]).map(|i| (i, format!("{:?}", dump(&ds[i].join(".snapcd/snapcd.db"))))).collect();
                let o = s.run(cmd);
                ctx.eval(1);
                ctx.count("transitions", 1);
                let ctxt = |x: String| format!("{:?} {}: {}\n{}", cmd, form, o.show(), x);
                if o.ok() != nearest.is_some() {
                    return Err(ctxt(format!("nearest {:?}", nearest)));
                }
                if let (true, Some(i)) = (cmd[1..] == ["get-head"], nearest) {
                    let h = if form == "with PWD" { format!("h{}", i) } else { "h9".into() };
                    if o.text() != format!("head: Some({:?})\n", h) {
                        return Err(ctxt(format!("expected {}", h)));
                    }
                }
                std::fs::remove_file(os[1].join("link")).unwrap();
                let o_after = snapshot(&other);
                std::os::unix::fs::symlink(at(link), os[1].join("link")).unwrap();
                if o_before != o_after {
                    return Err(ctxt(format!("around the link: {:?}", diff(&o_before, &o_after))));
                }
                for (i, b) in before {
                    let a = format!("{:?}", dump(&ds[i].join(".snapcd/snapcd.db")));
                    let acts = nearest == Some(i) && matches!(cmd[0], "commit") || nearest == Some(i) && cmd.get(1) == Some(&"set-head") && form == "with PWD";
                    // (status remembers the objects of changed files)
                    if (a != b) != acts && !(cmd[0] == "status" && nearest == Some(i)) {
                        return Err(ctxt(format!("the repository at level {} {}", i, if acts { "didn't change" } else { "changed" })));
                    }
                }
            }
        }
        ctx.distinct(format!("link {} {} {} {}", mask, around, start, link).as_bytes());
        Ok(())
    });
}

/// A fresh repository's contents.
fn is_new(d: &Dump) -> bool {
    d.objects.is_empty() && d.refs.is_empty() && d.head().as_deref() == Some("master") && d.state.len() == 1
}

/// init where there is something already, and where there isn't.
fn inits(ctx: &Ctx) {
    // what is there: commands that made it
    let made: Vec<(&str, Vec<Vec<&str>>)> = vec![
        ("new", vec![vec!["init"]]),
        ("new twice", vec![vec!["init"], vec!["init"]]),
        ("committed", vec![vec!["init"], vec!["commit", "-m", "m"]]),
        ("other head", vec![vec!["init"], vec!["debug", "set-head", "x"]]),
        ("head with commits elsewhere", vec![vec!["init"], vec!["commit", "-m", "m"], vec!["debug", "set-head", "x/y z"]]),
        ("empty head name", vec![vec!["init"], vec!["debug", "set-head", ""]]),
        ("head master again", vec![vec!["init"], vec!["debug", "set-head", "x"], vec!["debug", "set-head", "master"], vec!["commit", "-m", "m", "b"]]),
        ("inserted only", vec![vec!["init"], vec!["insert", "."]]),
        ("switched", vec![vec!["init"], vec!["commit", "-m", "m"], vec!["checkout-head", "b"], vec!["commit", "-m", "n"]]),
    ];
    let where_: Vec<(&str, &str, bool)> = vec![
        // start, folder, whether that names the existing repository
        ("", ".snapcd", true),
        ("", "./.snapcd", true),
        ("", "ABS", true),
        ("", ".snapcd/", true),
        ("", "s/../.snapcd", true),
        ("s", "../.snapcd", true),
        ("s", ".snapcd", false),
        ("s/t", ".snapcd", false),
        ("", "other", false),
        ("", "new/er/folder", false),
        ("", "s/.snapcd", false),
        ("", "..", false),
        ("s", "../s2", false),
        ("", "é ö", false),
    ];
    let mut jobs = Vec::new();
    for (i, _) in made.iter().enumerate() {
        for (j, _) in where_.iter().enumerate() {
            for k in 1..=3 {
                jobs.push((i, j, k));
            }
        }
    }
    ctx.par(&jobs, |&(i, j, k)| format!("{}, init {} times in {:?}", made[i].0, k, where_[j]), |&(i, j, k)| {
        let w = World::bare(ctx);
        d(&[("a", f("1\n")), ("s", d(&[("t", d(&[("b", f("2\n"))]))]))]).write(&w.repo);
        for c in &made[i].1 {
            w.snap.good(c)?;
        }
        let (start, folder, same) = where_[j];
        let abs = w.repo.join(".snapcd").to_str().unwrap().to_string();
        let folder = if folder == "ABS" { abs.as_str() } else { folder };
        let before = snapshot(&w.dir.join("r"));
        let old = w.dump()?;
        let s = w.snap.at(&w.repo.join(start));
        for _ in 0..k {
            let o = s.run(&["-d", folder, "init"]);
            ctx.count("transitions", 1);
            if !o.ok() {
                return Err(format!("init: {}", o.show()));
            }
        }
        if folder == ".snapcd" && start.is_empty() {
            s.good(&["init"])?;
        }
        if w.dump()? != old {
            return Err(format!("init in {:?} {:?} changed the repository from {} to {}", start, folder, old.brief(), w.dump()?.brief()));
        }
        let after = snapshot(&w.dir.join("r"));
        let df = diff(&before, &after);
        if same {
            if !df.is_empty() {
                return Err(format!("init of an existing repository: {:?}", df));
            }
        } else {
            let p = w.repo.join(start).join(folder);
            let d = dump(&p.join("snapcd.db"))?;
            if !is_new(&d) {
                return Err(format!("init in {:?} {:?} made {}", start, folder, d.brief()));
            }
            let p = std::fs::canonicalize(&p).unwrap();
            let root = std::fs::canonicalize(&w.repo).unwrap();
            for (x, what) in df {
                let x = root.join(x);
                if what != "new" || !(x.starts_with(&p) || p.starts_with(&x)) {
                    return Err(format!("init in {:?} {:?}: {:?} is {}", start, folder, x, what));
                }
            }
            // and it works
            let s = w.snap.at(&w.repo.join(start));
            s.good(&["-d", folder, "commit", "-m", "m"])?;
            let d = dump(&p.join("snapcd.db"))?;
            if d.log("master").len() != 1 {
                return Err(format!("commit in the new repository: {}", d.brief()));
            }
            if w.dump()? != old {
                return Err("commit in the new repository changed the other".into());
            }
        }
        ctx.count("states", 1);
        ctx.distinct(format!("init {} {} {}", i, j, k).as_bytes());
        Ok(())
    });
}

/// Sequences of init, commit and set-head from nested directories.
fn histories(ctx: &Ctx) {
    const OPS: &[&str] = &["init 0", "init 1", "init 2", "commit 0", "commit 1", "commit 2", "head 0", "head 1", "head 2", "status 2"];
    let depth = ctx.pick(4, 6);
    let mut all: Vec<Vec<usize>> = vec![];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = Vec::new();
        for h in &last {
            for o in 0..OPS.len() {
                let mut h = h.clone();
                h.push(o);
                next.push(h);
            }
        }
        all = next.clone();
        last = next;
    }
    ctx.par(&all, |h| format!("history {:?}", h), |h| {
        let w = World::bare(ctx);
        let ds = dirs(&w.repo, 3);
        std::fs::create_dir_all(&ds[2]).unwrap();
        for (i, d) in ds.iter().enumerate() {
            std::fs::write(d.join("f"), format!("{}\n", i)).unwrap();
        }
        // head, commits per branch
        let mut m: [Option<(String, Vec<String>)>; 3] = [None, None, None];
        for (step, &o) in h.iter().enumerate() {
            let (what, lev) = OPS[o].split_once(' ').unwrap();
            let lev: usize = lev.parse().unwrap();
            let near = (0..=lev).rev().find(|&i| m[i].is_some());
            let s = w.snap.at(&ds[lev]);
            let head = format!("x{}", step);
            let msg = format!("m{}", step);
            let o = match what {
                "init" => s.run(&["init"]),
                "commit" => s.run(&["commit", "-m", &msg]),
                "head" => s.run(&["debug", "set-head", &head]),
                _ => s.run(&["status"]),
            };
            ctx.count("transitions", 1);
            if o.ok() != (what == "init" || near.is_some()) {
                return Err(format!("{:?} step {}: {}", h, step, o.show()));
            }
            match (what, near) {
                ("init", _) => {
                    m[lev].get_or_insert(("master".into(), vec![]));
                }
                ("commit", Some(i)) => {
                    let x = m[i].as_mut().unwrap();
                    x.1.push(x.0.clone());
                }
                ("head", Some(i)) => m[i].as_mut().unwrap().0 = head,
                _ => {}
            }
            for i in 0..3 {
                let p = ds[i].join(".snapcd");
                match &m[i] {
                    None => {
                        if p.exists() {
                            return Err(format!("{:?}: step {} created {:?}", h, step, p));
                        }
                    }
                    Some((head, log)) => {
                        let d = dump(&p.join("snapcd.db"))?;
                        let names: Vec<String> = d.refs.iter().map(|x| x.0.clone()).collect();
                        if d.head().as_ref() != Some(head) || names != *log {
                            return Err(format!("{:?}: after step {} ({}) the repository of level {} has HEAD {:?} and commits on {:?}, expected {:?} and {:?}", h, step, OPS[o_of(h, step)], i, d.head(), names, head, log));
                        }
                    }
                }
            }
        }
        ctx.count("states", 1);
        ctx.count("traces_validated_against_impl", 1);
        if ctx.distinct(format!("history {:?}", h).as_bytes()) && h[0] == 2 && h[1] == 4 && h[2] == 6 {
            ctx.sample(h.iter().map(|&o| OPS[o]).collect::<Vec<_>>().join("; "));
        }
        Ok(())
    });
}

fn o_of(h: &[usize], i: usize) -> usize {
    h[i]
}

/// Far below the repository, and names that look like one.
fn depths(ctx: &Ctx) {
    let mut jobs: Vec<(String, Vec<String>)> = Vec::new();
    for n in [1usize, 2, 10, 60, 200] {
        jobs.push((format!("depth {}", n), vec!["d".into(); n]));
    }
    for n in super::common::odd_names() {
        if n.len() < 250 && n != ".snapcd" {
            jobs.push((format!("below {:?}", n), vec![n.clone(), "x".into()]));
        }
    }
    for decoy in ["snapcd", ".snapcd2", ".SNAPCD", "snapcd.db", ".snap", ".snapc"] {
        jobs.push((format!("decoy {}", decoy), vec!["p".into(), format!("\0{}", decoy)]));
    }
    ctx.par(&jobs, |(n, _)| n.clone(), |(_, path)| {
        let w = World::bare(ctx);
        let mut p = w.repo.clone();
        for c in path {
            if let Some(n) = c.strip_prefix('\0') {
                std::fs::create_dir(p.join(n)).unwrap();
                std::fs::write(p.join(n).join("snapcd.db"), "").unwrap();
            } else {
                p = p.join(c);
                std::fs::create_dir(&p).unwrap();
            }
        }
        std::fs::write(p.join("f"), "1\n").unwrap();
        let s = w.snap.at(&p);
        let before = snapshot(&w.repo);
        // nothing yet
        for c in [&["status"][..], &["commit", "-m", "m"], &["insert", "f"], &["log"]] {
            let o = s.run(c);
            if o.code != Some(1) || snapshot(&w.repo) != before {
                return Err(format!("without a repository, {}: {}", c.join(" "), o.show()));
            }
        }
        w.snap.good(&["init"])?;
        s.good(&["commit", "-m", "m"])?;
        let d = w.dump()?;
        let tip = d.tip("master").ok_or("the commit is not in the repository above")?;
        if w.fetched(&super::common::tree_of(&w, &tip)?)? != w.tree()? {
            return Err("the commit from below is not of the whole working tree".into());
        }
        std::fs::write(p.join("f"), "22\n").unwrap();
        let a = s.good(&["status"])?.text();
        let b = w.snap.good(&["status"])?.text();
        if a != b || !a.contains("modified:") {
            return Err(format!("status from below {:?}, from the top {:?}", a, b));
        }
        ctx.distinct(format!("deep {:?}", path).as_bytes());
        Ok(())
    });
}
