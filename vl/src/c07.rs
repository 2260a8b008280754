//! Ref logs and HEAD against a list model.
use crate::inputs::guard;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::Transactional;
use snapcd::key::Key;
use snapcd::{DataStore, GetReflogError, Keyish, Reflog};
use std::collections::HashMap;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C07",
    level: "model_checking",
    rule: "every sequence up to a length of pushes over colliding (name, remote) pairs and repeated keys, HEAD updates, transaction boundaries and reopens on the real store, all logs, values, HEAD and /name and remote/name texts compared with a list model after every operation; all pairs of odd names and remotes at once; logs of every length up to a bound; every sequence of ref-changing commands of the program up to a length. Non-trivial: distinct sequences.",
    assumptions: &["names outside the alphabet behave like those in it"],
    run,
};

type Ref = (&'static str, Option<&'static str>);
const REFS: [Ref; 7] = [("m", None), ("m", Some("r")), ("r", Some("m")), ("m", Some("")), ("M", None), ("r/m", None), ("mm", None)];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Op {
    Push(usize, u8),
    Head(&'static str),
    Begin,
    Commit,
    Rollback,
    Reopen,
}
use Op::*;

fn key(n: u8) -> Key {
    let mut b = [n; 32];
    b[0] = 0;
    Key::Blake3B(b)
}

#[derive(Clone, Default)]
struct Data {
    log: Vec<(usize, u8)>,
    head: Option<&'static str>,
}

fn check(ds: &SqliteDS, m: &Data) -> Result<(), String> {
    for (i, (name, remote)) in REFS.iter().enumerate() {
        let want: Vec<Key> = m.log.iter().rev().filter(|x| x.0 == i).map(|x| key(x.1)).collect();
        let got: Vec<Key> = ds.reflog_walk(name, *remote).map_err(|e| e.to_string())?.into_iter().map(|x| x.inner()).collect();
        if got != want {
            return Err(format!("log of {:?} is {:?}, expected {:?}", REFS[i], got, want));
        }
        let tip = match ds.reflog_get(name, *remote) {
            Ok(k) => Some(k.inner()),
            Err(GetReflogError::NotFound) => None,
            Err(e) => return Err(e.to_string()),
        };
        if tip != want.first().copied() {
            return Err(format!("value of {:?} is {:?}, expected {:?}", REFS[i], tip, want.first()));
        }
        let text = match remote {
            None => format!("/{}", name),
            Some("") => continue,
            Some(r) => format!("{}/{}", r, name),
        };
        let k: Keyish = text.parse().map_err(|e| format!("{:?}: {}", text, e))?;
        if ds.canonicalize(k).ok() != want.first().copied() {
            return Err(format!("{:?} does not resolve to {:?}", text, want.first()));
        }
    }
    let h = ds.get_head().map_err(|e| e.to_string())?;
    if h.as_deref() != m.head {
        return Err(format!("HEAD is {:?}, expected {:?}", h, m.head));
    }
    Ok(())
}

fn replay(ctx: &Ctx, ops: &[Op], file: bool) -> Result<(), String> {
    let dir = file.then(|| ctx.fresh("d"));
    let r = guard("store", || {
        let p = dir.as_ref().map(|d| d.join("x.db")).unwrap_or_else(|| ":memory:".into());
        let mut ds = Some(SqliteDS::new(&p).map_err(|e| e.to_string())?);
        let mut m = Data::default();
        let mut saved: Option<Data> = None;
        for (n, op) in ops.iter().enumerate() {
            let d = ds.as_mut().unwrap();
            let e = |e: &dyn std::fmt::Display| format!("operation {} of {:?}: {}", n, ops, e);
            match *op {
                Push(r, k) => {
                    d.reflog_push(&Reflog { refname: REFS[r].0.into(), remote: REFS[r].1.map(|x| x.into()), key: key(k).into() }).map_err(|x| e(&x))?;
                    m.log.push((r, k));
                }
                Head(h) => {
                    d.put_head(h).map_err(|x| e(&x))?;
                    m.head = Some(h);
                }
                Begin => {
                    let r = d.begin_trans();
                    if r.is_ok() != saved.is_none() {
                        return Err(e(&"unexpected result"));
                    }
                    if r.is_ok() {
                        saved = Some(m.clone());
                    }
                }
                Commit => {
                    if d.commit().is_ok() != saved.take().is_some() {
                        return Err(e(&"unexpected result"));
                    }
                }
                Rollback => {
                    let r = d.rollback();
                    if r.is_ok() != saved.is_some() {
                        return Err(e(&"unexpected result"));
                    }
                    if let Some(s) = saved.take() {
                        m = s;
                    }
                }
                Reopen => {
                    ds = None;
                    ds = Some(SqliteDS::new(&p).map_err(|x| e(&x))?);
                    if let Some(s) = saved.take() {
                        m = s;
                    }
                }
            }
            check(ds.as_ref().unwrap(), &m).map_err(|e| format!("after operation {} of {:?}: {}", n, ops, e))?;
        }
        Ok(())
    });
    if let Some(d) = dir {
        let _ = std::fs::remove_dir_all(d);
    }
    r
}

/// The model's state after a sequence, for counting.
fn model_state(ops: &[Op]) -> String {
    let mut m = Data::default();
    let mut saved: Option<Data> = None;
    for op in ops {
        match *op {
            Push(r, k) => m.log.push((r, k)),
            Head(h) => m.head = Some(h),
            Begin if saved.is_none() => saved = Some(m.clone()),
            Begin => {}
            Commit => saved = None,
            Rollback | Reopen => {
                if let Some(s) = saved.take() {
                    m = s;
                }
            }
        }
    }
    format!("{:?} {:?} {:?}", m.log, m.head, saved.map(|s| (s.log, s.head)))
}

fn sequences<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
    let mut l: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        l = l.iter().flat_map(|s| alpha.iter().map(move |a| [s.clone(), vec![a.clone()]].concat())).collect();
    }
    l
}

fn odd() -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "a", "A", "a ", " a", "a/", "/a", "a/b", "b/a", "//", "é", "e\u{301}", "😀", "HEAD", "head", "NULL", "null", "1", "01", "1.0", "1e0", "%", "_", "a%", "'", "''", "\"", ";", "--", "-", "?", "\\", "\n", "a\n", "\t", "*",
        "master", "Master", "refs/heads/master", "remote", "b", "ba",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    v.push("n".repeat(300));
    v.push("n".repeat(301));
    v.push("n".repeat(70_000));
    v
}

fn run(ctx: &Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    let pushes = |n: usize| -> Vec<Op> { (0..n).flat_map(|r| [Push(r, 1), Push(r, 2)]).collect() };
    let mut a1 = pushes(REFS.len());
    a1.extend([Head("m"), Head("r/m"), Begin, Commit, Rollback, Reopen]);
    let mut jobs: Vec<(Vec<Op>, bool)> = sequences(&a1, ctx.pick(3, 4)).into_iter().map(|s| (s, true)).collect();
    let a2 = [Push(0, 1), Push(0, 2), Push(1, 1), Push(1, 2), Push(2, 1), Push(3, 1), Push(4, 1), Push(5, 2), Head("m")];
    jobs.extend(sequences(&a2, ctx.pick(4, 5)).into_iter().map(|s| (s, false)));
    let a3 = [Push(0, 1), Push(0, 2), Push(1, 1), Head("m"), Head(""), Begin, Commit, Rollback, Reopen];
    jobs.extend(sequences(&a3, ctx.pick(4, 6)).into_iter().map(|s| (s, true)));
    ctx.set_count("sequences", jobs.len() as u64);
    let states: std::collections::HashSet<String> = jobs.iter().map(|j| model_state(&j.0)).collect();
    ctx.set_count("states", states.len() as u64);
    ctx.set_count("traces_validated_against_impl", jobs.len() as u64);
    ctx.set_count("transitions", jobs.iter().map(|x| x.0.len() as u64).sum());
    ctx.par(
        &jobs,
        |j| format!("{:?} file {}", j.0, j.1),
        |j| {
            if ctx.distinct(format!("{:?} {}", j.0, j.1).as_bytes()) && j.0.contains(&Begin) && j.0.contains(&Push(1, 1)) && j.0[0] != Begin {
                ctx.sample(format!("{:?}", j.0));
            }
            replay(ctx, &j.0, j.1)
        },
    );
    // logs of every length, read in between and after a reopen
    let lens: Vec<usize> = if ctx.quick() { (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001]).collect() } else { (0..=300).chain([999, 1000, 1001, 1024, 5000, 10_001]).collect() };
    ctx.par(
        &lens,
        |n| format!("log of {} entries", n),
        |&n| {
            ctx.distinct(format!("len {}", n).as_bytes());
            let dir = ctx.fresh("l");
            let r = guard("store", || {
                let p = dir.join("x.db");
                let mut ds = SqliteDS::new(&p).map_err(|e| e.to_string())?;
                ds.begin_trans().map_err(|e| e.to_string())?;
                let k = |i: usize| Key::Blake3B(*blake3::hash(&(i / 2).to_le_bytes()).as_bytes());
                for i in 0..n {
                    ds.reflog_push(&Reflog { refname: "m".into(), remote: None, key: k(i).into() }).map_err(|e| e.to_string())?;
                    if i % 3 == 0 {
                        ds.reflog_push(&Reflog { refname: "m".into(), remote: Some("r".into()), key: k(i + 1).into() }).map_err(|e| e.to_string())?;
                    }
                }
                ds.commit().map_err(|e| e.to_string())?;
                drop(ds);
                let ds = SqliteDS::new(&p).map_err(|e| e.to_string())?;
                let got: Vec<Key> = ds.reflog_walk("m", None).map_err(|e| e.to_string())?.into_iter().map(|x| x.inner()).collect();
                let want: Vec<Key> = (0..n).rev().map(k).collect();
                if got != want {
                    return Err(format!("{} entries listed, or others than recorded", got.len()));
                }
                let got: Vec<Key> = ds.reflog_walk("m", Some("r")).map_err(|e| e.to_string())?.into_iter().map(|x| x.inner()).collect();
                let want: Vec<Key> = (0..n).rev().filter(|i| i % 3 == 0).map(|i| k(i + 1)).collect();
                if got != want {
                    return Err(format!("remote log: {} entries listed, or others than recorded", got.len()));
                }
                Ok(())
            });
            let _ = std::fs::remove_dir_all(&dir);
            r
        },
    );
    // all pairs of odd names and remotes in one store
    ctx.par(
        &[false, true],
        |r| format!("odd names, reversed {}", r),
        |&rev| {
            guard("store", || {
                let ds = SqliteDS::new(":memory:").map_err(|e| e.to_string())?;
                let names = odd();
                let mut pairs: Vec<(String, Option<String>)> = Vec::new();
                for n in &names {
                    pairs.push((n.clone(), None));
                    for r in &names {
                        pairs.push((n.clone(), Some(r.clone())));
                    }
                }
                if rev {
                    pairs.reverse();
                }
                let k = |i: usize| Key::Blake3B(*blake3::hash(&i.to_le_bytes()).as_bytes());
                for round in 0..2 {
                    for (i, (n, r)) in pairs.iter().enumerate() {
                        ds.reflog_push(&Reflog { refname: n.clone(), remote: r.clone(), key: k(2 * i + round).into() }).map_err(|e| e.to_string())?;
                    }
                }
                for (i, (n, r)) in pairs.iter().enumerate() {
                    let w: Vec<Key> = ds.reflog_walk(n, r.as_deref()).map_err(|e| e.to_string())?.into_iter().map(|x| x.inner()).collect();
                    if w != vec![k(2 * i + 1), k(2 * i)] || ds.reflog_get(n, r.as_deref()).map_err(|e| e.to_string())?.inner() != k(2 * i + 1) {
                        return Err(format!("log of {:?}/{:?} is {:?}", r, n, w));
                    }
                    ctx.count("odd_pairs", 1);
                    let text = match r {
                        None => format!("/{}", n),
                        Some(r) if r.is_empty() || r.contains('/') => continue,
                        Some(r) => format!("{}/{}", r, n),
                    };
                    let got = ds.canonicalize(text.parse().map_err(|e| format!("{:?}: {}", text, e))?).map_err(|e| format!("{:?}: {}", text, e))?;
                    if got != k(2 * i + 1) {
                        return Err(format!("{:?} resolves to something else", text));
                    }
                }
                for n in &names {
                    ds.put_head(n).map_err(|e| e.to_string())?;
                    if ds.get_head().map_err(|e| e.to_string())?.as_ref() != Some(n) {
                        return Err(format!("HEAD set to {:?} reads as {:?}", n, ds.get_head().map_err(|e| e.to_string())?));
                    }
                }
                Ok(())
            })
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    program(ctx);
}

#[derive(Clone, Debug)]
enum Cmd {
    Update(usize, Option<&'static str>),
    Push(usize, &'static str, Option<&'static str>),
    SetHead(&'static str),
    Commit(Option<&'static str>),
}

/// Sequences of commands of the program.
fn program(ctx: &Ctx) {
    let base = World::new(ctx);
    let mut keys: Vec<String> = Vec::new();
    let mk = || -> Result<Vec<String>, String> {
        let mut k = Vec::new();
        for i in 0..2 {
            base.set_tree(&d(&[("a", f(format!("{}", i)))]));
            base.snap.good(&["commit", "-m", "seed", "seed"])?;
            k.push(base.dump()?.tip("seed").ok_or("no tip")?);
        }
        Ok(k)
    };
    match mk() {
        Ok(k) => keys.extend(k),
        Err(e) => return ctx.violate("seed", e, vec![]),
    }
    let image = std::fs::read(base.db()).unwrap();
    let mut alpha = vec![
        Cmd::Update(0, Some("m")),
        Cmd::Update(1, Some("m")),
        Cmd::Update(1, None),
        Cmd::Push(0, "m", Some("r")),
        Cmd::Push(1, "m", Some("r")),
        Cmd::Push(1, "m", None),
        Cmd::SetHead("m"),
        Cmd::Commit(None),
        Cmd::Commit(Some("m")),
    ];
    if !ctx.quick() {
        alpha.extend([Cmd::Update(0, Some("r")), Cmd::Push(0, "r", Some("m")), Cmd::SetHead("r"), Cmd::Commit(Some("a b"))]);
    }
    let seqs = sequences(&alpha, 3);
    ctx.set_count("command_sequences", seqs.len() as u64);
    ctx.par(
        &seqs,
        |s| format!("{:?}", s),
        |s| {
            let w = World::new(ctx);
            std::fs::write(w.db(), &image).unwrap();
            w.set_tree(&d(&[("a", f("1"))]));
            let mut logs: HashMap<(String, Option<String>), Vec<String>> = HashMap::new();
            logs.insert(("seed".into(), None), vec![keys[1].clone(), keys[0].clone()]);
            let mut head = "master".to_string();
            for (i, c) in s.iter().enumerate() {
                match c {
                    Cmd::Update(k, r) => {
                        let mut a = vec!["ref", "update", &keys[*k]];
                        a.extend(r.iter());
                        w.snap.good(&a)?;
                        logs.entry((r.map(|x| x.to_string()).unwrap_or(head.clone()), None)).or_default().insert(0, keys[*k].clone());
                    }
                    Cmd::Push(k, n, r) => {
                        let mut a = vec!["debug", "reflog-push", &keys[*k], n];
                        a.extend(r.iter());
                        w.snap.good(&a)?;
                        logs.entry((n.to_string(), r.map(|x| x.to_string()))).or_default().insert(0, keys[*k].clone());
                    }
                    Cmd::SetHead(n) => {
                        w.snap.good(&["debug", "set-head", n])?;
                        head = n.to_string();
                    }
                    Cmd::Commit(r) => {
                        let m = format!("c{}", i);
                        let mut a = vec!["commit", "-m", &m];
                        a.extend(r.iter());
                        w.snap.good(&a)?;
                        let n = r.map(|x| x.to_string()).unwrap_or(head.clone());
                        let t = w.dump()?.tip(&n).ok_or("no tip")?;
                        logs.entry((n, None)).or_default().insert(0, t);
                    }
                }
            }
            ctx.distinct(format!("{:?}", s).as_bytes());
            // observe through the program
            let gh = w.snap.good(&["debug", "get-head"])?.text();
            if gh.trim_end() != format!("head: {:?}", Some(&head)) {
                return Err(format!("head is printed as {:?}, expected {:?}", gh, head));
            }
            for n in ["m", "master", "r", "seed", "M"] {
                for r in [None, Some("r"), Some("m")] {
                    if ctx.quick() && (n, r) != ("m", None) && r != Some("r") && !logs.contains_key(&(n.to_string(), r.map(|x| x.to_string()))) {
                        continue;
                    }
                    let want = logs.get(&(n.to_string(), r.map(|x| x.to_string()))).cloned().unwrap_or_default();
                    let mut a = vec!["ref", "log", n];
                    a.extend(r.iter());
                    let got: Vec<String> = w.snap.good(&a)?.text().lines().filter_map(|l| l.split_once(": ").and_then(|(a, b)| a.trim().parse::<u32>().ok().map(|_| b.trim().to_string()))).collect();
                    if got != want {
                        return Err(format!("log of {:?}/{} is printed as {:?}, expected {:?}", r, n, got, want));
                    }
                    let mut a = vec!["debug", "reflog-get", n];
                    a.extend(r.iter());
                    let o = w.snap.run(&a);
                    if o.ok() != !want.is_empty() || o.ok() && o.text().trim() != want[0] {
                        return Err(format!("value of {:?}/{}: {}, expected {:?}", r, n, o.show(), want.first()));
                    }
                    let text = format!("{}/{}", r.unwrap_or(""), n);
                    let o = w.snap.run(&["debug", "pretty-print", &text]);
                    if o.ok() != !want.is_empty() {
                        return Err(format!("{}: {}, expected {:?}", text, o.show(), want.first()));
                    }
                    if o.ok() {
                        let full = w.snap.good(&["debug", "pretty-print", &want[0]])?;
                        if full.stdout != o.stdout {
                            return Err(format!("{} shows another object than {}", text, want[0]));
                        }
                    }
                }
            }
            let o = w.snap.run(&["ref", "log"]);
            let n = o.text().lines().filter(|l| l.split_once(": ").is_some_and(|x| x.0.trim().parse::<u32>().is_ok())).count();
            if !o.ok() || n != logs.get(&(head.clone(), None)).map(|x| x.len()).unwrap_or(0) {
                return Err(format!("log of HEAD ({}): {}", head, o.show()));
            }
            Ok(())
        },
    );
}
