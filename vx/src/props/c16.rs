//! History is append-only; inspecting changes nothing; switching HEAD needs a clean tree.
use super::common::*;
use super::textdiff::{check_log, Commit};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use vx::run::{Out, Snap};
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C16",
    level: "model_checking",
    rule: "breadth-first search over sequences of commands (edits, commits to the current and to other branches, from a subdirectory, of a part of the tree, switching HEAD, moving refs, inserting, init, commands that fail) from several starting repositories, every sequence to depth 1 (thorough: 2) and by state of the model beyond; a model of (working tree, HEAD, ref logs, commits) predicts refs and HEAD after every command, and in every state all inspecting commands are run, checked against the model, and must leave refs, HEAD, existing objects and the working tree alone, and every commit made so far is fetched and compared. States: distinct model states inspected. Non-trivial: distinct model state.",
    assumptions: &["a refused switch of HEAD is one that leaves HEAD as it was", "status and compare may store the contents of new files (objects are added, none changed)"],
    run,
};

#[derive(Clone, Debug)]
struct Com {
    id: String,
    parent: Option<usize>,
    tree: Node,
    msg: String,
}

#[derive(Clone)]
struct Model {
    tree: usize,
    head: String,
    refs: Vec<(String, Option<String>, usize)>,
    coms: Vec<Com>,
}

impl Model {
    fn tip(&self, r: &str) -> Option<usize> {
        self.refs.iter().rev().find(|x| x.0 == r && x.1.is_none()).map(|x| x.2)
    }
    fn key(&self) -> String {
        let mut ids: Vec<&str> = self.coms.iter().map(|c| c.id.as_str()).collect();
        ids.sort();
        format!("{} {:?} {:?} {:?}", self.tree, self.head, self.refs.iter().map(|x| (&x.0, &x.1, &self.coms[x.2].id)).collect::<Vec<_>>(), ids)
    }
    fn names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.refs.iter().filter(|x| x.1.is_none()).map(|x| x.0.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
}

struct State {
    files: Vec<(String, Vec<u8>)>,
    m: Model,
    path: Vec<usize>,
}

fn trees() -> Vec<Node> {
    vec![
        d(&[("a", f("1\n")), ("d", d(&[("x", f("2\n"))]))]),
        d(&[("a", f("1\n")), ("d", d(&[("x", f("3\n")), ("y", f(""))]))]),
        d(&[("a", d(&[("b", f("1\n"))])), ("d", empty())]),
    ]
}

#[derive(Clone, Debug)]
enum Op {
    Tree(usize),
    Commit { from: &'static str, sub: Option<&'static str>, msg: &'static str, name: Option<&'static str> },
    Head(&'static str),
    SetHead(&'static str),
    /// 0: the first commit, 1: the last one made, 2: the tip of b
    Move(usize, Option<&'static str>),
    Push(usize, &'static str, &'static str),
    CommitTree,
    Run(&'static [&'static str]),
    Fails(&'static [&'static str]),
}

fn ops() -> Vec<Op> {
    use Op::*;
    let c = |from, sub, msg, name| Commit { from, sub, msg, name };
    vec![
        Tree(0),
        Tree(1),
        Tree(2),
        c("", None, "m", None),
        c("", None, "two\nlines\n", None),
        c("", None, "m", Some("b")),
        c("d", None, "from d", None),
        c("", Some("d"), "only d", None),
        Head("master"),
        Head("b"),
        Head("n"),
        SetHead("b"),
        Move(0, None),
        Move(1, Some("b")),
        Move(2, None),
        Push(0, "master", "origin"),
        CommitTree,
        Run(&["insert", "."]),
        Run(&["init"]),
        Fails(&["commit", "-m", "m", "-p", "nothere"]),
        Fails(&["checkout"]),
        Fails(&["ref", "update", "bzzzz"]),
    ]
}

fn files_of(w: &World) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(w.repo.join(".snapcd"))
        .unwrap()
        .map(|e| e.unwrap())
        .map(|e| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap()))
        .collect();
    v.sort();
    v
}

fn restore<'a>(ctx: &'a Ctx, s: &State, trees: &[Node]) -> World<'a> {
    let w = World::new(ctx);
    for (n, b) in &s.files {
        std::fs::write(w.repo.join(".snapcd").join(n), b).unwrap();
    }
    w.set_tree(&trees[s.m.tree]);
    w
}

/// Refs and HEAD as the model has them; nothing that was stored is gone.
fn agrees(w: &World, m: &Model, before: &BTreeMap<Vec<u8>, [u8; 32]>) -> Result<(), String> {
    let d = w.dump()?;
    if d.head().as_ref() != Some(&m.head) {
        return Err(format!("HEAD is {:?}, expected {:?}", d.head(), m.head));
    }
    let got: Vec<_> = d.refs.iter().map(|x| (x.0.clone(), x.1.clone(), vx::db::user_key(&x.2))).collect();
    let want: Vec<_> = m.refs.iter().map(|x| (x.0.clone(), x.1.clone(), m.coms[x.2].id.clone())).collect();
    if got != want {
        return Err(format!("ref log is {:?}\nexpected {:?}", got, want));
    }
    for (k, v) in before {
        if d.objects.get(k) != Some(v) {
            return Err(format!("object {} is {}", vx::db::user_key(k), if d.objects.contains_key(k) { "altered" } else { "gone" }));
        }
    }
    Ok(())
}

/// Runs an operation; the model after it, or None if it doesn't apply here.
fn step(w: &World, m: &Model, op: &Op, trees: &[Node]) -> Result<Option<Model>, String> {
    let mut n = m.clone();
    let before = w.dump()?;
    match op {
        Op::Tree(t) => {
            if *t == m.tree {
                return Ok(None);
            }
            n.tree = *t;
            w.set_tree(&trees[*t]);
            return Ok(Some(n));
        }
        Op::Commit { from, sub, msg, name } => {
            let s = w.snap.at(&w.repo.join(from));
            let mut args = vec!["commit", "-m", msg];
            if let Some(p) = sub {
                args.extend(["-p", p]);
            }
            args.extend(name.iter());
            s.good(&args)?;
            let name = name.map(|x| x.to_string()).unwrap_or_else(|| m.head.clone());
            let id = w.dump()?.tip(&name).ok_or_else(|| format!("nothing on {} after the commit", name))?;
            let tree = match sub {
                Some(p) => trees[m.tree].get(p).unwrap().clone(),
                None => trees[m.tree].clone(),
            };
            let c = Com { id, parent: m.tip(&name), tree, msg: msg.to_string() };
            let i = add(&mut n, c)?;
            n.refs.push((name, None, i));
            // what the commit says about itself
            let o = w.snap.good(&["debug", "pretty-print", &n.coms[i].id])?.text();
            let keys: Vec<&str> = o.lines().skip_while(|l| !l.starts_with("--keys--")).take_while(|l| !l.starts_with("-/keys")).filter(|l| l.starts_with('b')).collect();
            let want: Vec<&str> = n.coms[i].parent.map(|p| n.coms[p].id.as_str()).into_iter().collect();
            if keys.len() != 1 + want.len() || keys[1..] != want[..] {
                return Err(format!("the commit's parents are {:?}, expected {:?}", &keys[1.min(keys.len())..], want));
            }
            if w.fetched(keys[0])? != n.coms[i].tree {
                return Err("the commit's tree is not the working tree".into());
            }
        }
        Op::Head(r) => {
            let clean = match m.tip(&m.head) {
                Some(c) => m.coms[c].tree == trees[m.tree],
                None => trees[m.tree] == empty(),
            };
            let o = w.snap.run(&["checkout-head", r]);
            if clean {
                if !o.ok() {
                    return Err(format!("checkout-head {} in a clean tree: {}", r, o.show()));
                }
                n.head = r.to_string();
            }
            agrees(w, &n, &before.objects).map_err(|e| format!("checkout-head {} with a {} tree: {}\n{}", r, if clean { "clean" } else { "changed" }, o.show(), e))?;
        }
        Op::SetHead(r) => {
            w.snap.good(&["debug", "set-head", r])?;
            n.head = r.to_string();
        }
        Op::Move(which, name) => {
            let Some(c) = pick(m, *which) else { return Ok(None) };
            let mut args = vec!["ref", "update", m.coms[c].id.as_str()];
            args.extend(name.iter());
            w.snap.good(&args)?;
            n.refs.push((name.map(|x| x.to_string()).unwrap_or_else(|| m.head.clone()), None, c));
        }
        Op::Push(which, name, remote) => {
            let Some(c) = pick(m, *which) else { return Ok(None) };
            w.snap.good(&["debug", "reflog-push", &m.coms[c].id, name, remote])?;
            n.refs.push((name.to_string(), Some(remote.to_string()), c));
        }
        Op::CommitTree => {
            // a commit that is on no branch
            let Some(c) = pick(m, 1) else { return Ok(None) };
            let t = tree_of(w, &m.coms[c].id)?;
            let id = w.snap.good(&["debug", "commit-tree", &t, &m.coms[c].id])?.text().trim().to_string();
            add(&mut n, Com { id, parent: Some(c), tree: m.coms[c].tree.clone(), msg: String::new() })?;
        }
        Op::Run(args) => {
            w.snap.good(args)?;
        }
        Op::Fails(args) => {
            let o = w.snap.run(args);
            if o.ok() {
                return Err(format!("{} succeeded: {}", args.join(" "), o.show()));
            }
        }
    }
    agrees(w, &n, &before.objects).map_err(|e| format!("after {:?}: {}", op, e))?;
    if w.tree()? != trees[n.tree] {
        return Err(format!("{:?} changed the working tree to {:?}", op, w.tree()?));
    }
    Ok(Some(n))
}

fn pick(m: &Model, which: usize) -> Option<usize> {
    match which {
        0 => (!m.coms.is_empty()).then_some(0),
        1 => m.coms.len().checked_sub(1),
        _ => m.tip("b"),
    }
}

fn add(m: &mut Model, c: Com) -> Result<usize, String> {
    if let Some(i) = m.coms.iter().position(|x| x.id == c.id) {
        let o = &m.coms[i];
        let same = o.tree == c.tree && o.msg == c.msg && o.parent == c.parent;
        if !same {
            return Err(format!("the id of {:?} is that of {:?}", c, o));
        }
        return Ok(i);
    }
    m.coms.push(c);
    Ok(m.coms.len() - 1)
}

fn ref_log(o: &Out) -> Result<Vec<String>, String> {
    let t = o.text();
    let mut l: Vec<&str> = t.lines().collect();
    if l.is_empty() {
        return Err("no heading".into());
    }
    l.remove(0);
    let n = l.len();
    l.iter()
        .enumerate()
        .map(|(i, x)| x.strip_prefix(&format!("{}: ", n - i)).map(|y| y.to_string()).ok_or_else(|| format!("line {:?}", x)))
        .collect()
}

/// All inspecting commands in a state, and every commit made so far.
fn inspect(w: &World, m: &Model, trees: &[Node], full: bool) -> Result<(), String> {
    let start = w.dump()?;
    let tree = &trees[m.tree];
    let quiet = |s: &Snap, args: &[&str], adds: bool| -> Result<Out, String> {
        let before = w.dump()?;
        let o = s.run(args);
        let after = w.dump()?;
        let objs = if adds { before.objects.iter().all(|(k, v)| after.objects.get(k) == Some(v)) } else { before.objects == after.objects };
        if !objs || before.refs != after.refs || before.state != after.state {
            return Err(format!("{} changed the repository from {} to {}", args.join(" "), before.brief(), after.brief()));
        }
        Ok(o)
    };
    let chain = |mut c: usize| {
        let mut v = Vec::new();
        loop {
            let x = &m.coms[c];
            v.push(Commit { id: x.id.clone(), msg: x.msg.clone(), old: x.parent.map(|p| &m.coms[p].tree), new: &x.tree });
            match x.parent {
                Some(p) => c = p,
                None => return v,
            }
        }
    };
    let s = &w.snap;
    let tip = m.tip(&m.head);
    // the first line of status names HEAD
    let o = quiet(s, &["status"], true)?;
    if !o.ok() {
        return Err(format!("status: {}", o.show()));
    }
    let want = match tip {
        Some(c) => format!("HEAD: {} [{}]", m.head, &m.coms[c].id[..8]),
        None => format!("HEAD: {} (no commits on {})", m.head, m.head),
    };
    if o.text().lines().next() != Some(&want) {
        return Err(format!("status starts with {:?}, expected {:?}", o.text().lines().next(), want));
    }
    for (args, good) in [(&["compare"][..], tip.is_some()), (&["compare", "-s"], tip.is_some()), (&["debug", "walk-fs-tree", "."], true), (&["show"], tip.is_some())] {
        let o = quiet(s, args, args[0] == "compare")?;
        if o.ok() != good {
            return Err(format!("{}: {}", args.join(" "), o.show()));
        }
        if args[0] == "compare" && args.len() == 1 {
            if let Some(c) = tip {
                let got = Changes::parse(&o.text(), false)?;
                let want = Changes::between(&m.coms[c].tree, tree);
                if got != want {
                    return Err(format!("compare: {}\nexpected {}", got.show(), want.show()));
                }
            }
        }
    }
    let o = quiet(s, &["debug", "get-head"], false)?;
    if o.text() != format!("head: Some({:?})\n", m.head) {
        return Err(format!("get-head: {}", o.show()));
    }
    let o = quiet(s, &["log"], false)?;
    match tip {
        Some(c) => check_log(&o, &chain(c))?,
        None => {
            if o.ok() {
                return Err(format!("log on a branch without commits: {}", o.show()));
            }
        }
    }
    for r in m.names() {
        let want: Vec<String> = m.refs.iter().rev().filter(|x| x.0 == r && x.1.is_none()).map(|x| m.coms[x.2].id.clone()).collect();
        let o = quiet(s, &["ref", "log", &r], false)?;
        if !o.ok() || ref_log(&o)? != want {
            return Err(format!("ref log {}: {}\nexpected {:?}", r, o.show(), want));
        }
        let o = quiet(s, &["debug", "reflog-get", &r], false)?;
        if o.text().trim() != want[0] {
            return Err(format!("reflog-get {}: {}\nexpected {:?}", r, o.show(), want));
        }
        if full || r != m.head {
            check_log(&quiet(s, &["log", &want[0]], false)?, &chain(m.tip(&r).unwrap()))?;
        }
    }
    for (i, c) in m.coms.iter().enumerate() {
        let t = tree_of(w, &c.id)?;
        let got = w.fetched(&t)?;
        if got != c.tree {
            return Err(format!("commit {} {} now fetches as {:?}, it was {:?}", i, c.id, got, c.tree));
        }
        if full {
            let o = quiet(s, &["show", &c.id], false)?;
            if !o.ok() {
                return Err(format!("show: {}", o.show()));
            }
            quiet(s, &["debug", "walk-tree", &t], false)?;
            quiet(s, &["debug", "pretty-print", &c.id], false)?;
        }
    }
    if w.tree()? != *tree {
        return Err("inspecting changed the working tree".into());
    }
    agrees(w, m, &start.objects)
}

fn starts(ctx: &Ctx, trees: &[Node]) -> Result<Vec<State>, String> {
    let all = ops();
    let find = |want: &str| all.iter().position(|o| format!("{:?}", o) == want).unwrap_or_else(|| panic!("{}", want));
    let mut v = Vec::new();
    let t = |i: usize| find(&format!("Tree({})", i));
    let (cm, cb) = (3, 5);
    for seq in [vec![], vec![cm, t(1), cm, cb, find("Push(0, \"master\", \"origin\")"), t(0)], vec![cb, t(2), cb, find("SetHead(\"b\")"), cm]] {
        let w = World::new(ctx);
        w.set_tree(&trees[0]);
        let mut m = Model { tree: 0, head: "master".into(), refs: vec![], coms: vec![] };
        for o in &seq {
            m = step(&w, &m, &all[*o], trees)?.ok_or("start does not apply")?;
        }
        v.push(State { files: files_of(&w), m, path: seq });
    }
    Ok(v)
}

fn run(ctx: &Ctx) {
    let trees = trees();
    let all = ops();
    let mut level = match starts(ctx, &trees) {
        Ok(v) => v,
        Err(e) => return ctx.violate("starting repositories", e, vec![]),
    };
    let depth = ctx.pick(3, 4);
    let full_to = ctx.pick(1, 2);
    let seen: Mutex<HashSet<String>> = Default::default();
    for dep in 0..=depth {
        let next: Mutex<Vec<State>> = Default::default();
        let show = |p: &[usize]| p.iter().map(|&o| format!("{:?}", all[o])).collect::<Vec<_>>().join("; ");
        ctx.par(&level, |s| format!("{:?}", s.path), |s| {
            let w = restore(ctx, s, &trees);
            inspect(&w, &s.m, &trees, dep < full_to).map_err(|e| format!("after {}: {}", show(&s.path), e))?;
            ctx.count("states", 1);
            if ctx.distinct(s.m.key().as_bytes()) && s.path.len() % 3 == 2 {
                ctx.sample(show(&s.path));
            }
            ctx.count("traces_validated_against_impl", 1);
            drop(w);
            if dep == depth {
                return Ok(());
            }
            for (i, op) in all.iter().enumerate() {
                let w = restore(ctx, s, &trees);
                let Some(m) = step(&w, &s.m, op, &trees).map_err(|e| format!("after {}; {:?}: {}", show(&s.path), op, e))? else { continue };
                ctx.count("transitions", 1);
                ctx.eval(1);
                let fresh = seen.lock().unwrap().insert(m.key());
                if dep + 1 >= full_to + 1 && !fresh {
                    continue;
                }
                let mut path = s.path.clone();
                path.push(i);
                next.lock().unwrap().push(State { files: files_of(&w), m, path });
            }
            Ok(())
        });
        if ctx.nviolations() > 0 {
            return;
        }
        level = next.into_inner().unwrap();
        level.sort_by(|a, b| a.path.cmp(&b.path));
        ctx.set_count(&format!("states_at_depth_{}", dep + 1), level.len() as u64);
    }
    long(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    clean_pairs(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    chains(ctx);
}

/// Logs of histories too long to be made by committing.
fn chains(ctx: &Ctx) {
    let mut lens: Vec<usize> = vec![1, 2, 9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2500];
    if !ctx.quick() {
        lens.extend([4095, 4096, 4097, 10_000, 20_000]);
    }
    ctx.par(&lens, |n| format!("chain of {} commits", n), |&n| {
        let w = World::new(ctx);
        let mut c = vx::craft::Crafted::default();
        let contents: Vec<String> = (0..3).map(|i| format!("{}\n", i)).collect();
        let trees: Vec<_> = contents.iter().map(|x| { let b = c.file(x.as_bytes()); c.dir(&[("a", b)]) }).collect();
        let nodes: Vec<Node> = contents.iter().map(|x| d(&[("a", f(x))])).collect();
        let mut ids: Vec<vx::craft::Id> = Vec::new();
        for i in 0..n {
            let parent: Vec<_> = ids.last().copied().into_iter().collect();
            ids.push(c.commit(trees[i % 3], &parent, &format!("m{}", i)));
        }
        c.store(&w.db())?;
        let text: Vec<String> = ids.iter().map(vx::craft::text).collect();
        w.set_tree(&nodes[(n - 1) % 3]);
        // every entry of the ref log too
        {
            let mut conn = vx::db::open(&w.db())?;
            let t = conn.transaction().map_err(|e| e.to_string())?;
            for k in &ids {
                let mut key = vec![1u8];
                key.extend(k);
                t.execute("INSERT INTO reflog(refname, remote, key) VALUES ('master', NULL, ?)", rusqlite::params![key]).map_err(|e| e.to_string())?;
            }
            t.commit().map_err(|e| e.to_string())?;
        }
        let start = w.dump()?;
        let commits: Vec<Commit> = (0..n).rev().map(|i| Commit { id: text[i].clone(), msg: format!("m{}", i), old: if i == 0 { None } else { Some(&nodes[(i - 1) % 3]) }, new: &nodes[i % 3] }).collect();
        let short = |e: String| e.chars().take(2000).collect::<String>();
        check_log(&w.snap.run(&["log"]), &commits).map_err(short)?;
        let from = n / 2;
        check_log(&w.snap.run(&["log", &text[from]]), &commits[n - 1 - from..]).map_err(short)?;
        let mut want = text.clone();
        want.reverse();
        if ref_log(&w.snap.good(&["ref", "log"])?)? != want {
            return Err("ref log is not the list of entries".into());
        }
        let o = w.snap.good(&["status"])?;
        if !o.text().starts_with(&format!("HEAD: master [{}]\n", &text[n - 1][..8])) || o.text().lines().count() != 1 {
            return Err(format!("status: {}", o.show()));
        }
        if w.dump()? != start {
            return Err("looking changed the repository".into());
        }
        // one more commit goes on top
        w.set_tree(&nodes[n % 3]);
        let top = w.commit("top")?;
        let after = w.dump()?;
        if after.log("master")[1..] != want[..] || after.refs.len() != n + 1 {
            return Err("a commit changed earlier entries of the ref log".into());
        }
        let o = w.snap.good(&["log"])?;
        let mut commits = commits;
        commits.insert(0, Commit { id: top, msg: "top".into(), old: Some(&nodes[(n - 1) % 3]), new: &nodes[n % 3] });
        check_log(&o, &commits).map_err(short)?;
        ctx.distinct(format!("chain {}", n).as_bytes());
        Ok(())
    });
}

/// Long histories on several branches.
fn long(ctx: &Ctx) {
    let n = ctx.pick(40, 300);
    let jobs: Vec<usize> = (1..=6).collect();
    ctx.par(&jobs, |k| format!("{} commits over {} branches", n, k), |&k| {
        let w = World::new(ctx);
        let mut m = Model { tree: 0, head: "master".into(), refs: vec![], coms: vec![] };
        let names = ["master", "b", "x/y", "é", "a b", "-"];
        for i in 0..n {
            let t = d(&[("n", f(format!("{}\n", i))), (&format!("f{}", i % 7), f("x\n")), ("d", d(&[("x", f(format!("{}\n", i / 5)))]))]);
            w.set_tree(&t);
            let name = names[(i * i + i / 3) % k];
            let msg = format!("commit {}", i);
            if i % 2 == 0 {
                w.snap.good(&["debug", "set-head", "--", name])?;
                m.head = name.to_string();
                w.snap.good(&["commit", "-m", &msg])?;
            } else {
                w.snap.good(&["commit", "-m", &msg, "--", name])?;
            }
            let id = w.dump()?.tip(name).ok_or("no tip")?;
            let c = Com { id, parent: m.tip(name), tree: t, msg };
            let j = add(&mut m, c)?;
            m.refs.push((name.to_string(), None, j));
        }
        agrees(&w, &m, &Default::default())?;
        let work = w.tree()?;
        m.tree = 0;
        inspect(&w, &m, &[work], false)
    });
}

/// HEAD can be switched exactly when nothing differs.
fn clean_pairs(ctx: &Ctx) {
    let trees = enumerate(&["a", "b"], &[b"x", b"y"], 2, ctx.pick(2, 3));
    let idx: Vec<usize> = (0..trees.len()).collect();
    ctx.par(&idx, |&i| format!("switching from {}", trees[i].id()), |&i| {
        let w = World::new(ctx);
        w.set_tree(&trees[i]);
        w.commit("m")?;
        for (j, t) in trees.iter().enumerate() {
            ctx.eval(1);
            w.set_tree(t);
            let before = w.dump()?;
            let to = format!("n{}", j);
            let o = w.snap.run(&["checkout-head", &to]);
            let after = w.dump()?;
            let switched = after.head().as_deref() == Some(&to);
            let same = after.head() == before.head();
            if trees[i] == *t && !switched || trees[i] != *t && !same || after.refs != before.refs || w.tree()? != *t {
                return Err(format!("committed {:?}, working {:?}: HEAD went from {:?} to {:?}\n{}", trees[i], t, before.head(), after.head(), o.show()));
            }
            if switched {
                w.snap.good(&["debug", "set-head", "master"])?;
            }
            ctx.distinct(format!("switch {:?} {:?}", trees[i], t).as_bytes());
        }
        Ok(())
    });
}
