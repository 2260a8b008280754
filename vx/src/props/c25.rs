//! Files that change while a command reads them: what is stored is what was there, and nothing is
//! missed afterwards.
use super::common::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vx::run::Out;
use vx::sys::set_mtime;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C25",
    level: "exploration",
    rule: "every command that reads the working tree (insert, commit, status, compare, compare --stat, checkout-head; with a cold and a warm cache) x every change that someone else makes meanwhile (replacing a file by rename with as much, more or less content, also at the same time; overwriting it in place; adding, removing, moving files and directories; exchanging directories; a file becoming a directory and back; changes that are taken back) x every file-system call on the tree before which it happens; changes of two steps at every pair of such calls. A snapshot has to hold, for every path, something that was there at some time; a comparison has to list what is right for one of the times, path by path; failing has to leave the refs alone; and afterwards status, compare, commit and fetch have to be exact about what is there then. Non-trivial: distinct (command, change, place).",
    assumptions: &["someone else's change is atomic where the file system makes it so (a rename, one write of a small file), and gives files it changes in place other times", "no two contents of a file share inode, size and modification time"],
    run,
};

/// `now`: the path in the tree; `new`: something prepared next to it.
struct Edit {
    name: &'static str,
    /// Operations, in groups that happen at the same time.
    steps: Vec<Vec<String>>,
    /// Operations once the command is done.
    later: Vec<String>,
    /// Whether files are seen with contents they had only partly.
    in_place: Option<&'static str>,
    /// Whether only files are concerned, so that comparisons can be judged.
    files: bool,
}

fn tree0(small: bool) -> Node {
    let mut t = d(&[("a", f("00000\n")), ("d", d(&[("b", f("in d\n"))]))]);
    if !small {
        t.put("big", f(pattern(100_000, 1)));
        t.put("d/e", empty());
        t.put("z", f("stays\n"));
    }
    t
}

const NEW: &[(&str, &[u8])] = &[("same", b"11111\n"), ("longer", b"1111111111\n"), ("shorter", b"1\n"), ("none", b"")];

/// Prepares what the edits need next to the working tree, with times of their own.
fn prepare(w: &World) -> PathBuf {
    let p = w.dir.join("new");
    std::fs::create_dir(&p).unwrap();
    for (n, c) in NEW {
        f(c).write(&p.join(n));
    }
    f(pattern(100_000, 2)).write(&p.join("big"));
    d(&[("n", f("new\n")), ("m", empty())]).write(&p.join("dir"));
    d(&[("b", f("other\n")), ("c", f("c\n"))]).write(&p.join("d"));
    // what a was, with its time
    let a = w.repo.join("a");
    std::fs::copy(&a, p.join("old")).unwrap();
    let m = std::fs::metadata(&a).unwrap();
    use std::os::unix::fs::MetadataExt;
    set_mtime(&p.join("old"), m.mtime(), m.mtime_nsec());
    // another file of the same size and time
    f("twin.\n").write(&p.join("twin"));
    set_mtime(&p.join("twin"), m.mtime(), m.mtime_nsec());
    // the same at another time
    f(std::fs::read(&a).unwrap()).write(&p.join("again"));
    p
}

fn edits(repo: &Path, new: &Path, small: bool) -> Vec<Edit> {
    let r = |p: &str| repo.join(p).to_str().unwrap().to_string();
    let n = |p: &str| new.join(p).to_str().unwrap().to_string();
    let op = |o: &str, a: &str, b: &str| format!("{} {} {}", o, a, b);
    let mut v = Vec::new();
    let mut one = |name, ops: Vec<String>, in_place, files| v.push(Edit { name, steps: vec![ops], later: vec![], in_place, files });
    if !small {
        one("a replaced", vec![op("m", &n("same"), &r("a"))], None, true);
        one("a replaced by more", vec![op("m", &n("longer"), &r("a"))], None, true);
        one("a replaced by less", vec![op("m", &n("shorter"), &r("a"))], None, true);
        one("a replaced by nothing", vec![op("m", &n("none"), &r("a"))], None, true);
        one("big replaced", vec![op("m", &n("big"), &r("big"))], None, true);
        one("big replaced by less", vec![op("m", &n("longer"), &r("big"))], None, true);
        one("a replaced by much", vec![op("m", &n("big"), &r("a"))], None, true);
        one("a overwritten", vec![op("w", &n("same"), &r("a"))], Some("a"), true);
        one("a overwritten by more", vec![op("w", &n("longer"), &r("a"))], Some("a"), true);
        one("a overwritten by less", vec![op("w", &n("shorter"), &r("a"))], Some("a"), true);
        one("a emptied", vec![op("w", &n("none"), &r("a"))], Some("a"), true);
        one("big overwritten", vec![op("w", &n("big"), &r("big"))], Some("big"), true);
        one("big overwritten by less", vec![op("w", &n("longer"), &r("big"))], Some("big"), true);
        one("a overwritten by much", vec![op("w", &n("big"), &r("a"))], Some("a"), true);
        one("file added", vec![op("m", &n("same"), &r("d/n"))], None, true);
        one("a removed", vec![op("u", &r("a"), "")], None, true);
        one("d/b removed", vec![op("u", &r("d/b"), "")], None, true);
        one("a moved", vec![op("m", &r("a"), &r("d/a2"))], None, true);
        one("d/b moved over a", vec![op("m", &r("d/b"), &r("a"))], None, true);
        one("directory added", vec![op("m", &n("dir"), &r("d2"))], None, false);
        one("directory removed", vec![op("d", &r("d/e"), "")], None, false);
        one("a replaced by a file of its time", vec![op("m", &n("twin"), &r("a"))], None, true);
        one("a becomes a directory", vec![op("u", &r("a"), ""), op("m", &n("dir"), &r("a"))], None, false);
        one("directory becomes a file", vec![op("d", &r("d/e"), ""), op("m", &n("same"), &r("d/e"))], None, false);
        one("directory replaced", vec![op("m", &r("d"), &n("away")), op("m", &n("d"), &r("d"))], None, false);
        one("directory moved", vec![op("m", &r("d"), &r("dd"))], None, false);
    }
    if !small {
        for (what, by) in [("a overwritten, back later", "same"), ("a overwritten by more, back later", "longer")] {
            v.push(Edit { name: what, steps: vec![vec![op("w", &n(by), &r("a"))]], later: vec![op("w", &n("old"), &r("a"))], in_place: Some("a"), files: true });
        }
        v.push(Edit { name: "a replaced, back later", steps: vec![vec![op("m", &r("a"), &n("kept")), op("m", &n("same"), &r("a"))]], later: vec![op("m", &n("kept"), &r("a"))], in_place: None, files: true });
        v.push(Edit { name: "a replaced by a file of its time, back later", steps: vec![vec![op("m", &r("a"), &n("kept")), op("m", &n("twin"), &r("a"))]], later: vec![op("m", &r("a"), &n("twin")), op("m", &n("kept"), &r("a"))], in_place: None, files: true });
    }
    let mut two = |name, first: Vec<String>, second: Vec<String>, in_place, files| v.push(Edit { name, steps: vec![first, second], later: vec![], in_place, files });
    two("a overwritten and back", vec![op("w", &n("same"), &r("a"))], vec![op("w", &n("again"), &r("a"))], Some("a"), true);
    two("a overwritten by more and back", vec![op("w", &n("longer"), &r("a"))], vec![op("w", &n("again"), &r("a"))], Some("a"), true);
    two("a replaced twice", vec![op("m", &n("same"), &r("a"))], vec![op("m", &n("longer"), &r("a"))], None, true);
    two("a replaced and back", vec![op("m", &r("a"), &n("kept")), op("m", &n("longer"), &r("a"))], vec![op("m", &n("kept"), &r("a"))], None, true);
    two("a replaced by a file of its time and back", vec![op("m", &r("a"), &n("kept")), op("m", &n("twin"), &r("a"))], vec![op("m", &r("a"), &n("twin")), op("m", &n("kept"), &r("a"))], None, true);
    two("a removed and back", vec![op("m", &r("a"), &n("kept"))], vec![op("m", &n("kept"), &r("a"))], None, true);
    two("a and d/b exchanged", vec![op("m", &r("a"), &n("kept")), op("m", &r("d/b"), &r("a"))], vec![op("m", &n("kept"), &r("d/b"))], None, true);
    two("a overwritten twice and back", vec![op("w", &n("same"), &r("a"))], vec![op("w", &n("longer"), &r("a"))], Some("a"), true);
    v.last_mut().unwrap().later = vec![op("w", &n("old"), &r("a"))];
    let mut two = |name, first: Vec<String>, second: Vec<String>, in_place, files| v.push(Edit { name, steps: vec![first, second], later: vec![], in_place, files });
    two("d away and back", vec![op("m", &r("d"), &n("away"))], vec![op("m", &n("away"), &r("d"))], None, false);
    two("a a directory and back", vec![op("m", &r("a"), &n("kept")), op("k", &r("a"), "")], vec![op("d", &r("a"), ""), op("m", &n("kept"), &r("a"))], None, false);
    v
}

const COMMANDS: &[&[&str]] = &[&["insert", "."], &["commit", "-m", "during"], &["status"], &["compare", "-s"], &["compare"], &["checkout-head", "side"]];

fn apply(ops: &[String]) {
    for o in ops {
        let x: Vec<&str> = o.split(' ').collect();
        let r = match x[0] {
            "m" => std::fs::rename(x[1], x[2]),
            "u" => std::fs::remove_file(x[1]),
            "d" => std::fs::remove_dir(x[1]),
            "k" => std::fs::create_dir(x[1]),
            "w" => {
                use std::os::unix::fs::MetadataExt;
                let m = std::fs::metadata(x[1]).unwrap();
                let r = std::fs::read(x[1]).and_then(|c| std::fs::write(x[2], c));
                set_mtime(Path::new(x[2]), m.mtime(), m.mtime_nsec());
                r
            }
            _ => unreachable!(),
        };
        r.unwrap();
    }
}

/// A world before the command: what is committed, and a cache that knows it or not.
fn world<'a>(ctx: &'a Ctx, small: bool, warm: bool, base: &(Vec<u8>, Node, Option<String>)) -> Result<World<'a>, String> {
    let w = World::new(ctx);
    base.1.write(&w.repo);
    std::fs::write(w.db(), &base.0).unwrap();
    // Something to commit.
    f("not committed\n").write(&w.repo.join("y"));
    let _ = small;
    if warm {
        w.snap.good(&["status"])?;
    }
    Ok(w)
}

fn states(trees: &[Node], p: &str) -> Vec<Option<Node>> {
    let mut v: Vec<Option<Node>> = trees.iter().map(|t| t.get(p).map(|n| if n.is_dir() { empty() } else { n.clone() })).collect();
    v.dedup();
    v
}

fn refs(w: &World) -> Result<String, String> {
    let d = w.dump()?;
    Ok(format!("{:?} {:?}", d.refs, d.state))
}

fn one(ctx: &Ctx, small: bool, warm: bool, base: &(Vec<u8>, Node, Option<String>), cmd: &[&str], i: usize, at: &[usize]) -> Result<(), String> {
    let w = world(ctx, small, warm, base)?;
    let new = prepare(&w);
    let e = &edits(&w.repo, &new, small)[i];
    // What is there at each time: as the edits would leave it if no one was looking.
    let trees = {
        let v = World::bare(ctx);
        base.1.write(&v.repo);
        f("not committed\n").write(&v.repo.join("y"));
        let new = prepare(&v);
        let mut trees = vec![v.tree()?];
        for g in &edits(&v.repo, &new, small)[i].steps {
            apply(g);
            trees.push(v.tree()?);
        }
        trees
    };
    let mut s = w.repo.to_str().unwrap().to_string();
    for (g, k) in e.steps.iter().zip(at) {
        for o in g {
            s += &format!("|{} {}", k, o);
        }
    }
    let before = refs(&w)?;
    let o = w.snap.with("VX_ROOT", &w.dir).with("VX_EDIT", s).run(cmd);
    let there = w.tree()?;
    if !trees.contains(&there) {
        return Err(format!("(check) {:?} is none of {:?}", there, trees));
    }
    ctx.distinct(format!("{:?} {} {} {:?}", cmd, warm, e.name, at).as_bytes());
    let is_snapshot = cmd[0] == "insert" || cmd[0] == "commit";
    if !o.ok() {
        ctx.count("failed", 1);
        if refs(&w)? != before {
            return Err(format!("{} changed the refs: {}", cmd[0], o.show()));
        }
        if there == trees[0] && e.steps.len() == 1 {
            return Err(format!("{} failed though nothing changed: {}", cmd[0], o.show()));
        }
    } else if is_snapshot {
        ctx.count("snapshots_made", 1);
        let id = if cmd[0] == "insert" { vx::run::inserted_id(&o)? } else { tree_of(&w, &w.dump()?.tip("master").unwrap())? };
        let got = w.fetched(&id)?;
        judge_snapshot(&got, &trees, e, &o)?;
    } else if cmd[0] != "checkout-head" && e.files && !cmd.contains(&"-s") {
        let got = Changes::parse(&o.text(), cmd[0] == "status")?;
        judge_listing(&got, &base.1, &trees, e)?;
    }
    // From now on nothing moves, and everything has to be exact.
    let there = if there == trees[e.steps.len()] && !e.later.is_empty() {
        apply(&e.later);
        w.tree()?
    } else {
        there
    };
    let d = w.dump()?;
    let tip = d.tip(&d.head().unwrap());
    let head = if tip == base.2 {
        base.1.clone()
    } else {
        match tip {
            Some(t) => w.fetched(&tree_of(&w, &t)?)?,
            None => empty(),
        }
    };
    after(&w, &head, &there, !small)
}

fn after(w: &World, head: &Node, there: &Node, full: bool) -> Result<(), String> {
    let o = w.snap.good(&["status"])?;
    let got = Changes::parse(&o.text(), true)?;
    let want = Changes::between(head, there);
    if got != want {
        return Err(format!("status afterwards: {}\nexpected {}", got.show(), want.show()));
    }
    if full {
        let o = w.snap.good(&["compare", "-s"])?;
        let mut got: Vec<String> = o.text().lines().map(|l| l.rsplit_once("  +").map(|x| x.0).unwrap_or(l).to_string()).collect();
        got.sort();
        let want: Vec<String> = file_changes(head, there).into_iter().map(|x| x.0).collect();
        if got != want {
            return Err(format!("compare afterwards names {:?}, expected {:?}", got, want));
        }
    }
    w.snap.good(&["commit", "-m", "after"])?;
    if full {
        let d = w.dump()?;
        let id = tree_of(w, &d.tip(&d.head().unwrap()).unwrap())?;
        if w.fetched(&id)? != *there {
            return Err("a commit afterwards does not hold what is there".into());
        }
    }
    let o = w.snap.good(&["status"])?;
    if !Changes::parse(&o.text(), true)?.is_empty() {
        return Err(format!("status after a commit: {}", o.show()));
    }
    Ok(())
}

fn judge_snapshot(got: &Node, trees: &[Node], e: &Edit, o: &Out) -> Result<(), String> {
    let paths = got.paths();
    let mut all: std::collections::BTreeSet<String> = paths.keys().cloned().collect();
    for t in trees {
        all.extend(t.paths().into_keys());
    }
    for p in all {
        let ok = states(trees, &p);
        let g = paths.get(&p).map(|n| if n.is_dir() { empty() } else { n.clone() });
        if ok.contains(&g) {
            continue;
        }
        // In a directory that was exchanged or moved nothing is known about what is missing.
        if !e.files && g.is_none() {
            continue;
        }
        if let (Some(Node::F(b)), true) = (&g, e.in_place == Some(p.as_str())) {
            // Some of what was there first, and some of what was there later.
            let parts: Vec<Vec<u8>> = ok.iter().filter_map(|x| if let Some(Node::F(b)) = x { Some(b.clone()) } else { None }).collect();
            if b.len() <= parts.iter().map(|x| x.len()).max().unwrap() && b.iter().enumerate().all(|(i, c)| parts.iter().any(|x| x.get(i) == Some(c))) {
                continue;
            }
        }
        return Err(format!("the snapshot has {:?} at {}, where there was {:?}: {}", g, p, ok, o.show()));
    }
    Ok(())
}

fn judge_listing(got: &Changes, head: &Node, trees: &[Node], e: &Edit) -> Result<(), String> {
    let mut touched: Vec<String> = Vec::new();
    for t in &trees[1..] {
        for (p, n) in t.paths().into_iter().chain(trees[0].paths()) {
            let differs = trees.iter().any(|u| u.get(&p) != t.get(&p));
            if !n.is_dir() && differs && !touched.contains(&p) {
                touched.push(p);
            }
        }
    }
    let mut mixes = vec![trees[0].clone()];
    for p in &touched {
        let mut next = Vec::new();
        for m in &mixes {
            for s in states(trees, p) {
                let mut m = m.clone();
                m.remove(p);
                if let Some(n) = s {
                    m.put(p, n);
                }
                next.push(m);
            }
            if e.in_place == Some(p.as_str()) {
                let mut m = m.clone();
                m.put(p, f("parts of both"));
                next.push(m);
            }
        }
        mixes = next;
    }
    if !mixes.iter().any(|m| Changes::between(head, m) == *got) {
        return Err(format!("{} is right at no time: {:?}", got.show(), trees));
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let mut items = Vec::new();
    let mut bases = BTreeMap::new();
    for small in [false, true] {
        let w = World::new(ctx);
        let t = tree0(small);
        w.set_tree(&t);
        let tip = w.commit("base").unwrap_or_else(|e| panic!("{}", e));
        bases.insert(small, (std::fs::read(w.db()).unwrap(), t.clone(), Some(tip)));
        let new = prepare(&w);
        let es = edits(&w.repo, &new, small);
        for cmd in COMMANDS {
            for warm in [false, true] {
                if warm && cmd[0] != "status" && cmd[0] != "compare" {
                    continue;
                }
                let n = match (|| -> Result<usize, String> {
                    let w = world(ctx, small, warm, &bases[&small])?;
                    let trace = w.dir.join("trace");
                    w.snap.with("VX_ROOT", &w.dir).with("VX_TRACE", &trace).good(cmd)?;
                    let t = std::fs::read_to_string(trace).map_err(|e| e.to_string())?;
                    Ok(t.lines().filter(|l| l.splitn(4, ' ').nth(3).map_or(false, |p| (p == "r" || p.starts_with("r/")) && !p.contains(".snapcd"))).count())
                })() {
                    Ok(n) => n,
                    Err(e) => {
                        ctx.violate(&format!("undisturbed {:?}", cmd), e, vec![]);
                        return;
                    }
                };
                ctx.count("calls_on_the_tree", n as u64);
                for (i, e) in es.iter().enumerate() {
                    if e.steps.len() == 1 {
                        for k in 1..=n {
                            items.push((small, *cmd, warm, i, e.name, vec![k]));
                        }
                    } else if (small && (cmd[0] == "commit" || cmd[0] == "status")) || !ctx.quick() {
                        for k in 1..=n {
                            for l in k..=n {
                                items.push((small, *cmd, warm, i, e.name, vec![k, l]));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.set_count("schedules", items.len() as u64);
    ctx.par(
        &items,
        |x| format!("{} ({}{}): {} before call {:?}", x.1.join(" "), if x.0 { "small tree, " } else { "" }, if x.2 { "warm cache" } else { "cold cache" }, x.4, x.5),
        |x| one(ctx, x.0, x.2, &bases[&x.0], x.1, x.3, &x.5),
    );
    ctx.sample("e.g. commit, while a is replaced before the 12th file-system call on the tree".to_string());
}
