//! Repositories and ids of this release stay valid.
use super::common::*;
use serde_cbor::Value;
use std::collections::BTreeMap;
use vx::db::{dump, objects, user_key};
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C21",
    level: "exploration",
    rule: "every tree of at most N entries over the alphabets, every tree of the sweeps (names, counts, depths, contents) and every history of commits from the list against the ids recorded for this release; every object, ref and id of the recorded repositories (one written by this release, one by the original program) through every reading command, rewritten from scratch, and extended. Non-trivial: distinct trees, histories and (repository, id, command).",
    assumptions: &["the recorded ids and repositories in fixtures/ were written by this release"],
    run,
};

fn generating() -> bool {
    std::env::var("VX_PART").map(|x| x.starts_with("gen")).unwrap_or(false)
}

/// Keys an object names.
fn keys(bytes: &[u8]) -> Result<Vec<Vec<u8>>, String> {
    let v: Value = serde_cbor::from_slice(bytes).map_err(|e| e.to_string())?;
    let Value::Map(m) = v else { return Err("object is not a map".into()) };
    let Some(Value::Array(a)) = m.get(&Value::Text("keys".into())) else { return Err("object has no keys".into()) };
    let mut r = Vec::new();
    for k in a {
        let Value::Map(k) = k else { return Err("key is not a map".into()) };
        let Some(Value::Array(b)) = k.get(&Value::Text("Blake3B".into())) else { return Err("key is of another kind".into()) };
        let mut x = vec![1u8];
        for n in b {
            let Value::Integer(n) = n else { return Err("key has odd bytes".into()) };
            x.push(*n as u8);
        }
        r.push(x);
    }
    Ok(r)
}

fn raw_key(text: &str) -> Vec<u8> {
    let mut bits = Vec::new();
    for c in text[1..].bytes() {
        let v = if c >= b'a' { c - b'a' } else { c - b'2' + 26 };
        for i in (0..5).rev() {
            bits.push(v >> i & 1);
        }
    }
    let mut k = vec![1u8];
    for b in bits.chunks(8).filter(|b| b.len() == 8).take(32) {
        k.push(b.iter().fold(0, |a, x| a << 1 | x));
    }
    k
}

/// The ids of several trees, stored at once as entries of one directory.
fn ids_of(ctx: &Ctx, trees: &[Node]) -> Result<Vec<String>, String> {
    let w = World::new(ctx);
    let top = dir_of(trees.len(), |i| (format!("t{:06}", i), trees[i].clone()));
    let p = w.dir.join("all");
    top.write(&p);
    let id = w.snap.insert(&p)?;
    let o = objects(&w.db())?;
    let bytes = o.get(&raw_key(&id)).ok_or_else(|| format!("{} is not in the database", id))?;
    let ks = keys(bytes)?;
    if ks.len() != trees.len() {
        return Err(format!("{} entries stored as {} keys", trees.len(), ks.len()));
    }
    Ok(ks.iter().map(|k| user_key(k)).collect())
}

/// Named groups of trees whose ids are recorded.
fn groups() -> Vec<(String, Vec<Node>)> {
    let mut v = Vec::new();
    let mut add = |name: &str, ts: Vec<Node>, n: usize| {
        for (i, c) in ts.chunks(n).enumerate() {
            v.push((format!("{} {}", name, i), c.to_vec()));
        }
    };
    add("two names", enumerate(&["a", "b"], &[b"", b"x"], 4, 4), 100);
    add("odd names", enumerate(&["é", "a b", "-"], &[b"x\n"], 3, 3), 100);
    add("order", enumerate(&["a", "B", "a.b", "a0", "Z"], &[b"1"], 2, 3), 100);
    add("contents", odd_contents().into_iter().map(|x| Node::F(x.1)).collect(), 8);
    let mut lens: Vec<Node> = (0..400).map(|n| f(pattern(n, 9))).collect();
    lens.extend((0..60).map(|n| f(pattern(32768 - 30 + n, 10))));
    lens.extend((0..60).map(|n| f(pattern(65536 - 30 + n, 11))));
    add("lengths", lens, 60);
    let sw = sweep_trees(&[0, 1, 2, 3, 15, 16, 17, 22, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300], &[1, 2, 3, 5, 10, 22, 23, 24, 25, 30]);
    add("sweep", sw.into_iter().map(|x| x.1).collect(), 20);
    add("more names", enumerate(&["a", "b", "c"], &[b"", b"x"], 4, 4), 200);
    add("deep", enumerate(&["a", "b"], &[b"x"], 6, 6), 200);
    let mut lens: Vec<Node> = (400..5000).map(|n| f(pattern(n, 9))).collect();
    for b in [16384usize, 32768, 49152, 65536, 98304, 131072] {
        lens.extend((0..200).map(|n| f(pattern(b - 100 + n, 12))));
    }
    add("more lengths", lens, 200);
    let big: Vec<Node> = [1usize, 2, 3, 5, 8, 13, 21].iter().map(|m| f(pattern(m * 1_000_003, *m as u64))).collect();
    add("big", big, 1);
    v
}

/// Groups of which only one digest of all ids is recorded.
fn digest_groups() -> Vec<(String, Vec<Node>)> {
    let mut v = Vec::new();
    let mut add = |name: &str, ts: Vec<Node>, n: usize| {
        for (i, c) in ts.chunks(n).enumerate() {
            v.push((format!("{} {}", name, i), c.to_vec()));
        }
    };
    add("five", enumerate(&["a", "b", "c"], &[b"", b"x"], 5, 5), 500);
    add("seven", enumerate(&["a", "b"], &[b"x"], 7, 7), 500);
    add("ordered", enumerate(&["a", "B", "a.b", "a0", "Z", "é"], &[b"1"], 3, 4), 500);
    add("every length", (5000..40000).step_by(7).map(|n| f(pattern(n, 13))).collect(), 200);
    add("megabytes", (1..60).map(|n| f(pattern(n * 100_003, 100 + n as u64))).collect(), 4);
    add("runs", (1..200).map(|n| f(vec![n as u8; n * 2000])).collect(), 20);
    v
}

/// A step of a history: commit a tree, in a ref, with a message; or another command.
#[derive(Clone, Debug)]
enum Step {
    Commit(Node, String, String),
    Sub(Node, String),
    Head(String),
    Tag(String, Option<String>),
    Merge(usize),
    Back(usize, String),
}

fn histories() -> Vec<(String, Vec<Step>)> {
    use Step::*;
    let t: Vec<Node> = vec![
        empty(),
        d(&[("a", f("1\n"))]),
        d(&[("a", f("1\n2\n")), ("s", d(&[("b", f("")), ("e", empty())]))]),
        d(&[("s", d(&[("b", f("3"))])), ("big", f(pattern(70_000, 1)))]),
        d(&[("é ö", d(&[("-x", f("odd\n")), ("#", empty())])), (".h", f("\u{1}"))]),
    ];
    let m = |s: &str| s.to_string();
    let mut v: Vec<(String, Vec<Step>)> = Vec::new();
    let messages = [
        "", "m", "two\nlines\n", "é 日本語 😀", " lead and trail ", "\t", "\"quoted\" 'single' \\", "x", "\u{1}", "\u{fffd}",
    ];
    for s in messages {
        v.push((format!("message {:?}", s), vec![Commit(t[1].clone(), m("master"), m(s))]));
    }
    for n in [23usize, 24, 25, 255, 256, 257, 1000, 65535, 65536, 70000] {
        v.push((format!("message of {}", n), vec![Commit(t[1].clone(), m("master"), "y".repeat(n))]));
    }
    // every sequence of trees up to length 3
    for a in 0..t.len() {
        v.push((format!("tree {}", a), vec![Commit(t[a].clone(), m("master"), m("a"))]));
        for b in 0..t.len() {
            v.push((format!("trees {} {}", a, b), vec![Commit(t[a].clone(), m("master"), m("a")), Commit(t[b].clone(), m("master"), m("b"))]));
        }
    }
    for n in [3usize, 10, 30] {
        v.push((format!("chain of {}", n), (0..n).map(|i| Commit(t[i % 5].clone(), m("master"), format!("commit {}", i))).collect()));
    }
    v.push((
        "refs".into(),
        vec![
            Commit(t[1].clone(), m("master"), m("1")),
            Commit(t[2].clone(), m("other/branch"), m("2")),
            Commit(t[3].clone(), m("master"), m("3")),
            Head(m("other/branch")),
            Sub(t[4].clone(), m("sub tree")),
            Tag(m("tag é"), None),
            Tag(m("master"), Some(m("origin"))),
            Merge(2),
            Merge(3),
            Back(0, m("master")),
            Commit(t[0].clone(), m("master"), m("last")),
            Head(m("third")),
            Commit(t[2].clone(), m("third"), m("third")),
        ],
    ));
    v
}

/// Plays a history, returning every id it makes. (The original program doesn't find full ids.)
fn play(w: &World, steps: &[Step]) -> Result<Vec<String>, String> {
    let mut ids = Vec::new();
    for s in steps {
        match s {
            Step::Commit(t, r, m) => {
                w.set_tree(t);
                let r0 = format!("--message={}", m);
                w.snap.good(&["commit", &r0, r])?;
                ids.push(user_key(&w.dump()?.refs.last().ok_or("no ref")?.2));
            }
            Step::Sub(t, m) => {
                w.set_tree(&d(&[("below", t.clone()), ("by", f("not part of it"))]));
                let p = w.repo.join("below");
                w.snap.good(&["commit", "-m", m, "-p", p.to_str().unwrap()])?;
                ids.push(user_key(&w.dump()?.refs.last().ok_or("no ref")?.2));
            }
            Step::Head(h) => {
                w.snap.good(&["debug", "set-head", h])?;
            }
            Step::Tag(n, remote) => {
                let k = ids.last().unwrap()[..40].to_string();
                match remote {
                    None => w.snap.good(&["ref", "update", &k, n])?,
                    Some(r) => w.snap.good(&["debug", "reflog-push", &k, n, r])?,
                };
            }
            Step::Merge(n) => {
                let w_objects = objects(&w.db())?;
                let tree = user_key(&keys(&w_objects[&raw_key(&ids[0])])?[0])[..40].to_string();
                let mut a = vec!["debug".to_string(), "commit-tree".into(), tree];
                a.extend(ids.iter().take(*n).map(|x| x[..40].to_string()));
                w.snap.good(&a)?;
                let now = objects(&w.db())?;
                let new: Vec<_> = now.keys().filter(|k| !w_objects.contains_key(*k)).collect();
                if new.len() != 1 {
                    return Err(format!("commit-tree made {} objects", new.len()));
                }
                ids.push(user_key(new[0]));
            }
            Step::Back(i, r) => {
                let k = ids[*i][..40].to_string();
                w.snap.good(&["ref", "update", &k, r])?;
            }
        }
    }
    Ok(ids)
}

fn recorded(ctx: &Ctx, name: &str) -> Result<BTreeMap<String, String>, String> {
    let p = ctx.fixtures.join(name);
    let t = std::fs::read_to_string(&p).map_err(|e| format!("{:?}: {}", p, e))?;
    Ok(t.lines().filter_map(|l| l.split_once('\t').map(|(a, b)| (a.to_string(), b.to_string()))).collect())
}

fn history_digest(w: &World, ids: &[String]) -> Result<String, String> {
    let d = w.dump()?;
    let o = objects(&w.db())?;
    let mut all = Vec::new();
    for (k, v) in &o {
        all.extend(k);
        all.extend((v.len() as u64).to_le_bytes());
        all.extend(v);
    }
    let refs = format!("{:?} {:?}", d.refs, d.state);
    Ok(format!("{} objects:{:016x}/{} refs:{:016x}", ids.join(" "), vx::hash64(&all), o.len(), vx::hash64(refs.as_bytes())))
}

fn run(ctx: &Ctx) {
    if generating() {
        generate(ctx);
        return;
    }
    trees(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    commits(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    predicted(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    stored(ctx);
    if !ctx.quick() && ctx.nviolations() == 0 {
        digests(ctx);
    }
}

fn trees(ctx: &Ctx) {
    let rec = match recorded(ctx, "tree-ids.txt") {
        Ok(x) => x,
        Err(e) => return ctx.violate("recorded tree ids", e, vec![]),
    };
    let gs = groups();
    ctx.set_count("recorded_trees", gs.iter().map(|x| x.1.len() as u64).sum());
    ctx.par(&gs, |g| format!("trees {}", g.0), |(name, ts)| {
        let got = ids_of(ctx, ts)?;
        for (i, id) in got.iter().enumerate() {
            let k = format!("{} #{}", name, i);
            match rec.get(&k) {
                Some(x) if x == id => {}
                Some(x) => return Err(format!("{:?} now has the id {}, it had {}", ts[i], id, x)),
                None => return Err(format!("no id recorded for {} {:?}", k, ts[i])),
            }
            ctx.eval(1);
            ctx.distinct(format!("tree {:?} {}", ts[i].bytes(), id).as_bytes());
        }
        // the command prints the same ids
        let w = World::new(ctx);
        for i in [0, ts.len() / 2, ts.len() - 1] {
            let p = w.dir.join(format!("one{}", i));
            ts[i].write(&p);
            let id = w.snap.insert(&p)?;
            if id != got[i] {
                return Err(format!("{:?} inserted alone: {}, as an entry {}", ts[i], id, got[i]));
            }
            ctx.sample(format!("{:?} -> {}", ts[i], id));
        }
        Ok(())
    });
}

fn digests(ctx: &Ctx) {
    let rec = match recorded(ctx, "tree-digests.txt") {
        Ok(x) => x,
        Err(e) => return ctx.violate("recorded tree digests", e, vec![]),
    };
    let gs = digest_groups();
    ctx.set_count("digested_trees", gs.iter().map(|x| x.1.len() as u64).sum());
    ctx.par(&gs, |g| format!("digest of {}", g.0), |(name, ts)| {
        let got = ids_of(ctx, ts)?;
        let dg = format!("{:016x}", vx::hash64(got.join(" ").as_bytes()));
        if rec.get(name) != Some(&dg) {
            return Err(format!("the ids of {} ({:?} to {:?}) have changed: {} instead of {:?}", name, ts[0], ts[ts.len() - 1], dg, rec.get(name)));
        }
        for (t, i) in ts.iter().zip(&got) {
            ctx.eval(1);
            ctx.distinct(format!("tree {:?} {}", t.bytes(), i).as_bytes());
        }
        Ok(())
    });
}

fn commits(ctx: &Ctx) {
    let rec = match recorded(ctx, "commit-ids.txt") {
        Ok(x) => x,
        Err(e) => return ctx.violate("recorded commit ids", e, vec![]),
    };
    let hs = histories();
    ctx.set_count("recorded_histories", hs.len() as u64);
    ctx.par(&hs, |h| format!("history {}", h.0), |(name, steps)| {
        let w = World::new(ctx);
        let ids = play(&w, steps)?;
        let got = history_digest(&w, &ids)?;
        match rec.get(name) {
            Some(x) if *x == got => {}
            x => return Err(format!("history {}: {}\nrecorded: {:?}", name, got, x)),
        }
        ctx.distinct(format!("history {}", name).as_bytes());
        Ok(())
    });
}

/// Messages that are easily taken for others.
fn odd_messages() -> Vec<String> {
    let mut v: Vec<String> = vec!["".into(), "a".into()];
    let bits = ["\n", "\r", "\r\n", "\t", " ", "\0", "\u{1}", "\u{1b}[31m", "\u{7f}", "\u{85}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{feff}", "e\u{301}", "é", "\u{fb01}", "😀", "\u{10ffff}", "\\", "\\n", "\"", "#", "-", "--", "'", "%", "{}", "A"];
    for b in bits {
        // (an argument can't hold a zero byte)
        if b == "\0" {
            continue;
        }
        for form in ["{}", "{}a", "a{}", "a{}b", "a{}{}b", "{}{}", "a\n{}", "a\n{}\nb", "a{}\nb"] {
            v.push(form.replace("{}", b));
        }
    }
    for n in [0x17usize, 0x18, 0xff, 0x100, 0xffff, 0x10000] {
        v.push("é".repeat(n / 2) + &"x".repeat(n % 2));
    }
    v.sort();
    v.dedup();
    v
}

/// Ids worked out from the encoding itself.
fn predicted(ctx: &Ctx) {
    let raw = |id: &vx::craft::Id| vx::craft::text(id);
    let ms = odd_messages();
    let chunks: Vec<Vec<String>> = ms.chunks(8).map(|c| c.to_vec()).collect();
    ctx.set_count("predicted_messages", ms.len() as u64);
    ctx.par(&chunks, |c| format!("messages {:?}", c), |c| {
        let w = World::new(ctx);
        let mut want = vx::craft::Crafted::default();
        let a = want.file(b"1\n");
        let tree = want.dir(&[("a", a)]);
        w.set_tree(&d(&[("a", f("1\n"))]));
        let mut parents = Vec::new();
        for m in c {
            w.snap.good(&["commit", &format!("--message={}", m)])?;
            let id = want.commit(tree, &parents, m);
            let got = w.dump()?.tip("master").ok_or("no ref")?;
            if got != raw(&id) {
                return Err(format!("the commit with the message {:?} is {}, expected {}", m.chars().take(200).collect::<String>(), got, raw(&id)));
            }
            parents = vec![id];
            ctx.eval(1);
            ctx.distinct(format!("message {:?}", m).as_bytes());
        }
        if w.dump()?.objects.len() != want.objects.iter().map(|x| x.0).collect::<std::collections::BTreeSet<_>>().len() {
            return Err("other objects than expected".into());
        }
        Ok(())
    });
    fn craft(c: &mut vx::craft::Crafted, n: &Node) -> vx::craft::Id {
        match n {
            Node::F(b) => c.file(b),
            Node::D(m) => {
                let e: Vec<(&str, vx::craft::Id)> = m.iter().map(|(k, v)| (k.as_str(), craft(c, v))).collect();
                c.dir(&e)
            }
        }
    }
    let mut ts = sweep_trees(&ctx.pick(vec![511, 512, 513, 1000, 1024, 4095, 4096, 4097, 8191, 8192], (500..5000).step_by(37).chain([8192, 16384, 32767, 32768]).collect()), &ctx.pick(vec![31, 32, 33, 63, 64, 65], (1..130).collect()));
    ts.retain(|t| t.1.paths().values().all(|x| if let Node::F(b) = x { b.len() <= 1024 } else { true }));
    ts.extend(huge_trees(&[65535, 65536, 65537]));
    ts.extend(grid_trees(&grid_names(!ctx.quick())));
    for t in enumerate(&["a", "b"], &[b"", b"x"], ctx.pick(3, 4), ctx.pick(4, 5)) {
        ts.push((t.id(), t));
    }
    ctx.set_count("predicted_trees", ts.len() as u64);
    ctx.par(&ts, |t| format!("encoding of {}", t.0), |(name, t)| {
        let w = World::new(ctx);
        let p = w.dir.join("t");
        t.write(&p);
        let mut c = vx::craft::Crafted::default();
        let id = raw(&craft(&mut c, t));
        let got = w.snap.insert(&p)?;
        if got != id {
            return Err(format!("{} {}: {}, expected {}", name, t.id(), got, id));
        }
        ctx.eval(1);
        ctx.distinct(format!("predicted {}", id).as_bytes());
        Ok(())
    });
}

/// The trees of the history "refs" by commit.
fn expected_trees() -> Vec<Node> {
    let h = histories().into_iter().find(|x| x.0 == "refs").unwrap().1;
    let mut v: Vec<Node> = Vec::new();
    for s in &h {
        match s {
            Step::Commit(t, ..) | Step::Sub(t, _) => v.push(t.clone()),
            Step::Merge(_) => v.push(v[0].clone()),
            _ => {}
        }
    }
    v
}

/// Recorded repositories: everything in them can be read, written again, and extended.
fn stored(ctx: &Ctx) {
    let h = histories().into_iter().find(|x| x.0 == "refs").unwrap().1;
    let trees = expected_trees();
    let parts = 8;
    let jobs: Vec<(&str, usize)> = ["this", "original"].iter().flat_map(|r| (0..parts).map(move |k| (*r, k))).collect();
    ctx.par(&jobs, |(r, k)| format!("repository {} part {}", r, k), |&(name, part)| {
        let path = ctx.fixtures.join(format!("{}.db", name));
        let rec = recorded(ctx, &format!("{}.txt", name))?;
        let ids: Vec<String> = rec["ids"].split(' ').map(|x| x.to_string()).collect();
        let w = World::bare(ctx);
        std::fs::create_dir(w.repo.join(".snapcd")).unwrap();
        std::fs::copy(&path, w.db()).unwrap();
        let before = w.dump()?;
        let objs = objects(&w.db())?;
        let show = |i: usize, e: String| format!("repository of {} release, commit {} ({}): {}", name, i, ids[i], e);
        let tree_of: Vec<String> = ids.iter().map(|k| Ok(user_key(&keys(&objs[&raw_key(k)])?[0]))).collect::<Result<_, String>>()?;
        match part {
            0 => {
                for (i, t) in tree_of.iter().enumerate() {
                    let got = w.fetched(t).map_err(|e| show(i, e))?;
                    if got != trees[i] {
                        return Err(show(i, format!("fetched {:?}, expected {:?}", got, trees[i])));
                    }
                    ctx.distinct(format!("{} fetch {}", name, i).as_bytes());
                }
            }
            1 => {
                // every file of every tree by its own id, and every id by its prefix
                for (k, v) in &objs {
                    let id = user_key(k);
                    let short: usize = (4..53).find(|&n| objs.keys().filter(|x| user_key(x).starts_with(&id[..n])).count() == 1).unwrap();
                    for n in [short, 20, 52, 53] {
                        let o = w.snap.good(&["debug", "pretty-print", &id[..n]]).map_err(|e| format!("{}: {}", id, e))?;
                        for r in keys(v)? {
                            if !o.text().contains(&user_key(&r)) {
                                return Err(format!("{} does not show its key {}: {}", id, user_key(&r), o.show()));
                            }
                        }
                    }
                    let m: Value = serde_cbor::from_slice(v).map_err(|e| e.to_string())?;
                    let Value::Map(m) = m else { return Err("object".into()) };
                    match &m[&Value::Text("objtype".into())] {
                        Value::Text(t) if t.starts_with("FSItem") => {
                            let got = w.fetched(&id)?;
                            let known = trees.iter().any(|t| t == &got || t.paths().values().any(|x| x == &got));
                            if !known {
                                return Err(format!("{} fetched as {:?}, which was never stored", id, got));
                            }
                        }
                        _ => {}
                    }
                    ctx.distinct(format!("{} object {}", name, id).as_bytes());
                }
            }
            2 => {
                for (i, k) in ids.iter().enumerate() {
                    let o = w.snap.good(&["log", k]).map_err(|e| show(i, e))?;
                    // the chain of first parents
                    let mut at = raw_key(k);
                    loop {
                        let id = user_key(&at);
                        if !o.text().contains(&id) {
                            return Err(show(i, format!("log does not list {}: {}", id, o.show())));
                        }
                        match keys(&objs[&at])?.get(1) {
                            Some(p) => at = p.clone(),
                            None => break,
                        }
                    }
                    let o = w.snap.run(&["show", k]);
                    if !o.ok() && !o.text().contains("non-UTF8") || !o.text().contains(k) {
                        return Err(show(i, o.show()));
                    }
                    ctx.distinct(format!("{} log {}", name, i).as_bytes());
                }
                for (r, remote, k) in &before.refs {
                    let mut a = vec!["ref".to_string(), "log".into(), r.clone()];
                    a.extend(remote.clone());
                    let o = w.snap.good(&a)?;
                    if !o.text().contains(&user_key(k)) {
                        return Err(format!("ref log {} {:?} does not list {}: {}", r, remote, user_key(k), o.show()));
                    }
                }
                let hd = before.head().ok_or("no HEAD")?;
                if hd != rec["head"] {
                    return Err("HEAD".into());
                }
                let o = w.snap.good(&["debug", "get-head"])?;
                if !o.text().contains(&format!("{:?}", hd)) {
                    return Err(format!("HEAD was {}: {}", hd, o.show()));
                }
            }
            3 | 4 => {
                // all pairs of (working tree, stored tree)
                for (i, t) in trees.iter().enumerate() {
                    if i % 2 != part % 2 {
                        continue;
                    }
                    std::fs::copy(&path, w.db()).unwrap();
                    w.set_tree(t);
                    for (j, id) in tree_of.iter().enumerate() {
                        let o = w.snap.good(&["compare", id]).map_err(|e| show(j, e))?;
                        let want = Changes::between(&trees[j], t);
                        let empty = want == Changes::default();
                        if empty != o.text().trim().is_empty() {
                            return Err(show(j, format!("compared with {:?}, expected {:?}: {}", t, want, o.show())));
                        }
                        ctx.distinct(format!("{} compare {} {}", name, i, j).as_bytes());
                    }
                    let o = w.snap.good(&["status"])?;
                    let tip = before.tip(&before.head().unwrap()).ok_or("no tip")?;
                    let same = ids.iter().position(|x| *x == tip).map(|k| Changes::between(&trees[k], t) == Changes::default()).ok_or("the tip is unknown")?;
                    if same != (o.text().lines().count() <= 1) {
                        return Err(format!("status with {:?}: {}", t, o.show()));
                    }
                }
            }
            5 => {
                // storing the same again adds nothing
                for (i, t) in trees.iter().enumerate() {
                    let p = w.dir.join(format!("again{}", i));
                    t.write(&p);
                    let id = w.snap.insert(&p)?;
                    if name == "this" && id != tree_of[i] {
                        return Err(show(i, format!("{:?} stored again is {}, was {}", t, id, tree_of[i])));
                    }
                    if w.fetched(&id)? != *t {
                        return Err(show(i, "stored again and read back differently".into()));
                    }
                }
                let after = w.dump()?;
                if name == "this" && after != before {
                    return Err(format!("storing the same again changed the repository from {} to {}", before.brief(), after.brief()));
                }
                for (k, v) in &before.objects {
                    if after.objects.get(k) != Some(v) {
                        return Err(format!("object {} changed", user_key(k)));
                    }
                }
            }
            6 => {
                // extended
                let t = d(&[("new", f("new\n")), ("a", f("1\n"))]);
                w.set_tree(&t);
                let head = before.head().unwrap();
                w.snap.good(&["init"])?;
                w.snap.good(&["commit", "-m", "more"])?;
                let after = w.dump()?;
                let tip = after.tip(&head).ok_or("no tip")?;
                let k = keys(&objects(&w.db())?[&raw_key(&tip)])?;
                if k.get(1).map(|x| user_key(x)) != before.tip(&head) {
                    return Err("the new commit's parent is not the old tip".into());
                }
                if w.fetched(&user_key(&k[0]))? != t {
                    return Err("the new commit's tree differs".into());
                }
                if name == "this" && tip != rec["extended"] {
                    return Err(format!("the same commit on the same repository is {}, was {}", tip, rec["extended"]));
                }
                if after.refs[..before.refs.len()] != before.refs[..] || before.objects.iter().any(|(k, v)| after.objects.get(k) != Some(v)) {
                    return Err("old refs or objects changed".into());
                }
                for (i, id) in tree_of.iter().enumerate() {
                    if w.fetched(id)? != trees[i] {
                        return Err(show(i, "differs after another commit".into()));
                    }
                }
                w.snap.good(&["checkout-head", "fresh"])?;
                w.snap.good(&["commit", "-m", "fresh"])?;
            }
            _ => {
                // the same from scratch
                if name == "this" {
                    let v = World::new(ctx);
                    let got = play(&v, &h)?;
                    if got != ids {
                        return Err(format!("the same history now gives {:?}, it gave {:?}", got, ids));
                    }
                    if v.dump()? != before {
                        return Err(format!("the same history now gives {}, it gave {}", v.dump()?.brief(), before.brief()));
                    }
                    // a cache of this release
                    let c = ctx.fixtures.join("cache.db");
                    std::fs::create_dir_all(v.cache.join("snapcd")).unwrap();
                    std::fs::copy(c, v.cache.join("snapcd/cache.db")).unwrap();
                    v.set_tree(&trees[1]);
                    let o = v.snap.good(&["compare", &tree_of[1]])?;
                    if !o.text().trim().is_empty() {
                        return Err(format!("with the recorded cache: {}", o.show()));
                    }
                    v.snap.good(&["status"])?;
                }
            }
        }
        ctx.count("repository_parts", 1);
        let _ = dump(&w.db())?;
        Ok(())
    });
}

/// Prints what fixtures/ is made of (VX_PART=gen; see tools/gen_fixtures.py).
fn generate(ctx: &Ctx) {
    let h = histories().into_iter().find(|x| x.0 == "refs").unwrap().1;
    let hex = |p: &std::path::Path| std::fs::read(p).unwrap().iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let orig = std::env::var("VX_PART").unwrap() == "gen-original";
    let w = World::new(ctx);
    let name = if orig { "original" } else { "this" };
    let ids = play(&w, &h).unwrap();
    println!("HEX\t{}.db\t{}", name, hex(&w.db()));
    println!("TXT\t{}.txt\tids\t{}", name, ids.join(" "));
    println!("TXT\t{}.txt\thead\t{}", name, w.dump().unwrap().head().unwrap());
    if orig {
        return;
    }
    w.set_tree(&d(&[("new", f("new\n")), ("a", f("1\n"))]));
    w.snap.good(&["commit", "-m", "more"]).unwrap();
    let head = w.dump().unwrap().head().unwrap();
    println!("TXT\tthis.txt\textended\t{}", w.dump().unwrap().tip(&head).unwrap());
    w.snap.good(&["status"]).unwrap();
    println!("HEX\tcache.db\t{}", hex(&w.cache.join("snapcd/cache.db")));
    for (name, ts) in digest_groups() {
        let got = ids_of(ctx, &ts).unwrap();
        println!("TXT\ttree-digests.txt\t{}\t{:016x}", name, vx::hash64(got.join(" ").as_bytes()));
    }
    for (name, ts) in groups() {
        for (i, id) in ids_of(ctx, &ts).unwrap().into_iter().enumerate() {
            println!("TXT\ttree-ids.txt\t{} #{}\t{}", name, i, id);
        }
    }
    for (name, steps) in histories() {
        let w = World::new(ctx);
        let ids = play(&w, &steps).unwrap();
        println!("TXT\tcommit-ids.txt\t{}\t{}", name, history_digest(&w, &ids).unwrap());
    }
}
