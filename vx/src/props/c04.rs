//! The id of a tree is a function of names and contents, and an injective one.
use super::common::*;
use std::collections::HashMap;
use std::sync::Mutex;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C04",
    level: "exploration",
    rule: "every tree of at most N entries over 2-3 names and 2 contents plus sweeps: inserted once in a plain setting, and all ids compared pairwise; then again under every listing order of its directories (all permutations up to 5 entries), in other places, with other timestamps and modes, by other path forms, and after other content was stored. Non-trivial: distinct (tree, variation) whose id was compared.",
    assumptions: &["BLAKE3 has no collisions", "listing order is imposed through the C library's readdir"],
    run,
};

struct Var {
    tree: usize,
    what: String,
}

fn run(ctx: &Ctx) {
    let mut trees: Vec<(String, Node)> = enumerate(&["a", "b"], &[b"", b"x"], 3, ctx.pick(5, 6)).into_iter().map(|t| (format!("{:?}", t), t)).collect();
    let small = trees.len();
    for t in enumerate(&["a", "b", "c", "d"], &[b"x"], 2, ctx.pick(4, 5)) {
        trees.push((format!("{:?}", t), t));
    }
    let counts: Vec<usize> = if ctx.quick() { (0..=20).chain([64, 128, 256, 300]).collect() } else { (0..=300).collect() };
    let sweeps_from = trees.len();
    trees.extend(sweep_trees(&counts, &[1, 2, 3, 4, 5, 8, 16, 24, 32]));
    trees.extend(huge_trees(&ctx.pick(vec![65535, 65536, 65537], vec![65535, 65536, 65537, 131072])));
    for (n, c) in odd_contents() {
        trees.push((format!("root file {}", n), Node::F(c)));
    }
    for n in grid_names(!ctx.quick()) {
        trees.push((format!("name {:?}", n), d(&[(n.as_str(), f("x"))])));
    }
    for (n, t) in grid_trees(&grid_names(!ctx.quick())) {
        trees.push((format!("name grid, {}", n), t));
    }
    // pairs that an ambiguous encoding would merge
    for (i, t) in [
        d(&[("a", f("x")), ("b", f("y"))]),
        d(&[("a", f("y")), ("b", f("x"))]),
        d(&[("ab", f("xy"))]),
        d(&[("a", d(&[("b", f("xy"))]))]),
        d(&[("a", f("xy")), ("b", empty())]),
        d(&[("b", f("xy")), ("a", empty())]),
        d(&[("a", f("xy")), ("b", f(""))]),
        d(&[("a", d(&[("a", f("1"))])), ("b", f("1"))]),
        d(&[("a", f("1")), ("b", d(&[("a", f("1"))]))]),
        d(&[("a", d(&[("a", f("1")), ("b", f("1"))]))]),
        d(&[("A", f("x")), ("b", f("y"))]),
        d(&[("a", f("X")), ("b", f("y"))]),
        d(&[("a", f("x\n")), ("b", f("y"))]),
        d(&[("e\u{301}", f("x"))]),
        d(&[("é", f("x"))]),
    ]
    .into_iter()
    .enumerate()
    {
        trees.push((format!("near {}", i), t));
    }
    trees.sort_by(|a, b| a.1.cmp(&b.1));
    trees.dedup_by(|a, b| a.1 == b.1);
    trees.sort_by(|a, b| (a.1.nodes(), &a.0).cmp(&(b.1.nodes(), &b.0)));
    let _ = (small, sweeps_from);

    // 1. plain insertion, pairwise comparison
    let ids: Mutex<HashMap<usize, String>> = Mutex::new(HashMap::new());
    let idx: Vec<usize> = (0..trees.len()).collect();
    ctx.par(
        &idx,
        |&i| format!("plain {}", trees[i].1.id()),
        |&i| {
            let w = World::new(ctx);
            trees[i].1.write(&w.repo.join("t"));
            let id = w.snap.insert("t")?;
            ids.lock().unwrap().insert(i, id);
            ctx.distinct(format!("plain {}", i).as_bytes());
            Ok(())
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    let ids = ids.into_inner().unwrap();
    let mut seen: HashMap<&str, usize> = HashMap::new();
    let mut pairs = 0u64;
    for i in 0..trees.len() {
        let Some(id) = ids.get(&i) else { continue };
        pairs += seen.len() as u64;
        if let Some(&j) = seen.get(id.as_str()) {
            ctx.violate(&format!("pair {} / {}", trees[j].1.id(), trees[i].1.id()), format!("different trees have the same id {}:\n{:?}\n{:?}", id, trees[j].1, trees[i].1), vec![]);
        }
        seen.insert(id, i);
    }
    ctx.set_count("pairs_compared", pairs);
    ctx.set_count("trees", trees.len() as u64);

    // 2. variations
    let mut vars = Vec::new();
    for (i, (_, t)) in trees.iter().enumerate() {
        if !t.is_dir() {
            for w in ["mtime", "place", "stored", "short reads", "mode", "twice", "sparse", "read-only", "hard links"] {
                vars.push(Var { tree: i, what: w.into() });
            }
            continue;
        }
        if t.nodes() > 60_000 {
            vars.push(Var { tree: i, what: "order r".into() });
            vars.push(Var { tree: i, what: "twice".into() });
            continue;
        }
        let m = t.paths().values().filter_map(|x| if let Node::D(m) = x { Some(m.len()) } else { None }).chain([if let Node::D(m) = t { m.len() } else { 0 }]).max().unwrap();
        if m >= 2 {
            let facts = [1u64, 1, 2, 6, 24, 120];
            if m < 6 {
                for p in 1..facts[m] {
                    vars.push(Var { tree: i, what: format!("order p{}", p) });
                }
            } else {
                for p in [1, 2, 7, 100, 12345] {
                    vars.push(Var { tree: i, what: format!("order p{}", p) });
                }
            }
            vars.push(Var { tree: i, what: "order r".into() });
            vars.push(Var { tree: i, what: "created reversed".into() });
        }
        let nodes = t.nodes();
        if nodes <= 3 || nodes > 6 || i % 7 == 0 || !ctx.quick() {
            for w in ["mtime", "place", "stored", "short reads", "mode", "cwd", "dotslash", "trailing", "twice", "committed", "sparse", "read-only", "hard links", "after status"] {
                if (w == "committed" || w == "cwd" || w == "after status") && t.get(".snapcd").is_some() {
                    continue; // would be in the place of the repository folder
                }
                vars.push(Var { tree: i, what: w.into() });
            }
        }
    }
    ctx.set_count("variations", vars.len() as u64);
    ctx.par(
        &vars,
        |v| format!("{} of {}", v.what, trees[v.tree].1.id()),
        |v| {
            let Some(want) = ids.get(&v.tree) else { return Ok(()) };
            let t = &trees[v.tree].1;
            let got = vary(ctx, t, &v.what)?;
            if &got != want {
                return Err(format!("tree {:?}\nplain id {}\n{}: id {}", t, want, v.what, got));
            }
            if ctx.distinct(format!("{} {}", v.tree, v.what).as_bytes()) && v.tree > 20 && v.what.starts_with("order") {
                ctx.sample(format!("{} of {} -> {}", v.what, t.id(), got));
            }
            Ok(())
        },
    );
}

fn write_reversed(t: &Node, p: &std::path::Path) {
    match t {
        Node::F(_) => t.write(p),
        Node::D(m) => {
            std::fs::create_dir_all(p).unwrap();
            for (k, v) in m.iter().rev() {
                write_reversed(v, &p.join(k));
            }
        }
    }
}

/// Leaves holes wherever the content is zero.
fn write_sparse(t: &Node, p: &std::path::Path) {
    use std::os::unix::fs::FileExt;
    match t {
        Node::F(b) => {
            let f = std::fs::File::create(p).unwrap();
            f.set_len(b.len() as u64).unwrap();
            for (i, c) in b.chunks(4096).enumerate() {
                if c.iter().any(|x| *x != 0) {
                    f.write_all_at(c, i as u64 * 4096).unwrap();
                }
            }
        }
        Node::D(m) => {
            std::fs::create_dir_all(p).unwrap();
            for (k, v) in m {
                write_sparse(v, &p.join(k));
            }
        }
    }
}

fn link_all(p: &std::path::Path, links: &std::path::Path) {
    if p.is_dir() {
        for e in std::fs::read_dir(p).unwrap() {
            link_all(&e.unwrap().path(), links);
        }
    } else {
        let l = links.join(format!("{}", blake3::hash(&std::fs::read(p).unwrap()).to_hex()));
        if l.exists() {
            std::fs::remove_file(p).unwrap();
            std::fs::hard_link(&l, p).unwrap();
        } else {
            std::fs::hard_link(p, &l).unwrap();
        }
    }
}

fn touch_all(p: &std::path::Path, n: &mut i64, mode: Option<u32>) {
    use std::os::unix::fs::PermissionsExt;
    let md = std::fs::symlink_metadata(p).unwrap();
    if md.is_dir() {
        for e in std::fs::read_dir(p).unwrap() {
            touch_all(&e.unwrap().path(), n, mode);
        }
        if mode.is_none() {
            vx::sys::set_mtime(p, 7 * *n, 3);
        }
    } else {
        match mode {
            None => vx::sys::set_mtime(p, [0, -5, 1 << 33, 946_684_800][*n as usize % 4], 999_999_999 * (*n % 2)),
            Some(m) => std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap(),
        }
    }
    *n += 1;
}

fn vary(ctx: &Ctx, t: &Node, what: &str) -> Result<String, String> {
    let w = World::new(ctx);
    let p = w.repo.join("t");
    if let Some(o) = what.strip_prefix("order ") {
        t.write(&p);
        return w.snap.with("VX_ROOT", &w.dir).with("VX_DIRORDER", o).insert("t");
    }
    match what {
        "created reversed" => {
            write_reversed(t, &p);
            w.snap.insert("t")
        }
        "mtime" => {
            t.write(&p);
            touch_all(&p, &mut 0, None);
            w.snap.insert("t")
        }
        "mode" => {
            t.write(&p);
            touch_all(&p, &mut 0, Some(0o755));
            w.snap.insert("t")
        }
        "read-only" => {
            t.write(&p);
            touch_all(&p, &mut 0, Some(0o444));
            w.snap.insert("t")
        }
        "sparse" => {
            write_sparse(t, &p);
            w.snap.insert("t")
        }
        "hard links" => {
            // every file has a second name, and equal files are the same file
            std::fs::create_dir(w.dir.join("links")).unwrap();
            t.write(&p);
            link_all(&p, &w.dir.join("links"));
            w.snap.insert("t")
        }
        "after status" => {
            // the files are stored and cached by status first
            std::fs::write(w.repo.join("one"), b"1").unwrap();
            w.commit("m")?;
            t.write(&p);
            w.snap.good(&["status"])?;
            w.snap.good(&["status"])?;
            w.snap.insert("t")
        }
        "place" => {
            let q = w.dir.join("else where/deep/é");
            std::fs::create_dir_all(&q).unwrap();
            t.write(&q.join("other name"));
            w.snap.insert(q.join("other name"))
        }
        "stored" => {
            // an unrelated tree, parts of this one, and something overlapping are already there
            d(&[("a", f("x")), ("z", d(&[("a", f("")), ("b", f("x"))]))]).write(&w.repo.join("pre"));
            w.snap.insert("pre")?;
            t.write(&p);
            if let Node::D(m) = t {
                for k in m.keys().take(3) {
                    w.snap.insert(p.join(k))?;
                }
            }
            w.snap.insert("t")
        }
        "twice" => {
            t.write(&p);
            let a = w.snap.insert("t")?;
            let b = w.snap.insert("t")?;
            if a != b {
                return Err(format!("first {} second {}", a, b));
            }
            Ok(b)
        }
        "short reads" => {
            t.write(&p);
            w.snap.with("VX_ROOT", &p).with("VX_READ", "7,0,4096,1,8191").insert("t")
        }
        "cwd" => {
            t.write(&p);
            w.snap.at(&p).insert(".")
        }
        "dotslash" => {
            t.write(&p);
            w.snap.insert("./t")
        }
        "trailing" => {
            t.write(&p);
            w.snap.insert("t/")
        }
        "committed" => {
            // the tree of a commit of the same files is the same tree
            w.set_tree(t);
            w.commit("m")?;
            let c = w.dump()?.tip("master").unwrap();
            let o = w.snap.good(&["debug", "pretty-print", &c])?.text();
            let mut it = o.lines().skip_while(|l| !l.starts_with("--keys--")).skip(1);
            it.next().map(|x| x.to_string()).ok_or_else(|| "no tree in commit".into())
        }
        _ => unreachable!(),
    }
}
