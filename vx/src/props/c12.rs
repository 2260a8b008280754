//! status and compare list exactly what differs.
use super::common::*;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C12",
    level: "exploration",
    rule: "every ordered pair (committed tree, working tree) of trees of at most N entries over 2 names and 2 contents through the real status, compared with set differences over path maps; the same through compare under every start directory and way of giving path and key for a subset; every sweep tree (names, depths, counts, contents) against itself, the empty tree and single edits of itself; different listing orders, cache states and store histories. Non-trivial: distinct (committed, working, form) compared.",
    assumptions: &["names without line breaks in the listings", "every content change gets a new modification time"],
    run,
};

fn check(out: &vx::run::Out, header: bool, old: &Node, new: &Node) -> Result<(), String> {
    if !out.ok() {
        return Err(format!("committed {:?}\nworking {:?}\n{}", old, new, out.show()));
    }
    let got = Changes::parse(&out.text(), header).map_err(|e| format!("committed {:?}\nworking {:?}\n{}: {}", old, new, e, out.show()))?;
    let want = Changes::between(old, new);
    if got != want {
        return Err(format!("committed {:?}\nworking   {:?}\nprinted  {}\nexpected {}", old, new, got.show(), want.show()));
    }
    if want.is_empty() && !header && !out.stdout.is_empty() {
        return Err(format!("trees are equal, yet printed {:?}", out.text()));
    }
    Ok(())
}

/// The lines of `compare --stat`: which files it names.
fn check_stat(out: &vx::run::Out, old: &Node, new: &Node) -> Result<(), String> {
    let want: Vec<String> = file_changes(old, new).into_iter().map(|x| x.0).collect();
    let mut got: Vec<String> = out.text().lines().map(|l| l.rsplit_once("  +").map(|x| x.0).unwrap_or(l).to_string()).collect();
    got.sort();
    got.dedup();
    if !out.ok() || got != want {
        return Err(format!("--stat names {:?}, expected {:?}\ncommitted {:?}\nworking {:?}\n{}", got, want, old, new, out.show()));
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let trees = enumerate(&["a", "b"], &[b"x", b"y"], 3, ctx.pick(3, 4));
    ctx.set_count("trees", trees.len() as u64);
    // 1. all pairs through status
    let idx: Vec<usize> = (0..trees.len()).collect();
    ctx.par(
        &idx,
        |&i| format!("committed {}", trees[i].id()),
        |&i| {
            let w = World::new(ctx);
            w.set_tree(&trees[i]);
            w.commit("m")?;
            for t in &trees {
                w.set_tree(t);
                let o = w.snap.run(&["status"]);
                check(&o, true, &trees[i], t)?;
                ctx.eval(1);
                if ctx.distinct(format!("pair {:?} {:?}", trees[i], t).as_bytes()) && i % 13 == 5 && t.nodes() > 3 {
                    ctx.sample(format!("committed {:?} working {:?}: {}", trees[i], t, Changes::between(&trees[i], t).show()));
                }
            }
            ctx.count("pairs", trees.len() as u64);
            Ok(())
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    // 2. trees with more names: pairs that differ by one or two edits
    let edits = edited_pairs(ctx);
    ctx.set_count("edited_pairs", edits.len() as u64);
    ctx.par(
        &edits,
        |(n, o, t)| format!("{}: {} -> {}", n, o.id(), t.id()),
        |(n, old, new)| {
            let w = World::new(ctx);
            w.set_tree(old);
            w.commit("m")?;
            check(&w.snap.run(&["status"]), true, old, old)?;
            w.set_tree(new);
            let o = w.snap.run(&["status"]);
            check(&o, true, old, new)?;
            // once more with what is now cached and stored
            check(&w.snap.run(&["status"]), true, old, new)?;
            let c = w.snap.run(&["compare"]);
            check(&c, false, old, new)?;
            if !n.contains("invalid") {
                check_stat(&w.snap.run(&["compare", "-s"]), old, new)?;
            }
            ctx.distinct(format!("edit {} {:?} {:?}", n, old.bytes(), new.bytes()).as_bytes());
            Ok(())
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    // every pair of the trees over one set of names
    let grid = grid_trees(&grid_names(!ctx.quick()));
    let idx: Vec<(usize, usize)> = (0..grid.len()).flat_map(|i| (0..=grid.len()).map(move |j| (i, j))).collect();
    ctx.par(
        &idx,
        |(i, j)| format!("name grid {} {}", i, j),
        |&(i, j)| {
            let w = World::new(ctx);
            let none = empty();
            let (old, new) = (&grid[i].1, grid.get(j).map(|x| &x.1).unwrap_or(&none));
            let short = |e: String| e.chars().take(4000).collect::<String>();
            w.set_tree(old);
            w.commit("m")?;
            w.set_tree(new);
            check(&w.snap.run(&["status"]), true, old, new).map_err(short)?;
            check_stat(&w.snap.run(&["compare", "-s"]), old, new).map_err(short)?;
            ctx.distinct(format!("name grid {} {}", i, j).as_bytes());
            Ok(())
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    // 3. forms
    let olds = [
        d(&[("a", f("1")), ("d", d(&[("b", f("2")), ("e", d(&[("c", f("3"))]))])), ("z", empty())]),
        d(&[("a", d(&[("d", f("1"))])), ("d", d(&[("a", f("x"))]))]),
        empty(),
        d(&[("d", d(&[("e", d(&[("d", d(&[("e", f("deep"))]))]))]))]),
    ];
    let news = [
        d(&[("a", f("1")), ("d", d(&[("b", f("9")), ("e", d(&[("c", f("3")), ("n", d(&[("m", f("q"))]))])), ("k", f("new"))])), ("y", d(&[("y", empty())]))]),
        d(&[("a", f("1")), ("d", d(&[("b", f("2")), ("e", d(&[("c", f("3"))]))])), ("z", empty())]),
        d(&[("d", d(&[("e", d(&[("x", f("x"))]))]))]),
        d(&[("d", d(&[("e", empty()), ("b", empty())])), ("a", empty())]),
    ];
    let mut jobs = Vec::new();
    for (i, _) in olds.iter().enumerate() {
        for (j, _) in news.iter().enumerate() {
            for start in ["", "d", "d/e"] {
                for form in [
                    "status", "compare", "compare KEY", "compare -p .", "compare -p ABS", "compare -p UP", "compare -p TOP/d/..", "compare -p SUB KEY", "compare -p SUB/ KEY", "compare -p ./SUB KEY", "compare -p ABSSUB KEY", "-s", "-s -p", "order r", "order p1", "order p5", "no cache",
                    "other store", "prefix key", "touched", "other branch", "db option",
                ] {
                    jobs.push((i, j, start, form));
                }
            }
        }
    }
    ctx.set_count("forms", jobs.len() as u64);
    ctx.par(
        &jobs,
        |(i, j, s, f)| format!("form {} from {:?} pair {} {}", f, s, i, j),
        |&(i, j, start, form)| {
            let (old, new) = (&olds[i], &news[j]);
            let w = World::new(ctx);
            w.set_tree(old);
            if form == "other branch" {
                w.set_tree(&d(&[("zz", f("other"))]));
                w.snap.good(&["commit", "-m", "o", "other"])?;
                w.set_tree(old);
            }
            let c = w.commit("m")?;
            if form == "other branch" {
                w.set_tree(new);
                w.snap.good(&["commit", "-m", "o", "other"])?;
            }
            let key = tree_of(&w, &c)?;
            if form == "other store" {
                new.write(&w.dir.join("elsewhere"));
                w.snap.insert(w.dir.join("elsewhere"))?;
                for p in new.paths().keys() {
                    w.snap.insert(w.dir.join("elsewhere").join(p))?;
                }
            }
            w.set_tree(new);
            let cwd = w.repo.join(start);
            if !cwd.is_dir() {
                return Ok(());
            }
            ctx.distinct(format!("form {} {} {} {}", i, j, start, form).as_bytes());
            let s = w.snap.at(&cwd);
            let up = if start.is_empty() { ".".to_string() } else { vec![".."; start.split('/').count()].join("/") };
            let abs = w.repo.to_string_lossy().into_owned();
            let g = |a: &[&str]| s.run(a);
            match form {
                "status" => check(&g(&["status"]), true, old, new),
                "compare" => check(&g(&["compare"]), false, old, new),
                "compare KEY" => check(&g(&["compare", &key]), false, old, new),
                "prefix key" => check(&g(&["compare", &key[..20].to_uppercase().replacen('B', "b", 1)]), false, old, new),
                "compare -p ." => {
                    // the start directory against the tree at the same place
                    let sub = old.get(start);
                    let Some(sub @ Node::D(_)) = sub else { return Ok(()) };
                    let mut k = key.clone();
                    if !start.is_empty() {
                        sub.write(&w.dir.join("sub"));
                        k = w.snap.insert(w.dir.join("sub"))?;
                    }
                    check(&g(&["compare", "-p", ".", &k]), false, sub, new.get(start).unwrap())
                }
                "compare -p ABS" => check(&g(&["compare", "-p", &abs]), false, old, new),
                "compare -p UP" => check(&g(&["compare", "-p", &up, &key]), false, old, new),
                "compare -p TOP/d/.." => {
                    if !w.repo.join("d").is_dir() {
                        return Ok(());
                    }
                    check(&g(&["compare", "-p", &format!("{}/d/..", up), &key]), false, old, new)
                }
                "compare -p SUB KEY" | "compare -p SUB/ KEY" | "compare -p ./SUB KEY" | "compare -p ABSSUB KEY" => {
                    let (Some(so @ Node::D(_)), Some(sn @ Node::D(_))) = (old.get("d"), new.get("d")) else { return Ok(()) };
                    so.write(&w.dir.join("sub"));
                    let k = w.snap.insert(w.dir.join("sub"))?;
                    let p = match form {
                        "compare -p SUB KEY" => format!("{}/d", up),
                        "compare -p SUB/ KEY" => format!("{}/d/", up),
                        "compare -p ./SUB KEY" => format!("./{}/./d", up),
                        _ => format!("{}/d", abs),
                    };
                    let p = if start.is_empty() && form == "compare -p SUB KEY" { "d".to_string() } else { p };
                    check(&g(&["compare", "-p", &p, &k]), false, so, sn)
                }
                "-s" => check_stat(&g(&["compare", "-s"]), old, new),
                "-s -p" => check_stat(&g(&["compare", "-s", "-p", &up, &key]), old, new),
                "order r" | "order p1" | "order p5" => check(&s.with("VX_ROOT", &w.dir).with("VX_DIRORDER", &form[6..]).run(&["status"]), true, old, new),
                "no cache" => {
                    let mut s = s.clone();
                    s.cache = w.dir.join("c2");
                    std::fs::create_dir_all(&s.cache).unwrap();
                    check(&s.run(&["status"]), true, old, new)
                }
                "touched" => {
                    check(&g(&["status"]), true, old, new)?;
                    for (p, n) in new.paths() {
                        if !n.is_dir() {
                            vx::sys::set_mtime(&w.repo.join(p), 1_700_000_000, 5);
                        }
                    }
                    check(&g(&["status"]), true, old, new)
                }
                "db option" => {
                    let p = w.repo.join(".snapcd");
                    check(&g(&["-d", p.to_str().unwrap(), "status"]), true, old, new)
                }
                "other store" | "other branch" => {
                    check(&g(&["status"]), true, old, new)?;
                    check(&g(&["compare", &key]), false, old, new)
                }
                _ => unreachable!(),
            }
        },
    );
}

/// Larger trees with single edits and pairs of edits.
fn edited_pairs(ctx: &Ctx) -> Vec<(String, Node, Node)> {
    let mut v: Vec<(String, Node, Node)> = Vec::new();
    let ok = |n: &Node| n.paths().keys().all(|p| !p.contains('\n') && p != ".snapcd" && !p.starts_with(".snapcd/"));
    let counts: Vec<usize> = if ctx.quick() { vec![1, 2, 3, 10, 50, 257] } else { vec![1, 2, 3, 4, 5, 8, 10, 16, 17, 33, 50, 100, 255, 256, 257, 513] };
    for (n, t) in sweep_trees(&counts, &[1, 2, 3, 5, 8, 20, 40]) {
        if !ok(&t) {
            continue;
        }
        v.push((format!("{} itself", n), t.clone(), t.clone()));
        v.push((format!("{} from nothing", n), empty(), t.clone()));
        v.push((format!("{} to nothing", n), t.clone(), empty()));
        let mut x = t.clone();
        x.put("zz-new", d(&[("q", f("new"))]));
        v.push((format!("{} plus a directory", n), t.clone(), x));
        // edit the first, middle and last path
        let paths: Vec<String> = t.paths().keys().cloned().collect();
        let mut picks: Vec<usize> = vec![0, paths.len() / 2, paths.len().saturating_sub(1)];
        picks.dedup();
        for i in picks {
            let Some(p) = paths.get(i) else { continue };
            let mut x = t.clone();
            x.remove(p);
            v.push((format!("{} without {:?}", n, p), t.clone(), x));
            let mut x = t.clone();
            match t.get(p).unwrap() {
                Node::F(b) => {
                    let mut c = b.clone();
                    c.push(b'!');
                    x.put(p, f(&c));
                    v.push((format!("{} appended {:?}", n, p), t.clone(), x.clone()));
                    if let Some(l) = b.len().checked_sub(1) {
                        for at in [0, l / 2, l] {
                            let mut c = b.clone();
                            c[at] ^= 1;
                            x.put(p, f(&c));
                            v.push((format!("{} byte {} of {:?}", n, at, p), t.clone(), x.clone()));
                        }
                        x.put(p, f(&b[..l]));
                        v.push((format!("{} cut {:?}", n, p), t.clone(), x.clone()));
                        x.put(p, f(""));
                        v.push((format!("{} emptied {:?}", n, p), t.clone(), x.clone()));
                    }
                    x.put(p, d(&[("k", f(b))]));
                    v.push((format!("{} file to dir {:?}", n, p), t.clone(), x));
                }
                Node::D(_) => {
                    x.put(p, f("was a directory"));
                    v.push((format!("{} dir to file {:?}", n, p), t.clone(), x.clone()));
                    x.put(p, empty());
                    v.push((format!("{} emptied {:?}", n, p), t.clone(), x.clone()));
                }
            }
        }
    }
    for n in ctx.pick(vec![65537usize], vec![65535, 65536, 65537, 131073]) {
        for (what, t) in huge_trees(&[n]) {
            let dir = if t.get("h").is_some() { "h/f" } else { "d" };
            for at in [0, n / 2, n - 1] {
                let mut x = t.clone();
                let p = format!("{}{:x}", dir, at);
                x.remove(&p);
                v.push((format!("{} without {}", what, p), t.clone(), x.clone()));
                if at > 0 {
                    v.push((format!("{} with {} again", what, p), x, t.clone()));
                    let mut x = t.clone();
                    x.put(&p, f("now this"));
                    v.push((format!("{} with another {}", what, p), t.clone(), x));
                }
            }
        }
    }
    // all single and (for the first) double edits of trees with tricky name orders
    let tricky = [
        d(&[("a", d(&[("b", f("1")), ("c", empty())])), ("a.b", f("2")), ("a-b", f("3")), ("a b", f("4")), ("ab", d(&[("a", f("5"))])), ("a0", f("6")), ("a!", d(&[("x", f("1"))]))]),
        d(&[("a", d(&[("a", d(&[("a", f("1"))])), ("b", f("1"))])), ("b", d(&[("a", f("1"))])), ("c", f("1"))]),
    ];
    for (ti, t) in tricky.iter().enumerate() {
        let one = |t: &Node| -> Vec<Node> {
            let mut r = Vec::new();
            let mut ps: Vec<String> = t.paths().keys().cloned().collect();
            let dirs: Vec<String> = t.paths().into_iter().filter(|x| x.1.is_dir()).map(|x| x.0).collect();
            for dr in dirs.iter().map(|x| format!("{}/", x)).chain([String::new()]) {
                ps.push(format!("{}new", dr));
            }
            for p in ps {
                let mut x = t.clone();
                x.remove(&p);
                r.push(x);
                for n in [f("9"), empty(), d(&[("n", f("1")), ("o", empty())])] {
                    let mut x = t.clone();
                    x.put(&p, n);
                    r.push(x);
                }
            }
            r
        };
        let first = one(t);
        for (i, x) in first.iter().enumerate() {
            v.push((format!("tricky {} edit {}", ti, i), t.clone(), x.clone()));
            if !ctx.quick() || i % 9 == 0 {
                for (j, y) in one(x).into_iter().enumerate() {
                    v.push((format!("tricky {} edits {} {}", ti, i, j), t.clone(), y));
                }
            }
        }
    }
    v
}
