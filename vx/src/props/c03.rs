//! Insert then fetch gives the same tree.
use super::common::*;
use vx::run::inserted_id;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C03",
    level: "exploration",
    rule: "every tree of at most N entries over 2 names and 2 contents, plus one-dimensional sweeps in entry count, depth, name and content, plus every way of writing source and destination paths; each is inserted by the real binary, fetched into a fresh place and compared. Non-trivial: a distinct tree or path form whose fetch was compared.",
    assumptions: &["regular files and directories with UTF-8 names", "scratch file system returns what was written"],
    run,
};

struct Case {
    id: String,
    tree: Node,
    src: &'static str,
    dst: &'static str,
}

fn run(ctx: &Ctx) {
    let mut cases = Vec::new();
    let bound = ctx.pick(4, 6);
    for t in enumerate(&["a", "b"], &[b"", b"x"], 3, bound) {
        cases.push(Case { id: format!("tree {:?}", t), tree: t, src: "t", dst: "o" });
    }
    let counts: Vec<usize> = if ctx.quick() { (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000]).collect() } else { (0..=600).chain([1000, 1024, 2000, 4096, 5000]).collect() };
    let depths: Vec<usize> = if ctx.quick() { (0..=12).chain([16, 20, 32, 40, 64, 100]).collect() } else { (0..=130).chain([200]).collect() };
    for (n, t) in sweep_trees(&counts, &depths) {
        cases.push(Case { id: format!("sweep {}", n), tree: t, src: "t", dst: "o" });
    }
    for (n, t) in huge_trees(&ctx.pick(vec![65536, 65537], vec![65535, 65536, 65537, 131072])) {
        cases.push(Case { id: format!("huge {}", n), tree: t, src: "t", dst: "o" });
    }
    for (n, c) in odd_contents() {
        cases.push(Case { id: format!("root file {}", n), tree: Node::F(c), src: "t", dst: "o" });
    }
    for (n, t) in grid_trees(&grid_names(!ctx.quick())) {
        cases.push(Case { id: format!("name grid, {}", n), tree: t, src: "t", dst: "o" });
    }
    let names = odd_names();
    if !ctx.quick() {
        // every pair of unusual names side by side
        for i in 0..names.len() {
            for j in 0..i {
                cases.push(Case { id: format!("names {:?} {:?}", names[i], names[j]), tree: d(&[(&names[i], f("1")), (&names[j], d(&[(&names[i], f("2"))]))]), src: "t", dst: "o" });
            }
        }
    }
    // path forms
    let base = [d(&[("a", f("1")), ("d", d(&[("b", f("2")), ("e", empty())]))]), empty(), f("file")];
    for (bi, t) in base.iter().enumerate() {
        for src in ["t", "./t", "t/", "t/.", "ABS", "../r/t", "CWD", "sub/../t"] {
            if bi == 2 && ["t/", "t/.", "CWD"].contains(&src) {
                continue;
            }
            for dst in ["o", "./o", "n/m/o", "ABS", "../o", "o/", "n/./o", "DOT"] {
                if bi == 2 && ["o/", "DOT"].contains(&dst) {
                    continue;
                }
                cases.push(Case { id: format!("path {} src {} dst {}", bi, src, dst), tree: t.clone(), src, dst });
            }
        }
    }
    ctx.set_count("trees", cases.len() as u64);
    ctx.par(&cases, |c| c.id.clone(), |c| one(ctx, c));
}

fn one(ctx: &Ctx, c: &Case) -> Result<(), String> {
    let w = World::new(ctx);
    let t = w.repo.join("t");
    std::fs::create_dir(w.repo.join("sub")).unwrap();
    c.tree.write(&t);
    let id = match c.src {
        "ABS" => w.snap.insert(&t)?,
        "CWD" => w.snap.at(&t).insert(".")?,
        s => w.snap.insert(s)?,
    };
    let arg = match c.dst {
        "ABS" => w.dir.join("o").into_os_string(),
        "DOT" => ".".into(),
        s => s.into(),
    };
    let cwd = w.repo.join("sub");
    let o = if c.dst == "DOT" {
        std::fs::create_dir(cwd.join("fresh")).unwrap();
        w.snap.at(&cwd.join("fresh")).good(&["fetch".as_ref(), id.as_ref(), arg.as_os_str()])?
    } else {
        w.snap.at(&cwd).good(&["fetch".as_ref(), id.as_ref(), arg.as_os_str()])?
    };
    let place = match c.dst {
        "ABS" => w.dir.join("o"),
        "DOT" => cwd.join("fresh"),
        s => cwd.join(s),
    };
    let got = Node::read(&place).map_err(|e| format!("{} after {}", e, o.show()))?;
    if got != c.tree {
        return Err(format!("inserted {:?}\nfetched  {:?}", c.tree, got));
    }
    if ctx.distinct(c.id.as_bytes()) && c.tree.nodes() > 3 {
        ctx.sample(format!("{}: insert -> {} -> fetch equal", c.id, id));
    }
    let _ = inserted_id;
    Ok(())
}
