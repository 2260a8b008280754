//! Checkout is refused untouched outside its allowed place, exact inside it.
use super::common::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vx::craft::{text, Crafted, Id};
use vx::glob::matches;
use vx::mark::{marks, unchanged, Marks};
use vx::run::{Out, Snap};
use vx::tree::*;
use vx::world::{clear, World};
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C18",
    level: "exploration",
    rule: "every pair of (committed tree, working tree) of at most N entries, checked out with permission (result compared with the committed tree, everything else with marks taken before: bytes, inode, mode, times) and, in every form of naming the repository, without permission (everything has to keep its marks); the same pairs with exclude patterns from a list, against a model that keeps excluded entries; every place of a symbolic link; every way to hard-link the files to each other and to files outside, excluded, extra or in the repository folder; every hostile name from a list in a crafted commit; histories of refs; sweeps over names, sizes, counts and depths. Non-trivial: distinct (committed tree, working tree, form).",
    assumptions: &[
        "the allowed location is replaced by a scratch directory (cfg snapcd_verif); everything else is the real program",
        "regular files (with any number of hard links) and directories",
        "an excluded path that does not exist in the working tree but is part of the committed tree may be created",
    ],
    run,
};

const ROOT: &str = "SNAPCD_VERIF_CHECKOUT_ROOT";

fn excluded(pats: &[String], repo: &str, p: &str) -> bool {
    let full = format!("{}/{}", repo, p);
    pats.iter().any(|x| matches(x, &full))
}

fn join(pre: &str, k: &str) -> String {
    if pre.is_empty() {
        k.to_string()
    } else {
        format!("{}/{}", pre, k)
    }
}

/// What an entry that is not part of the committed tree leaves behind.
fn kept(n: &Node, path: &str, ex: &dyn Fn(&str) -> bool) -> Option<Node> {
    if ex(path) {
        return Some(n.clone());
    }
    match n {
        Node::F(_) => None,
        Node::D(m) => {
            let r: BTreeMap<String, Node> = m.iter().filter_map(|(k, v)| kept(v, &join(path, k), ex).map(|x| (k.clone(), x))).collect();
            if r.is_empty() {
                None
            } else {
                Some(Node::D(r))
            }
        }
    }
}

/// The working tree after a checkout that succeeds: (the tree, whether kinds differ somewhere), or
/// nothing if it can't succeed. Committed paths that are excluded and absent are left out.
fn result(c: &Node, w: Option<&Node>, path: &str, ex: &dyn Fn(&str) -> bool) -> Option<(Node, bool)> {
    match (c, w) {
        (Node::F(_), None) | (Node::F(_), Some(Node::F(_))) => Some((c.clone(), false)),
        (Node::F(_), Some(d)) => {
            if kept(d, path, ex).is_some() {
                None
            } else {
                Some((c.clone(), true))
            }
        }
        (Node::D(cm), w) => {
            let none = BTreeMap::new();
            let (wm, mut conflict) = match w {
                Some(Node::D(m)) => (m, false),
                Some(_) => (&none, true),
                None => (&none, false),
            };
            let mut r = BTreeMap::new();
            for (k, v) in wm {
                let p = join(path, k);
                if ex(&p) {
                    r.insert(k.clone(), v.clone());
                } else if !cm.contains_key(k) {
                    if let Some(x) = kept(v, &p, ex) {
                        r.insert(k.clone(), x);
                    }
                }
            }
            for (k, v) in cm {
                let p = join(path, k);
                if ex(&p) {
                    continue;
                }
                let (x, cf) = result(v, wm.get(k), &p, ex)?;
                conflict |= cf;
                r.insert(k.clone(), x);
            }
            Some((Node::D(r), conflict))
        }
    }
}

/// A repository below an allowed directory, with things around it.
struct Place<'a> {
    w: World<'a>,
    /// the allowed directory
    root: PathBuf,
    /// the working tree
    repo: PathBuf,
    folder: String,
    s: Snap<'a>,
}

fn around(p: &Path) {
    d(&[("by", f("bystander")), ("dir", d(&[("f", f("1")), ("e", empty())])), ("victim", f("victim\n"))]).write(p);
}

impl<'a> Place<'a> {
    fn new(ctx: &'a Ctx, sub: &str, folder: &str) -> Result<Place<'a>, String> {
        let w = World::bare(ctx);
        std::fs::remove_dir(&w.repo).unwrap();
        around(&w.dir);
        let root = w.dir.join("root");
        let repo = if sub.is_empty() { root.clone() } else { root.join(sub) };
        std::fs::create_dir_all(&repo).unwrap();
        if repo != root {
            around(&root);
        }
        let s = Snap::new(ctx, &repo, &w.cache).with(ROOT, &root);
        s.good(&["-d", folder, "init"])?;
        Ok(Place { w, root, repo, folder: folder.to_string(), s })
    }
    fn own(&self) -> &str {
        self.folder.split('/').next().unwrap()
    }
    fn set(&self, t: &Node) {
        clear(&self.repo, &[self.own()]);
        t.write(&self.repo);
    }
    fn tree(&self) -> Result<Node, String> {
        Node::read_skip(&self.repo, &[self.own()])
    }
    fn args(&self, a: &[&str]) -> Vec<String> {
        let mut v: Vec<String> = vec!["-d".into(), self.folder.clone()];
        v.extend(a.iter().map(|x| x.to_string()));
        v
    }
    fn go(&self, a: &[&str]) -> Out {
        self.s.run(&self.args(a))
    }
    fn must(&self, a: &[&str]) -> Result<Out, String> {
        self.s.good(&self.args(a))
    }
    fn marks(&self) -> Marks {
        marks(&self.w.dir, &["cache"])
    }
    /// Path of the working tree as it appears in marks.
    fn rel(&self) -> String {
        self.repo.strip_prefix(&self.w.dir).unwrap().to_str().unwrap().to_string()
    }
}

fn ex_args(pats: &[String], cmd: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = cmd.iter().map(|x| x.to_string()).collect();
    for p in pats {
        v.push(format!("--exclude={}", p));
    }
    v
}

fn below(p: &str, dir: &str) -> bool {
    p == dir || p.strip_prefix(dir).map(|r| r.starts_with('/')).unwrap_or(false)
}

/// The marks that no checkout may change: outside, the repository folder, excluded entries.
fn fixed(p: &Place, before: &Marks, pats: &[String]) -> Marks {
    let repo = p.repo.to_str().unwrap();
    let rel = p.rel();
    let own = format!("{}/{}", rel, p.folder);
    let free = |q: &str| {
        if !below(q, &rel) || below(q, &own) || q == rel {
            return false;
        }
        let mut path = String::new();
        for part in q[rel.len() + 1..].split('/') {
            path = join(&path, part);
            if excluded(pats, repo, &path) {
                return false;
            }
        }
        true
    };
    before.iter().filter(|x| !free(x.0)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// Checks a finished checkout. `before` are the marks, `wt` the working tree, `c` the committed one.
fn judge(p: &Place, before: &Marks, c: &Node, wt: &Node, pats: &[String], o: &Out) -> Result<bool, String> {
    let repo = p.repo.to_str().unwrap();
    let ex = |x: &str| excluded(pats, repo, x);
    let rel = p.rel();
    let own = format!("{}/{}", rel, p.folder);
    let after = p.marks();
    let fixed = fixed(p, before, pats);
    let ctxt = |e: String| format!("committed {:?}\nworking tree {:?}\nexcluded {:?}\n{}\n{}", c, wt, pats, o.show(), e);
    unchanged(&fixed, &after, &|q| before.contains_key(q) || below(q, &rel) && !below(q, &own)).map_err(ctxt)?;
    let want = result(c, Some(wt), "", &ex);
    let got = p.tree().map_err(ctxt)?;
    if o.ok() {
        match want {
            None => return Err(ctxt("succeeded, although an excluded entry is in the way".into())),
            Some((t, _)) => {
                let plain = got.filter(&|q| !ex(q) || wt.get(q).is_some());
                if plain != t {
                    return Err(ctxt(format!("result {:?}\nexpected {:?}", got, t)));
                }
            }
        }
        Ok(true)
    } else {
        if let Some((_, false)) = want {
            return Err(ctxt("failed although nothing is in the way".into()));
        }
        Ok(false)
    }
}

fn run(ctx: &Ctx) {
    for part in [pairs, excludes, refused, links, hard_links, hostile, starts, histories, sweeps, lookalikes] {
        part(ctx);
        if ctx.nviolations() > 0 {
            return;
        }
    }
}

/// All pairs with permission.
fn pairs(ctx: &Ctx) {
    let committed = enumerate(&["a", "b"], &[b"x", b""], 3, ctx.pick(3, 4));
    let mut working = enumerate(&["a", "b"], &[b"x", b"longer\n"], 3, ctx.pick(3, 4));
    working.extend(enumerate(&["a", "c"], &[b"z"], 3, 3));
    working.sort();
    working.dedup();
    ctx.set_count("committed_trees", committed.len() as u64);
    ctx.set_count("working_trees", working.len() as u64);
    let parts = ctx.pick(4, 16);
    let jobs: Vec<(usize, usize)> = (0..committed.len()).flat_map(|i| (0..parts).map(move |k| (i, k))).collect();
    ctx.par(&jobs, |(i, k)| format!("pair: committed {} part {}", committed[*i].id(), k), |&(i, part)| {
        let subs = ["", "p", "p/q r"];
        let folders = [".snapcd", "meta"];
        let p = Place::new(ctx, subs[(i + part) % 3], folders[(i / 3 + part) % 2])?;
        p.set(&committed[i]);
        p.must(&["commit", "-m", "m"])?;
        for (j, wt) in working.iter().enumerate() {
            if j % parts != part {
                continue;
            }
            p.set(wt);
            let before = p.marks();
            let o = p.go(&["checkout"]);
            let ok = judge(&p, &before, &committed[i], wt, &[], &o)?;
            ctx.count(if ok { "checked_out" } else { "conflicts" }, 1);
            if ok && (i + j) % 8 == 0 {
                let st = p.must(&["status"])?.text();
                if st.lines().count() > 1 {
                    return Err(format!("committed {:?}, working tree {:?}: after checkout status says {}", committed[i], wt, st));
                }
            }
            ctx.eval(1);
            if ctx.distinct(format!("pair {:?} {:?}", committed[i], wt).as_bytes()) && j % 97 == 5 {
                ctx.sample(format!("checkout of {:?} over {:?}: {}", committed[i], wt, o.status()));
            }
        }
        Ok(())
    });
}

/// With exclude patterns: `x` is the name most of them are about.
fn excludes(ctx: &Ctx) {
    let pats: Vec<Vec<&str>> = vec![
        vec!["**/x"],
        vec!["*x"],
        vec!["*/a/x"],
        vec!["REPO/x"],
        vec!["REPO/a/*"],
        vec!["REPO/a"],
        vec!["*/x/*"],
        vec!["**/a/x", "REPO/x/a"],
        vec!["*"],
        vec!["**/[x]"],
        vec!["**/{a,x}/x"],
        vec!["nothing"],
    ];
    let n = ctx.pick(4, 5);
    let base = enumerate(&["a", "x"], &[b"1"], 3, 3);
    let mut working = enumerate(&["a", "x"], &[b"2"], 3, n);
    working.push(d(&[("a", d(&[("a", d(&[("a", d(&[("x", f("deep")), ("a", f("gone"))]))])), ("x", empty())]))]));
    let parts = ctx.pick(1, 4);
    let jobs: Vec<(usize, usize, usize)> = (0..pats.len()).flat_map(|p| (0..base.len()).flat_map(move |i| (0..parts).map(move |k| (p, i, k)))).collect();
    ctx.set_count("exclude_sets", pats.len() as u64);
    ctx.par(&jobs, |(q, i, k)| format!("excluded {:?}: committed from {} part {}", pats[*q], base[*i].id(), k), |&(q, i, part)| {
        let p = Place::new(ctx, ["", "p"][i % 2], [".snapcd", "meta"][(i / 2) % 2])?;
        let repo = p.repo.to_str().unwrap().to_string();
        let ps: Vec<String> = pats[q].iter().map(|x| x.replace("REPO", &repo)).collect();
        // committed with the same patterns, and without any
        for with in [true, false] {
            p.set(&base[i]);
            let cp: &[String] = if with { &ps } else { &[] };
            let a = ex_args(cp, &["commit", "-m", "m"]);
            p.must(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>())?;
            let c = base[i].filter(&|x| !excluded(cp, &repo, x));
            if !with && c == base[i].filter(&|x| !excluded(&ps, &repo, x)) {
                continue;
            }
            for (j, wt) in working.iter().enumerate() {
                if j % parts != part || (!with || ctx.quick()) && (i + j) % 2 == 1 {
                    continue;
                }
                p.set(wt);
                let before = p.marks();
                let a = ex_args(&ps, &["checkout"]);
                let o = p.go(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                let ok = judge(&p, &before, &c, wt, &ps, &o)?;
                ctx.count(if ok { "checked_out" } else { "conflicts" }, 1);
                ctx.eval(1);
                if ctx.distinct(format!("excluded {} {} {:?} {:?}", q, with, c, wt).as_bytes()) && j % 61 == 7 {
                    ctx.sample(format!("checkout of {:?} without {:?} over {:?}: {}", c, pats[q], wt, o.status()));
                }
            }
        }
        Ok(())
    });
}

/// Without permission: whatever the form, nothing may change.
fn refused(ctx: &Ctx) {
    let committed = enumerate(&["a", "b"], &[b"x"], 3, ctx.pick(2, 3));
    let working = enumerate(&["a", "b"], &[b"x", b"longer\n"], 3, ctx.pick(2, 3));
    // the allowed directory relative to the scratch directory, start directory, folder argument
    let forms: Vec<(&str, &str, &str)> = vec![
        ("", "v", ".snapcd"),
        ("ok", "v", ".snapcd"),
        ("v2", "v", ".snapcd"),
        ("v/sub", "v", ".snapcd"),
        ("v/.snapcd", "v", ".snapcd"),
        ("v/a", "v", ".snapcd"),
        ("missing", "v", ".snapcd"),
        ("w", "v", "ABS"),
        ("ok", "ok", "../v/.snapcd"),
        ("ok", "ok/in", "../../v/.snapcd"),
        ("ok", "ok/in", "../v/.snapcd"),
        ("ok", "ok", "SCRATCH/ok/../v/.snapcd"),
        ("ok", "ok", "in/../../v/.snapcd"),
        ("ok", "ok", "./../v/./.snapcd"),
        ("ok", "ok", "link/.snapcd"),
        ("ok", "ok/in", "../link/.snapcd"),
        ("ok", "ok", "SCRATCH/ok/link/.snapcd"),
        ("ok", "ok", "up/v/.snapcd"),
        ("ok", "ok/link", ".snapcd"),
        ("ok/in", "ok/in", "../../v/.snapcd"),
        ("okv", "v", ".snapcd"),
        ("vv", "v", ".snapcd"),
        ("v/../ok", "v", ".snapcd"),
        ("ok/in", "v", "ABS"),
        ("file", "v", ".snapcd"),
    ];
    let jobs: Vec<(usize, usize)> = (0..forms.len()).flat_map(|k| (0..committed.len()).map(move |i| (k, i))).collect();
    ctx.set_count("refused_forms", forms.len() as u64);
    ctx.par(&jobs, |(k, i)| format!("refused: {:?} committed {}", forms[*k], committed[*i].id()), |&(k, i)| {
        let (root, start, folder) = forms[k];
        let w = World::bare(ctx);
        std::fs::remove_dir(&w.repo).unwrap();
        around(&w.dir);
        f("x").write(&w.dir.join("file"));
        let v = w.dir.join("v");
        for x in ["ok/in", "okv", "v2", "v"] {
            std::fs::create_dir_all(w.dir.join(x)).unwrap();
        }
        std::os::unix::fs::symlink(&v, w.dir.join("ok/link")).unwrap();
        std::os::unix::fs::symlink("..", w.dir.join("ok/up")).unwrap();
        let s = Snap::new(ctx, &v, &w.cache);
        committed[i].write(&v);
        s.good(&["init"])?;
        s.good(&["commit", "-m", "m"])?;
        let scratch = w.dir.to_str().unwrap();
        let arg = folder.replace("ABS", v.join(".snapcd").to_str().unwrap()).replace("SCRATCH", scratch);
        for wt in &working {
            clear(&v, &[".snapcd"]);
            wt.write(&v);
            let mut s = s.at(&w.dir.join(start));
            if !root.is_empty() {
                s = s.with(ROOT, w.dir.join(root));
            }
            if start == "ok/link" {
                s = s.with("PWD", w.dir.join(start));
            }
            for e in ["", "-e", "-v"] {
                let mut a = vec!["-d", &arg];
                match e {
                    "-e" => a.extend(["checkout", "-e", "**/a"]),
                    "-v" => a.extend(["-v", "checkout"]),
                    _ => a.push("checkout"),
                }
                if e != "" && wt.nodes() > 2 {
                    continue;
                }
                let before = marks(&w.dir, &["cache"]);
                let o = s.run(&a);
                let after = marks(&w.dir, &["cache"]);
                let ctxt = |x: String| format!("allowed {:?}, started in {:?}, -d {}\ncommitted {:?}\nworking tree {:?}\n{}\n{}", root, start, folder, committed[i], wt, o.show(), x);
                unchanged(&before, &after, &|_| false).map_err(ctxt)?;
                if o.ok() {
                    return Err(ctxt("succeeded".into()));
                }
                ctx.count("refused", 1);
                ctx.eval(1);
                if ctx.distinct(format!("refused {} {:?} {:?} {}", k, committed[i], wt, e).as_bytes()) && i == 7 {
                    ctx.sample(format!("refused: allowed {:?}, started in {:?}, -d {}: {}", root, start, folder, o.status()));
                }
            }
        }
        Ok(())
    });
}

/// Symbolic links in the working tree.
fn links(ctx: &Ctx) {
    let committed = [
        empty(),
        d(&[("a", f("committed"))]),
        d(&[("a", empty())]),
        d(&[("a", d(&[("f", f("committed"))]))]),
        d(&[("a", d(&[("f", f("committed")), ("b", d(&[("f", f("c2")), ("c", empty())]))]))]),
        d(&[("a", d(&[("b", d(&[("c", d(&[("f", f("x"))]))]))])), ("z", f("z"))]),
        d(&[("b", f("1")), ("c", d(&[("a", f("2"))]))]),
    ];
    let at = ["a", "a/b", "a/f", "a/b/c", "a/b/f", "b", "a/b/c/f", "c/a", "c", "z"];
    let to = [
        "OUT/victim", "OUT/dir", "OUT/dir/f", "OUT/missing", "OUT", "OUT/missing/x", "ROOT/victim", "ROOT/dir", "REPO", "REPO/in", "REPO/ind", "REPO/.snapcd", "REPO/.snapcd/snapcd.db", "REL/victim", "REL/dir", "SELF", "OUT/other",
        "OUT/rolink", "OUT/link2",
    ];
    let jobs: Vec<(usize, usize)> = (0..committed.len()).flat_map(|i| (0..at.len()).map(move |k| (i, k))).collect();
    ctx.set_count("link_targets", to.len() as u64);
    ctx.par(&jobs, |(i, k)| format!("link at {} over committed {}", at[*k], committed[*i].id()), |&(i, k)| {
        use std::os::unix::fs::symlink;
        for &t in &to {
            for pats in [vec![], vec!["**/f".to_string()], vec!["**/in*".to_string(), "**/a/b".to_string()]] {
                let p = Place::new(ctx, "p", ".snapcd")?;
                d(&[("f", f("outside f")), ("b", d(&[("f", f("outside b/f")), ("c", d(&[("f", f("deep"))]))])), ("n", f("n")), ("c", empty())]).write(&p.w.dir.join("other"));
                symlink(p.w.dir.join("other"), p.w.dir.join("link2")).unwrap();
                symlink(p.w.dir.join("victim"), p.w.dir.join("rolink")).unwrap();
                p.set(&committed[i]);
                p.must(&["commit", "-m", "m"])?;
                p.set(&d(&[("in", f("inside")), ("ind", d(&[("f", f("inside f"))]))]));
                let place = p.repo.join(at[k]);
                std::fs::create_dir_all(place.parent().unwrap()).unwrap();
                let rel = "../".repeat(at[k].split('/').count());
                let target = match t.split_once('/') {
                    _ if t == "SELF" => place.file_name().unwrap().to_str().unwrap().to_string(),
                    Some(("OUT", x)) => p.w.dir.join(x).to_str().unwrap().to_string(),
                    None if t == "OUT" => p.w.dir.to_str().unwrap().to_string(),
                    None => p.repo.to_str().unwrap().to_string(),
                    Some(("ROOT", x)) => p.root.join(x).to_str().unwrap().to_string(),
                    Some(("REPO", x)) => p.repo.join(x).to_str().unwrap().to_string(),
                    Some((_, x)) => format!("{}{}", rel, x),
                };
                symlink(&target, &place).unwrap();
                let before = p.marks();
                let a = ex_args(&pats, &["checkout"]);
                let o = p.go(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>());
                let after = p.marks();
                let ctxt = |e: String| format!("link at {} to {} ({})\ncommitted {:?}\nexcluded {:?}\n{}\n{}", at[k], t, target, committed[i], pats, o.show(), e);
                let rel = p.rel();
                let own = format!("{}/.snapcd", rel);
                let fixed = fixed(&p, &before, &pats);
                unchanged(&fixed, &after, &|q| before.contains_key(q) || below(q, &rel) && !below(q, &own)).map_err(ctxt)?;
                if o.ok() && pats.is_empty() {
                    ctx.count("checked_out_over_links", 1);
                    let got = match after.get(&join(&rel, at[k])) {
                        // what leads into the repository folder is as good as excluded
                        Some(e) if e.kind == 'l' && t.starts_with("REPO/.snapcd") => {
                            std::fs::remove_file(&place).unwrap();
                            None
                        }
                        _ => Some(p.tree().map_err(ctxt)?),
                    };
                    if let Some(got) = got {
                        if got != committed[i] {
                            return Err(ctxt(format!("result {:?}", got)));
                        }
                    }
                } else {
                    ctx.count("stopped_at_links", 1);
                }
                ctx.eval(1);
                if ctx.distinct(format!("link {} {} {} {:?}", i, k, t, pats).as_bytes()) && i == 3 && k == 1 {
                    ctx.sample(format!("checkout of {:?}, link at {} to {}: {}", committed[i], at[k], t, o.status()));
                }
            }
        }
        Ok(())
    });
}

/// Files of the working tree that are also something else.
fn hard_links(ctx: &Ctx) {
    let places = ["a", "b", "d/c"];
    // what a file can be another name of: nothing, an earlier one of them, or one of these
    let others = ["z", "x", "d/x", "../by", "../dir/f", "../../victim", ".snapcd/snapcd.db", ".snapcd/mine"];
    let bytes: [&[u8]; 4] = [b"1", b"longer\n", b"", b"same"];
    let ways: Vec<[usize; 3]> = (0..others.len() + 1)
        .flat_map(|i| (0..others.len() + 2).flat_map(move |j| (0..others.len() + 3).map(move |k| [i, j, k])))
        .filter(|w| !ctx.quick() || w.iter().filter(|x| **x == 0).count() > 0 || (w[0] + w[1] + w[2]) % 3 == 0)
        .collect();
    ctx.set_count("hard_linked", ways.len() as u64);
    let show = |w: &[usize; 3]| {
        let n = |i: usize| match w[i] {
            0 => "itself",
            k if k <= others.len() => others[k - 1],
            k => places[k - others.len() - 1],
        };
        format!("a is {}, b is {}, d/c is {}", n(0), n(1), n(2))
    };
    ctx.par(&ways, |w| format!("hard links: {}", show(w)), |way| {
        let p = Place::new(ctx, "p", ".snapcd")?;
        let v = (way[0] + way[1] * 2 + way[2]) % 4;
        let c = d(&[("a", f(bytes[v])), ("b", f(bytes[(v + 1) % 4])), ("d", d(&[("c", f(bytes[(v + 2) % 4]))]))]);
        p.set(&c);
        p.must(&["commit", "-m", "m"])?;
        f("in the folder").write(&p.repo.join(".snapcd/mine"));
        for pats in [vec![], vec!["**/x".to_string()], vec!["**/a".to_string()]] {
            clear(&p.repo, &[".snapcd"]);
            d(&[("a", f("a was here")), ("b", f("b")), ("d", d(&[("c", f("")), ("x", f("dx"))])), ("x", f("excluded")), ("z", f("extra"))]).write(&p.repo);
            for (i, k) in way.iter().enumerate() {
                if *k == 0 {
                    continue;
                }
                let of = if *k <= others.len() { others[k - 1] } else { places[k - others.len() - 1] };
                let at = p.repo.join(places[i]);
                std::fs::remove_file(&at).unwrap();
                std::fs::hard_link(p.repo.join(of), at).unwrap();
            }
            let wt = p.tree()?;
            // the number of names of a file is not a part of it
            let plain = |m: Marks| -> Marks {
                m.into_iter()
                    .map(|(k, mut e)| {
                        e.ctime = (0, 0);
                        (k, e)
                    })
                    .collect()
            };
            let before = plain(p.marks());
            let o = p.go(&ex_args(&pats, &["checkout"]).iter().map(|x| x.as_str()).collect::<Vec<_>>());
            let ctxt = |e: String| format!("{}\nexcluded {:?}\n{}\n{}", show(way), pats, o.show(), e);
            let after = plain(p.marks());
            let (rel, repo) = (p.rel(), p.repo.to_str().unwrap());
            let own = format!("{}/.snapcd", rel);
            unchanged(&fixed(&p, &before, &pats), &after, &|q| before.contains_key(q) || below(q, &rel) && !below(q, &own)).map_err(ctxt)?;
            let ex = |x: &str| excluded(&pats, repo, x);
            let want = result(&c, Some(&wt), "", &ex).ok_or("no result")?.0;
            let got = p.tree().map_err(ctxt)?;
            if !o.ok() {
                return Err(ctxt("failed".into()));
            }
            if got.filter(&|q| !ex(q) || wt.get(q).is_some()) != want {
                return Err(ctxt(format!("result {:?}\nexpected {:?}", got, want)));
            }
            ctx.eval(1);
            ctx.distinct(format!("linked {:?} {:?}", way, pats).as_bytes());
        }
        Ok(())
    });
}

fn hostile_names(dir: &Path) -> Vec<String> {
    let abs = dir.to_string_lossy().into_owned();
    let mut v: Vec<String> = [
        "..", "../", "../x", "../../x", "../../../x", "../by", "../../by", "../../../by", "../victim", "./..", "./../victim", "a/..", "a/../..", "a/../../by", "a/b", "in/by", "a/", "a//b", "./a", ".", "./", "", "/", "//", "../.",
        "..//by", "a\0b", "\0", "..\\by", ".snapcd", "./.snapcd", ".snapcd/", ".snapcd/snapcd.db", ".snapcd/new", ".snapcd/../.snapcd", "in/../.snapcd/snapcd.db", "../p/.snapcd", "snapcd.db", "../dir", "../dir/f", "../../dir/e/new", "in",
        "in/../in",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    for a in ["evil", "by", "root/evil", "root/by", "root/p/evil", "root/p/.snapcd/snapcd.db", "root/dir"] {
        v.push(format!("{}/{}", abs, a));
        v.push(format!("/{}/{}", abs, a));
    }
    v
}

/// Commits made by hand.
fn hostile(ctx: &Ctx) {
    let n = hostile_names(Path::new("/x")).len();
    let mut jobs: Vec<(usize, Option<usize>, usize)> = Vec::new();
    for a in 0..n {
        for shape in 0..ctx.pick(8, 12) {
            jobs.push((a, None, shape));
        }
        for b in 0..n {
            if !ctx.quick() || (a * 7 + b) % 3 == 0 {
                jobs.push((a, Some(b), 0));
            }
        }
    }
    ctx.set_count("hostile_commits", jobs.len() as u64);
    let show = |a: usize, b: Option<usize>, s: usize| {
        let v = hostile_names(Path::new("ABS"));
        format!("hostile {:?} in {:?} shape {}", v[a], b.map(|x| v[x].clone()), s)
    };
    ctx.par(&jobs, |&(a, b, s)| show(a, b, s), |&(a, b, shape)| {
        let p = Place::new(ctx, "p", ".snapcd")?;
        let names = hostile_names(&p.w.dir);
        let mut c = Crafted::default();
        let file = c.file(b"evil");
        let ok = c.file(b"ok");
        let nm = names[a].as_str();
        let inner = c.dir(&[("in", file), ("snapcd.db", file), ("f", file), ("by", file)]);
        let top: Id = match (b, shape) {
            (Some(b), _) => {
                let t = c.dir(&[(nm, file)]);
                c.dir(&[(names[b].as_str(), t)])
            }
            (_, 0) => c.dir(&[(nm, file)]),
            (_, 1) => c.dir(&[(nm, inner)]),
            (_, 2) => c.dir(&[("ok", ok), (nm, file), ("zz", ok)]),
            (_, 3) => {
                let e = c.dir(&[]);
                c.dir(&[(nm, e)])
            }
            (_, 4) => {
                let t = c.dir(&[(nm, inner)]);
                c.dir(&[("in", t), ("d", t)])
            }
            (_, 5) => {
                let t = c.dir(&[("a", ok), (nm, file)]);
                let t = c.dir(&[("in", t)]);
                c.dir(&[("d", t)])
            }
            (_, 6) => c.dir(&[(nm, ok), (nm, file)]),
            (_, 7) => c.dir(&[(nm, inner), (nm, file)]),
            (_, 8) => c.dir(&[("in", inner), ("in", file), (nm, file)]),
            (_, 9) => c.dir(&[("", inner), (nm, inner)]),
            (_, 10) => {
                let t = c.dir(&[("..", file)]);
                c.dir(&[(nm, t)])
            }
            _ => c.add(vx::craft::fsitem(&[nm, "a"], &[file], true, 2)),
        };
        let k = c.commit(top, &[], "m");
        c.store(&p.repo.join(".snapcd/snapcd.db"))?;
        p.must(&["ref", "update", &text(&k)])?;
        let dump = vx::db::dump(&p.repo.join(".snapcd/snapcd.db"))?;
        for wt in [empty(), d(&[("in", d(&[("f", f("mine"))])), ("ok", f("mine")), ("d", d(&[("in", empty())]))])] {
            p.set(&wt);
            let before = p.marks();
            let o = p.go(&["checkout"]);
            let after = p.marks();
            let ctxt = |e: String| format!("{}\nworking tree {:?}\n{}\n{}", show(a, b, shape), wt, o.show(), e);
            let rel = p.rel();
            let own = format!("{}/.snapcd", rel);
            let fixed = fixed(&p, &before, &[]);
            unchanged(&fixed, &after, &|q| before.contains_key(q) || below(q, &rel) && !below(q, &own)).map_err(ctxt)?;
            if vx::db::dump(&p.repo.join(".snapcd/snapcd.db")).map_err(ctxt)? != dump {
                return Err(ctxt("the repository changed".into()));
            }
            ctx.count(if o.ok() { "hostile_checked_out" } else { "hostile_stopped" }, 1);
            ctx.eval(1);
        }
        if ctx.distinct(show(a, b, shape).as_bytes()) && a == 9 {
            ctx.sample(show(a, b, shape));
        }
        Ok(())
    });
}

/// Where it is started and how the repository is named must not matter.
fn starts(ctx: &Ctx) {
    let c = d(&[("a", d(&[("f", f("1")), ("s", d(&[("t", f("2"))]))])), ("g", f("3")), ("e", empty())]);
    let works = [
        c.clone(),
        empty(),
        d(&[("a", d(&[("f", f("9")), ("n", f("new"))])), ("h", f("4"))]),
        d(&[("a", d(&[("s", d(&[("t", f("longer than before")), ("u", d(&[("v", f("5"))]))]))])), ("gone", d(&[("deep", d(&[("er", empty())]))]))]),
    ];
    let starts = ["", "a", "a/s", "a/s/u", "gone", "gone/deep/er", ".snapcd", "e"];
    // how to name the folder; @ stands for the way up from the start directory
    let folders = ["DEFAULT", "@.snapcd", "ABS", "@./.snapcd", "@.snapcd/", "@.snapcd/.", "@.snapcd/../.snapcd", "@../p/.snapcd", "@alias", "OUTALIAS"];
    let jobs: Vec<(usize, usize, usize)> = (0..works.len()).flat_map(|i| (0..starts.len()).flat_map(move |j| (0..folders.len()).map(move |k| (i, j, k)))).collect();
    ctx.par(&jobs, |(i, j, k)| format!("started in {:?} with {} working tree {}", starts[*j], folders[*k], i), |&(i, j, k)| {
        let p = Place::new(ctx, "p", ".snapcd")?;
        p.set(&c);
        p.must(&["commit", "-m", "m"])?;
        p.set(&works[i]);
        let start = p.repo.join(starts[j]);
        std::fs::create_dir_all(&start).unwrap();
        let wt = p.tree()?;
        let up = "../".repeat(starts[j].split('/').filter(|x| !x.is_empty()).count());
        let arg = match folders[k] {
            "DEFAULT" => None,
            "ABS" => Some(p.repo.join(".snapcd").to_str().unwrap().to_string()),
            "@alias" => {
                std::os::unix::fs::symlink("p", p.root.join("alias")).unwrap();
                Some(format!("{}../alias/.snapcd", up))
            }
            "OUTALIAS" => {
                std::os::unix::fs::symlink(&p.root, p.w.dir.join("oa")).unwrap();
                Some(p.w.dir.join("oa/p/.snapcd").to_str().unwrap().to_string())
            }
            x => Some(x.replace('@', &up)),
        };
        let before = p.marks();
        let s = p.s.at(&start);
        let o = match &arg {
            Some(x) => s.run(&["-d", x, "checkout"]),
            None => s.run(&["checkout"]),
        };
        // naming it through a link may be refused
        let may_fail = folders[k] == "@alias" || folders[k] == "OUTALIAS";
        if !o.ok() && !start.exists() {
            // the way up from the start directory is gone with it
            let rel = p.rel();
            unchanged(&fixed(&p, &before, &[]), &p.marks(), &|q| before.contains_key(q) || below(q, &rel))?;
        } else if may_fail && !o.ok() {
            unchanged(&before, &p.marks(), &|_| false)?;
        } else {
            judge(&p, &before, &c, &wt, &[], &o).map_err(|e| format!("started in {:?}, -d {:?}: {}", starts[j], arg, e))?;
        }
        ctx.count("starts", 1);
        ctx.distinct(format!("start {} {} {}", i, j, k).as_bytes());
        Ok(())
    });
}

/// What is checked out is the tip of the current ref.
fn histories(ctx: &Ctx) {
    let trees = [d(&[("a", f("0"))]), d(&[("a", d(&[("b", f("1"))]))]), d(&[("c", f("2")), ("e", empty())]), empty()];
    // every sequence of: commit tree i on ref r; set the head to r; move r back to its first commit
    let mut ops: Vec<(char, usize, usize)> = Vec::new();
    for r in 0..2 {
        ops.push(('h', r, 0));
        ops.push(('b', r, 0));
        for i in 0..3 {
            ops.push(('c', r, i));
        }
    }
    let depth = ctx.pick(3, 4);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all = seqs.clone();
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..ops.len()).map(move |o| s.iter().copied().chain([o]).collect())).collect();
        all.extend(seqs.iter().cloned());
    }
    ctx.set_count("histories", all.len() as u64);
    ctx.par(&all, |s| format!("history {:?}", s.iter().map(|&o| ops[o]).collect::<Vec<_>>()), |s| {
        let p = Place::new(ctx, "p", ".snapcd")?;
        let refs = ["master", "other"];
        let mut logs: [Vec<(usize, String)>; 2] = [vec![], vec![]];
        let mut head = 0;
        let db = p.repo.join(".snapcd/snapcd.db");
        for &o in s {
            let (op, r, i) = ops[o];
            match op {
                'h' => {
                    p.must(&["debug", "set-head", refs[r]])?;
                    head = r;
                }
                'c' => {
                    p.set(&trees[i]);
                    p.must(&["commit", "-m", "m", refs[r]])?;
                    let k = vx::db::dump(&db)?.tip(refs[r]).ok_or("no tip")?;
                    logs[r].push((i, k));
                }
                _ => {
                    if let Some((i, k)) = logs[r].first().cloned() {
                        p.must(&["ref", "update", &k, refs[r]])?;
                        logs[r].push((i, k));
                    }
                }
            }
        }
        for wt in [&trees[3], &trees[2]] {
            p.set(wt);
            let before = p.marks();
            let o = p.go(&["checkout"]);
            match logs[head].last() {
                Some((i, _)) => {
                    judge(&p, &before, &trees[*i], wt, &[], &o)?;
                }
                None => {
                    if o.ok() {
                        return Err(format!("no commit on {}: {}", refs[head], o.show()));
                    }
                    unchanged(&before, &p.marks(), &|_| false)?;
                }
            }
        }
        ctx.distinct(format!("history {:?}", s).as_bytes());
        Ok(())
    });
}

fn sweeps(ctx: &Ctx) {
    let mut trees = sweep_trees(&[0, 1, 2, 23, 24, 25, 100, 256, 257, ctx.pick(300, 3000)], &[1, 2, 10, 50, ctx.pick(60, 200)]);
    trees.retain(|t| t.1.get(".snapcd").is_none());
    trees.extend(grid_trees(&grid_names(!ctx.quick())));
    trees.extend(huge_trees(&ctx.pick(vec![65537], vec![65535, 65536, 65537])));
    // what was there before
    let befores: Vec<(&str, Node)> = vec![
        ("nothing", empty()),
        ("other files", d(&[("other", f("x")), ("od", d(&[("a", f("y")), ("e", empty())]))])),
    ];
    ctx.set_count("sweep_trees", trees.len() as u64);
    let jobs: Vec<(usize, usize)> = (0..trees.len()).flat_map(|i| (0..4).map(move |k| (i, k))).collect();
    ctx.par(&jobs, |(i, k)| format!("sweep {} {}", trees[*i].0, k), |&(i, k)| {
        let p = Place::new(ctx, "", "meta")?;
        let t = &trees[i].1;
        let c = if k == 3 { &befores[1].1 } else { t };
        p.set(c);
        p.must(&["commit", "-m", "m"])?;
        // the same shape with other contents, longer; and everything to be removed
        let grown = map_files(t, &|b| {
            let mut v = b.to_vec();
            v.extend(pattern(70, 5));
            v
        });
        let wt = match k {
            0 => befores[0].1.clone(),
            1 => befores[1].1.clone(),
            2 => grown,
            _ => t.clone(),
        };
        p.set(&wt);
        let before = p.marks();
        let o = p.go(&["checkout"]);
        if !judge(&p, &before, c, &wt, &[], &o).map_err(|e| e.chars().take(3000).collect::<String>())? {
            return Err(format!("{}: {}", trees[i].0, o.show()));
        }
        ctx.distinct(format!("sweep {} {}", i, k).as_bytes());
        Ok(())
    });
}

/// Equal sizes, equal beginnings, equal times: what is on disk is not what was committed.
fn lookalikes(ctx: &Ctx) {
    let mut sizes = sizes();
    if !ctx.quick() {
        sizes.extend([2_000_000, 4 << 20, (4 << 20) + 1, 9_000_000]);
    }
    sizes.retain(|n| *n > 0);
    let jobs: Vec<(usize, usize)> = sizes.iter().flat_map(|&n| (0..6).map(move |k| (n, k))).collect();
    ctx.par(&jobs, |(n, k)| format!("lookalike {} {}", n, k), |&(n, k)| {
        let p = Place::new(ctx, "p", "meta")?;
        let old = pattern(n, 3);
        let mut new = old.clone();
        match k {
            0 => new[n - 1] ^= 1,
            1 => new[0] ^= 1,
            2 => new[n / 2] ^= 0x80,
            3 => new.iter_mut().for_each(|b| *b = 0),
            4 => new.reverse(),
            _ => new.push(0),
        }
        let c = d(&[("a", f(&old)), ("d", d(&[("b", f(&old))]))]);
        let wt = d(&[("a", f(&new)), ("d", d(&[("b", f(&new))]))]);
        p.set(&c);
        let times: Vec<_> = ["a", "d/b"].iter().map(|x| std::fs::metadata(p.repo.join(x)).unwrap().modified().unwrap()).collect();
        p.must(&["commit", "-m", "m"])?;
        p.must(&["status"])?;
        for same_file in [false, true] {
            if same_file {
                // written over in place, with the times it had when it was committed
                for (x, t) in ["a", "d/b"].iter().zip(&times) {
                    std::fs::write(p.repo.join(x), &new).unwrap();
                    std::fs::File::options().write(true).open(p.repo.join(x)).unwrap().set_modified(*t).unwrap();
                }
            } else {
                p.set(&wt);
            }
            let before = p.marks();
            let o = p.go(&["checkout"]);
            judge(&p, &before, &c, &wt, &[], &o).map_err(|e| format!("{} bytes, variant {}: {}", n, k, e.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>()))?;
            if !o.ok() {
                return Err(format!("{} bytes: {}", n, o.show()));
            }
        }
        ctx.distinct(format!("lookalike {} {}", n, k).as_bytes());
        Ok(())
    });
}

fn map_files(t: &Node, g: &dyn Fn(&[u8]) -> Vec<u8>) -> Node {
    match t {
        Node::F(b) => Node::F(g(b)),
        Node::D(m) => Node::D(m.iter().map(|(k, v)| (k.clone(), map_files(v, g))).collect()),
    }
}
