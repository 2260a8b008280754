//! Excluded paths and the repository folder never enter a snapshot.
use super::common::*;
use std::collections::HashMap;
use std::sync::Mutex;
use vx::glob::{escape, matches, matches_bytes};
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C17",
    level: "exploration",
    rule: "every tree of at most N entries over 2 names x every pattern (and pair of patterns) from a list x every way of reaching the tree: the id printed has to be the id of a tree from which exactly the paths matched by an independent pattern matcher (and everything inside them) are left out; commits with patterns followed by status and compare with the same patterns on the same and on changed trees; every position of the repository folder in small trees; every pair of names that are not UTF-8 or not ASCII x a list of patterns (left out as a whole they are no obstacle, otherwise the command has to fail); sweeps over names, counts and depths. Non-trivial: distinct (tree, patterns, form) compared.",
    assumptions: &["a pattern is matched against the path the way it was reached from the given directory (absolute if that was), and `*` also matches separators", "an id identifies a tree (checked separately)"],
    run,
};

/// How the tree is named on the command line, and what its paths look like to the patterns.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Form {
    Dot,
    DotSlash,
    Abs,
    Sub,
    DotSub,
    Up,
    Slash,
}
const FORMS: [Form; 7] = [Form::Dot, Form::Abs, Form::Sub, Form::DotSub, Form::Up, Form::DotSlash, Form::Slash];

impl Form {
    /// (working directory below the repository, argument, prefix of the paths)
    fn at(self, repo: &str) -> (String, String, String) {
        match self {
            Form::Dot => ("".into(), ".".into(), "".into()),
            Form::DotSlash => ("".into(), "./".into(), "".into()),
            Form::Abs => ("".into(), repo.into(), format!("{}/", repo)),
            Form::Sub => ("".into(), "sub".into(), "sub/".into()),
            Form::DotSub => ("".into(), "./sub".into(), "sub/".into()),
            Form::Slash => ("".into(), "sub/".into(), "sub/".into()),
            Form::Up => ("sub".into(), "../sub".into(), "../sub/".into()),
        }
    }
    fn in_sub(self) -> bool {
        matches!(self, Form::Sub | Form::DotSub | Form::Up | Form::Slash)
    }
}

const PATTERNS: &[&str] = &[
    "a", "b", "*", "?", "a*", "*a", "*/a", "a/*", "**/a", "a/**", "a/**/b", "[ab]", "[!a]", "{a,b}", "*/*", "?/?", "a/b", "/a", "./a", "a/", "", "A", "[a-b]/a", "\\a", "**/a/**", "*b", "a/b/*", "sub/a",
    "*/sub/*", "sub/*/b", "{a/b,b}", "**/{a,b}", "sub", "sub/", "**/sub/a", "ab", "[^b]", "REPO/a", "REPO/*", "REPO/**/b", "REPO", "*/r/a", "*r/?",
];

fn exclude(t: &Node, prefix: &str, pats: &[String]) -> Node {
    t.filter(&|p| !pats.iter().any(|x| matches(x, &format!("{}{}", prefix, p))))
}

struct Ids<'a> {
    ctx: &'a Ctx,
    map: Mutex<HashMap<Vec<u8>, String>>,
}
impl Ids<'_> {
    fn of(&self, t: &Node) -> Result<String, String> {
        let k = t.bytes();
        if let Some(x) = self.map.lock().unwrap().get(&k) {
            return Ok(x.clone());
        }
        let w = World::new(self.ctx);
        let p = w.dir.join("plain");
        t.write(&p);
        let id = w.snap.insert(&p)?;
        self.map.lock().unwrap().insert(k, id.clone());
        Ok(id)
    }
}

fn args_with(pats: &[String], cmd: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = cmd.iter().map(|x| x.to_string()).collect();
    for p in pats {
        if p.starts_with('-') {
            v.push(format!("--exclude={}", p));
        } else {
            v.push("-e".into());
            v.push(p.clone());
        }
    }
    v
}

fn inserted(w: &World, form: Form, tree: &Node, pats: &[String], ids: &Ids) -> Result<(), String> {
    let repo = w.repo.to_str().unwrap();
    let pats: Vec<String> = pats.iter().map(|p| p.replace("REPO", repo)).collect();
    let (cwd, arg, prefix) = form.at(repo);
    let want = exclude(tree, &prefix, &pats);
    let s = w.snap.at(&w.repo.join(cwd));
    let o = s.run(&args_with(&pats, &["insert", &arg]));
    if !o.ok() {
        return Err(format!("insert {} of {:?} without {:?}: {}", arg, tree, pats, o.show()));
    }
    let got = vx::run::inserted_id(&o)?;
    if got != ids.of(&want)? {
        let t = w.fetched(&got);
        return Err(format!("insert {} of {:?} without {:?} stored {:?}\nexpected {:?}", arg, tree, pats, t, want));
    }
    Ok(())
}

fn put(w: &World, form: Form, t: &Node) {
    w.set_tree(&if form.in_sub() { d(&[("sub", t.clone())]) } else { t.clone() });
}

fn run(ctx: &Ctx) {
    let ids = Ids { ctx, map: Default::default() };
    let trees: Vec<Node> = enumerate(&["a", "b"], &[b"x"], 4, ctx.pick(3, 5));
    ctx.set_count("trees", trees.len() as u64);
    ctx.set_count("patterns", PATTERNS.len() as u64);
    // 1. single patterns, all forms; pairs of patterns
    let mut jobs = Vec::new();
    for i in 0..trees.len() {
        for f in FORMS {
            jobs.push((i, f));
        }
    }
    ctx.par(&jobs, |(i, f)| format!("{} as {:?}", trees[*i].id(), f), |&(i, form)| {
        let w = World::new(ctx);
        put(&w, form, &trees[i]);
        if i % 17 == 3 && form == Form::Dot {
            ctx.sample(format!("{:?} without `*/a`: {:?}", trees[i], exclude(&trees[i], "", &["*/a".into()])));
        }
        for (k, p) in PATTERNS.iter().enumerate() {
            let one = vec![p.to_string()];
            inserted(&w, form, &trees[i], &one, &ids)?;
            ctx.eval(1);
            ctx.distinct(format!("{} {:?} {:?}", i, form, one).as_bytes());
            if trees[i].nodes() > ctx.pick(3, 4) || matches!(form, Form::Slash | Form::DotSlash | Form::DotSub) {
                continue;
            }
            for (l, q) in PATTERNS.iter().enumerate() {
                if l == k || ctx.quick() && (k * 7 + l) % 11 != i % 11 {
                    continue;
                }
                let two = vec![p.to_string(), q.to_string()];
                inserted(&w, form, &trees[i], &two, &ids)?;
                ctx.eval(1);
                ctx.distinct(format!("{} {:?} {:?}", i, form, two).as_bytes());
            }
        }
        Ok(())
    });
    if ctx.nviolations() > 0 {
        return;
    }
    commits(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    folder(ctx, &ids);
    if ctx.nviolations() > 0 {
        return;
    }
    sweeps(ctx, &ids);
    if ctx.nviolations() > 0 {
        return;
    }
    raw_names(ctx, &ids);
}

/// Names that are not UTF-8 (which can't be stored) or more than ASCII, and patterns that match them.
fn raw_names(ctx: &Ctx, ids: &Ids) {
    use std::os::unix::ffi::OsStrExt;
    let names: [&[u8]; 14] = [b"a", b"\xff", b"a\xff", b"\xe9t", b"a\xff\xfe", b"\xffa", b"d\xff/x", b"d/y\xff", b"d/x", b"\xc3\xa9", b"a\xc3\xa9", b"a\xe2\x82\xac", b"a\xef\xbf\xbd", b"\xf0\x9f\x98"];
    let pats = [
        "t/a?", "*?", "t/?", "t/??", "t/a*", "t/[!a]*", "t/a??", "t/a???", "*t/d*", "*[!a-z]", "*", "t/d?/x", "t/d?", "t/*a", "t/d/y?", "t/d/??", "**/x", "t/a[!b]", "*\u{fffd}", "t/a\u{fffd}", "t/\u{e9}", "t/{a,\u{e9}}?", "t/a\u{20ac}", "nothing",
    ];
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..names.len() {
        sets.push(vec![i]);
        sets.extend((0..i).map(|j| vec![j, i]));
        if !ctx.quick() {
            sets.extend((0..i).flat_map(|j| (0..j).map(move |k| vec![k, j, i])));
        }
    }
    ctx.set_count("raw_name_trees", sets.len() as u64);
    ctx.par(&sets, |s| format!("raw names {:?}", s.iter().map(|&i| String::from_utf8_lossy(names[i])).collect::<Vec<_>>()), |s| {
        let w = World::new(ctx);
        let t = w.repo.join("t");
        std::fs::create_dir(&t).unwrap();
        std::fs::write(t.join("k"), "kept").unwrap();
        for &i in s {
            let p = t.join(std::ffi::OsStr::from_bytes(names[i]));
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, names[i]).unwrap();
        }
        for (n, pat) in pats.iter().enumerate() {
            // everything that is stored, directories first
            let mut tree = empty();
            let mut possible = true;
            let out = |p: &[u8]| matches_bytes(pat, &[b"t/", p].concat());
            for p in s.iter().map(|&i| (names[i], names[i])).chain([(&b"k"[..], &b"kept"[..])]) {
                let mut at = &mut tree;
                let parts: Vec<&[u8]> = p.0.split(|c| *c == b'/').collect();
                for (j, part) in parts.iter().enumerate() {
                    if out(&parts[..=j].join(&b'/')) {
                        break;
                    }
                    let Ok(name) = std::str::from_utf8(part) else {
                        possible = false;
                        break;
                    };
                    let Node::D(m) = at else { unreachable!() };
                    at = m.entry(name.to_string()).or_insert_with(|| if j + 1 == parts.len() { f(p.1) } else { empty() });
                }
            }
            if matches_bytes(pat, b"t") {
                continue;
            }
            let o = w.snap.run(&["-e", pat, "insert", "t"]);
            let ctxt = |x: String| format!("names {:?} without {:?}: {}\nexpected {:?}, {}", s.iter().map(|&i| String::from_utf8_lossy(names[i])).collect::<Vec<_>>(), pat, o.show(), possible.then_some(&tree), x);
            if o.ok() != possible {
                return Err(ctxt(String::new()));
            }
            if possible {
                let got = vx::run::inserted_id(&o)?;
                if got != ids.of(&tree)? {
                    return Err(ctxt(format!("stored {:?}", w.fetched(&got))));
                }
                // the same paths are left out later on
                if n % 3 == s.len() % 3 {
                    w.snap.good(&["-e", pat, "commit", "-p", "t", "-m", "m"])?;
                    let o = w.snap.good(&["-e", pat, "compare", "-p", "t"])?;
                    if !o.text().trim().is_empty() {
                        return Err(ctxt(format!("compare says {}", o.text())));
                    }
                }
            }
            ctx.eval(1);
            ctx.distinct(format!("raw {:?} {}", s, n).as_bytes());
        }
        Ok(())
    });
}

/// A commit with patterns, then status and compare with the same ones.
fn commits(ctx: &Ctx) {
    let all = enumerate(&["a", "b"], &[b"x"], 3, 3);
    let mut news = all.clone();
    news.retain(|t| t.nodes() <= ctx.pick(3, 4));
    let pats: Vec<Vec<String>> = [
        &["REPO/a"][..], &["*/a"], &["*/b", "*/a/*"], &["REPO/b/*"], &["**/b"], &["*/r/a", "*/b/b"], &["*"], &["a"], &["REPO/a/**"], &["*/[!r]"], &["REPO"], &["REPO/*/*"],
    ]
    .iter()
    .map(|x| x.iter().map(|y| y.to_string()).collect())
    .collect();
    let rel: Vec<Vec<String>> = [&["a"][..], &["*/a"], &["*b"], &["a/*"], &["?/?"], &["**/a/**"]].iter().map(|x| x.iter().map(|y| y.to_string()).collect()).collect();
    let mut jobs = Vec::new();
    for i in 0..all.len() {
        for k in 0..pats.len() {
            jobs.push((i, k, false));
        }
        for k in 0..rel.len() {
            jobs.push((i, k, true));
        }
    }
    ctx.par(&jobs, |(i, k, r)| format!("commit {} without {:?}", all[*i].id(), if *r { &rel[*k] } else { &pats[*k] }), |&(i, k, r)| {
        let w = World::new(ctx);
        let repo = w.repo.to_str().unwrap().to_string();
        let p: Vec<String> = if r { &rel[k] } else { &pats[k] }.iter().map(|x| x.replace("REPO", &repo)).collect();
        let prefix = if r { String::new() } else { format!("{}/", repo) };
        let path: &[&str] = if r { &["-p", "."] } else { &[] };
        w.set_tree(&all[i]);
        let mut c = args_with(&p, &["commit", "-m", "m"]);
        c.extend(path.iter().map(|x| x.to_string()));
        w.snap.good(&c)?;
        let kept = exclude(&all[i], &prefix, &p);
        let tip = w.dump()?.tip("master").ok_or("no commit")?;
        let got = w.fetched(&tree_of(&w, &tip)?)?;
        if got != kept {
            return Err(format!("commit of {:?} without {:?} holds {:?}, expected {:?}", all[i], p, got, kept));
        }
        for (j, t) in news.iter().enumerate() {
            if j != i && (i + j + k) % ctx.pick(5, 2) != 0 {
                continue;
            }
            w.set_tree(t);
            let want = Changes::between(&kept, &exclude(t, &prefix, &p));
            for cmd in [&["status"][..], &["compare"], &["compare", "-s"]] {
                if r && cmd[0] == "status" {
                    continue;
                }
                let mut c = args_with(&p, cmd);
                if cmd[0] == "compare" {
                    c.extend(path.iter().map(|x| x.to_string()));
                }
                let o = w.snap.run(&c);
                ctx.eval(1);
                if !o.ok() {
                    return Err(format!("{:?} in {:?}: {}", c, t, o.show()));
                }
                if cmd.len() == 2 {
                    let got: Vec<String> = o.text().lines().map(|l| l.rsplit_once("  +").map(|x| x.0).unwrap_or(l).to_string()).collect();
                    let want: Vec<String> = file_changes(&kept, &exclude(t, &prefix, &p)).into_iter().map(|x| x.0).collect();
                    let mut g = got.clone();
                    g.sort();
                    if g != want {
                        return Err(format!("committed {:?}, working {:?}: {:?} names {:?}, expected {:?}", kept, t, c, got, want));
                    }
                    continue;
                }
                let got = Changes::parse(&o.text(), cmd[0] == "status")?;
                if got != want {
                    return Err(format!("committed {:?}, working {:?}: {:?}: {}\nexpected {}", kept, t, c, got.show(), want.show()));
                }
            }
            // a switch of HEAD with the same patterns
            if !r && j % 3 == 0 {
                let o = w.snap.run(&args_with(&p, &["checkout-head", "n"]));
                let switched = w.dump()?.head().as_deref() == Some("n");
                if switched != want.is_empty() {
                    return Err(format!("committed {:?}, working {:?} without {:?}: checkout-head {}: {}", kept, t, p, if switched { "went ahead" } else { "was refused" }, o.show()));
                }
                if switched {
                    w.snap.good(&["debug", "set-head", "master"])?;
                }
            }
            ctx.distinct(format!("commit {} {} {} {}", i, k, r, j).as_bytes());
        }
        Ok(())
    });
}

/// Every position of the repository folder.
fn folder(ctx: &Ctx, ids: &Ids) {
    let tree = d(&[
        ("a", f("1")),
        ("meta", d(&[("x", f("2"))])),
        ("s", d(&[("t", d(&[("a", f("3")), ("meta", f("4"))])), ("meta2", f("5")), ("snapcd.db", f("6")), (".snapcd", d(&[("snapcd.db", f("other")), ("k", empty())]))])),
        (".snapcd2", d(&[("y", f("7"))])),
        (".snapcd.bak", f("8")),
        (".snapc", f("9")),
        ("u", d(&[("u", d(&[("u", empty())]))])),
    ]);
    let places = [".snapcd", "db", "s/db", "s/t/db", "u/u/u", "u/u/u/w", "new/dir/db", "s/.snapcd2", "é", "meta/x2", ".snapcd3", "u/u"];
    let args = ["", ".", "./", "ABS", "s", "./s", "ABS/s", "s/t", "u", "../r", "s/../s", "LINK", "LINK/s", "s/t/..", ".//s"];
    let mut jobs = Vec::new();
    for p in places {
        for a in args {
            for cmd in ["insert", "commit"] {
                if cmd == "insert" && a.is_empty() {
                    continue;
                }
                jobs.push((p, a, cmd));
            }
        }
    }
    ctx.par(&jobs, |(p, a, c)| format!("repository in {}, {} {:?}", p, c, a), |&(place, arg, cmd)| {
        let w = World::bare(ctx);
        tree.write(&w.repo);
        std::os::unix::fs::symlink(&w.repo, w.dir.join("link")).unwrap();
        let db = w.repo.join(place);
        w.snap.good(&["-d", place, "init"])?;
        let abs = w.repo.to_str().unwrap().to_string();
        let link = w.dir.join("link").to_str().unwrap().to_string();
        let a = arg.replace("ABS", &abs).replace("LINK", &link);
        // what is in the argument's directory, without the repository folder
        let top = if arg.is_empty() { db.parent().unwrap().to_path_buf() } else { w.repo.join(&a) };
        let top = std::fs::canonicalize(&top).unwrap();
        let dbc = std::fs::canonicalize(&db).unwrap();
        if dbc == top || top.starts_with(&dbc) {
            return Ok(());
        }
        let read = || -> Result<Node, String> {
            let mut t = Node::read(&top)?;
            if let Ok(r) = dbc.strip_prefix(&top) {
                t.remove(r.to_str().unwrap());
            }
            Ok(t)
        };
        let want = read()?;
        let ident = |t: &Node| ids.of(t);
        let got = match cmd {
            "insert" => vx::run::inserted_id(&w.snap.good(&["-d", place, "insert", &a])?)?,
            _ => {
                let mut v = vec!["-d", place, "commit", "-m", "m"];
                if !arg.is_empty() {
                    v.extend(["-p", a.as_str()]);
                }
                w.snap.good(&v)?;
                let dump = vx::db::dump(&db.join("snapcd.db"))?;
                let tip = dump.tip("master").ok_or("no commit")?;
                let o = w.snap.good(&["-d", place, "debug", "pretty-print", &tip])?.text();
                o.lines().find(|l| l.starts_with('b')).unwrap_or("").to_string()
            }
        };
        if got != ident(&want)? {
            let out = w.dir.join("out");
            let _ = w.snap.run(&["-d", place, "fetch", &got, out.to_str().unwrap()]);
            return Err(format!("{} {:?} with the repository in {} stored {:?}\nexpected {:?}", cmd, a, place, Node::read(&out), want));
        }
        // nothing to report, and again after the repository has grown
        for _ in 0..2 {
            let mut v = vec!["-d", place, "compare"];
            if !arg.is_empty() {
                v.extend(["-p", a.as_str()]);
            }
            v.push(got.as_str());
            let o = w.snap.good(&v)?;
            if !o.stdout.is_empty() {
                return Err(format!("compare {:?} with the repository in {}: {}", a, place, o.show()));
            }
        }
        if cmd == "commit" && arg.is_empty() {
            let o = w.snap.good(&["-d", place, "status"])?;
            if o.text().lines().count() != 1 {
                return Err(format!("status with the repository in {}: {}", place, o.show()));
            }
        }
        if read()? != want {
            return Err(format!("{} changed the tree", cmd));
        }
        ctx.distinct(format!("folder {} {} {}", place, arg, cmd).as_bytes());
        Ok(())
    });
}

fn sweeps(ctx: &Ctx, ids: &Ids) {
    let mut jobs: Vec<(Node, Vec<Vec<String>>)> = Vec::new();
    let names: Vec<String> = odd_names().into_iter().filter(|n| n != ".snapcd").collect();
    let s = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<String>>();
    for n in &names {
        let t = d(&[(n, f("1")), ("zz", d(&[(n, d(&[("in", f("2"))])), ("k", f("3"))]))]);
        let e = escape(n);
        jobs.push((t, vec![s(&[]), vec![e.clone()], vec![format!("zz/{}", e)], vec![format!("*/{}", e)], vec![format!("**/{}", e)], vec![format!("{}/in", e)], vec![format!("zz/{}/*", e)], vec![format!("x{}", e), format!("{}x", e)], s(&["zz"])]));
    }
    // all of them at once, each one alone left out
    let mut all = empty();
    for n in &names {
        all.put(n, f(n));
    }
    for c in names.chunks(8) {
        jobs.push((all.clone(), c.iter().map(|n| vec![escape(n)]).chain([c.iter().map(|n| escape(n)).collect()]).collect()));
    }
    for n in [10usize, 30, 300] {
        let t = dir_of(n, |i| (format!("f{}", i), if i % 4 == 3 { d(&[(&format!("f{}", i), f("")), ("g", f("x"))]) } else { f(format!("{}", i)) }));
        jobs.push((t, vec![s(&["f1"]), s(&["*1*"]), s(&["f?"]), s(&["f[0-4]*"]), s(&["*/g"]), s(&["*[02468]"]), s(&["f*/f*"]), (0..n).filter(|i| i % 3 == 0).map(|i| format!("f{}", i)).collect()]));
    }
    for n in ctx.pick(vec![65540usize], vec![65537, 65540, 131075]) {
        // what is left is more, or less, than 16 bits can count
        let t = d(&[("h", dir_of(n, |i| (format!("f{:x}", i), f(format!("{}", i % 1000))))), ("z", f("last"))]);
        jobs.push((t, vec![s(&[]), vec!["h/f1000?".into()], vec!["*/f?".into()], vec!["z".into()]]));
    }
    for n in [5usize, 20, 60] {
        let t = (0..n).fold(f("leaf"), |t, i| d(&[(if i % 2 == 0 { "d" } else { "e" }, t), ("s", f(format!("{}", i)))]));
        jobs.push((t, vec![s(&["*/s"]), s(&["*/d/e/d"]), s(&["*e/d/e/d"]), s(&["**/e/s"]), s(&["*d"]), s(&["d/e/d/*"]), s(&["?/?/?/s"]), s(&["d/**/s"]), s(&["e/**"])]));
    }
    // names with endings and beginnings in common
    let t = d(&[
        ("a", f("1")), ("aa", f("2")), ("a.o", f("3")), ("b.o", d(&[("c.o", f("4")), ("c", f("5"))])), (".o", f("6")), ("o", f("7")), ("a.oo", f("8")), ("A.O", f("9")),
        ("target", d(&[("target", f("10")), ("x", d(&[("target", empty())]))])), ("target2", f("11")), ("my target", f("12")), ("src", d(&[("target", d(&[("y", f("13"))])), ("lib.rs", f("14"))])),
    ]);
    jobs.push((
        t,
        ["*.o", "a.o", "**/*.o", "b.o/*", "*.o/*", "target", "**/target", "*/target", "target/**", "*target*", "**/target/**", "src/*", "src/**/y", "?", "??", "*.{o,rs}", "{target,src}", "[a-c]*", "*[!o]", "a?o", "a\\?o", "src/lib.rs", "lib.rs", "*/x"]
            .iter()
            .map(|p| s(&[p]))
            .collect(),
    ));
    ctx.set_count("sweeps", jobs.len() as u64);
    ctx.par(&jobs, |(t, p)| format!("sweep {} {:?}", t.id(), p.first()), |(t, pats)| {
        for form in [Form::Dot, Form::DotSub, Form::Abs] {
            let w = World::new(ctx);
            put(&w, form, t);
            for p in pats {
                ctx.eval(1);
                inserted(&w, form, t, p, ids)?;
                ctx.distinct(format!("sweep {:?} {:?} {:?}", t.bytes(), form, p).as_bytes());
            }
        }
        Ok(())
    });
}
