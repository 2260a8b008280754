//! Fetch never touches what exists and never leaves its destination.
use super::common::*;
use std::path::Path;
use vx::craft::{text, Crafted, Id};
use vx::mark::{marks, unchanged};
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C11",
    level: "exploration",
    rule: "every stored tree of at most N entries fetched into every destination state of at most N entries over the same names (absent, file, directory, special files), and every crafted tree with hostile names from a list (alone, in all pairs, at depths 0 to 2, as file and as directory) fetched into every destination form; all files around are compared by bytes, inode, mode and times before and after. Non-trivial: distinct (stored tree, destination state, form) fetched.",
    assumptions: &["a symbolic link to a directory that the user placed at or in the destination is followed", "runs as an unprivileged user inside a scratch directory"],
    run,
};

/// What `fetch` would write, and whether something is in the way.
fn merged(stored: &Node, pre: Option<&Node>) -> Option<Node> {
    match (stored, pre) {
        (_, None) => Some(stored.clone()),
        (Node::F(_), Some(_)) => None,
        (Node::D(_), Some(Node::F(_))) => None,
        (Node::D(s), Some(Node::D(p))) => {
            let mut r = p.clone();
            for (k, v) in s {
                r.insert(k.clone(), merged(v, p.get(k))?);
            }
            Some(Node::D(r))
        }
    }
}

fn run(ctx: &Ctx) {
    existing(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    related(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    special(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    hostile(ctx);
}

fn existing(ctx: &Ctx) {
    let n = ctx.pick(3, 4);
    let mut stored = enumerate(&["a", "b"], &[b"x"], 3, n);
    stored.push(f("x"));
    stored.push(f(""));
    stored.push(d(&[("a", f(pattern(100_000, 3))), ("b", f(pattern(100, 3)))]));
    let mut pre: Vec<Option<Node>> = vec![None, Some(f("")), Some(f("x")), Some(f("y, longer than what is stored"))];
    pre.extend(enumerate(&["a", "b"], &[b"", b"x", b"yy"], 3, n.min(3)).into_iter().map(Some));
    pre.extend(enumerate(&["a", "c"], &[b"z"], 3, 2).into_iter().map(Some));
    let dests = ["o", "ABS", "../up", "o/", "p/q/o", "."];
    let idx: Vec<usize> = (0..stored.len()).collect();
    ctx.set_count("stored_trees", stored.len() as u64);
    ctx.set_count("destination_states", pre.len() as u64);
    let jobs: Vec<(usize, usize)> = idx.iter().flat_map(|&i| (0..8).map(move |k| (i, k))).collect();
    ctx.par(
        &jobs,
        |(i, k)| format!("stored {} part {}", stored[*i].id(), k),
        |&(i, part)| {
            let w = World::new(ctx);
            let src = w.dir.join("src");
            stored[i].write(&src);
            let id = w.snap.insert(&src)?;
            let dump = w.dump()?;
            for (j, p) in pre.iter().enumerate() {
                if j % 8 != part {
                    continue;
                }
                for (di, dest) in dests.iter().enumerate() {
                    if di > 0 && (i + j + di) % ctx.pick(7, 2) != 0 {
                        continue;
                    }
                    one(ctx, &w, &stored[i], &id, p.as_ref(), dest)?;
                }
            }
            if w.dump()? != dump {
                return Err("the store changed".into());
            }
            Ok(())
        },
    );
}

fn one(ctx: &Ctx, w: &World<'_>, stored: &Node, id: &str, pre: Option<&Node>, dest: &str) -> Result<(), String> {
    vx::world::clear(&w.repo, &[".snapcd"]);
    let _ = std::fs::remove_dir_all(w.dir.join("up"));
    let _ = std::fs::remove_file(w.dir.join("up"));
    let mut cwd = w.repo.clone();
    let (place, arg) = match dest {
        "o" | "o/" => (cwd.join("o"), dest.to_string()),
        "ABS" => (cwd.join("o"), cwd.join("o").to_string_lossy().into_owned()),
        "../up" => (w.dir.join("up"), dest.to_string()),
        "p/q/o" => (cwd.join("p/q/o"), dest.to_string()),
        _ => {
            if !matches!(pre, Some(Node::D(_))) || !stored.is_dir() {
                return Ok(());
            }
            (cwd.join("here"), ".".to_string())
        }
    };
    if let Some(p) = pre {
        std::fs::create_dir_all(place.parent().unwrap()).unwrap();
        p.write(&place);
    }
    f("bystander").write(&w.repo.join("by"));
    if dest == "." {
        cwd = place.clone();
    }
    let before = marks(&w.dir, &["cache"]);
    let o = w.snap.at(&cwd).run(&["fetch", id, &arg]);
    let after = marks(&w.dir, &["cache"]);
    let rel = place.strip_prefix(&w.dir).unwrap().to_string_lossy().into_owned();
    let ctxt = |e: String| format!("stored {:?}\nat {} was {:?}\n{}\n{}", stored, arg, pre, o.show(), e);
    unchanged(&before, &after, &|p| p.starts_with("r/.snapcd/") || below(p, &rel) || rel.starts_with(&format!("{}/", p))).map_err(ctxt)?;
    let want = merged(stored, pre);
    match (&want, o.ok()) {
        (None, true) => return Err(ctxt("succeeded although something is in the way".into())),
        (Some(t), true) => {
            let got = Node::read(&place).map_err(ctxt)?;
            if &got != t {
                return Err(ctxt(format!("result {:?}\nexpected {:?}", got, t)));
            }
            ctx.count("merged", 1);
        }
        (None, false) => ctx.count("refused", 1),
        (Some(_), false) => {
            // a file cannot be at a path that ends like that of a directory
            if pre.is_none() && (stored.is_dir() || !dest.ends_with('/')) {
                return Err(ctxt("failed although nothing was there".into()));
            }
            ctx.count("failed_without_conflict", 1);
        }
    }
    ctx.eval(1);
    if ctx.distinct(format!("{:?} {:?} {}", stored.bytes(), pre.map(|x| x.bytes()), dest).as_bytes()) && pre.map(|x| x.nodes()).unwrap_or(0) == 3 {
        ctx.sample(format!("fetch {:?} to {} holding {:?}: {}", stored, arg, pre, o.status()));
    }
    Ok(())
}

/// Files in the way whose content has something to do with what would be written.
fn related(ctx: &Ctx) {
    let mut stored: Vec<Vec<u8>> = vec![b"x".to_vec(), b"one\ntwo\n".to_vec(), b"One two\r\n".to_vec(), vec![0; 40], pattern(300, 7), pattern(5000, 8), pattern(70_000, 9), vec![0; 70_000]];
    if !ctx.quick() {
        stored.extend(sizes().into_iter().map(|n| pattern(n, 11)));
    }
    ctx.par(
        &stored,
        |s| format!("related {} bytes {:016x}", s.len(), vx::hash64(s)),
        |s| {
            let n = s.len();
            let mut cuts: Vec<usize> = if n < 50 { (0..=n).collect() } else { vec![0, 1, 2, n / 4, n / 3, n / 2, n - 2, n - 1, n] };
            cuts.extend([512, 4096, 8192, 32768, 65536].iter().filter(|x| **x < n));
            let mut there: Vec<Vec<u8>> = Vec::new();
            for &c in &cuts {
                there.push(s[..c].to_vec());
                there.push(s[c..].to_vec());
                // the beginning of it, with room for the rest
                let mut v = s[..c].to_vec();
                v.resize(n, 0);
                there.push(v);
                let mut v = s.clone();
                v.insert(c, b'!');
                there.push(v);
                if c < n {
                    let mut v = s.clone();
                    v[c] ^= 0x20;
                    there.push(v);
                }
            }
            there.push([&s[..], s].concat());
            there.push(s.to_ascii_uppercase());
            there.push(s.iter().rev().copied().collect());
            there.push(String::from_utf8_lossy(s).replace('\n', "\r\n").into_bytes());
            there.push(String::from_utf8_lossy(s).trim().as_bytes().to_vec());
            there.sort();
            there.dedup();
            let w = World::new(ctx);
            let src = w.dir.join("src");
            let trees = [f(s), d(&[("a", f(s)), ("b", f(s)), ("c", d(&[("a", f(s))]))])];
            for t in &trees {
                let _ = std::fs::remove_dir_all(&src);
                let _ = std::fs::remove_file(&src);
                t.write(&src);
                let id = w.snap.insert(&src)?;
                for x in &there {
                    let x = f(x);
                    let pres = if t.is_dir() { vec![d(&[("a", x.clone())]), d(&[("b", x.clone())]), d(&[("c", d(&[("a", x.clone())]))])] } else { vec![x] };
                    for p in &pres {
                        one(ctx, &w, t, &id, Some(p), "o")?;
                    }
                }
            }
            ctx.count("related_contents", there.len() as u64);
            Ok(())
        },
    );
}

fn below(p: &str, dir: &str) -> bool {
    p == dir || p.strip_prefix(dir).map(|r| r.starts_with('/')).unwrap_or(false)
}

/// Things other than plain files and directories in the way, and plain files with odd attributes.
fn special(ctx: &Ctx) {
    let kinds = [
        "dangling link", "link to a file", "link to a missing directory", "link to itself", "fifo", "read-only file", "write-only file", "unreadable file", "hard link", "empty file", "link to an equal file", "executable",
        "absolute link", "big file", "socket",
    ];
    let trees: Vec<(Node, &str)> = vec![
        (f("x"), ""),
        (d(&[("a", f("x"))]), "a"),
        (d(&[("a", f("x")), ("b", f("y")), ("c", d(&[("d", f("z"))]))]), "b"),
        (d(&[("a", f("x")), ("b", d(&[("c", d(&[("d", f("z"))]))]))]), "b/c/d"),
        (d(&[("a", f("x")), ("b", d(&[("c", f("z"))]))]), "b"),
        (d(&[("a", f("")), ("b", f(""))]), "b"),
    ];
    let jobs: Vec<(usize, usize)> = (0..kinds.len()).flat_map(|k| (0..trees.len()).map(move |t| (k, t))).collect();
    ctx.set_count("special_cases", jobs.len() as u64);
    ctx.par(
        &jobs,
        |(k, t)| format!("special {} tree {}", kinds[*k], t),
        |&(k, t)| {
            use std::os::unix::fs::{symlink, PermissionsExt};
            let w = World::new(ctx);
            let (tree, at) = &trees[t];
            let src = w.dir.join("src");
            tree.write(&src);
            let id = w.snap.insert(&src)?;
            let out = w.dir.join("out");
            let place = if at.is_empty() { out.clone() } else { out.join(at) };
            std::fs::create_dir_all(place.parent().unwrap()).unwrap();
            f("target").write(&w.dir.join("target"));
            let mode = |m: u32| {
                f("mine").write(&place);
                std::fs::set_permissions(&place, std::fs::Permissions::from_mode(m)).unwrap();
            };
            match kinds[k] {
                "dangling link" => symlink(w.dir.join("not there"), &place).unwrap(),
                "link to a file" => symlink(w.dir.join("target"), &place).unwrap(),
                "absolute link" => symlink(w.dir.join("nowhere/at/all"), &place).unwrap(),
                "link to a missing directory" => symlink("../missing/", &place).unwrap(),
                "link to itself" => symlink(place.file_name().unwrap(), &place).unwrap(),
                "link to an equal file" => {
                    f("x").write(&w.dir.join("equal"));
                    symlink(w.dir.join("equal"), &place).unwrap()
                }
                "fifo" => {
                    let c = std::ffi::CString::new(place.to_str().unwrap()).unwrap();
                    assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o644) }, 0);
                }
                "socket" => {
                    if place.as_os_str().len() > 100 {
                        return Ok(());
                    }
                    drop(std::os::unix::net::UnixListener::bind(&place).unwrap());
                }
                "read-only file" => mode(0o444),
                "write-only file" => mode(0o222),
                "unreadable file" => mode(0),
                "executable" => mode(0o755),
                "empty file" => f("").write(&place),
                "big file" => f(pattern(300_000, 1)).write(&place),
                "hard link" => std::fs::hard_link(w.dir.join("target"), &place).unwrap(),
                _ => unreachable!(),
            }
            let before = marks(&w.dir, &["cache"]);
            let o = w.snap.run(&["fetch".as_ref(), id.as_ref(), out.as_os_str()]);
            let after = marks(&w.dir, &["cache"]);
            unchanged(&before, &after, &|p| below(p, "out") || p.starts_with("r/.snapcd/")).map_err(|e| format!("{} at {:?} of {:?}: {}\n{}", kinds[k], at, tree, e, o.show()))?;
            if o.ok() {
                return Err(format!("{} at {:?}, yet fetching {:?} succeeded", kinds[k], at, tree));
            }
            ctx.distinct(format!("special {} {}", kinds[k], t).as_bytes());
            Ok(())
        },
    );
}

fn hostile_names(dir: &Path) -> Vec<String> {
    let abs = dir.to_string_lossy().into_owned();
    let mut v: Vec<String> = [
        "..", "../", "../x", "../../x", "../../../x", "../out", "./..", "./../x", "a/..", "a/../..", "a/../../x", "a/b", "a/b/c", "a/", "a//", "a//b", "./a", "././a", ".", "./", "", "/", "//", "../.", "..//x", ".../../x",
        "a/./../../x", "a\0b", "\0", "../a\0", "ok/../../x", "ok/../ok", "../o/x", "..\u{2044}x", "a\\..\\..\\x", "..\\x", "%2e%2e/x", "../by", "../../by", "../../../by",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    for a in ["evil", "by", "r/evil", "r/by", "r/p/q/evil", "r/p/q/o/inside", "r/p/q/o2"] {
        v.push(format!("{}/{}", abs, a));
        v.push(format!("/{}/{}", abs, a));
    }
    v
}

enum Make {
    Name { name: usize, dir: bool, depth: usize, order: usize },
    Pair { a: usize, b: usize },
    Other(usize),
}

fn hostile(ctx: &Ctx) {
    let n = hostile_names(Path::new("/x")).len();
    let mut makes = Vec::new();
    for name in 0..n {
        for dir in [false, true] {
            for depth in 0..ctx.pick(3, 5) {
                for order in 0..3 {
                    makes.push(Make::Name { name, dir, depth, order });
                }
            }
        }
    }
    for a in 0..n {
        for b in 0..n {
            makes.push(Make::Pair { a, b });
        }
    }
    for i in 0..12 {
        makes.push(Make::Other(i));
    }
    ctx.set_count("hostile_names", n as u64);
    ctx.set_count("hostile_trees", makes.len() as u64);
    let name_of = |m: &Make| match m {
        Make::Name { name, dir, depth, order } => format!("hostile {:?} dir {} depth {} order {}", hostile_names(Path::new("ABS"))[*name], dir, depth, order),
        Make::Pair { a, b } => format!("hostile {:?} in {:?}", hostile_names(Path::new("ABS"))[*b], hostile_names(Path::new("ABS"))[*a]),
        Make::Other(i) => format!("odd object {}", i),
    };
    ctx.par(&makes, name_of, |m| {
        let w = World::new(ctx);
        let names = hostile_names(&w.dir);
        let mut c = Crafted::default();
        let file = c.file(b"evil");
        let ok = c.file(b"ok");
        let mut free = false;
        let top: Id = match m {
            Make::Name { name, dir, depth, order } => {
                let node = if *dir { c.dir(&[("in", file)]) } else { file };
                let n = names[*name].as_str();
                let mut t = match order {
                    0 => c.dir(&[(n, node)]),
                    1 => c.dir(&[("ok", ok), (n, node), ("zz", ok)]),
                    _ => c.dir(&[("ok", node), (n, node), (n, node)]),
                };
                for i in 0..*depth {
                    t = if i % 2 == 0 { c.dir(&[("d", t)]) } else { c.dir(&[("c", ok), ("d", t), ("e", ok)]) };
                }
                t
            }
            Make::Pair { a, b } => {
                let t = c.dir(&[(names[*b].as_str(), file)]);
                c.dir(&[(names[*a].as_str(), t)])
            }
            Make::Other(i) => {
                free = true;
                let blob = c.add(vx::craft::object(b"evil".to_vec(), &[], "FileBlob"));
                match i {
                    // the same name twice
                    0 => c.dir(&[("a", ok), ("a", file)]),
                    1 => {
                        let x = c.dir(&[("x", file)]);
                        c.dir(&[("a", ok), ("a", x)])
                    }
                    2 => {
                        let x = c.dir(&[("x", ok)]);
                        let y = c.dir(&[("x", file)]);
                        c.dir(&[("a", x), ("a", y)])
                    }
                    3 => {
                        let x = c.dir(&[("x", ok)]);
                        c.dir(&[("a", x), ("a", file)])
                    }
                    // a file that has names
                    4 => c.add(vx::craft::fsitem(&["../x"], &[blob], false, 4)),
                    5 => c.add(vx::craft::fsitem(&["..", "/"], &[blob, blob], false, 4)),
                    // fewer or more names than children
                    6 => c.add(vx::craft::fsitem(&["../x"], &[file, file], true, 2)),
                    7 => c.add(vx::craft::fsitem(&["a", "../x"], &[file], true, 2)),
                    8 => c.add(vx::craft::fsitem(&[], &[file], true, 2)),
                    // no content
                    9 => c.add(vx::craft::fsitem(&[], &[], false, 4)),
                    // a directory by its data, a file by its type, and the other way around
                    10 => {
                        let o = c.add(vx::craft::fsitem(&["a"], &[file], true, 2));
                        c.dir(&[("..", o)])
                    }
                    _ => {
                        let k = c.commit(file, &[], "m");
                        c.dir(&[("a", k), ("b", file)])
                    }
                }
            }
        };
        c.store(&w.db())?;
        let key = text(&top);
        f("bystander").write(&w.dir.join("by"));
        f("bystander").write(&w.repo.join("by"));
        let cwd = w.repo.join("p/q");
        std::fs::create_dir_all(&cwd).unwrap();
        f("bystander").write(&cwd.join("by"));
        f("bystander").write(&w.repo.join("p/by"));
        let dump = w.dump()?;
        let forms: &[&str] = match m {
            Make::Pair { .. } => &["o"],
            _ => &["o", "ABS", "o/", "./o", "new/o", "../q/o", "existing"],
        };
        for form in forms {
            vx::world::clear(&cwd, &["by"]);
            let abs = cwd.join("o").to_string_lossy().into_owned();
            let (arg, rel) = match *form {
                "ABS" => (abs.as_str(), "r/p/q/o"),
                "new/o" => ("new/o", "r/p/q/new"),
                "existing" => {
                    d(&[("ok2", f("mine")), ("d", d(&[("mine", f("mine"))]))]).write(&cwd.join("o"));
                    ("o", "r/p/q/o")
                }
                x => (x, "r/p/q/o"),
            };
            let before = marks(&w.dir, &["cache"]);
            let o = w.snap.at(&cwd).run(&["fetch", &key, arg]);
            let after = marks(&w.dir, &["cache"]);
            unchanged(&before, &after, &|p| below(p, rel) || p.starts_with("r/.snapcd/snapcd.db-")).map_err(|e| format!("{}\nfetch to {}: {}\n{}", name_of(m), arg, e, o.show()))?;
            if let (Make::Other(0), Ok(x)) = (m, std::fs::read(cwd.join("o/a"))) {
                if x != b"ok" {
                    return Err(format!("the second entry of the same name replaced the first: {:?}", String::from_utf8_lossy(&x)));
                }
            }
            if o.ok() && !free {
                ctx.count("hostile_accepted", 1);
            }
        }
        if w.dump()? != dump {
            return Err("the store changed".into());
        }
        ctx.count("fetches", forms.len() as u64);
        if ctx.distinct(name_of(m).as_bytes()) {
            ctx.sample(name_of(m));
        }
        Ok(())
    });
}
