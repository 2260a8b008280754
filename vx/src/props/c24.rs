//! What cannot be stored makes a snapshot fail; it is never left out.
use super::common::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use vx::tree::*;
use vx::world::{clear, World};
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C24",
    level: "exploration",
    rule: "every tree of up to two (thorough: three) entries at the top, below a directory, or both, each entry one of: file, empty directory, directory, symbolic link to a file, to a directory, to itself, to the directory it is in, to nothing, to a device, fifo, socket, unreadable file, unreadable directory, unlistable directory, unsearchable directory, file and directory with a name that is not UTF-8; inserted, committed (as the whole and by the entry), compared, head switched, and committed again with the odd entries excluded and without them: a snapshot that is made has to be what is really there (symbolic links standing for what they lead to), otherwise the command has to fail and leave the refs alone; a comparison that succeeds has to be right. Non-trivial: distinct (tree, command).",
    assumptions: &["symbolic links stand for what they lead to", "trees in which a symbolic link leads back to a directory above it have no snapshot"],
    run,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    File,
    Empty,
    Dir,
    LinkFile,
    LinkOutside,
    LinkDir,
    LinkSelf,
    LinkUp,
    Dangling,
    Device,
    Fifo,
    Socket,
    Unreadable,
    UnreadableDir,
    NoList,
    NoSearch,
    OddFile,
    OddDir,
}
use Kind::*;

const KINDS: [Kind; 18] =
    [File, Empty, Dir, LinkFile, LinkOutside, LinkDir, LinkSelf, LinkUp, Dangling, Device, Fifo, Socket, Unreadable, UnreadableDir, NoList, NoSearch, OddFile, OddDir];

type Spec = Vec<(&'static str, Kind)>;

fn place(dir: &Path, name: &str, k: Kind) -> PathBuf {
    match k {
        OddFile | OddDir => dir.join(OsString::from_vec([name.as_bytes(), b"\xff"].concat())),
        _ => dir.join(name),
    }
}

fn make(p: &Path, k: Kind, outside: &Path) {
    let mode = |m| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).unwrap();
    let dir = || {
        std::fs::create_dir(p).unwrap();
        f("in the directory\n").write(&p.join("x"));
    };
    match k {
        File | OddFile => f("a file\n").write(p),
        Empty => std::fs::create_dir(p).unwrap(),
        Dir | OddDir => dir(),
        LinkFile => symlink(outside.join("d/file"), p).unwrap(),
        LinkOutside => symlink(outside.join("link"), p).unwrap(),
        LinkDir => symlink(outside.join("d"), p).unwrap(),
        LinkSelf => symlink(p, p).unwrap(),
        LinkUp => symlink(".", p).unwrap(),
        Dangling => symlink("nothing is called this", p).unwrap(),
        Device => symlink("/dev/null", p).unwrap(),
        Fifo => {
            let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o644) }, 0);
        }
        Socket => drop(std::os::unix::net::UnixListener::bind(p).unwrap()),
        Unreadable => {
            f("hidden\n").write(p);
            mode(0);
        }
        UnreadableDir => {
            dir();
            mode(0);
        }
        NoList => {
            dir();
            mode(0o311);
        }
        NoSearch => {
            dir();
            mode(0o644);
        }
    }
}

/// What is at such a place, if it is a file or a directory.
fn truth(k: Kind) -> Option<Node> {
    let dir = || d(&[("x", f("in the directory\n"))]);
    match k {
        File | OddFile => Some(f("a file\n")),
        Empty => Some(empty()),
        Dir | OddDir | UnreadableDir | NoList | NoSearch => Some(dir()),
        LinkFile | LinkOutside => Some(f("outside\n")),
        LinkDir => Some(d(&[("file", f("outside\n")), ("e", empty())])),
        Unreadable => Some(f("hidden\n")),
        LinkSelf | LinkUp | Dangling | Device | Fifo | Socket => None,
    }
}

/// Kinds that are excluded and removed to get at a plain tree.
fn plain(k: Kind) -> bool {
    matches!(k, File | Empty | Dir)
}

/// The tree as anyone following its links can read it.
fn follow(p: &Path, skip: &str, depth: usize) -> Result<Node, String> {
    if depth > 30 {
        return Err("too deep".into());
    }
    let m = std::fs::metadata(p).map_err(|e| format!("{:?}: {}", p, e))?;
    if m.is_file() {
        return std::fs::read(p).map(Node::F).map_err(|e| format!("{:?}: {}", p, e));
    }
    if !m.is_dir() {
        return Err(format!("{:?} is neither a file nor a directory", p));
    }
    let mut r = BTreeMap::new();
    for e in std::fs::read_dir(p).map_err(|e| format!("{:?}: {}", p, e))? {
        let e = e.map_err(|e| e.to_string())?;
        let n = e.file_name().into_string().map_err(|n| format!("odd name {:?}", n))?;
        if n != skip {
            r.insert(n, follow(&e.path(), "", depth + 1)?);
        }
    }
    Ok(Node::D(r))
}

fn unlock(p: &Path) {
    if let Ok(m) = std::fs::symlink_metadata(p) {
        if m.is_dir() {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
            for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
                unlock(&e.path());
            }
        }
    }
}

struct Unlock(PathBuf);
impl Drop for Unlock {
    fn drop(&mut self) {
        unlock(&self.0);
    }
}

fn base() -> Node {
    d(&[("a", f("base a\n")), ("b", f("base b\n")), ("n", d(&[("a", f("base n/a\n")), ("b", f("base n/b\n")), ("x", f("stays\n"))])), ("z", f("stays\n"))])
}

/// The tree a specification stands for; `None` when there is something that is no file or directory.
fn wanted(s: &Spec, without: &dyn Fn(Kind) -> bool) -> Option<Node> {
    let mut t = base();
    for p in ["a", "b", "c", "n/a", "n/b", "n/c"] {
        t.remove(p);
    }
    for (p, k) in s {
        if !without(*k) {
            t.put(p, truth(*k)?);
        }
    }
    Some(t)
}

fn build(w: &World, s: &Spec) {
    clear(&w.repo, &[".snapcd"]);
    f("stays\n").write(&w.repo.join("z"));
    std::fs::create_dir(w.repo.join("n")).unwrap();
    f("stays\n").write(&w.repo.join("n/x"));
    for (p, k) in s {
        let at = w.repo.join(p);
        make(&place(at.parent().unwrap(), at.file_name().unwrap().to_str().unwrap(), *k), *k, &w.dir.join("outside"));
    }
}

fn case(s: &Spec) -> String {
    s.iter().map(|(p, k)| format!("{} {:?}", p, k)).collect::<Vec<_>>().join(", ")
}

fn one(ctx: &Ctx, s: &Spec) -> Result<(), String> {
    let w = World::new(ctx);
    let _unlock = Unlock(w.repo.clone());
    d(&[("d", d(&[("file", f("outside\n")), ("e", empty())]))]).write(&w.dir.join("outside"));
    symlink("d/file", w.dir.join("outside/link")).unwrap();
    w.set_tree(&base());
    let tip = w.commit("base")?;
    build(&w, s);
    let there = follow(&w.repo, ".snapcd", 0);
    let odd = s.iter().any(|x| !plain(x.1));
    let before = w.dump()?;
    let refs = |d: &vx::db::Dump| (d.refs.clone(), d.state.clone());
    // A snapshot that is made holds what is there.
    let snapshot = |cmd: &[OsString], read: &Result<Node, String>, id: &dyn Fn(&vx::run::Out) -> Result<String, String>| -> Result<(), String> {
        let prior = w.dump()?;
        let o = w.snap.run(cmd);
        ctx.distinct(format!("{} {:?}", case(s), cmd).as_bytes());
        match (o.ok(), read) {
            (true, Ok(t)) => {
                ctx.count("snapshots_made", 1);
                let got = w.fetched(&id(&o)?)?;
                if got != *t {
                    return Err(format!("{:?} stored {:?}\nthere is {:?}", cmd, got, t));
                }
            }
            (true, Err(e)) => return Err(format!("{:?} succeeded ({:?}), although {}", cmd, id(&o).and_then(|x| w.fetched(&x)), e)),
            (false, Ok(_)) if cmd.iter().all(|x| x.to_str().is_some()) => return Err(format!("{:?} failed: {}", cmd, o.show())),
            (false, _) => {
                ctx.count("snapshots_refused", 1);
                if refs(&w.dump()?) != refs(&prior) {
                    return Err(format!("{:?} failed, but changed the refs: {}", cmd, o.show()));
                }
            }
        }
        Ok(())
    };
    let os = |x: &[&str]| x.iter().map(OsString::from).collect::<Vec<_>>();
    let committed = |_: &vx::run::Out| -> Result<String, String> { tree_of(&w, &w.dump()?.tip("master").unwrap()) };
    snapshot(&os(&["insert", "."]), &there, &vx::run::inserted_id)?;
    // Comparisons first, the committed tree is still the base.
    let really = wanted(s, &|_| false);
    for cmd in [&["status"][..], &["compare"], &["compare", "-s"], &["compare", "-p", "n"]] {
        let o = w.snap.run(cmd);
        ctx.distinct(format!("{} {:?}", case(s), cmd).as_bytes());
        if !o.ok() {
            ctx.count("comparisons_refused", 1);
            if there.is_ok() {
                return Err(format!("{:?} failed: {}", cmd, o.show()));
            }
            continue;
        }
        ctx.count("comparisons_made", 1);
        if cmd.contains(&"-s") {
            continue;
        }
        let names_ok = !s.iter().any(|x| matches!(x.1, OddFile | OddDir));
        match &really {
            Some(t) if names_ok && cmd.len() < 3 => {
                let got = Changes::parse(&o.text(), cmd[0] == "status")?;
                let want = Changes::between(&base(), t);
                if got != want {
                    return Err(format!("{:?} with {:?} there: {}\nexpected {}", cmd, t, got.show(), want.show()));
                }
            }
            _ if cmd.contains(&"-s") => {}
            _ => {
                // What cannot be told is at least mentioned.
                for (p, k) in s {
                    if truth(*k).is_none() && (cmd.len() < 3) && !o.text().lines().any(|l| l.trim().trim_end_matches('/') == *p) {
                        return Err(format!("{:?} succeeds without a word about {} ({:?}): {}", cmd, p, k, o.show()));
                    }
                }
            }
        }
    }
    let o = w.snap.run(&["checkout-head", "side"]);
    if w.dump()?.head() != before.head() && really.as_ref() != Some(&base()) {
        return Err(format!("HEAD was switched with {:?} there: {}", really, o.show()));
    }
    // By the entry itself.
    for (p, k) in s {
        let at = w.repo.join(p);
        let at = place(at.parent().unwrap(), at.file_name().unwrap().to_str().unwrap(), *k);
        let read = follow(&at, "", 0);
        snapshot(&[OsString::from("insert"), at.clone().into()], &read, &vx::run::inserted_id)?;
        snapshot(&[OsString::from("commit"), "-m".into(), "entry".into(), "-p".into(), at.into(), "entries".into()], &read, &|_| tree_of(&w, &w.dump()?.tip("entries").unwrap()))?;
    }
    snapshot(&os(&["commit", "-m", "all"]), &there, &committed)?;
    let d1 = w.dump()?;
    if there.is_err() && d1.tip("master") != Some(tip) {
        return Err("master moved".into());
    }
    // Excluded entries play no part.
    let mut cmd = os(&["commit", "-m", "without", "-p", ".", "without"]);
    let mut utf8 = true;
    for (p, k) in s {
        if !plain(*k) {
            utf8 &= !matches!(k, OddFile | OddDir);
            cmd.push("-e".into());
            cmd.push(vx::glob::escape(p).into());
        }
    }
    if odd && utf8 {
        let want = wanted(s, &|k| !plain(k)).unwrap();
        let o = w.snap.run(&cmd);
        ctx.distinct(format!("{} {:?}", case(s), cmd).as_bytes());
        if !o.ok() {
            return Err(format!("{:?} failed: {}", cmd, o.show()));
        }
        let got = w.fetched(&tree_of(&w, &w.dump()?.tip("without").unwrap())?)?;
        if got != want {
            return Err(format!("{:?} stored {:?}\nexpected {:?}", cmd, got, want));
        }
    }
    // Without them everything works as ever.
    if odd {
        unlock(&w.repo);
        for (p, k) in s {
            if !plain(*k) {
                let at = w.repo.join(p);
                let at = place(at.parent().unwrap(), at.file_name().unwrap().to_str().unwrap(), *k);
                if std::fs::symlink_metadata(&at).unwrap().is_dir() {
                    std::fs::remove_dir_all(&at).unwrap();
                } else {
                    std::fs::remove_file(&at).unwrap();
                }
            }
        }
        let want = wanted(s, &|k| !plain(k)).unwrap();
        w.snap.good(&["commit", "-m", "after", "after"])?;
        let got = w.fetched(&tree_of(&w, &w.dump()?.tip("after").unwrap())?)?;
        if got != want {
            return Err(format!("after removing what is odd, commit stored {:?}\nexpected {:?}", got, want));
        }
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let mut specs: Vec<Spec> = vec![vec![]];
    let mut lists: Vec<Vec<Kind>> = vec![vec![]];
    for _ in 0..ctx.pick(2, 3) {
        let next: Vec<Vec<Kind>> = lists.iter().flat_map(|l| KINDS.iter().map(move |k| [l.clone(), vec![*k]].concat())).collect();
        for l in &next {
            specs.push(l.iter().enumerate().map(|(i, k)| (["a", "b", "c"][i], *k)).collect());
            specs.push(l.iter().enumerate().map(|(i, k)| (["n/a", "n/b", "n/c"][i], *k)).collect());
            if l.len() == 2 {
                specs.push(vec![("a", l[0]), ("n/b", l[1])]);
            }
        }
        lists = next;
    }
    // Two ways round make exponentially many paths.
    specs.retain(|s| s.iter().filter(|x| x.1 == LinkUp).count() < 2);
    ctx.set_count("trees", specs.len() as u64);
    ctx.par(&specs, case, |s| one(ctx, s));
    ctx.sample(format!("e.g. a tree with {}", case(&specs[specs.len() / 2])));
}
