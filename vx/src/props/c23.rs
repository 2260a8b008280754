//! What a command does does not depend on verbosity, environment or surroundings.
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::Mutex;
use vx::run::{inserted_id, Out, Snap};
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C23",
    level: "exploration",
    rule: "histories over every command (successes and refusals, on small and chunked files, from the top and from a subdirectory) are run plainly and then in every listed surrounding (verbosity flags in every position, language, time zone, terminal, colour and other variables, a value for every variable the program asks for, hash seeds, directory listing orders, clock, file times, umask, few file descriptors, stdin and stdout kinds, forms of naming the repository, name of the program, repository moved between commands, cache elsewhere), imposed on all commands, on every other one, on each one alone, and (thorough) every pair of surroundings of different kinds, plus every sequence of commands up to a length; exit status, printed text without colours, refs, HEAD, stored objects and files after every step must be those of the plain run. Transitions: commands. Non-trivial: distinct (history, surrounding, pattern).",
    assumptions: &["messages on stderr and colours may depend on the surroundings", "debug walk-tree and walk-fs-tree print their lines in no particular order"],
    run,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Stdout {
    Pipe,
    File,
    Terminal,
}

#[derive(Clone)]
struct Around {
    name: String,
    /// Two surroundings are combined only if they are of different kinds.
    kind: &'static str,
    vars: Vec<(String, Option<String>)>,
    pre: Vec<String>,
    post: Vec<String>,
    umask: Option<u32>,
    nofile: Option<u64>,
    stdin: &'static str,
    stdout: Stdout,
    program: Option<&'static str>,
    moved: bool,
    cache: &'static str,
    shift: Option<(i64, i64)>,
    shim: bool,
    extra_fds: bool,
    sig: Option<i32>,
}

impl Around {
    fn plain() -> Around {
        Around {
            name: "plain".into(),
            kind: "none",
            vars: vec![],
            pre: vec![],
            post: vec![],
            umask: None,
            nofile: None,
            stdin: "null",
            stdout: Stdout::Pipe,
            program: None,
            moved: false,
            cache: "",
            shift: None,
            shim: false,
            extra_fds: false,
            sig: None,
        }
    }
    fn and(&self, o: &Around) -> Around {
        let p = Around::plain();
        let mut r = self.clone();
        r.name = format!("{} and {}", self.name, o.name);
        r.vars.extend(o.vars.iter().cloned());
        r.pre.extend(o.pre.iter().cloned());
        r.post.extend(o.post.iter().cloned());
        r.umask = r.umask.or(o.umask);
        r.nofile = r.nofile.or(o.nofile);
        if o.stdin != p.stdin {
            r.stdin = o.stdin;
        }
        if o.stdout != p.stdout {
            r.stdout = o.stdout;
        }
        r.program = r.program.or(o.program);
        r.moved |= o.moved;
        if !o.cache.is_empty() {
            r.cache = o.cache;
        }
        r.shift = r.shift.or(o.shift);
        r.shim |= o.shim;
        r.extra_fds |= o.extra_fds;
        r.sig = r.sig.or(o.sig);
        r
    }
}

fn arounds() -> Vec<Around> {
    let mut v = Vec::new();
    let base = Around::plain;
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (pre, post) in [
        (&["-v"][..], &[][..]),
        (&["-vv"], &[]),
        (&["-vvv"], &[]),
        (&["-vvvvv"], &[]),
        (&["-v", "-v"], &["-v"]),
        (&[], &["-v"]),
        (&[], &["-vvv"]),
        (&["-q"], &[]),
        (&["--quiet"], &[]),
        (&[], &["-q"]),
        (&["-q", "-v"], &[]),
        (&["-v"], &["-q"]),
    ] {
        let mut a = base();
        a.name = format!("{:?} ... {:?}", pre, post);
        a.kind = "flags";
        a.pre = s(pre);
        a.post = s(post);
        // Messages go to a terminal only, one that is known.
        let mut b = a.clone();
        b.name += " with a terminal";
        b.vars.push(("TERM".into(), Some("xterm".into())));
        v.push(b);
        v.push(a);
    }
    for pre in [&["-d", ".snapcd"][..], &["-d.snapcd"], &["--db", ".snapcd"], &["--db=.snapcd"], &["-d", "./.snapcd"], &["-d", ".snapcd/"], &["-e", "no such name"]] {
        let mut a = base();
        a.name = format!("{:?}", pre);
        a.kind = "db";
        a.pre = s(pre);
        v.push(a);
    }
    for (k, x) in [
        ("LANG", "de_DE.UTF-8"),
        ("LC_ALL", "C"),
        ("LC_ALL", "tr_TR.UTF-8"),
        ("LC_CTYPE", "POSIX"),
        ("TZ", "Asia/Kolkata"),
        ("TZ", "XXX+23:59"),
        ("TERM", "xterm-256color"),
        ("TERM", "dumb"),
        ("CLICOLOR_FORCE", "1"),
        ("CLICOLOR", "1"),
        ("CLICOLOR", "0"),
        ("NO_COLOR", "1"),
        ("COLUMNS", "7"),
        ("LINES", "3"),
        ("PAGER", "cat"),
        ("RUST_LOG", "trace"),
        ("RUST_BACKTRACE", "full"),
        ("TMPDIR", "/no/such/dir"),
        ("SQLITE_TMPDIR", "/no/such/dir"),
        ("PWD", "/"),
        ("OLDPWD", "/"),
        ("PATH", ""),
        ("USER", "someone"),
        ("LOGNAME", "someone"),
        ("HOSTNAME", "elsewhere"),
        ("EMAIL", "a@b"),
        ("EDITOR", "false"),
        ("CI", "true"),
        ("DEBUG", "1"),
        ("VERBOSE", "1"),
        ("SNAPCD_DB", "/no/such/dir"),
        ("SNAPCD_DIR", "/no/such/dir"),
        ("SNAPCD_HEAD", "other"),
        ("SNAPCD_EXCLUDE", "*"),
        ("SOURCE_DATE_EPOCH", "0"),
        ("XDG_CONFIG_HOME", "/no/such/dir"),
        ("XDG_DATA_HOME", "/no/such/dir"),
        ("XDG_RUNTIME_DIR", "/no/such/dir"),
        ("MALLOC_PERTURB_", "165"),
    ] {
        let mut a = base();
        a.name = format!("{}={}", k, x);
        a.kind = "variables";
        a.vars = vec![(k.into(), Some(x.into()))];
        v.push(a);
    }
    for x in ["", "0", "1", "2", "99", "/no/such/dir", "any text", "always", "never"] {
        let mut a = base();
        a.name = format!("{:?} in every variable asked for", x);
        a.kind = "any variable";
        a.vars = vec![("VX_ANYVAR".into(), Some(x.into()))];
        a.shim = true;
        v.push(a);
    }
    for seed in ["2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13"] {
        let mut a = base();
        a.name = format!("hash seed {}", seed);
        a.kind = "seed";
        a.vars = vec![("VX_SEED".into(), Some(seed.into()))];
        a.shim = true;
        v.push(a);
    }
    for o in ["s", "r", "1", "2", "3"] {
        let mut a = base();
        a.name = format!("listing order {}", o);
        a.kind = "listing";
        a.vars = vec![("VX_DIRORDER".into(), Some(o.into()))];
        a.shim = true;
        v.push(a);
    }
    for t in ["0", "1", "951782400", "2147483647", "2147483648", "4102444800", "253402300800"] {
        let mut a = base();
        a.name = format!("clock at {}", t);
        a.kind = "clock";
        a.vars = vec![("VX_CLOCK".into(), Some(t.into()))];
        a.shim = true;
        v.push(a);
    }
    for t in [-1_600_000_000 - 1000, -1_599_990_000, 0x8000_0000 - 1_600_000_100, 2_502_444_800, 0] {
        for ns in [0, 999_990_000] {
            let mut a = base();
            a.name = format!("file times moved by {} s {} ns", t, ns);
            a.kind = "times";
            a.shift = Some((t, ns));
            v.push(a);
        }
    }
    for u in [0, 0o77, 0o27, 0o277] {
        let mut a = base();
        a.name = format!("umask {:o}", u);
        a.kind = "umask";
        a.umask = Some(u);
        v.push(a);
    }
    v.retain(|a| a.umask != Some(0o277));
    for n in [40, 1024] {
        let mut a = base();
        a.name = format!("{} file descriptors", n);
        a.kind = "limits";
        a.nofile = Some(n);
        v.push(a);
    }
    {
        let mut a = base();
        a.name = "many open file descriptors".into();
        a.kind = "limits";
        a.extra_fds = true;
        v.push(a);
    }
    for (n, sg) in [("SIGPIPE ignored", libc::SIGPIPE), ("SIGHUP ignored", libc::SIGHUP), ("SIGCHLD ignored", libc::SIGCHLD)] {
        let mut a = base();
        a.name = n.into();
        a.kind = "signals";
        a.sig = Some(sg);
        v.push(a);
    }
    for i in ["closed", "text", "file"] {
        let mut a = base();
        a.name = format!("stdin {}", i);
        a.kind = "stdin";
        a.stdin = i;
        v.push(a);
    }
    for o in [Stdout::File, Stdout::Terminal] {
        let mut a = base();
        a.name = format!("stdout {:?}", o);
        a.kind = "stdout";
        a.stdout = o;
        v.push(a);
    }
    for p in ["backup", "snapcd-2 é", "-"] {
        let mut a = base();
        a.name = format!("called {:?}", p);
        a.kind = "program";
        a.program = Some(p);
        v.push(a);
    }
    {
        let mut a = base();
        a.name = "moved between commands".into();
        a.kind = "place";
        a.moved = true;
        v.push(a);
    }
    for c in ["home", "relative", "new", "odd name"] {
        let mut a = base();
        a.name = format!("cache {}", c);
        a.kind = "cache";
        a.cache = c;
        v.push(a);
    }
    v
}

#[derive(Clone)]
enum Step {
    /// Makes the working tree equal to a tree.
    Tree(Node),
    /// A command: where it is started, its arguments.
    Run(&'static str, Vec<&'static str>),
}

fn big(seed: u64) -> Vec<u8> {
    super::common::pattern(200_000, seed)
}

fn lines(n: usize, changed: &[usize]) -> Vec<u8> {
    (0..n).map(|i| if changed.contains(&i) { format!("line {} changed\n", i) } else { format!("line {}\n", i) }).collect::<String>().into_bytes()
}

fn trees() -> Vec<Node> {
    let t0 = d(&[
        ("a", f("one\n")),
        ("b", f(lines(40, &[]))),
        ("big", f(big(1))),
        ("bin", f([0u8, 159, 146, 150, 10, 255])),
        ("empty", f("")),
        ("dir", d(&[("x", f("x\n")), ("y", f("y")), ("deep", d(&[("z", f("z\n"))])), ("none", empty())])),
        ("é x", f("name\n")),
        ("-v", f("flag\n")),
        ("many", Node::D((0..24).map(|i| (format!("m{}", i), f(format!("{}\n", i)))).collect())),
    ]);
    let mut t1 = t0.clone();
    t1.put("b", f(lines(40, &[3, 20, 39])));
    t1.put("big", f([big(1), b"tail\n".to_vec()].concat()));
    t1.put("dir/new", f("new\n"));
    t1.remove("dir/y");
    t1.remove("empty");
    t1.put("empty", d(&[("in", f(""))]));
    t1.put("many/m7", f("seven\nseven\n"));
    t1.put("many/m70", f("x"));
    let mut t2 = t1.clone();
    t2.remove("dir");
    t2.put("dir", f("now a file\n"));
    t2.put("bin", f([1u8, 159, 146, 150]));
    t2.remove("many/m3");
    // Two of everything.
    let mut t3 = t2.clone();
    let long = "a-rather-long-name-of-a-directory-that-has/an-even-longer-name-of-a-file-in-it-which-has-to-be-printed-as-it-is-wherever-it-turns-up-and-however-wide-things-are.txt";
    t3.put(long.split('/').next().unwrap(), empty());
    t3.put(long, f("1\n2\n"));
    t3.put("many/m1", f("uno\n"));
    t3.put("a", f("one\ntwo\n"));
    t3.remove("many/m9");
    t3.remove("many/m11");
    // Two changes, nothing else.
    let mut t4 = t3.clone();
    t4.put("many/m12", f("0\n"));
    t4.put(long, f("1\n2\n3\n"));
    // Two new, then two gone.
    let mut t5 = t4.clone();
    t5.put("n1", f("0\n"));
    t5.put("many/n2", empty());
    vec![t0, t1, t2, t3, t4.clone(), t5, t4]
}

fn script(t: &[Node]) -> Vec<Step> {
    use Step::*;
    let r = |a: &[&'static str]| Run("", a.to_vec());
    vec![
        r(&["status"]),
        r(&["init"]),
        r(&["init"]),
        r(&["status"]),
        r(&["show"]),
        r(&["checkout"]),
        Tree(t[0].clone()),
        r(&["insert", "."]),
        r(&["insert", "big"]),
        r(&["insert", "b"]),
        r(&["insert", "no such file"]),
        r(&["insert", "./-v"]),
        r(&["compare", "-p", ".", "{i0}"]),
        r(&["commit", "-m", "first"]),
        r(&["status"]),
        r(&["log"]),
        r(&["show"]),
        Tree(t[1].clone()),
        r(&["status"]),
        r(&["compare"]),
        r(&["compare", "-s"]),
        r(&["compare", "-s", "-p", "dir"]),
        Run("dir", vec!["status"]),
        r(&["checkout-head", "side"]),
        r(&["-e", "b", "status"]),
        r(&["commit", "-m", "second line\n\nbody é"]),
        r(&["checkout-head", "side"]),
        r(&["status"]),
        r(&["commit", "-m", "on side", "-p", "dir"]),
        Run("dir/deep", vec!["commit", "-m", "here", "side"]),
        r(&["log"]),
        r(&["log", "master"]),
        r(&["show", "master"]),
        r(&["show", "{i1}"]),
        r(&["show", "{i2}"]),
        r(&["show", "{i0}"]),
        r(&["show", "nothing"]),
        r(&["ref", "log"]),
        r(&["ref", "log", "master"]),
        r(&["ref", "log", "none"]),
        r(&["ref", "update", "master", "third"]),
        r(&["ref", "update", "{i9}", "third"]),
        r(&["ref", "update", "master"]),
        r(&["debug", "get-head"]),
        r(&["debug", "reflog-get", "master"]),
        r(&["debug", "reflog-push", "{i0}", "odd", "far"]),
        r(&["debug", "reflog-get", "odd", "far"]),
        r(&["debug", "walk-tree", "{i0}"]),
        r(&["debug", "walk-fs-tree", "{repo}/dir/deep"]),
        r(&["debug", "pretty-print", "{i0}"]),
        r(&["debug", "pretty-print", "master"]),
        r(&["debug", "commit-tree", "{i0}", "master", "side"]),
        r(&["fetch", "{i0}", "{out}"]),
        r(&["fetch", "{i1}", "{out}"]),
        r(&["fetch", "{i0}", "{out}/missing/parent"]),
        r(&["fetch", "{i0}", "dir"]),
        r(&["fetch", "zzz", "{out}"]),
        Tree(t[2].clone()),
        r(&["status"]),
        r(&["checkout"]),
        r(&["debug", "set-head", "master"]),
        r(&["status"]),
        r(&["checkout"]),
        r(&["status"]),
        r(&["commit", "-m", "third", "-e", "many", "-e", "d*"]),
        r(&["compare", "{i0}"]),
        r(&["log"]),
        Tree(t[3].clone()),
        r(&["status"]),
        r(&["compare", "-s"]),
        r(&["commit", "-m", "fourth"]),
        r(&["show"]),
        r(&["compare", "-s"]),
        Tree(t[4].clone()),
        r(&["status"]),
        r(&["compare", "-s"]),
        r(&["commit", "-m", "fifth"]),
        r(&["log"]),
        r(&["show"]),
        Tree(t[5].clone()),
        r(&["status"]),
        r(&["compare", "-s"]),
        r(&["commit", "-m", "sixth"]),
        Tree(t[6].clone()),
        r(&["status"]),
        r(&["compare", "-s"]),
        r(&["commit", "-m", "seventh"]),
        r(&["log"]),
        r(&["no-such-command"]),
        r(&["commit"]),
        r(&["init"]),
        r(&["status"]),
    ]
}

/// What is compared after a step.
#[derive(PartialEq, Eq, Clone)]
struct Seen {
    status: String,
    text: Vec<u8>,
    db: String,
    files: Result<Node, String>,
    out: Option<Result<Node, String>>,
}

fn strip(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 0x1b && b.get(i + 1) == Some(&b'[') {
            let mut j = i + 2;
            while j < b.len() && (b[j].is_ascii_digit() || b[j] == b';') {
                j += 1;
            }
            if b.get(j) == Some(&b'm') {
                i = j + 1;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    v
}

fn replace(b: Vec<u8>, what: &[u8], with: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(what) {
            v.extend_from_slice(with);
            i += what.len();
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

/// Times differ between the plain run and one with other file times only by the shift.
fn shift_times(p: &Path, by: (i64, i64)) {
    use std::os::unix::fs::MetadataExt;
    for e in std::fs::read_dir(p).unwrap() {
        let e = e.unwrap();
        if e.file_name() == ".snapcd" {
            continue;
        }
        let m = e.metadata().unwrap();
        if m.is_dir() {
            shift_times(&e.path(), by);
        }
        let ns = m.mtime() as i128 * 1_000_000_000 + m.mtime_nsec() as i128 + by.0 as i128 * 1_000_000_000 + by.1 as i128;
        vx::sys::set_mtime(&e.path(), ns.div_euclid(1_000_000_000) as i64, ns.rem_euclid(1_000_000_000) as i64);
    }
}

struct Play<'a> {
    ctx: &'a Ctx,
    w: World<'a>,
    place: PathBuf,
    ids: Vec<String>,
    n: usize,
}

fn terminal() -> Option<(i32, i32)> {
    unsafe {
        let (mut m, mut s) = (0, 0);
        let mut t: libc::termios = std::mem::zeroed();
        libc::cfmakeraw(&mut t);
        if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), &t, std::ptr::null()) != 0 {
            return None;
        }
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        Some((m, s))
    }
}

impl<'a> Play<'a> {
    fn new(ctx: &'a Ctx) -> Play<'a> {
        let w = World::bare(ctx);
        let place = w.repo.clone();
        Play { ctx, w, place, ids: vec![], n: 0 }
    }
    fn run(&self, cwd: &Path, args: &[OsString], a: &Around) -> Out {
        let cache = match a.cache {
            "new" => self.w.dir.join(format!("cache{}", self.n)),
            "odd name" => self.w.dir.join("c é\n'\"%"),
            _ => self.w.cache.clone(),
        };
        let mut snap = Snap::new(self.ctx, cwd, &cache);
        snap.shim = a.shim;
        let mut c = snap.command(args);
        match a.cache {
            "home" => {
                c.env_remove("XDG_CACHE_HOME");
            }
            "relative" => {
                c.env("XDG_CACHE_HOME", "some/where");
            }
            _ => {}
        }
        for (k, v) in &a.vars {
            match v {
                Some(v) => c.env(k, v),
                None => c.env_remove(k),
            };
        }
        use std::os::unix::process::CommandExt;
        if let Some(p) = a.program {
            c.arg0(p);
        }
        match a.stdin {
            "text" | "closed" => {}
            "file" => {
                c.stdin(std::fs::File::open(&self.ctx.bin).unwrap());
            }
            _ => {}
        }
        if a.stdin == "text" {
            c.stdin(Stdio::piped());
        }
        let (umask, nofile, sig, closed, extra) = (a.umask, a.nofile, a.sig, a.stdin == "closed", a.extra_fds);
        if umask.is_some() || nofile.is_some() || sig.is_some() || closed || extra {
            unsafe {
                c.pre_exec(move || {
                    if let Some(u) = umask {
                        libc::umask(u);
                    }
                    if let Some(n) = nofile {
                        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                    }
                    if let Some(s) = sig {
                        libc::signal(s, libc::SIG_IGN);
                    }
                    if closed {
                        libc::close(0);
                    }
                    if extra {
                        for _ in 0..200 {
                            libc::dup(2);
                        }
                    }
                    Ok(())
                });
            }
        }
        let outfile = self.w.dir.join("stdout");
        let mut term = None;
        match a.stdout {
            Stdout::Pipe => {}
            Stdout::File => {
                c.stdout(std::fs::File::create(&outfile).unwrap());
            }
            Stdout::Terminal => {
                if let Some((m, s)) = terminal() {
                    use std::os::fd::FromRawFd;
                    c.stdout(unsafe { Stdio::from_raw_fd(s) });
                    term = Some(unsafe { std::fs::File::from_raw_fd(m) });
                } else {
                    self.ctx.note("no terminals here");
                }
            }
        }
        self.ctx.ran();
        let mut ch = vx::run::spawn_retry(&mut c);
        drop(c);
        vx::run::limit(ch.id());
        if let Some(mut i) = ch.stdin.take() {
            use std::io::Write;
            let _ = i.write_all(b"y\nyes\n");
        }
        let reader = term.map(|mut m| {
            std::thread::spawn(move || {
                use std::io::Read;
                let mut v = Vec::new();
                let mut b = [0u8; 65536];
                while let Ok(n) = m.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    v.extend_from_slice(&b[..n]);
                }
                v
            })
        });
        let o = ch.wait_with_output().unwrap();
        use std::os::unix::process::ExitStatusExt;
        let mut out = Out { code: o.status.code(), signal: o.status.signal(), stdout: o.stdout, stderr: o.stderr };
        if a.stdout == Stdout::File {
            out.stdout = std::fs::read(&outfile).unwrap();
        }
        if let Some(r) = reader {
            out.stdout = r.join().unwrap();
        }
        vx::run::log(format!("[{}] (cd {} && snapcd {:?}) -> {}", a.name, cwd.display(), args, out.show()));
        out
    }
    fn step(&mut self, s: &Step, a: &Around) -> Seen {
        self.n += 1;
        if a.moved {
            let to = self.w.dir.join(format!("r{} é", self.n));
            std::fs::rename(&self.place, &to).unwrap();
            self.place = to;
        }
        let mut seen = Seen { status: String::new(), text: vec![], db: String::new(), files: Ok(empty()), out: None };
        match s {
            Step::Tree(t) => {
                // Files that stay the same stay the same files.
                update(&self.place, &Node::read_skip(&self.place, &[".snapcd"]).unwrap(), t);
                if let Some(by) = a.shift {
                    shift_times(&self.place, by);
                }
            }
            Step::Run(at, args) => {
                let out = self.w.dir.join(format!("out{}", self.n));
                let mut v: Vec<OsString> = a.pre.iter().map(|x| x.into()).collect();
                for x in args {
                    let mut x = x.replace("{out}", out.to_str().unwrap()).replace("{repo}", self.place.to_str().unwrap());
                    for (i, id) in self.ids.iter().enumerate() {
                        x = x.replace(&format!("{{i{}}}", i), id);
                    }
                    v.push(x.into());
                }
                v.extend(a.post.iter().map(|x| OsString::from(x)));
                let mut plus = a.clone();
                plus.vars.push(("SNAPCD_VERIF_CHECKOUT_ROOT".into(), Some(self.w.dir.to_str().unwrap().into())));
                let o = self.run(&self.place.join(at), &v, &plus);
                if let Ok(id) = inserted_id(&o) {
                    self.ids.push(id);
                }
                seen.status = o.status();
                seen.text = replace(strip(&o.stdout), self.place.to_str().unwrap().as_bytes(), b"<repository>");
                if args.len() > 1 && args[1].starts_with("walk-") {
                    // printed in no particular order
                    let mut l: Vec<&[u8]> = seen.text.split_inclusive(|x| *x == b'\n').collect();
                    l.sort();
                    seen.text = l.concat();
                }
                seen.text = replace(seen.text, self.w.dir.to_str().unwrap().as_bytes(), b"<scratch>");
                if out.exists() {
                    seen.out = Some(Node::read(&out));
                    let _ = std::fs::remove_dir_all(&out);
                    let _ = std::fs::remove_file(&out);
                }
            }
        }
        seen.db = match vx::db::dump(&self.place.join(".snapcd/snapcd.db")) {
            Ok(d) => format!("{:?}", d),
            Err(e) => format!("unreadable: {}", e),
        };
        seen.files = Node::read_skip(&self.place, &[".snapcd"]);
        seen
    }
}

/// Changes the files of a directory from one tree to another, leaving equal ones alone.
fn update(p: &Path, old: &Node, new: &Node) {
    match (old, new) {
        (a, b) if a == b => {}
        (Node::D(a), Node::D(b)) => {
            for (n, x) in a {
                match b.get(n) {
                    Some(y) if x.is_dir() == y.is_dir() => update(&p.join(n), x, y),
                    _ if x.is_dir() => std::fs::remove_dir_all(p.join(n)).unwrap(),
                    _ => std::fs::remove_file(p.join(n)).unwrap(),
                }
            }
            for (n, y) in b {
                if !matches!(a.get(n), Some(x) if x.is_dir() == y.is_dir()) {
                    y.write(&p.join(n));
                }
            }
        }
        (_, b) => b.write(p),
    }
}

fn diff(a: &Seen, b: &Seen) -> String {
    let t = |x: &Vec<u8>| String::from_utf8_lossy(x).chars().take(600).collect::<String>();
    if a.status != b.status {
        return format!("{} instead of {}; printed {:?} instead of {:?}", b.status, a.status, t(&b.text), t(&a.text));
    }
    if a.text != b.text {
        let at = a.text.iter().zip(&b.text).take_while(|x| x.0 == x.1).count();
        return format!("printed {:?} instead of {:?} (from byte {})", t(&b.text[at..].to_vec()), t(&a.text[at..].to_vec()), at);
    }
    if a.db != b.db {
        return format!("the repository holds {:.1500} instead of {:.1500}", b.db, a.db);
    }
    if a.files != b.files {
        return format!("the working tree is {:?} instead of {:?}", b.files, a.files);
    }
    format!("what was fetched is {:?} instead of {:?}", b.out, a.out)
}

type Plain = Mutex<HashMap<String, std::sync::Arc<Vec<Seen>>>>;

fn one(ctx: &Ctx, plain: &Plain, key: &str, steps: &[Step], a: &Around, when: &dyn Fn(usize) -> bool) -> Result<(), String> {
    let known = plain.lock().unwrap().get(key).cloned();
    let want = match known {
        Some(x) => x,
        None => {
            let p = Around::plain();
            let mut w = Play::new(ctx);
            let v = std::sync::Arc::new(steps.iter().map(|s| w.step(s, &p)).collect::<Vec<_>>());
            plain.lock().unwrap().entry(key.to_string()).or_insert(v).clone()
        }
    };
    let p = Around::plain();
    let mut w = Play::new(ctx);
    for (i, s) in steps.iter().enumerate() {
        let got = w.step(s, if when(i) || a.shift.is_some() { a } else { &p });
        if got != want[i] {
            let what = match s {
                Step::Tree(_) => "an edit".to_string(),
                Step::Run(at, c) => format!("{:?}{}", c, if at.is_empty() { String::new() } else { format!(" in {}", at) }),
            };
            return Err(format!("with {}: step {} ({}): {}", a.name, i, what, diff(&want[i], &got)));
        }
    }
    ctx.distinct(format!("{} {} {:?}", key, a.name, (0..steps.len()).map(|i| when(i)).collect::<Vec<_>>()).as_bytes());
    Ok(())
}

fn run(ctx: &Ctx) {
    let t = trees();
    let steps = script(&t);
    let all = arounds();
    let plain: Plain = Mutex::new(HashMap::new());
    ctx.set_count("surroundings", all.len() as u64);
    ctx.set_count("steps_of_the_history", steps.len() as u64);
    // The plain run itself does what the commands are for.
    ctx.par(&[()], |_| "plain".into(), |_| sane(ctx, &steps, &t));
    // Everywhere, on every other command.
    let mut cases: Vec<(Around, String)> = vec![(Around::plain(), "again".into())];
    for a in &all {
        for w in ["all", "even", "odd"] {
            if a.shift.is_none() || w == "all" {
                cases.push((a.clone(), w.into()));
            }
        }
    }
    ctx.par(
        &cases,
        |c| format!("script; {}; {}", c.0.name, c.1),
        |c| {
            let w = c.1.clone();
            one(ctx, &plain, "script", &steps, &c.0, &move |i| match w.as_str() {
                "even" => i % 2 == 0,
                "odd" => i % 2 == 1,
                _ => true,
            })
        },
    );
    ctx.count("surroundings_and_patterns", cases.len() as u64);
    // On one command alone, after which everything is plain again.
    if !ctx.quick() {
        let mut cases = Vec::new();
        for a in &all {
            if a.shift.is_some() || a.moved {
                continue;
            }
            for i in 0..steps.len() {
                if matches!(steps[i], Step::Run(..)) {
                    cases.push((a.clone(), i));
                }
            }
        }
        ctx.par(&cases, |c| format!("script; {}; step {}", c.0.name, c.1), |c| one(ctx, &plain, "script", &steps, &c.0, &|i| i == c.1));
        ctx.count("surroundings_of_one_command", cases.len() as u64);
        let mut cases = Vec::new();
        for (i, a) in all.iter().enumerate() {
            for b in &all[i + 1..] {
                if a.kind != b.kind {
                    cases.push(a.and(b));
                }
            }
        }
        ctx.par(&cases, |c| format!("script; {}; all", c.name), |c| one(ctx, &plain, "script", &steps, c, &|_| true));
        ctx.count("pairs_of_surroundings", cases.len() as u64);
    }
    // All short sequences of commands, in a few surroundings.
    let ops: Vec<Step> = {
        use Step::*;
        let r = |a: &[&'static str]| Run("", a.to_vec());
        vec![
            r(&["init"]),
            Tree(t[0].clone()),
            Tree(t[2].clone()),
            r(&["commit", "-m", "c"]),
            r(&["status"]),
            r(&["insert", "dir"]),
            r(&["checkout-head", "side"]),
            r(&["log"]),
            r(&["checkout"]),
            r(&["fetch", "{i0}", "{out}"]),
        ]
    };
    let few: Vec<Around> = all
        .iter()
        .filter(|a| {
            ["[\"-vvv\"] ... [] with a terminal", "[] ... [\"-q\"]", "hash seed 2", "listing order r", "stdout Terminal", "moved between commands", "umask 77", "clock at 0", "LC_ALL=C", "\"1\" in every variable asked for"].contains(&a.name.as_str())
        })
        .cloned()
        .collect();
    assert!(few.len() == 10, "{}", few.len());
    let len = ctx.pick(2, 3);
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut level = seqs.clone();
    for _ in 0..len {
        level = level.iter().flat_map(|s| (0..ops.len()).map(move |o| [s.clone(), vec![o]].concat())).collect();
        seqs.extend(level.iter().cloned());
    }
    let mut cases = Vec::new();
    for s in &seqs {
        if s.len() == len {
            for a in &few {
                cases.push((s.clone(), a.clone()));
            }
        }
    }
    ctx.par(
        &cases,
        |c| format!("sequence {:?}; {}", c.0, c.1.name),
        |c| {
            // from a repository with a commit
            let mut st = vec![ops[0].clone(), ops[1].clone(), ops[3].clone(), ops[5].clone()];
            let head = st.len();
            st.extend(c.0.iter().map(|i| ops[*i].clone()));
            // and from nothing
            let bare: Vec<Step> = c.0.iter().map(|i| ops[*i].clone()).collect();
            one(ctx, &plain, &format!("after a commit {:?}", c.0), &st, &c.1, &|i| i >= head)?;
            one(ctx, &plain, &format!("from nothing {:?}", c.0), &bare, &c.1, &|_| true)
        },
    );
    ctx.count("sequences", (cases.len() / few.len()) as u64);
    ctx.sample(format!("history of {} steps in {} surroundings, e.g. {}", steps.len(), all.len(), all.iter().step_by(17).map(|a| a.name.clone()).collect::<Vec<_>>().join("; ")));
}

/// The plain run of the script is what the other runs are held against, so it has to be a good one.
fn sane(ctx: &Ctx, steps: &[Step], t: &[Node]) -> Result<(), String> {
    let p = Around::plain();
    let mut w = Play::new(ctx);
    let mut good: BTreeMap<String, usize> = BTreeMap::new();
    for (i, s) in steps.iter().enumerate() {
        let x = w.step(s, &p);
        if let Step::Run(at, c) = s {
            let txt = String::from_utf8_lossy(&x.text).into_owned();
            let is = |a: &[&str]| *c == a && at.is_empty();
            let exact = |b: &[u8]| if x.status == "exit 0" && x.text == b { Ok(()) } else { Err(format!("step {} ({:?}): {}, printed {:.300}", i, c, x.status, txt)) };
            if is(&["show", "{i1}"]) {
                exact(&big(1))?;
            }
            if is(&["show", "{i2}"]) {
                exact(&lines(40, &[]))?;
            }
            if c[0] == "fetch" && i > 0 && c[2] == "{out}" && c[1] == "{i0}" && x.out != Some(Ok(t[0].clone())) {
                return Err(format!("step {}: fetched {:?}", i, x.out));
            }
            if x.status == "exit 0" {
                *good.entry(c[0].to_string()).or_insert(0) += 1;
            }
        }
    }
    ctx.count("commands_that_succeed_in_the_history", good.values().sum::<usize>() as u64);
    Ok(())
}
