//! Running the real binary.
use crate::Ctx;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{OsStr, OsString};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn log_reset() {
    LOG.with(|l| l.borrow_mut().clear());
}
pub fn log_take() -> Vec<String> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn log(s: impl Into<String>) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 400 {
            l.push(s.into());
        }
    });
}

static RUNNING: Mutex<Option<HashMap<u32, Instant>>> = Mutex::new(None);
pub const WALL_LIMIT: Duration = Duration::from_secs(120);

pub fn start_watchdog() {
    *RUNNING.lock().unwrap() = Some(HashMap::new());
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some(m) = RUNNING.lock().unwrap().as_ref() {
            for (pid, t) in m {
                if t.elapsed() > WALL_LIMIT {
                    unsafe { libc::kill(*pid as i32, libc::SIGKILL) };
                }
            }
        }
    });
}

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn status(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit {}", c),
            (_, Some(s)) => format!("signal {}", s),
            _ => "?".into(),
        }
    }
    pub fn show(&self) -> String {
        let cut = |b: &[u8]| {
            let s = String::from_utf8_lossy(b).into_owned();
            if s.len() > 3000 {
                s.chars().take(3000).collect::<String>() + "..."
            } else {
                s
            }
        };
        format!("[{}] stdout: {} stderr: {}", self.status(), cut(&self.stdout), cut(&self.stderr))
    }
}

/// One repository world: where commands are started, which cache they use.
#[derive(Clone)]
pub struct Snap<'a> {
    pub ctx: &'a Ctx,
    pub cwd: PathBuf,
    pub cache: PathBuf,
    pub env: Vec<(String, OsString)>,
    pub shim: bool,
    pub full_stdout: bool,
}

impl<'a> Snap<'a> {
    pub fn new(ctx: &'a Ctx, cwd: &Path, cache: &Path) -> Self {
        Snap { ctx, cwd: cwd.to_path_buf(), cache: cache.to_path_buf(), env: vec![], shim: false, full_stdout: false }
    }
    pub fn at(&self, cwd: &Path) -> Self {
        let mut s = self.clone();
        s.cwd = cwd.to_path_buf();
        s
    }
    pub fn with(&self, k: &str, v: impl AsRef<OsStr>) -> Self {
        let mut s = self.clone();
        s.env.push((k.into(), v.as_ref().into()));
        if k.starts_with("VX_") {
            s.shim = true;
        }
        s
    }
    pub fn command(&self, args: &[impl AsRef<OsStr>]) -> Command {
        let mut c = Command::new(&self.ctx.bin);
        c.args(args.iter().map(|x| x.as_ref()));
        c.env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &self.cache)
            .env("XDG_CACHE_HOME", &self.cache)
            .current_dir(&self.cwd)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        if self.shim {
            c.env("LD_PRELOAD", &self.ctx.shim).env("VX_SEED", "1").env("VX_SLEEP", "0");
            if !self.env.iter().any(|x| x.0 == "VX_DIRORDER") {
                c.env("VX_DIRORDER", "s");
            }
        }
        for (k, v) in &self.env {
            c.env(k, v);
        }
        if self.full_stdout {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap());
        }
        c
    }
    pub fn run(&self, args: &[impl AsRef<OsStr>]) -> Out {
        self.ctx.ran();
        let mut c = self.command(args);
        let ch = spawn_retry(&mut c);
        let pid = ch.id();
        limit(pid);
        if let Some(m) = RUNNING.lock().unwrap().as_mut() {
            m.insert(pid, Instant::now());
        }
        let o = ch.wait_with_output().unwrap();
        if let Some(m) = RUNNING.lock().unwrap().as_mut() {
            m.remove(&pid);
        }
        use std::os::unix::process::ExitStatusExt;
        let out = Out { code: o.status.code(), signal: o.status.signal(), stdout: o.stdout, stderr: o.stderr };
        let mut cmdline = format!("(cd {} && ", self.cwd.display());
        for (k, v) in &self.env {
            cmdline += &format!("{}={} ", k, v.to_string_lossy());
        }
        cmdline += &format!("XDG_CACHE_HOME={} snapcd", self.cache.display());
        for a in args {
            cmdline += &format!(" {:?}", a.as_ref());
        }
        log(format!("{})  -> {}", cmdline, out.show()));
        out
    }
    /// Runs a command that has to succeed.
    pub fn good(&self, args: &[impl AsRef<OsStr>]) -> Result<Out, String> {
        let o = self.run(args);
        if o.ok() {
            Ok(o)
        } else {
            let a: Vec<_> = args.iter().map(|x| x.as_ref().to_string_lossy().into_owned()).collect();
            Err(format!("snapcd {} failed: {}", a.join(" "), o.show()))
        }
    }
    /// `insert`, returning the printed id.
    pub fn insert(&self, path: impl AsRef<OsStr>) -> Result<String, String> {
        let o = self.good(&[OsStr::new("insert"), OsStr::new("--"), path.as_ref()])?;
        inserted_id(&o)
    }
}

pub fn inserted_id(o: &Out) -> Result<String, String> {
    let t = o.text();
    t.lines()
        .find_map(|l| l.strip_prefix("inserted hash "))
        .map(|x| x.trim().to_string())
        .ok_or_else(|| format!("no id printed: {}", o.show()))
}

pub fn spawn_retry(c: &mut Command) -> std::process::Child {
    let mut n = 0;
    loop {
        match c.spawn() {
            Ok(ch) => return ch,
            Err(e) if n < 50 && matches!(e.raw_os_error(), Some(libc::EAGAIN | libc::ENOMEM | libc::EMFILE)) => {
                n += 1;
                std::thread::sleep(Duration::from_millis(100));
            }
            Err(e) => panic!("spawn: {} {:?}", e, c),
        }
    }
}

pub fn limit(pid: u32) {
    unsafe {
        let l = libc::rlimit { rlim_cur: 60, rlim_max: 61 };
        libc::syscall(libc::SYS_prlimit64, pid, libc::RLIMIT_CPU, &l as *const _, std::ptr::null_mut::<libc::rlimit>());
        let l = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
        libc::syscall(libc::SYS_prlimit64, pid, libc::RLIMIT_AS, &l as *const _, std::ptr::null_mut::<libc::rlimit>());
    }
}
