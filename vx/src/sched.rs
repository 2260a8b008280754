//! Runs several processes one step at a time under an imposed schedule.
//!
//! Every process stops before each of its scheduling points (see shim.c) and waits. One process
//! runs at a time. The default is to let the running process go on until it ends or waits for a
//! lock; a schedule is a list of deviations from that.
use crate::run::{limit, log, spawn_retry, Out, Snap};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::path::Path;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    /// Let this process go on from here.
    Switch(usize),
    /// Kill the running process before this operation.
    Kill,
    /// Let the running process try again until its patience ends.
    Spin,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub proc: usize,
    pub op: String,
    /// The other processes that could run instead.
    pub others: Vec<usize>,
    /// The running process is waiting: going elsewhere is no preemption.
    pub blocked: bool,
    /// Nobody is interrupted by going elsewhere: the previous process has ended.
    pub fresh: bool,
}

pub struct Run {
    pub outs: Vec<Out>,
    pub killed: Vec<bool>,
    pub steps: Vec<Step>,
}

impl Run {
    pub fn show(&self, dev: &[(usize, Act)]) -> String {
        let mut s = String::new();
        let mut last = usize::MAX;
        let mut count = 0;
        for (i, st) in self.steps.iter().enumerate() {
            let d: Vec<String> = dev.iter().filter(|x| x.0 == i).map(|x| format!("{:?}", x.1)).collect();
            if st.proc != last || !d.is_empty() {
                if count > 1 {
                    s += &format!(" ..{} steps", count);
                }
                s += &format!("\n  step {} p{} before {}{}", i, st.proc, st.op, if d.is_empty() { String::new() } else { format!(" => {}", d.join(" ")) });
                count = 0;
            }
            count += 1;
            last = st.proc;
        }
        s + "\n"
    }
}

enum State {
    Stopped(String),
    Gone,
}

struct Proc {
    child: std::process::Child,
    w: UnixStream,
    r: BufReader<UnixStream>,
    state: State,
    sleeping: bool,
    /// Progress of the others when it last went to sleep.
    slept_at: u64,
    spinning: bool,
}

impl Proc {
    fn next(&mut self) {
        let mut l = String::new();
        match self.r.read_line(&mut l) {
            Ok(n) if n > 0 => {
                self.sleeping = l.starts_with("sleep ");
                self.state = State::Stopped(l.trim_end().to_string());
            }
            _ => {
                self.sleeping = false;
                self.state = State::Gone;
            }
        }
    }
    fn go(&mut self, c: u8) {
        let _ = self.w.write_all(&[c]);
        self.next();
    }
    fn gone(&self) -> bool {
        matches!(self.state, State::Gone)
    }
}

/// `dir` is where the processes' files are (watched) and where the socket and outputs go.
pub fn run(snaps: &[(Snap<'_>, Vec<String>)], dir: &Path, dev: &[(usize, Act)], all_points: bool, cut: &dyn Fn(usize, &str, Option<&str>) -> bool) -> Run {
    let sock = dir.join("s");
    let _ = std::fs::remove_file(&sock);
    let listener = UnixListener::bind(&sock).unwrap_or_else(|e| panic!("{:?}: {}", sock, e));
    let mut procs: Vec<Proc> = Vec::new();
    for (i, (snap, args)) in snaps.iter().enumerate() {
        snap.ctx.ran();
        let mut s = snap.with("VX_ROOT", dir).with("VX_SCHED", &sock).with("VX_ME", format!("p{}", i));
        if all_points {
            s = s.with("VX_POINTS", "all");
        }
        let mut c = s.command(args);
        c.stdout(std::fs::File::create(dir.join(format!("out{}", i))).unwrap());
        c.stderr(std::fs::File::create(dir.join(format!("err{}", i))).unwrap());
        let child = spawn_retry(&mut c);
        limit(child.id());
        listener.set_nonblocking(true).unwrap();
        let t0 = Instant::now();
        let stream = loop {
            match listener.accept() {
                Ok((s, _)) => break s,
                Err(_) if t0.elapsed() < Duration::from_secs(60) => std::thread::sleep(Duration::from_micros(100)),
                Err(e) => panic!("process does not connect: {}", e),
            }
        };
        stream.set_nonblocking(false).unwrap();
        stream.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
        let mut p = Proc { child, w: stream.try_clone().unwrap(), r: BufReader::new(stream), state: State::Gone, sleeping: false, slept_at: 0, spinning: false };
        let mut hello = String::new();
        let _ = p.r.read_line(&mut hello);
        p.next();
        procs.push(p);
    }
    let n = procs.len();
    let mut steps: Vec<Step> = Vec::new();
    let mut killed = vec![false; n];
    let mut cur = 0usize;
    let mut fresh = true;
    let mut progress = 0u64;
    let mut last_op: Vec<Option<String>> = vec![None; n];
    loop {
        if procs.iter().all(|p| p.gone()) {
            break;
        }
        if procs[cur].gone() {
            // the next one in order; which one is a free choice
            let alive: Vec<usize> = (0..n).filter(|&i| !procs[i].gone()).collect();
            let pick = alive.iter().copied().find(|&i| i > cur).unwrap_or(alive[0]);
            cur = pick;
            fresh = true;
        }
        let awake = |p: &Proc, progress: u64| !p.gone() && (!p.sleeping || p.slept_at < progress);
        let State::Stopped(op) = &procs[cur].state else { unreachable!() };
        let op = op.clone();
        let blocked = procs[cur].sleeping && procs[cur].slept_at == progress && !procs[cur].spinning;
        let others: Vec<usize> = (0..n).filter(|&i| i != cur && awake(&procs[i], progress)).collect();
        let is_point = procs[cur].sleeping || cut(cur, &op, last_op[cur].as_deref());
        if is_point {
            let i = steps.len();
            steps.push(Step { proc: cur, op: op.clone(), others: others.clone(), blocked, fresh });
            fresh = false;
            let mut switched = false;
            for (at, a) in dev {
                if *at == i {
                    match a {
                        Act::Switch(to) if !procs[*to].gone() => {
                            cur = *to;
                            switched = true;
                        }
                        Act::Switch(_) => {}
                        Act::Kill => {
                            killed[cur] = true;
                            procs[cur].go(b'k');
                            progress += 1;
                            switched = true;
                        }
                        Act::Spin => procs[cur].spinning = true,
                    }
                }
            }
            if switched {
                continue;
            }
            if blocked && !procs[cur].spinning && !others.is_empty() {
                cur = *others.iter().find(|&&i| i > cur).unwrap_or(&others[0]);
                continue;
            }
        }
        // one step of the current process
        last_op[cur] = Some(op);
        let was_sleeping = procs[cur].sleeping;
        procs[cur].go(b'g');
        if !was_sleeping {
            // a retry of a lock is no progress for the others
            if !procs[cur].sleeping {
                progress += 1;
            }
        }
        if procs[cur].sleeping {
            procs[cur].slept_at = progress;
        }
        if steps.len() > 20_000 {
            for p in &mut procs {
                let _ = p.child.kill();
            }
        }
    }
    use std::os::unix::process::ExitStatusExt;
    let mut outs = Vec::new();
    for (i, p) in procs.iter_mut().enumerate() {
        let st = p.child.wait().unwrap();
        let o = Out {
            code: st.code(),
            signal: st.signal(),
            stdout: std::fs::read(dir.join(format!("out{}", i))).unwrap_or_default(),
            stderr: std::fs::read(dir.join(format!("err{}", i))).unwrap_or_default(),
        };
        log(format!("p{}: snapcd {:?} -> {}", i, snaps[i].1, o.show()));
        outs.push(o);
    }
    let _ = std::fs::remove_file(&sock);
    Run { outs, killed, steps }
}
