//! The memory that storing and getting back takes does not depend on how large files are.
use super::common::*;
use std::io::Read;
use std::path::Path;
use std::process::Stdio;
use vx::run::Snap;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C27",
    level: "exploration",
    rule: "every kind of content (never repeating, all zero, repeating, one byte repeated per block, made to be cut at every chance) x every size from a list up to 128 MiB (thorough: 1 GiB, and 5 GiB of few distinct blocks) x every command that stores, hashes or gets back files (insert, commit, status and compare with a cold cache, status with a warm one, fetch, checkout), alone and with several such files in a tree: the command succeeds, its peak resident memory stays below a fixed bound, and what is fetched is what was stored. Non-trivial: distinct (content, size, command).",
    assumptions: &["compare --stat, log, show and patches, which look at lines, are outside"],
    run,
};

/// KiB of resident memory any of these may take.
const BOUND: u64 = 40 << 10;

/// Content of any length, made without keeping it.
struct Gen {
    kind: &'static str,
    at: u64,
    len: u64,
    x: u64,
    block: Vec<u8>,
}

const KINDS: &[&str] = &["random", "zero", "repeating", "blocks", "cuts"];

impl Gen {
    fn new(kind: &'static str, len: u64) -> Gen {
        let block = match kind {
            // The hash is full of ones at the end of each of these, as often as it can be.
            "cuts" => pattern(40_000, 5),
            "repeating" => b"the same again, ".to_vec(),
            _ => vec![],
        };
        Gen { kind, at: 0, len, x: 88172645463325252 ^ len, block }
    }
}

impl Read for Gen {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (buf.len() as u64).min(self.len - self.at) as usize;
        match self.kind {
            "zero" => buf[..n].fill(0),
            "random" => {
                for c in buf[..n].chunks_mut(8) {
                    self.x ^= self.x << 13;
                    self.x ^= self.x >> 7;
                    self.x ^= self.x << 17;
                    let b = self.x.to_le_bytes();
                    c.copy_from_slice(&b[..c.len()]);
                }
            }
            "blocks" => {
                for (i, c) in buf[..n].iter_mut().enumerate() {
                    *c = ((self.at + i as u64) >> 16) as u8;
                }
            }
            _ => {
                for (i, c) in buf[..n].iter_mut().enumerate() {
                    *c = self.block[((self.at + i as u64) % self.block.len() as u64) as usize];
                }
            }
        }
        self.at += n as u64;
        Ok(n)
    }
}

fn write(kind: &'static str, len: u64, to: &Path) {
    let mut g = std::io::BufReader::with_capacity(1 << 20, Gen::new(kind, len));
    let mut o = std::fs::File::create(to).unwrap();
    std::io::copy(&mut g, &mut o).unwrap();
}

fn same(kind: &'static str, len: u64, at: &Path) -> Result<(), String> {
    let mut g = Gen::new(kind, len);
    let mut f = std::fs::File::open(at).map_err(|e| e.to_string())?;
    if f.metadata().unwrap().len() != len {
        return Err(format!("{:?} has {} bytes, {} were stored", at, f.metadata().unwrap().len(), len));
    }
    let (mut a, mut b) = (vec![0; 1 << 20], vec![0; 1 << 20]);
    let mut left = len;
    while left > 0 {
        let n = left.min(1 << 20) as usize;
        g.read_exact(&mut a[..n]).unwrap();
        f.read_exact(&mut b[..n]).map_err(|e| e.to_string())?;
        if a[..n] != b[..n] {
            return Err(format!("{:?} differs near {}", at, len - left));
        }
        left -= n as u64;
    }
    Ok(())
}

/// Runs a command; its output and its peak resident memory in KiB.
fn peak(ctx: &Ctx, s: &Snap, args: &[&str]) -> Result<(String, u64), String> {
    ctx.ran();
    let mut c = s.command(args);
    let out = ctx.fresh("o");
    std::fs::create_dir_all(&out).unwrap();
    let o = std::fs::File::create(out.join("o")).unwrap();
    c.stdout(Stdio::from(o.try_clone().unwrap())).stderr(Stdio::from(o));
    let ch = c.spawn().map_err(|e| e.to_string())?;
    let mut st = 0;
    let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
    let r = unsafe { libc::wait4(ch.id() as i32, &mut st, 0, &mut ru) };
    let text = String::from_utf8_lossy(&std::fs::read(out.join("o")).unwrap()).into_owned();
    let _ = std::fs::remove_dir_all(&out);
    vx::run::log(format!("snapcd {:?} -> status {} peak {} KiB", args, st, ru.ru_maxrss));
    if r < 0 || st != 0 {
        return Err(format!("{:?} failed (status {}): {}", args, st, &text[..text.len().min(2000)]));
    }
    Ok((text, ru.ru_maxrss as u64))
}

fn one(ctx: &Ctx, kind: &'static str, len: u64, several: usize) -> Result<(), String> {
    let w = World::new(ctx);
    let names: Vec<String> = (0..several).map(|i| format!("f{}", i)).collect();
    let len_of = |i: usize| len - 17 * i as u64;
    for (i, n) in names.iter().enumerate() {
        write(kind, len_of(i), &w.repo.join(n));
    }
    let s = w.snap.with("SNAPCD_VERIF_CHECKOUT_ROOT", &w.repo);
    let run = |s: &Snap, args: &[&str]| -> Result<String, String> {
        let (text, m) = peak(ctx, s, args)?;
        ctx.distinct(format!("{} {} {} {:?}", kind, len, several, args.iter().take(1).collect::<Vec<_>>()).as_bytes());
        ctx.eval(1);
        if m > BOUND {
            return Err(format!("{:?} took {} KiB of memory for files of {} bytes", args, m, len));
        }
        Ok(text)
    };
    let t = run(&s, &["insert", if several == 1 { "f0" } else { "." }])?;
    let id = t.lines().find_map(|l| l.split_once("inserted hash ")).map(|x| x.1.to_string()).ok_or(format!("insert printed {:?}", t))?;
    let out = w.dir.join("out");
    run(&s, &["fetch", &id, out.to_str().unwrap()])?;
    for (i, n) in names.iter().enumerate() {
        let at = if several == 1 { out.clone() } else { out.join(n) };
        same(kind, len_of(i), &at)?;
        std::fs::remove_file(at).unwrap();
    }
    run(&s, &["commit", "-m", "m"])?;
    run(&s, &["status"])?;
    run(&s, &["status"])?;
    // A cold cache, and contents that are not stored yet.
    std::fs::remove_file(w.db()).unwrap();
    vx::world::clear(&w.cache, &[]);
    let w2 = World::new(ctx);
    std::fs::copy(w2.db(), w.db()).unwrap();
    std::fs::create_dir(w.repo.join("e")).unwrap();
    w.snap.good(&["commit", "-m", "m", "-p", "e"])?;
    std::fs::remove_dir(w.repo.join("e")).unwrap();
    let o = run(&s, &["compare"])?;
    for n in &names {
        if !o.lines().any(|l| l.trim() == n) {
            return Err(format!("compare does not list {}: {:?}", n, o));
        }
    }
    run(&s, &["commit", "-m", "m"])?;
    for n in &names {
        std::fs::write(w.repo.join(n), "overwritten").unwrap();
    }
    run(&s, &["checkout"])?;
    for (i, n) in names.iter().enumerate() {
        same(kind, len_of(i), &w.repo.join(n))?;
    }
    let o = run(&s, &["status"])?;
    if o.lines().any(|l| l.starts_with("modified")) {
        return Err(format!("status after checkout: {}", o));
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    const M: u64 = 1 << 20;
    let mut items: Vec<(&'static str, u64, usize)> = Vec::new();
    for &k in KINDS {
        for n in [0, 1, M, 8 * M + 1, 32 * M, 64 * M - 1] {
            items.push((k, n, 1));
        }
        items.push((k, 16 * M, 4));
    }
    items.push(("random", 128 * M, 1));
    items.push(("zero", 128 * M, 1));
    if !ctx.quick() {
        for &k in KINDS {
            items.push((k, 256 * M, 1));
            items.push((k, 128 * M, 3));
        }
        items.push(("random", 1024 * M, 1));
        items.push(("zero", 5 * 1024 * M + 3, 1));
        items.push(("blocks", 5 * 1024 * M + 70_000, 1));
    }
    // the longest first
    items.sort_by_key(|x| std::cmp::Reverse(x.1 * x.2 as u64));
    ctx.par(&items, |x| format!("{} {} x{}", x.0, x.1, x.2), |x| one(ctx, x.0, x.1, x.2));
    ctx.sample("e.g. 128 MiB of random bytes: insert, fetch, commit, status, compare, checkout".to_string());
}
