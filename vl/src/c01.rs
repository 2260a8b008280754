//! Stored content is read back byte for byte.
use crate::inputs::*;
use std::io::ErrorKind;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C01",
    level: "exploration",
    rule: "every sequence of 64 KiB blocks up to a length over blocks that reach each folding level of the chunk tree (crafted 64-byte windows), all lengths around buffer and chunk boundaries, chunk counts around the list limit; every placement of up to 2 deviating reader answers (short, interrupted) and of a failure at every read; every failing write when reading back. Non-trivial: distinct (content, reader script) stored and read back, counted; shapes counts distinct chunk-tree shapes reached.",
    assumptions: &["contents outside the enumerated alphabet behave like those inside", "store is SQLite in memory"],
    run,
};

#[derive(Clone)]
enum Case {
    Plain(Input),
    Script(Input, Vec<(usize, Answer)>, Answer),
    Fail(Input, usize, ErrorKind, Vec<(usize, Answer)>),
    WriteFail(Input, usize),
}

pub fn script_inputs() -> Vec<Input> {
    let b = |v: &[(u32, usize)], t| Input {
        id: format!("blocks {:?}+{}", v, t),
        kind: Kind::Blocks(v.iter().map(|&(zeros, pos)| Block { zeros, pos }).collect(), t),
    };
    vec![
        Input { id: "pattern 10".into(), kind: Kind::Pattern(10, 1) },
        Input { id: "pattern 32769".into(), kind: Kind::Pattern(32769, 1) },
        Input { id: "pattern 65536".into(), kind: Kind::Pattern(65536, 1) },
        Input { id: "pattern 140000".into(), kind: Kind::Pattern(140_000, 1) },
        b(&[(0, 0), (21, 100), (0, 0)], 5),
        b(&[(42, 100), (28, BLOCK), (0, 0)], 40_000),
        Input { id: "pattern 300000".into(), kind: Kind::Pattern(300_000, 5) },
    ]
}

pub fn scripts(calls: usize) -> Vec<(Vec<(usize, Answer)>, Answer)> {
    use Answer::*;
    let devs = [Short(1), Short(63), Short(32767), Short(32768), Short(32769), Short(65535), Interrupted];
    let mut v = vec![(vec![], Full)];
    for i in 0..calls + 1 {
        for d in devs {
            v.push((vec![(i, d)], Full));
        }
    }
    for i in 0..calls + 1 {
        for j in i + 1..calls + 2 {
            for d in devs {
                for e in devs {
                    v.push((vec![(i, d), (j, e)], Full));
                }
            }
        }
    }
    for k in [1, 2, 3, 7, 64, 100, 1000, 4096, 8191, 8192, 16384, 16385, 20000, 32767, 32768, 32769, 40000, 50000, 65535] {
        v.push((vec![], Short(k)));
        v.push((vec![(0, Interrupted)], Short(k)));
    }
    v
}

fn run(ctx: &Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut cases: Vec<Case> = all(ctx).into_iter().map(Case::Plain).collect();
    for i in script_inputs() {
        let n = i.data().len() / BLOCK + 1;
        for (s, r) in scripts(n.min(ctx.pick(3, 6))) {
            if let Answer::Short(k) = r {
                if k < 64 && i.data().len() > 150_000 && ctx.quick() {
                    continue;
                }
            }
            cases.push(Case::Script(i.clone(), s, r));
        }
        for at in 0..n + 1 {
            for k in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::NotFound] {
                cases.push(Case::Fail(i.clone(), at, k, vec![]));
                if at > 0 {
                    cases.push(Case::Fail(i.clone(), at, k, vec![(at - 1, Answer::Short(1000))]));
                    cases.push(Case::Fail(i.clone(), at, k, vec![(at - 1, Answer::Interrupted)]));
                }
            }
        }
        for at in 0..n + 3 {
            cases.push(Case::WriteFail(i.clone(), at));
        }
    }
    ctx.set_count("contents", cases.iter().filter(|c| matches!(c, Case::Plain(_))).count() as u64);
    ctx.set_count("reader_scripts", cases.iter().filter(|c| matches!(c, Case::Script(..))).count() as u64);
    ctx.set_count("failing_reads", cases.iter().filter(|c| matches!(c, Case::Fail(..))).count() as u64);
    let shapes = std::sync::Mutex::new(std::collections::BTreeSet::new());
    ctx.par(&cases, name, |c| {
        ctx.distinct(name(c).as_bytes());
        match c {
            Case::Plain(i) => {
                let d = i.data();
                let mut ds = mem();
                let k = put(&mut ds, &d[..])?;
                let got = get(&ds, k)?;
                let s = shape(&ds, k);
                if shapes.lock().unwrap().insert(s.clone()) && s.len() > 20 && s.len() < 200 {
                    ctx.sample(format!("{} -> shape {}", i.id, s));
                }
                if got != d {
                    return Err(format!("read back differs: {} (shape {})", first_diff(&d, &got), s));
                }
            }
            Case::Script(i, s, r) => {
                let d = i.data();
                let mut ds = mem();
                let mut rd = Scripted::new(&d, s);
                rd.rest = *r;
                let k = put(&mut ds, rd)?;
                let got = get(&ds, k)?;
                if got != d {
                    return Err(format!("read back differs: {}", first_diff(&d, &got)));
                }
            }
            Case::Fail(i, at, kind, pre) => {
                let d = i.data();
                let mut ds = mem();
                let mut s = pre.clone();
                s.push((*at, Answer::Fail(*kind)));
                let mut rd = Scripted::new(&d, &s);
                let r = put(&mut ds, &mut rd);
                let reached = rd.calls > *at;
                match r {
                    Ok(k) if reached => return Err(format!("the source failed with {:?} at read {}, yet id {} was returned", kind, at, k)),
                    Ok(k) => {
                        if get(&ds, k)? != d {
                            return Err("read back differs".into());
                        }
                    }
                    Err(e) if e.contains("panicked") => return Err(e),
                    Err(_) if reached => {}
                    Err(e) => return Err(e),
                }
                if reached {
                    ctx.count("reached_failures", 1);
                }
            }
            Case::WriteFail(i, at) => {
                let d = i.data();
                let mut ds = mem();
                let k = put(&mut ds, &d[..])?;
                for full in [true, false] {
                    let mut w = FailWrite { n: 0, at: *at, got: vec![], zero: !full };
                    let r = guard("read_data", || snapcd::file::read_data(&ds, k, &mut w).map_err(|e| e.to_string()));
                    if w.n > *at && r.is_ok() {
                        return Err(format!("write {} failed, yet reading reported success", at));
                    }
                    if r.is_ok() && w.got != d {
                        return Err(format!("read reported success, but wrote something else: {}", first_diff(&d, &w.got)));
                    }
                }
            }
        }
        Ok(())
    });
    ctx.set_count("shapes", shapes.into_inner().unwrap().len() as u64);
}

struct FailWrite {
    n: usize,
    at: usize,
    got: Vec<u8>,
    zero: bool,
}
impl std::io::Write for FailWrite {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.n;
        self.n += 1;
        if n == self.at {
            if self.zero {
                return Ok(0);
            }
            return Err(ErrorKind::Other.into());
        }
        // takes only part of what it is given
        let k = b.len().min(30_000);
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn name(c: &Case) -> String {
    match c {
        Case::Plain(i) => i.id.clone(),
        Case::Script(i, s, r) => format!("{} reads {:?} rest {:?}", i.id, s, r),
        Case::Fail(i, a, k, s) => format!("{} fails at read {} with {:?} after {:?}", i.id, a, k, s),
        Case::WriteFail(i, a) => format!("{} write {} fails", i.id, a),
    }
}
