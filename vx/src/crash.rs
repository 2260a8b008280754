//! What is left on a disk after power failure: replays the log of file-system operations that the
//! shim wrote and enumerates which of the not yet synced ones had reached the disk.
//!
//! A file's data and length are durable once that file was synced after the operation, a name
//! (file or directory) once the directory that contains it was. Anything not durable may or may
//! not be there, each operation on its own.
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: u8,
    pub path: String,
    pub off: u64,
    pub data: Vec<u8>,
}

impl Op {
    pub fn show(&self) -> String {
        match self.kind {
            b'W' => format!("write {} at {} of {}", self.data.len(), self.off, self.path),
            b'T' => format!("truncate {} to {}", self.path, self.off),
            b'S' => format!("sync {}", self.path),
            b'D' => format!("sync directory {:?}", self.path),
            b'C' => format!("create {}", self.path),
            b'U' => format!("unlink {}", self.path),
            b'R' => format!("rmdir {}", self.path),
            b'M' => format!("mkdir {}", self.path),
            b'N' => format!("rename {} to {}", self.path, String::from_utf8_lossy(&self.data)),
            _ => "?".into(),
        }
    }
}

pub fn parse(log: &[u8]) -> Result<Vec<Op>, String> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < log.len() {
        if log.len() - i < 15 {
            return Err("operation log is cut".into());
        }
        let kind = log[i];
        let pl = u16::from_le_bytes(log[i + 1..i + 3].try_into().unwrap()) as usize;
        let off = u64::from_le_bytes(log[i + 3..i + 11].try_into().unwrap());
        let mut dl = u32::from_le_bytes(log[i + 11..i + 15].try_into().unwrap()) as usize;
        i += 15;
        let path = String::from_utf8_lossy(&log[i..i + pl]).into_owned();
        i += pl;
        if !matches!(kind, b'W' | b'N') {
            dl = 0;
        }
        let data = log[i..i + dl].to_vec();
        i += dl;
        v.push(Op { kind, path, off, data });
    }
    Ok(v)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ent {
    Dir,
    File(usize),
}

/// Files and directories by path relative to the root; contents by inode.
#[derive(Clone, Default)]
pub struct Fs {
    pub names: BTreeMap<String, Ent>,
    pub data: Vec<Arc<Vec<u8>>>,
}

fn parent(p: &str) -> &str {
    p.rsplit_once('/').map(|x| x.0).unwrap_or("")
}

#[derive(Clone)]
enum Pend {
    /// inode, operation
    Data(usize, Op),
    /// names, what they become (together), directory that holds the first
    Name(Vec<(String, Option<Ent>)>, String),
}

pub type Image = BTreeMap<String, Option<Arc<Vec<u8>>>>;

impl Fs {
    pub fn load(root: &Path) -> Fs {
        fn go(p: &Path, rel: &str, fs: &mut Fs) {
            for e in std::fs::read_dir(p).unwrap() {
                let e = e.unwrap();
                let n = e.file_name().to_string_lossy().into_owned();
                let r = if rel.is_empty() { n } else { format!("{}/{}", rel, n) };
                if e.file_type().unwrap().is_dir() {
                    fs.names.insert(r.clone(), Ent::Dir);
                    go(&e.path(), &r, fs);
                } else {
                    fs.data.push(Arc::new(std::fs::read(e.path()).unwrap()));
                    fs.names.insert(r, Ent::File(fs.data.len() - 1));
                }
            }
        }
        let mut fs = Fs::default();
        go(root, "", &mut fs);
        fs
    }
    fn apply_data(&mut self, ino: usize, op: &Op, part: Option<(usize, usize)>) {
        let d = Arc::make_mut(&mut self.data[ino]);
        match op.kind {
            b'T' => d.resize(op.off as usize, 0),
            _ => {
                let (a, b) = part.unwrap_or((0, op.data.len()));
                let (s, e) = (op.off as usize + a, op.off as usize + b);
                if b > a {
                    if d.len() < e {
                        d.resize(e, 0);
                    }
                    d[s..e].copy_from_slice(&op.data[a..b]);
                }
            }
        }
    }
    fn apply_name(&mut self, n: &str, e: Option<Ent>) {
        match e {
            Some(e) => {
                self.names.insert(n.into(), e);
            }
            None => {
                self.names.remove(n);
            }
        }
    }
    /// What can be reached from the root.
    pub fn image(&self) -> Image {
        let mut m = Image::new();
        for (p, e) in &self.names {
            let up = parent(p);
            if !up.is_empty() && !matches!(m.get(up), Some(None)) {
                continue;
            }
            m.insert(p.clone(), match e {
                Ent::Dir => None,
                Ent::File(i) => Some(self.data[*i].clone()),
            });
        }
        m
    }
}

/// The disk while a log is replayed.
#[derive(Clone)]
pub struct Disk {
    /// As running programs see it.
    pub live: Fs,
    /// What is there in any case.
    pub sure: Fs,
    pending: Vec<Pend>,
}

/// Which of the pending operations reached the disk; one of them may have done so in part.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Choice {
    pub keep: Vec<bool>,
    pub torn: Option<(usize, usize, usize)>,
}

impl Disk {
    pub fn new(fs: Fs) -> Disk {
        Disk { live: fs.clone(), sure: fs, pending: vec![] }
    }
    pub fn npending(&self) -> usize {
        self.pending.len()
    }
    pub fn show(&self, c: &Choice) -> String {
        let mut s = String::new();
        for (i, p) in self.pending.iter().enumerate() {
            let t = match p {
                Pend::Data(_, op) => op.show(),
                Pend::Name(names, _) => format!("name {} {}", names[0].0, if names[0].1.is_some() { "made" } else { "removed" }),
            };
            let what = match c.torn {
                Some((j, a, b)) if j == i => format!("only bytes {}..{}", a, b),
                _ if c.keep[i] => "kept".into(),
                _ => "lost".into(),
            };
            s += &format!("\n    {}: {}", t, what);
        }
        s
    }
    fn ino(&self, p: &str) -> Result<usize, String> {
        match self.live.names.get(p) {
            Some(Ent::File(i)) => Ok(*i),
            _ => Err(format!("operation on {:?}, which is not there", p)),
        }
    }
    fn name(&mut self, names: Vec<(String, Option<Ent>)>) {
        for (n, e) in &names {
            self.live.apply_name(n, *e);
        }
        let dir = parent(&names[0].0).to_string();
        self.pending.push(Pend::Name(names, dir));
    }
    pub fn step(&mut self, op: &Op) -> Result<(), String> {
        match op.kind {
            b'C' => {
                self.live.data.push(Arc::default());
                self.sure.data.push(Arc::default());
                let i = self.live.data.len() - 1;
                self.name(vec![(op.path.clone(), Some(Ent::File(i)))]);
            }
            b'M' => self.name(vec![(op.path.clone(), Some(Ent::Dir))]),
            b'U' | b'R' => self.name(vec![(op.path.clone(), None)]),
            b'N' => {
                let e = *self.live.names.get(&op.path).ok_or("rename of nothing")?;
                let to = String::from_utf8_lossy(&op.data).into_owned();
                self.name(vec![(to, Some(e)), (op.path.clone(), None)]);
            }
            b'W' | b'T' => {
                let i = self.ino(&op.path)?;
                self.live.apply_data(i, op, None);
                self.pending.push(Pend::Data(i, op.clone()));
            }
            b'S' => {
                let i = self.ino(&op.path)?;
                for p in std::mem::take(&mut self.pending) {
                    match &p {
                        Pend::Data(j, o) if *j == i => self.sure.apply_data(i, o, None),
                        _ => self.pending.push(p),
                    }
                }
            }
            b'D' => {
                for p in std::mem::take(&mut self.pending) {
                    match &p {
                        Pend::Name(names, d) if *d == op.path => names.iter().for_each(|(n, e)| self.sure.apply_name(n, *e)),
                        _ => self.pending.push(p),
                    }
                }
            }
            _ => return Err("unknown operation".into()),
        }
        Ok(())
    }
    pub fn crash(&self, c: &Choice) -> Image {
        let mut fs = self.sure.clone();
        for (i, p) in self.pending.iter().enumerate() {
            let part = match c.torn {
                Some((j, a, b)) if j == i => Some((a, b)),
                _ if c.keep[i] => None,
                _ => continue,
            };
            match p {
                Pend::Data(ino, op) => fs.apply_data(*ino, op, part),
                Pend::Name(names, _) => names.iter().for_each(|(n, e)| fs.apply_name(n, *e)),
            }
        }
        fs.image()
    }
    /// All choices within bounds: every subset of at most `full` pending operations, and at most
    /// `dev` operations different from everything kept, nothing kept and the first m kept; and
    /// with every write torn in several ways.
    pub fn choices(&self, full: usize, dev: usize) -> HashSet<Choice> {
        let n = self.pending.len();
        let mut out = HashSet::new();
        let mut bases: Vec<Vec<bool>> = Vec::new();
        if n <= full {
            for m in 0..1u32 << n {
                bases.push((0..n).map(|i| m >> i & 1 == 1).collect());
            }
        } else {
            for start in [true, false] {
                let mut wave: HashSet<Vec<bool>> = HashSet::from([vec![start; n]]);
                for _ in 0..dev {
                    let mut next = wave.clone();
                    for b in &wave {
                        for i in 0..n {
                            let mut b = b.clone();
                            b[i] = !start;
                            next.insert(b);
                        }
                    }
                    wave = next;
                }
                bases.extend(wave);
            }
            // names and data of each file or directory as a whole
            for i in 0..n {
                bases.push((0..n).map(|j| j <= i).collect());
                bases.push((0..n).map(|j| j >= i).collect());
            }
            let group = |p: &Pend| match p {
                Pend::Data(i, _) => format!("{}", i),
                Pend::Name(_, d) => format!("/{}", d),
            };
            let gs: HashSet<String> = self.pending.iter().map(&group).collect();
            for g in gs {
                bases.push(self.pending.iter().map(|p| group(p) == g).collect());
                bases.push(self.pending.iter().map(|p| group(p) != g).collect());
            }
        }
        for i in 0..n {
            let Pend::Data(_, op) = &self.pending[i] else { continue };
            if op.kind != b'W' {
                continue;
            }
            // sectors do not tear
            let mut cuts = Vec::new();
            let (s, e) = (op.off as usize, op.off as usize + op.data.len());
            let mut x = (s / 512 + 1) * 512;
            while x < e {
                cuts.push(x - s);
                x += 512;
            }
            let Some(&first) = cuts.first() else { continue };
            let last = *cuts.last().unwrap();
            let mid = cuts[cuts.len() / 2];
            for part in [(0, first), (0, last), (first, op.data.len()), (last, op.data.len()), (0, mid), (mid, op.data.len())] {
                for k in 0..4 {
                    let keep = (0..n)
                        .map(|j| match k {
                            0 => true,
                            1 => false,
                            2 => j < i,
                            _ => j > i,
                        })
                        .collect();
                    out.insert(Choice { keep, torn: Some((i, part.0, part.1)) });
                }
            }
        }
        out.extend(bases.into_iter().map(|keep| Choice { keep, torn: None }));
        out
    }
}

pub fn image_hash(i: &Image) -> [u8; 32] {
    let mut h = blake3::Hasher::new();
    for (p, d) in i {
        h.update(&(p.len() as u64).to_le_bytes());
        h.update(p.as_bytes());
        match d {
            None => {
                h.update(b"d");
            }
            Some(d) => {
                h.update(b"f");
                h.update(&(d.len() as u64).to_le_bytes());
                h.update(d);
            }
        }
    }
    *h.finalize().as_bytes()
}

pub fn write_image(i: &Image, root: &Path) {
    for (p, d) in i {
        let p = root.join(p);
        match d {
            None => {
                let _ = std::fs::create_dir(&p);
            }
            Some(d) => std::fs::write(&p, &d[..]).unwrap_or_else(|e| panic!("{:?}: {}", p, e)),
        }
    }
}
