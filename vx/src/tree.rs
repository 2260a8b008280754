//! Directory trees as values.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Node {
    F(Vec<u8>),
    D(BTreeMap<String, Node>),
}
use Node::*;

static TICK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub fn f(s: impl AsRef<[u8]>) -> Node {
    F(s.as_ref().to_vec())
}
pub fn d(items: &[(&str, Node)]) -> Node {
    D(items.iter().map(|(n, x)| (n.to_string(), x.clone())).collect())
}
pub fn empty() -> Node {
    D(BTreeMap::new())
}

fn show_bytes(b: &[u8]) -> String {
    if b.len() > 24 {
        format!("<{} bytes {:016x}>", b.len(), crate::hash64(b))
    } else {
        format!("{:?}", String::from_utf8_lossy(b))
    }
}

impl std::fmt::Debug for Node {
    fn fmt(&self, o: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            F(b) => write!(o, "{}", show_bytes(b)),
            D(m) => {
                write!(o, "{{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 8 && m.len() > 12 {
                        write!(o, " ..{} entries", m.len())?;
                        break;
                    }
                    if i > 0 {
                        write!(o, " ")?;
                    }
                    write!(o, "{:?}:{:?}", k, v)?;
                }
                write!(o, "}}")
            }
        }
    }
}

impl Node {
    /// Every file written gets a modification time that no other file ever had.
    pub fn write(&self, p: &Path) {
        match self {
            F(b) => {
                std::fs::write(p, b).unwrap_or_else(|e| panic!("write {:?}: {}", p, e));
                let t = TICK.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                crate::sys::set_mtime(p, 1_600_000_000 + (t / 1_000_000) as i64, 1000 * (t % 1_000_000) as i64);
            }
            D(m) => {
                std::fs::create_dir_all(p).unwrap_or_else(|e| panic!("mkdir {:?}: {}", p, e));
                for (k, v) in m {
                    v.write(&p.join(k));
                }
            }
        }
    }
    /// Reads a tree back; anything that is not a file or directory is an error.
    pub fn read(p: &Path) -> Result<Node, String> {
        Self::read_skip(p, &[])
    }
    /// As `read`, leaving out the named entries of the top directory.
    pub fn read_skip(p: &Path, skip: &[&str]) -> Result<Node, String> {
        let m = std::fs::symlink_metadata(p).map_err(|e| format!("{:?}: {}", p, e))?;
        if m.is_file() {
            return Ok(F(std::fs::read(p).map_err(|e| format!("{:?}: {}", p, e))?));
        }
        if m.is_dir() {
            let mut r = BTreeMap::new();
            for e in std::fs::read_dir(p).map_err(|e| format!("{:?}: {}", p, e))? {
                let e = e.map_err(|e| e.to_string())?;
                let n = e.file_name().into_string().map_err(|n| format!("odd name {:?}", n))?;
                if skip.contains(&n.as_str()) {
                    continue;
                }
                r.insert(n, Node::read(&e.path())?);
            }
            return Ok(D(r));
        }
        Err(format!("{:?} is neither a file nor a directory", p))
    }
    pub fn is_dir(&self) -> bool {
        matches!(self, D(_))
    }
    pub fn nodes(&self) -> usize {
        match self {
            F(_) => 1,
            D(m) => 1 + m.values().map(|x| x.nodes()).sum::<usize>(),
        }
    }
    /// All paths below the root, with the node there.
    pub fn paths(&self) -> BTreeMap<String, Node> {
        fn go(n: &Node, pre: &str, out: &mut BTreeMap<String, Node>) {
            if let D(m) = n {
                for (k, v) in m {
                    let p = if pre.is_empty() { k.clone() } else { format!("{}/{}", pre, k) };
                    out.insert(p.clone(), v.clone());
                    go(v, &p, out);
                }
            }
        }
        let mut o = BTreeMap::new();
        go(self, "", &mut o);
        o
    }
    pub fn get(&self, path: &str) -> Option<&Node> {
        let mut n = self;
        for c in path.split('/').filter(|x| !x.is_empty()) {
            match n {
                D(m) => n = m.get(c)?,
                F(_) => return None,
            }
        }
        Some(n)
    }
    /// Replaces or inserts the node at a path, creating directories on the way.
    pub fn put(&mut self, path: &str, node: Node) {
        let D(m) = self else { panic!("not a directory") };
        match path.split_once('/') {
            Some((h, t)) => m.entry(h.to_string()).or_insert_with(empty).put(t, node),
            None => {
                m.insert(path.to_string(), node);
            }
        }
    }
    pub fn remove(&mut self, path: &str) {
        let D(m) = self else { return };
        match path.split_once('/') {
            Some((h, t)) => {
                if let Some(x) = m.get_mut(h) {
                    x.remove(t)
                }
            }
            None => {
                m.remove(path);
            }
        }
    }
    /// Leaves out entries for which `keep` is false (called with the path from the root).
    pub fn filter(&self, keep: &dyn Fn(&str) -> bool) -> Node {
        fn go(n: &Node, pre: &str, keep: &dyn Fn(&str) -> bool) -> Node {
            match n {
                F(b) => F(b.clone()),
                D(m) => D(m
                    .iter()
                    .filter_map(|(k, v)| {
                        let p = if pre.is_empty() { k.clone() } else { format!("{}/{}", pre, k) };
                        keep(&p).then(|| (k.clone(), go(v, &p, keep)))
                    })
                    .collect()),
            }
        }
        go(self, "", keep)
    }
    pub fn bytes(&self) -> Vec<u8> {
        fn go(n: &Node, o: &mut Vec<u8>) {
            match n {
                F(b) => {
                    o.push(b'f');
                    o.extend((b.len() as u64).to_le_bytes());
                    o.extend(b);
                }
                D(m) => {
                    o.push(b'd');
                    o.extend((m.len() as u64).to_le_bytes());
                    for (k, v) in m {
                        o.extend((k.len() as u64).to_le_bytes());
                        o.extend(k.as_bytes());
                        go(v, o);
                    }
                }
            }
        }
        let mut o = Vec::new();
        go(self, &mut o);
        o
    }
    pub fn id(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 160 {
            let mut n = 120;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}..#{:016x}", &s[..n], crate::hash64(&self.bytes()))
        } else {
            s
        }
    }
}

/// Every directory with at most `nodes` entries below it in total and at most `depth` levels, with
/// names from `names` and file contents from `contents`.  Simplest first.
pub fn enumerate(names: &[&str], contents: &[&[u8]], depth: usize, nodes: usize) -> Vec<Node> {
    fn entry(names: &[&str], contents: &[&[u8]], depth: usize, nodes: usize) -> Vec<Node> {
        let mut r: Vec<Node> = Vec::new();
        if nodes == 0 {
            return r;
        }
        r.extend(contents.iter().map(|c| F(c.to_vec())));
        if depth > 0 {
            r.extend(dirs(names, names, contents, depth - 1, nodes - 1));
        }
        r
    }
    fn dirs(all: &[&str], rest: &[&str], contents: &[&[u8]], depth: usize, nodes: usize) -> Vec<Node> {
        let Some((n, rest)) = rest.split_first() else { return vec![empty()] };
        let mut r = Vec::new();
        // without the name
        r.extend(dirs(all, rest, contents, depth, nodes));
        if nodes > 0 {
            for e in entry(all, contents, depth, nodes) {
                let used = e.nodes();
                for x in dirs(all, rest, contents, depth, nodes - used) {
                    if let D(mut m) = x {
                        m.insert(n.to_string(), e.clone());
                        r.push(D(m));
                    }
                }
            }
        }
        r
    }
    let mut r = dirs(names, names, contents, depth - 1, nodes);
    r.sort_by(|a, b| (a.nodes(), a).cmp(&(b.nodes(), b)));
    r.dedup();
    r
}
