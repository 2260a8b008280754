//! Looking at a repository database from outside the program.
use rusqlite::{params, Connection, OpenFlags};
use std::collections::BTreeMap;
use std::path::Path;

/// Everything a repository holds: objects, ref log entries in order, state values.
#[derive(Clone, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Dump {
    pub objects: BTreeMap<Vec<u8>, [u8; 32]>,
    pub refs: Vec<(String, Option<String>, Vec<u8>)>,
    pub state: BTreeMap<Vec<u8>, Vec<u8>>,
}

impl Dump {
    pub fn head(&self) -> Option<String> {
        self.state.get(&b"HEAD"[..]).map(|x| String::from_utf8_lossy(x).into_owned())
    }
    pub fn log(&self, name: &str) -> Vec<String> {
        self.refs.iter().rev().filter(|x| x.0 == name && x.1.is_none()).map(|x| user_key(&x.2)).collect()
    }
    pub fn tip(&self, name: &str) -> Option<String> {
        self.log(name).first().cloned()
    }
    pub fn is_empty(&self) -> bool {
        self.objects.is_empty() && self.refs.is_empty() && self.state.is_empty()
    }
    pub fn brief(&self) -> String {
        format!(
            "{} objects, refs {:?}, state {:?}",
            self.objects.len(),
            self.refs.iter().map(|x| (x.0.clone(), x.1.clone(), user_key(&x.2)[..9].to_string())).collect::<Vec<_>>(),
            self.state.iter().map(|x| (String::from_utf8_lossy(x.0).into_owned(), String::from_utf8_lossy(x.1).into_owned())).collect::<Vec<_>>()
        )
    }
}

pub fn base32(x: &[u8]) -> String {
    const T: &[u8; 32] = b"abcdefghijklmnopqrstuvwxyz234567";
    let bits = x.len() * 8;
    let mut s = String::new();
    let mut i = 0;
    while i < bits {
        let mut v = 0;
        for j in i..i + 5 {
            v <<= 1;
            if j < bits {
                v |= (x[j / 8] >> (7 - j % 8)) & 1;
            }
        }
        s.push(T[v as usize] as char);
        i += 5;
    }
    s
}
/// Printed form of a stored key (hash id byte and hash bytes).
pub fn user_key(k: &[u8]) -> String {
    format!("b{}", base32(&k[1..]))
}

pub fn open(p: &Path) -> Result<Connection, String> {
    let c = Connection::open_with_flags(p, OpenFlags::SQLITE_OPEN_READ_WRITE).map_err(|e| format!("open {:?}: {}", p, e))?;
    c.busy_timeout(std::time::Duration::from_secs(10)).map_err(|e| e.to_string())?;
    Ok(c)
}

/// The contents of a repository database; a missing file or table is empty.
pub fn dump(p: &Path) -> Result<Dump, String> {
    if !p.exists() {
        return Ok(Dump::default());
    }
    let c = open(p)?;
    dump_conn(&c)
}

pub fn dump_conn(c: &Connection) -> Result<Dump, String> {
    let go = || -> rusqlite::Result<Dump> {
        let mut d = Dump::default();
        let mut tables = std::collections::BTreeSet::new();
        let mut s = c.prepare("SELECT name FROM sqlite_master WHERE type='table'")?;
        for r in s.query_map(params![], |r| r.get::<_, String>(0))? {
            tables.insert(r?);
        }
        if tables.contains("data") {
            let mut s = c.prepare("SELECT key, value FROM data")?;
            let mut q = s.query(params![])?;
            while let Some(r) = q.next()? {
                let k: Vec<u8> = r.get(0)?;
                let v: Vec<u8> = r.get(1)?;
                d.objects.insert(k, *blake3::hash(&v).as_bytes());
            }
        }
        if tables.contains("reflog") {
            let mut s = c.prepare("SELECT refname, remote, key FROM reflog ORDER BY id")?;
            let mut q = s.query(params![])?;
            while let Some(r) = q.next()? {
                d.refs.push((r.get(0)?, r.get(1)?, r.get(2)?));
            }
        }
        if tables.contains("state") {
            let mut s = c.prepare("SELECT key, value FROM state")?;
            let mut q = s.query(params![])?;
            while let Some(r) = q.next()? {
                d.state.insert(r.get(0)?, r.get(1)?);
            }
        }
        Ok(d)
    };
    go().map_err(|e| format!("reading database: {}", e))
}

/// Every object's key and bytes.
pub fn objects(p: &Path) -> Result<BTreeMap<Vec<u8>, Vec<u8>>, String> {
    let c = open(p)?;
    let go = || -> rusqlite::Result<BTreeMap<Vec<u8>, Vec<u8>>> {
        let mut m = BTreeMap::new();
        let mut s = c.prepare("SELECT key, value FROM data")?;
        let mut q = s.query(params![])?;
        while let Some(r) = q.next()? {
            m.insert(r.get(0)?, r.get(1)?);
        }
        Ok(m)
    };
    go().map_err(|e| e.to_string())
}
