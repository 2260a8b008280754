//! Everything observable about the files below a directory, to tell whether anything was touched.
use std::collections::BTreeMap;
use std::os::unix::fs::MetadataExt;
use std::path::Path;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Entry {
    pub kind: char,
    pub data: Vec<u8>,
    pub ino: u64,
    pub mode: u32,
    pub mtime: (i64, i64),
    pub ctime: (i64, i64),
    pub size: u64,
}

impl Entry {
    fn of(p: &Path) -> Entry {
        let m = std::fs::symlink_metadata(p).unwrap();
        let ft = m.file_type();
        let (kind, data) = if ft.is_symlink() {
            use std::os::unix::ffi::OsStringExt;
            ('l', std::fs::read_link(p).unwrap().into_os_string().into_vec())
        } else if ft.is_dir() {
            ('d', vec![])
        } else if ft.is_file() {
            ('f', std::fs::read(p).unwrap_or_default())
        } else {
            ('o', vec![])
        };
        let d = kind == 'd';
        Entry {
            kind,
            data,
            ino: m.ino(),
            mode: m.mode(),
            mtime: if d { (0, 0) } else { (m.mtime(), m.mtime_nsec()) },
            ctime: if d { (0, 0) } else { (m.ctime(), m.ctime_nsec()) },
            size: if d { 0 } else { m.size() },
        }
    }
    fn show(&self) -> String {
        format!("{} {:?} inode {} mode {:o} mtime {:?}", self.kind, String::from_utf8_lossy(&self.data[..self.data.len().min(40)]), self.ino, self.mode, self.mtime)
    }
}

pub type Marks = BTreeMap<String, Entry>;

/// Marks of everything below `p` except the named entries of the top directory.
pub fn marks(p: &Path, skip: &[&str]) -> Marks {
    fn go(p: &Path, pre: &str, skip: &[&str], out: &mut Marks) {
        let mut es: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap()).collect();
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let n = e.file_name().to_string_lossy().into_owned();
            if skip.contains(&n.as_str()) {
                continue;
            }
            let rel = if pre.is_empty() { n } else { format!("{}/{}", pre, n) };
            let m = Entry::of(&e.path());
            let dir = m.kind == 'd';
            out.insert(rel.clone(), m);
            if dir && std::fs::read_dir(e.path()).is_ok() {
                go(&e.path(), &rel, &[], out);
            }
        }
    }
    let mut m = Marks::new();
    go(p, "", skip, &mut m);
    m
}

/// What was there has to be there unchanged; what is new has to satisfy `may`.
pub fn unchanged(before: &Marks, after: &Marks, may: &dyn Fn(&str) -> bool) -> Result<(), String> {
    for (p, b) in before {
        match after.get(p) {
            None => return Err(format!("{:?} is gone (was {})", p, b.show())),
            Some(a) if a != b => return Err(format!("{:?} changed from {} to {}", p, b.show(), a.show())),
            _ => {}
        }
    }
    for (p, a) in after {
        if !before.contains_key(p) && !may(p) {
            return Err(format!("{:?} was created: {}", p, a.show()));
        }
    }
    Ok(())
}
