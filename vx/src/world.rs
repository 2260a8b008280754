//! A repository in a scratch directory.
use crate::run::Snap;
use crate::tree::Node;
use crate::{db, Ctx};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

static TEMPLATE: OnceLock<Vec<u8>> = OnceLock::new();

pub struct World<'a> {
    pub ctx: &'a Ctx,
    pub dir: PathBuf,
    pub repo: PathBuf,
    pub cache: PathBuf,
    pub snap: Snap<'a>,
    keep: bool,
}

impl<'a> World<'a> {
    /// A scratch directory with an empty working tree directory and no repository.
    pub fn bare(ctx: &'a Ctx) -> World<'a> {
        let dir = ctx.fresh("c");
        let repo = dir.join("r");
        let cache = dir.join("cache");
        std::fs::create_dir(&repo).unwrap();
        std::fs::create_dir(&cache).unwrap();
        let snap = Snap::new(ctx, &repo, &cache);
        World { ctx, dir, repo, cache, snap, keep: std::env::var_os("VX_KEEP").is_some() }
    }
    /// A working tree with a freshly initialised repository (made once by the real `init`).
    pub fn new(ctx: &'a Ctx) -> World<'a> {
        let t = TEMPLATE.get_or_init(|| {
            let w = World::bare(ctx);
            w.snap.good(&["init"]).unwrap_or_else(|e| panic!("{}", e));
            let j = w.repo.join(".snapcd/snapcd.db-journal");
            assert!(!j.exists() || std::fs::metadata(&j).unwrap().len() == 0);
            std::fs::read(w.repo.join(".snapcd/snapcd.db")).unwrap()
        });
        let w = World::bare(ctx);
        std::fs::create_dir(w.repo.join(".snapcd")).unwrap();
        std::fs::write(w.repo.join(".snapcd/snapcd.db"), t).unwrap();
        w
    }
    pub fn db(&self) -> PathBuf {
        self.repo.join(".snapcd/snapcd.db")
    }
    pub fn dump(&self) -> Result<db::Dump, String> {
        db::dump(&self.db())
    }
    /// Makes the working tree equal to `t` (everything but the repository folder is replaced).
    pub fn set_tree(&self, t: &Node) {
        clear(&self.repo, &[".snapcd"]);
        t.write(&self.repo);
    }
    pub fn tree(&self) -> Result<Node, String> {
        Node::read_skip(&self.repo, &[".snapcd"])
    }
    pub fn commit(&self, msg: &str) -> Result<String, String> {
        self.snap.good(&["commit", "-m", msg])?;
        let d = self.dump()?;
        let h = d.head().ok_or("no HEAD")?;
        d.tip(&h).ok_or_else(|| "commit left no ref".into())
    }
    /// Fetches an id into a fresh place outside the working tree and reads it back.
    pub fn fetched(&self, id: &str) -> Result<Node, String> {
        let dst = self.ctx.fresh("f").join("out");
        let r = self.snap.good(&["fetch".as_ref(), id.as_ref(), dst.as_os_str()]).and_then(|_| Node::read(&dst));
        let _ = std::fs::remove_dir_all(dst.parent().unwrap());
        r
    }
}

impl Drop for World<'_> {
    fn drop(&mut self) {
        if !self.keep && self.dir.starts_with(&self.ctx.scratch) {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}

/// Removes everything in a scratch directory except the named entries.
pub fn clear(p: &Path, skip: &[&str]) {
    for e in std::fs::read_dir(p).unwrap() {
        let e = e.unwrap();
        if skip.iter().any(|s| e.file_name() == *s) {
            continue;
        }
        if e.file_type().unwrap().is_dir() {
            std::fs::remove_dir_all(e.path()).unwrap();
        } else {
            std::fs::remove_file(e.path()).unwrap();
        }
    }
}

pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        let ft = e.file_type().unwrap();
        if ft.is_dir() {
            copy_dir(&e.path(), &t);
        } else if ft.is_symlink() {
            std::os::unix::fs::symlink(std::fs::read_link(e.path()).unwrap(), &t).unwrap();
        } else {
            std::fs::copy(e.path(), &t).unwrap();
        }
    }
}
