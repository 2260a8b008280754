//! What storing content again, or content that grew, adds to the store.
use crate::inputs::*;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::object::ObjType;
use snapcd::DataStore;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C22",
    level: "exploration",
    rule: "all enumerated contents (see C01) stored twice, whole and under other reader scripts; every base length around buffer and chunk boundaries x appended length x content family (plain, repetitive, with cuts that fold at every level; also up to 330 MiB, thorough 4 GiB, of periodic content), comparing the file-content objects (FileBlob, FileBlobTree) before and after; files growing between any two commands that store or compare them; every ordered pair of commands that store the same file under different names. Non-trivial: distinct (content) or (base, appended) pairs measured.",
    assumptions: &["size of an object is the length of its encoding"],
    run,
};

const ALLOWANCE: u64 = 128 * 1024;

fn content_objects(ds: &SqliteDS) -> Result<BTreeMap<Vec<u8>, u64>, String> {
    let mut m = BTreeMap::new();
    for k in ds.raw_between(b"", None).map_err(|e| e.to_string())? {
        let n = ds.raw_get(&k).map_err(|e| e.to_string())?.len() as u64;
        let o = ds.get_obj(Key::from_db_key(&k).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        if matches!(o.objtype(), ObjType::FileBlob | ObjType::FileBlobTree) {
            m.insert(k, n);
        }
    }
    Ok(m)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Family {
    Pattern,
    Zeros,
    /// blocks with a cut that folds to this level
    Folding(u32),
}

fn data(f: Family, n: usize) -> Vec<u8> {
    match f {
        Family::Pattern => pattern(n, 11),
        Family::Zeros => vec![0; n],
        Family::Folding(z) => {
            let b = vec![Block { zeros: z, pos: 100 }; n / BLOCK + 1];
            let mut v = build(&b, 0);
            v.truncate(n);
            v
        }
    }
}

/// The same bytes again and again.
struct Periodic<'a> {
    period: &'a [u8],
    at: u64,
    end: u64,
}

impl std::io::Read for Periodic<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let from = (self.at % self.period.len() as u64) as usize;
        let n = buf.len().min(self.period.len() - from).min((self.end - self.at) as usize);
        buf[..n].copy_from_slice(&self.period[from..from + n]);
        self.at += n as u64;
        Ok(n)
    }
}

fn run(ctx: &Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    // 1. twice
    let mut inputs = all(ctx);
    if ctx.quick() {
        let mut n = 0;
        inputs.retain(|i| {
            n += 1;
            n % 2 == 0 || i.id.contains("blocks")
        });
    }
    ctx.set_count("contents_twice", inputs.len() as u64);
    ctx.par(
        &inputs,
        |i| format!("twice {}", i.id),
        |i| {
            let d = i.data();
            let mut ds = mem();
            put(&mut ds, &d[..])?;
            let keys = |ds: &SqliteDS| ds.raw_between(b"", None).map_err(|e| e.to_string()).map(|mut k| {
                k.sort();
                k
            });
            let before = keys(&ds)?;
            put(&mut ds, &d[..])?;
            let mut r = Scripted::new(&d, &[(0, Answer::Short(5)), (2, Answer::Interrupted)]);
            r.rest = Answer::Short(30_011);
            put(&mut ds, r)?;
            let after = keys(&ds)?;
            ctx.distinct(format!("twice {}", i.id).as_bytes());
            if before != after {
                return Err(format!("{} objects after the first store, {} after storing the same content again", before.len(), after.len()));
            }
            Ok(())
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    // 2. growth
    let mut bases: Vec<usize> = Vec::new();
    for m in 0..=ctx.pick(8, 20) {
        for d in [0i64, 1, 100, 16_000, 32_767, 32_768, -1, -100] {
            let n = m as i64 * 65_536 + d;
            if n >= 0 {
                bases.push(n as usize);
            }
        }
    }
    bases.extend([40_000, 300_000, 1_000_003, 2_097_152, 3_333_333]);
    if !ctx.quick() {
        bases.extend([16 << 20, (16 << 20) + 1, (33 << 20) + 77, (64 << 20) - 1]);
    }
    bases.sort_unstable();
    bases.dedup();
    let apps = [1usize, 2, 100, 5_000, 32_768, 65_536, 70_000, 200_000, 1_000_000];
    let fams = [Family::Pattern, Family::Zeros, Family::Folding(21), Family::Folding(28), Family::Folding(42)];
    let mut cases = Vec::new();
    for &f in &fams {
        for &b in &bases {
            for &a in &apps {
                if ctx.quick() && (a == 2 || a == 5_000 || a == 65_536) && b % 65_536 != 0 {
                    continue;
                }
                cases.push((f, b, a));
            }
        }
        // long lists of chunks
        for b in ctx.pick(vec![33_488_896, 33_554_433], vec![33_488_896, 33_554_431, 33_554_432, 33_554_433, 50_000_000, 67_108_864]) {
            for a in [1usize, 100_000] {
                cases.push((f, b, a));
            }
        }
    }
    ctx.set_count("growth_pairs", cases.len() as u64);
    let most = AtomicU64::new(0);
    ctx.par(
        &cases,
        |(f, b, a)| format!("{:?} {} then {} more", f, b, a),
        |&(f, b, a)| {
            let d = data(f, a + b);
            let mut ds = mem();
            put(&mut ds, &d[..b])?;
            let before = content_objects(&ds)?;
            put(&mut ds, &d[..])?;
            let after = content_objects(&ds)?;
            if before.keys().any(|k| !after.contains_key(k)) {
                return Err("objects disappeared".into());
            }
            let new: u64 = after.iter().filter(|(k, _)| !before.contains_key(*k)).map(|x| x.1).sum();
            let over = new.saturating_sub(a as u64);
            most.fetch_max(over, Ordering::Relaxed);
            if ctx.distinct(format!("{:?} {} {}", f, b, a).as_bytes()) && b > 1 << 20 {
                ctx.sample(format!("{:?}: {} bytes stored, {} appended: {} new object bytes", f, b, a, new));
            }
            if over > ALLOWANCE {
                return Err(format!("{} bytes appended to {} stored ones added {} bytes of content objects", a, b, new));
            }
            Ok(())
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    // files of which only one period is ever in memory
    let mut huge = Vec::new();
    for mb in ctx.pick(vec![130u64, 200, 330], vec![120, 130, 200, 256, 330, 520, 1030, 2050, 4100]) {
        for f in [Family::Pattern, Family::Zeros, Family::Folding(21), Family::Folding(28)] {
            for a in [1u64, 70_000] {
                huge.push((f, mb << 20, a));
            }
        }
    }
    ctx.set_count("huge_growth_pairs", huge.len() as u64);
    ctx.par(
        &huge,
        |(f, b, a)| format!("periodic {:?} {} then {} more", f, b, a),
        |&(f, b, a)| {
            let period = data(f, 1 << 20);
            let mut ds = mem();
            put(&mut ds, Periodic { period: &period, at: 0, end: b })?;
            let before = content_objects(&ds)?;
            put(&mut ds, Periodic { period: &period, at: 0, end: a + b })?;
            let after = content_objects(&ds)?;
            let new: u64 = after.iter().filter(|(k, _)| !before.contains_key(*k)).map(|x| x.1).sum();
            most.fetch_max(new.saturating_sub(a), Ordering::Relaxed);
            ctx.distinct(format!("periodic {:?} {} {}", f, b, a).as_bytes());
            if new > a + ALLOWANCE {
                return Err(format!("{} bytes appended to {} stored ones added {} bytes of content objects", a, b, new));
            }
            Ok(())
        },
    );
    ctx.set_count("largest_overhead_bytes", most.into_inner());
    if ctx.nviolations() > 0 {
        return;
    }
    grown_files(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    // 3. through the program
    let contents: Vec<(String, Vec<u8>)> = vec![
        ("empty".into(), vec![]),
        ("small".into(), b"hello\n".to_vec()),
        ("100000".into(), pattern(100_000, 3)),
        ("zeros".into(), vec![0; 140_000]),
        ("folding".into(), data(Family::Folding(28), 400_000)),
    ];
    let ops = ["insert x", "insert y", "insert d", "insert .", "commit", "commit other", "commit -p d", "status", "compare", "uncached status"];
    let mut jobs = Vec::new();
    for c in &contents {
        for a in ops {
            for b in ops {
                jobs.push((c.clone(), a, b));
            }
        }
    }
    ctx.par(
        &jobs,
        |(c, a, b)| format!("{}: {} then {}", c.0, a, b),
        |((name, c), a, b)| {
            let w = World::new(ctx);
            w.set_tree(&d(&[("q", f("q"))]));
            w.commit("first")?;
            let tree = w.snap.insert(".")?;
            w.set_tree(&d(&[("x", f(c)), ("y", f(c)), ("d", d(&[("z", f(c)), ("e", d(&[("x", f(c))]))]))]));
            let go = |op: &str| -> Result<(), String> {
                match op {
                    "commit" => w.snap.good(&["commit", "-m", "m"]),
                    "commit other" => w.snap.good(&["commit", "-m", "m", "other"]),
                    "commit -p d" => w.snap.good(&["commit", "-m", "m", "-p", "d", "third"]),
                    "status" => w.snap.good(&["status"]),
                    "uncached status" => {
                        let mut s = w.snap.clone();
                        s.cache = w.dir.join("cache2");
                        std::fs::create_dir_all(&s.cache).unwrap();
                        s.good(&["status"])
                    }
                    "compare" => w.snap.good(&["compare", &tree]),
                    o => w.snap.good(&["insert", o.strip_prefix("insert ").unwrap()]),
                }
                .map(|_| ())
            };
            let objs = || -> Result<Vec<Vec<u8>>, String> {
                let mut v = Vec::new();
                for (k, b) in vx::db::objects(&w.db())? {
                    let o: snapcd::Object = serde_cbor::from_slice(&b).map_err(|e| e.to_string())?;
                    if matches!(o.objtype(), ObjType::FileBlob | ObjType::FileBlobTree) {
                        v.push(k);
                    }
                }
                Ok(v)
            };
            let nothing = objs()?;
            go(a)?;
            let before = objs()?;
            go(b)?;
            let after = objs()?;
            ctx.distinct(format!("{} {} {}", name, a, b).as_bytes());
            // what the first command stored of the content is all there is to store; status and
            // compare need not store anything
            if before.len() > nothing.len() && after.len() > before.len() && !a.contains("status") && *a != "compare" {
                // "insert ." and commit cover files that other commands do not, but q is gone
                return Err(format!("{} content objects after {:?}, {} after {:?} (same file content)", before.len(), a, after.len(), b));
            }
            go(b)?;
            if objs()? != after {
                return Err(format!("{:?} a second time stored other content objects", b));
            }
            Ok(())
        },
    );
}

/// Files that grow, stored with insert, commit, status or compare.
fn grown_files(ctx: &Ctx) {
    let fams = [Family::Pattern, Family::Zeros, Family::Folding(28)];
    let sizes = ctx.pick(vec![0usize, 1, 5_000, 70_000, 150_000, 400_000, 1_100_000, 4_500_000], vec![0, 1, 100, 5_000, 40_000, 65_536, 70_000, 131_073, 150_000, 270_000, 400_000, 600_000, 1_100_000, 2_200_000, 4_500_000, 9_000_000, 17_000_000, 34_000_000]);
    let apps = [1usize, 3_000, 200_000];
    let ways = [vec!["insert", "f"], vec!["commit", "-m", "m"], vec!["status"], vec!["compare"], vec!["compare", "-s"], vec!["checkout-head", "x"]];
    let mut jobs = Vec::new();
    for &fam in &fams {
        for &b in &sizes {
            for &a in &apps {
                for (i, _) in ways.iter().enumerate() {
                    for (j, _) in ways.iter().enumerate() {
                        if (ctx.quick() || b > 5_000_000) && i != j && (a != 3_000 || i > 1 && j > 1) {
                            continue;
                        }
                        jobs.push((fam, b, a, i, j));
                    }
                }
            }
        }
    }
    ctx.set_count("grown_files", jobs.len() as u64);
    ctx.par(
        &jobs,
        |(f, b, a, i, j)| format!("{:?} file of {} bytes, {:?}, then {} more, {:?}", f, b, ways[*i], a, ways[*j]),
        |&(fam, b, a, i, j)| {
            let w = World::new(ctx);
            w.set_tree(&d(&[("f", f("first"))]));
            w.commit("first")?;
            let content = data(fam, a + b);
            let file = w.repo.join("f");
            let objs = || -> Result<BTreeMap<Vec<u8>, u64>, String> {
                let mut m = BTreeMap::new();
                for (k, v) in vx::db::objects(&w.db())? {
                    let o: snapcd::Object = serde_cbor::from_slice(&v).map_err(|e| e.to_string())?;
                    if matches!(o.objtype(), ObjType::FileBlob | ObjType::FileBlobTree) {
                        m.insert(k, v.len() as u64);
                    }
                }
                Ok(m)
            };
            std::fs::write(&file, &content[..b]).unwrap();
            w.snap.good(&ways[i])?;
            let before = objs()?;
            std::fs::write(&file, &content).unwrap();
            w.snap.good(&ways[j])?;
            let after = objs()?;
            let new: u64 = after.iter().filter(|(k, _)| !before.contains_key(*k)).map(|x| x.1).sum();
            ctx.distinct(format!("grown {:?} {} {} {} {}", fam, b, a, i, j).as_bytes());
            if new > a as u64 + ALLOWANCE {
                return Err(format!("{} bytes appended to {} stored ones added {} bytes of content objects", a, b, new));
            }
            Ok(())
        },
    );
}
