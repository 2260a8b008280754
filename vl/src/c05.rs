//! The object store against a map.
use crate::inputs::guard;
use snapcd::commit::Commit;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::Transactional;
use snapcd::key::{Key, TypedKey};
use snapcd::object::ObjType;
use snapcd::{DataStore, Object, Reflog};
use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C05",
    level: "model_checking",
    rule: "every operation sequence up to a length over put, raw put (fresh, same and colliding keys), state put, ref push, begin, commit, rollback and reopen on a file-backed store, longer ones over a reduced alphabet, then breadth-first from every distinct model state (with what was put through the open handle and whether it rolled back, so that memory of the handle is explored) to a greater depth; after every operation all keys, key ranges, states and logs are read back through the store and, for what is committed, through a second connection, and compared with a map model. Plus all subsets of a key pool x all ranges, value sizes, object encodings and transactions larger than the page cache. Non-trivial: distinct operation sequences; states are distinct model states, transitions are model transitions executed on the real store.",
    assumptions: &["BLAKE3 has no collisions", "states equal in the model behave alike beyond the full-sequence depth"],
    run,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
enum Op {
    Put(usize),
    Raw(usize, usize),
    State(usize, usize),
    Push(usize),
    Begin,
    Commit,
    Rollback,
    Reopen,
}
use Op::*;

fn vals() -> Vec<Vec<u8>> {
    vec![b"".to_vec(), b"a".to_vec(), vec![0xff; 20_000]]
}
fn keys() -> Vec<Vec<u8>> {
    vec![b"k".to_vec(), b"k\0".to_vec(), Key::Blake3B(*blake3::hash(b"a").as_bytes()).as_db_key()]
}
fn states() -> Vec<Vec<u8>> {
    vec![b"HEAD".to_vec(), b"x".to_vec()]
}
const REFS: [(&str, Option<&str>); 2] = [("m", None), ("m", Some("r"))];

fn alphabet() -> Vec<Op> {
    vec![Put(1), Put(0), Begin, Commit, Rollback, Reopen, Raw(0, 1), Raw(0, 2), Raw(1, 1), Raw(2, 1), State(0, 1), State(0, 2), State(1, 0), Push(0), Push(1), Put(2)]
}

#[derive(Clone, PartialEq, Eq, Hash, Default, Debug, PartialOrd, Ord)]
struct Data {
    objects: BTreeMap<Vec<u8>, usize>,
    state: BTreeMap<Vec<u8>, usize>,
    refs: Vec<(usize, u8)>,
}
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug, PartialOrd, Ord)]
struct Model {
    cur: Data,
    saved: Option<Data>,
}

/// What an open store could remember of what was done with it, beyond what is stored.
#[derive(Clone, PartialEq, Eq, Hash, Default, Debug)]
struct Ghost {
    put: std::collections::BTreeSet<Op>,
    rolled_back: bool,
}
impl Ghost {
    fn step(&mut self, op: Op) {
        match op {
            Put(_) | Raw(..) | State(..) => {
                self.put.insert(op);
            }
            Rollback => self.rolled_back = true,
            Reopen => *self = Default::default(),
            _ => {}
        }
    }
}

fn hkey(v: &[u8]) -> Vec<u8> {
    let mut k = vec![1u8];
    k.extend_from_slice(blake3::hash(v).as_bytes());
    k
}
fn refkey(n: u8) -> Key {
    let mut b = [0u8; 32];
    b[31] = n;
    Key::Blake3B(b)
}

impl Model {
    /// Whether the operation has to succeed; applies it if so.
    fn step(&mut self, op: Op) -> bool {
        let vals = vals();
        match op {
            Put(v) => {
                self.cur.objects.entry(hkey(&vals[v])).or_insert(v);
            }
            Raw(k, v) => {
                self.cur.objects.entry(keys()[k].clone()).or_insert(v);
            }
            State(k, v) => {
                self.cur.state.insert(states()[k].clone(), v);
            }
            Push(r) => {
                let n = self.cur.refs.len() as u8;
                self.cur.refs.push((r, n));
            }
            Begin => {
                if self.saved.is_some() {
                    return false;
                }
                self.saved = Some(self.cur.clone());
            }
            Commit => {
                if self.saved.is_none() {
                    return false;
                }
                self.saved = None;
            }
            Rollback => match self.saved.take() {
                Some(s) => self.cur = s,
                None => return false,
            },
            Reopen => {
                if let Some(s) = self.saved.take() {
                    self.cur = s;
                }
            }
        }
        true
    }
}

fn apply(ds: &mut SqliteDS, n: u8, op: Op) -> Result<(), String> {
    let vals = vals();
    let e = |x: &dyn std::fmt::Display| x.to_string();
    match op {
        Put(v) => {
            let k = ds.put(vals[v].clone()).map_err(|x| e(&x))?;
            if k.as_db_key() != hkey(&vals[v]) {
                return Err(format!("WRONG put returned {}", k));
            }
            Ok(())
        }
        Raw(k, v) => ds.raw_put(&keys()[k], &vals[v]).map_err(|x| e(&x)),
        State(k, v) => ds.raw_put_state(&states()[k], &vals[v]).map_err(|x| e(&x)),
        Push(r) => ds.reflog_push(&Reflog { refname: REFS[r].0.into(), remote: REFS[r].1.map(|x| x.into()), key: refkey(n).into() }).map_err(|x| e(&x)),
        Begin => ds.begin_trans().map_err(|x| e(&x)),
        Commit => ds.commit().map_err(|x| e(&x)),
        Rollback => ds.rollback().map_err(|x| e(&x)),
        Reopen => unreachable!(),
    }
}

fn observe(ds: &SqliteDS, m: &Data) -> Result<(), String> {
    let vals = vals();
    let mut all = keys();
    all.extend(vals.iter().map(|v| hkey(v)));
    all.sort();
    all.dedup();
    for k in &all {
        let want = m.objects.get(k).map(|&v| &vals[v]);
        let ex = ds.raw_exists(k).map_err(|e| e.to_string())?;
        if ex != want.is_some() {
            return Err(format!("exists({:?}) says {}", k, ex));
        }
        match (ds.raw_get(k), want) {
            (Ok(g), Some(w)) if &*g == &w[..] => {}
            (Err(_), None) => {}
            (g, w) => return Err(format!("get({:?}) gives {:?} bytes, expected {:?}", k, g.ok().map(|x| x.len()), w.map(|x| x.len()))),
        }
        if k.len() == 33 {
            let key = Key::from_db_key(k).map_err(|e| e.to_string())?;
            if ds.get(key).ok().map(|x| x.into_owned()) != want.cloned() {
                return Err(format!("get({}) differs", key));
            }
        }
    }
    let mut got = ds.raw_between(b"", None).map_err(|e| e.to_string())?;
    got.sort();
    if got != m.objects.keys().cloned().collect::<Vec<_>>() {
        return Err(format!("the whole range lists {:?}, expected {:?}", got, m.objects.keys()));
    }
    for k in states() {
        let g = ds.raw_get_state(&k).map_err(|e| e.to_string())?;
        if g.as_ref() != m.state.get(&k).map(|&v| &vals[v]) {
            return Err(format!("state {:?} is {:?}", k, g.map(|x| x.len())));
        }
    }
    for (r, (name, remote)) in REFS.iter().enumerate() {
        let want: Vec<Key> = m.refs.iter().rev().filter(|x| x.0 == r).map(|x| refkey(x.1)).collect();
        let got: Vec<Key> = ds.reflog_walk(name, *remote).map_err(|e| e.to_string())?.into_iter().map(|x: TypedKey<Commit>| x.inner()).collect();
        if got != want {
            return Err(format!("log of {}/{} is {:?}, expected {:?}", remote.unwrap_or(""), name, got, want));
        }
        let tip = ds.reflog_get(name, *remote).ok().map(|x| x.inner());
        if tip != want.first().copied() {
            return Err(format!("value of {}/{} is {:?}", remote.unwrap_or(""), name, tip));
        }
    }
    Ok(())
}

fn outside(p: &Path, m: &Data) -> Result<(), String> {
    let vals = vals();
    let d = vx::db::dump(p)?;
    let want: BTreeMap<Vec<u8>, [u8; 32]> = m.objects.iter().map(|(k, &v)| (k.clone(), *blake3::hash(&vals[v]).as_bytes())).collect();
    if d.objects != want {
        return Err(format!("another connection sees {} objects, expected {} (or other contents)", d.objects.len(), want.len()));
    }
    let st: BTreeMap<Vec<u8>, Vec<u8>> = m.state.iter().map(|(k, &v)| (k.clone(), vals[v].clone())).collect();
    if d.state != st {
        return Err("another connection sees other state values".into());
    }
    if d.refs.len() != m.refs.len() {
        return Err(format!("another connection sees {} log entries, expected {}", d.refs.len(), m.refs.len()));
    }
    Ok(())
}

/// Runs a sequence on a new store, comparing after every operation from `from` on.
fn replay(ctx: &Ctx, ops: &[Op], from: usize) -> Result<(), String> {
    let dir = ctx.fresh("d");
    let r = guard("store", || {
        let p = dir.join("x.db");
        let mut ds = Some(SqliteDS::new(&p).map_err(|e| e.to_string())?);
        let mut m = Model::default();
        for (i, &op) in ops.iter().enumerate() {
            let n = m.cur.refs.len() as u8;
            let want = m.step(op);
            let got = if op == Reopen {
                ds = None;
                ds = Some(SqliteDS::new(&p).map_err(|e| format!("reopen: {}", e))?);
                Ok(())
            } else {
                apply(ds.as_mut().unwrap(), n, op)
            };
            if got.is_ok() != want {
                return Err(format!("operation {} ({:?}) of {:?}: {:?}, expected {}", i, op, ops, got, if want { "success" } else { "an error" }));
            }
            if i >= from {
                observe(ds.as_ref().unwrap(), &m.cur).map_err(|e| format!("after operation {} of {:?}: {}", i, ops, e))?;
                outside(&p, m.saved.as_ref().unwrap_or(&m.cur)).map_err(|e| format!("after operation {} of {:?}: {}", i, ops, e))?;
            }
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn run(ctx: &Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    let alpha = alphabet();
    // 1. all sequences
    let depth = ctx.pick(3, 4);
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    let mut level: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..depth {
        level = level.iter().flat_map(|s| alpha.iter().map(move |a| [s.clone(), vec![*a]].concat())).collect();
        seqs.extend(level.clone());
    }
    // only the longest need running: every prefix is checked on the way
    ctx.set_count("full_sequence_depth", depth as u64);
    let mut transitions = seqs.len() as u64;
    let mut traces = 0u64;
    let longest: Vec<Vec<Op>> = seqs.into_iter().filter(|s| s.len() == depth).collect();
    ctx.par(&longest, |s| format!("{:?}", s), |s| {
        ctx.distinct(format!("{:?}", s).as_bytes());
        replay(ctx, s, s.len() - 1)
    });
    traces += longest.len() as u64;
    // the shared prefixes, once
    let pre: Vec<Vec<Op>> = longest.iter().map(|s| s[..depth - 1].to_vec()).collect::<HashSet<_>>().into_iter().collect();
    ctx.par(&pre, |s| format!("{:?}", s), |s| replay(ctx, s, 0));
    if ctx.nviolations() > 0 {
        return;
    }
    // longer ones over fewer operations
    let few = [Put(1), Put(0), State(0, 1), State(0, 2), Push(0), Begin, Commit, Rollback, Reopen];
    let flen = ctx.pick(5, 6);
    let mut fseqs: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..flen {
        fseqs = fseqs.iter().flat_map(|s| few.iter().map(move |a| [s.clone(), vec![*a]].concat())).collect();
    }
    // Sequences in which only operations that fail differ are the same; so are those without a
    // transaction, which the shorter ones cover.
    fseqs.retain(|s| {
        let mut m = Model::default();
        s.iter().all(|&o| m.step(o)) && s[..flen - 1].contains(&Begin)
    });
    ctx.set_count("reduced_sequence_depth", flen as u64);
    ctx.par(&fseqs, |s| format!("{:?}", s), |s| {
        ctx.distinct(format!("{:?}", s).as_bytes());
        replay(ctx, s, s.len() - 1)
    });
    transitions += fseqs.len() as u64;
    traces += fseqs.len() as u64;
    if ctx.nviolations() > 0 {
        return;
    }
    // 2. breadth first over model states, with what the open handle has seen
    let max = ctx.pick(5, 7);
    let cap = ctx.pick(25_000usize, 400_000);
    let mut seen: HashSet<(Model, Ghost)> = HashSet::new();
    seen.insert(Default::default());
    let mut frontier: Vec<(Model, Ghost, Vec<Op>)> = vec![Default::default()];
    let mut done = 0;
    let reduced: Vec<Op> = alpha.iter().copied().filter(|o| !matches!(o, Raw(1, 1) | State(1, 0) | Put(2))).collect();
    for lev in 1..=max {
        let mut todo = Vec::new();
        let mut next = Vec::new();
        for (m, g, h) in &frontier {
            for &op in &reduced {
                let mut n = m.clone();
                let ok = n.step(op);
                let mut g = g.clone();
                g.step(op);
                let mut h2 = h.clone();
                h2.push(op);
                if lev > depth {
                    todo.push(h2.clone());
                }
                if ok && n.cur.refs.len() <= 3 && seen.insert((n.clone(), g.clone())) {
                    next.push((n, g, h2));
                }
            }
        }
        if todo.len() > cap {
            ctx.note(format!("breadth-first level {} ({} transitions) left out", lev, todo.len()));
            break;
        }
        transitions += todo.len() as u64;
        traces += todo.len() as u64;
        ctx.par(&todo, |s| format!("{:?}", s), |s| {
            if ctx.distinct(format!("{:?}", s).as_bytes()) && s.contains(&Begin) && s.len() > 4 {
                ctx.sample(format!("{:?}", s));
            }
            replay(ctx, s, s.len() - 1)
        });
        done = lev;
        frontier = next;
        if ctx.nviolations() > 0 {
            return;
        }
    }
    ctx.set_count("bfs_depth", done as u64);
    ctx.set_count("states", seen.len() as u64);
    ctx.set_count("transitions", transitions);
    ctx.set_count("traces_validated_against_impl", traces);

    // 3. ranges
    let pool: Vec<Vec<u8>> = vec![vec![], vec![1], vec![1, 0], vec![1, 0, 0], vec![1, 0xff], vec![1, 0xff, 0xff], vec![2]];
    let subsets: Vec<usize> = (0..1 << pool.len()).collect();
    ctx.par(
        &subsets,
        |s| format!("ranges over subset {:#b}", s),
        |&s| {
            guard("store", || {
                let ds = SqliteDS::new(":memory:").map_err(|e| e.to_string())?;
                let set: Vec<&Vec<u8>> = pool.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|x| x.1).collect();
                // put in an order that is not the key order
                for k in set.iter().rev() {
                    ds.raw_put(k, k).map_err(|e| e.to_string())?;
                }
                for a in &pool {
                    for b in pool.iter().map(Some).chain([None]) {
                        let mut got = ds.raw_between(a, b.map(|x| &x[..])).map_err(|e| e.to_string())?;
                        got.sort();
                        let mut want: Vec<Vec<u8>> = set.iter().filter(|k| **k >= a && b.is_none_or(|b| *k < &b)).map(|x| x.to_vec()).collect();
                        want.sort();
                        ctx.count("ranges", 1);
                        if got != want {
                            return Err(format!("stored {:?}: between {:?} and {:?} gives {:?}, expected {:?}", set, a, b, got, want));
                        }
                    }
                }
                ctx.distinct(format!("ranges {}", s).as_bytes());
                Ok(())
            })
        },
    );
    // 4. sizes, encodings, big transactions
    let mut misc: Vec<(String, usize)> = Vec::new();
    for n in [0usize, 1, 2, 100, 4000, 4096, 16_000, 16_383, 16_384, 16_385, 32_768, 65_536, 1 << 20, 5 << 20] {
        misc.push(("value".into(), n));
    }
    for n in [0usize, 1, 2, 3, 22, 23, 24, 25, 255, 256, 257, 511, 512, 513, 1000] {
        misc.push(("keys".into(), n));
    }
    for n in [0usize, 1, 23, 24, 255, 256, 65_535, 65_536, 1 << 20] {
        misc.push(("data".into(), n));
    }
    for n in [1usize, 300] {
        for how in ["commit", "rollback", "close"] {
            misc.push((format!("big transaction {}", how), n));
        }
    }
    ctx.par(&misc, |c| format!("{} {}", c.0, c.1), |(what, n)| {
        ctx.distinct(format!("{} {}", what, n).as_bytes());
        let dir = ctx.fresh("m");
        let r = guard("store", || special(&dir.join("x.db"), what, *n));
        let _ = std::fs::remove_dir_all(&dir);
        r
    });
}

fn special(p: &Path, what: &str, n: usize) -> Result<(), String> {
    let s = |e: &dyn std::fmt::Display| e.to_string();
    let mut ds = SqliteDS::new(p).map_err(|e| s(&e))?;
    match what {
        "value" => {
            let v = crate::inputs::pattern(n, 7);
            let k = ds.put(v.clone()).map_err(|e| s(&e))?;
            let other = ds.put(b"other".to_vec()).map_err(|e| s(&e))?;
            ds.put(v.clone()).map_err(|e| s(&e))?;
            drop(ds);
            let ds = SqliteDS::new(p).map_err(|e| s(&e))?;
            if &*ds.get(k).map_err(|e| s(&e))? != &v[..] || &*ds.get(other).map_err(|e| s(&e))? != b"other" || k.as_db_key() != hkey(&v) {
                return Err("value differs".into());
            }
        }
        "keys" | "data" => {
            for t in [ObjType::FileBlob, ObjType::FileBlobTree, ObjType::Commit, ObjType::FSItemDir, ObjType::FSItemFile] {
                let keys: Vec<Key> = (0..if what == "keys" { n } else { 2 }).map(|i| Key::Blake3B(*blake3::hash(&i.to_le_bytes()).as_bytes())).collect();
                let data = crate::inputs::pattern(if what == "data" { n } else { 5 }, 3);
                let k = ds.put_obj(&Object::new(&data, &keys, t)).map_err(|e| s(&e))?;
                let k2 = ds.put_obj(&Object::new_owned(data.clone(), keys.clone(), t)).map_err(|e| s(&e))?;
                let o = ds.get_obj(k).map_err(|e| s(&e))?;
                if o.data() != &data[..] || o.keys() != &keys[..] || format!("{:?}", o.objtype()) != format!("{:?}", t) || k != k2 {
                    return Err(format!("object of type {:?} differs after a round trip", t));
                }
            }
        }
        _ => {
            // larger than the page cache when n is large
            let small = ds.put(b"before".to_vec()).map_err(|e| s(&e))?;
            ds.begin_trans().map_err(|e| s(&e))?;
            let vs: Vec<Vec<u8>> = (0..n).map(|i| crate::inputs::pattern(200_000, 50 + i as u64)).collect();
            let mut ks = Vec::new();
            for v in &vs {
                ks.push(ds.put(v.clone()).map_err(|e| s(&e))?);
            }
            for (k, v) in ks.iter().zip(&vs) {
                if &*ds.get(*k).map_err(|e| s(&e))? != &v[..] {
                    return Err("not visible inside the transaction".into());
                }
            }
            let there = what.ends_with("commit");
            if there {
                ds.commit().map_err(|e| s(&e))?;
            } else if what.ends_with("rollback") {
                ds.rollback().map_err(|e| s(&e))?;
            }
            drop(ds);
            let ds = SqliteDS::new(p).map_err(|e| s(&e))?;
            let n = ds.raw_between(b"", None).map_err(|e| s(&e))?.len();
            if n != if there { vs.len() + 1 } else { 1 } {
                return Err(format!("{} objects afterwards", n));
            }
            if &*ds.get(small).map_err(|e| s(&e))? != b"before" {
                return Err("earlier object differs".into());
            }
            if there {
                for (k, v) in ks.iter().zip(&vs) {
                    if &*ds.get(*k).map_err(|e| s(&e))? != &v[..] {
                        return Err("differs after commit".into());
                    }
                }
            }
        }
    }
    Ok(())
}
