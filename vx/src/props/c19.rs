//! A damaged stored object is never returned as if it were intact.
use rusqlite::params;
use serde_cbor::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use vx::db::{base32, objects, open};
use vx::run::Snap;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C19",
    level: "fault_enumeration",
    rule: "every object of a repository (files, chunk trees, directories, commits) x every damage from the list (every bit or byte value of every byte, every truncation, every inserted, deleted and exchanged byte, extensions, every other object's bytes, exchanges of two objects, removal, other column types, re-encoded objects with one field changed) x every reading command: the command has to fail or give what it gave before the damage, and to fail if the object is part of what was asked for; and every byte of the database file changed. Non-trivial: distinct (repository, object, damage, command).",
    assumptions: &["BLAKE3 has no collisions among the enumerated damages", "damage of the refs and of HEAD is not damage of an object"],
    run,
};

type Objs = BTreeMap<Vec<u8>, Vec<u8>>;

fn field<'a>(v: &'a Value, name: &str) -> Option<&'a Value> {
    match v {
        Value::Map(m) => m.get(&Value::Text(name.into())),
        _ => None,
    }
}

/// Keys an object names.
fn refs(bytes: &[u8]) -> Vec<Vec<u8>> {
    let v: Value = serde_cbor::from_slice(bytes).unwrap();
    let Some(Value::Array(a)) = field(&v, "keys") else { return vec![] };
    a.iter()
        .map(|k| {
            let Some(Value::Array(b)) = field(k, "Blake3B") else { panic!("key") };
            let mut x = vec![1u8];
            x.extend(b.iter().map(|n| match n {
                Value::Integer(i) => *i as u8,
                _ => panic!("key byte"),
            }));
            x
        })
        .collect()
}

fn kind(bytes: &[u8]) -> String {
    let v: Value = serde_cbor::from_slice(bytes).unwrap();
    match field(&v, "objtype") {
        Some(Value::Text(t)) => t.clone(),
        _ => "?".into(),
    }
}

fn reach(o: &Objs, from: &[u8]) -> BTreeSet<Vec<u8>> {
    let mut r = BTreeSet::new();
    let mut todo = vec![from.to_vec()];
    while let Some(k) = todo.pop() {
        if r.insert(k.clone()) {
            todo.extend(refs(&o[&k]));
        }
    }
    r
}

fn uk(k: &[u8]) -> String {
    format!("b{}", base32(&k[1..]))
}

#[derive(Clone)]
enum Change {
    Set(Vec<u8>),
    Text(Vec<u8>),
    Null,
    Int,
    Gone,
    Swap(Vec<u8>),
}

struct Damage {
    name: String,
    change: Change,
}

fn set(name: String, v: Vec<u8>) -> Damage {
    Damage { name, change: Change::Set(v) }
}

/// Damages of whole objects and of their fields.
fn coarse(o: &Objs, k: &[u8]) -> Vec<Damage> {
    let v = &o[k];
    let n = v.len();
    let mut r = vec![
        Damage { name: "removed".into(), change: Change::Gone },
        Damage { name: "null".into(), change: Change::Null },
        Damage { name: "a number".into(), change: Change::Int },
        Damage { name: "a text".into(), change: Change::Text(v.clone()) },
        set("empty".into(), vec![]),
        set("zeros".into(), vec![0; n]),
        set("reversed".into(), v.iter().rev().copied().collect()),
        set("twice".into(), [&v[..], &v[..]].concat()),
        set("without the first byte".into(), v[1..].to_vec()),
        set("without the last byte".into(), v[..n - 1].to_vec()),
        set("first half".into(), v[..n / 2].to_vec()),
        set("a zero appended".into(), [&v[..], &[0]].concat()),
        set("a break appended".into(), [&v[..], &[0xff]].concat()),
        set("a zero in front".into(), [&[0], &v[..]].concat()),
        set("tagged".into(), [&[0xd9, 0xd9, 0xf7], &v[..]].concat()),
        set("a page of zeros at the end".into(), [&v[..n - n.min(100)], &vec![0; n.min(100)]].concat()),
    ];
    for (k2, v2) in o {
        if k2.as_slice() != k {
            if v2 != v {
                r.push(set(format!("the bytes of {}", &uk(k2)[..9]), v2.clone()));
            }
            if k2.as_slice() > k {
                r.push(Damage { name: format!("exchanged with {}", &uk(k2)[..9]), change: Change::Swap(k2.clone()) });
            }
        }
    }
    // one field of the object changed, everything well-formed
    let top: Value = serde_cbor::from_slice(v).unwrap();
    let Value::Map(m) = &top else { panic!("object") };
    let put = |f: &str, x: Value| {
        let mut m = m.clone();
        m.insert(Value::Text(f.into()), x);
        serde_cbor::to_vec(&Value::Map(m)).unwrap()
    };
    if let Some(Value::Bytes(d)) = field(&top, "data") {
        let mut alts = vec![vec![], [&d[..], b"x"].concat(), b"other".to_vec(), d.iter().rev().copied().collect::<Vec<u8>>()];
        if !d.is_empty() {
            alts.push(d[..d.len() - 1].to_vec());
            alts.push(d[1..].to_vec());
            let mut e = d.clone();
            e[d.len() / 2] ^= 1;
            alts.push(e);
        }
        if let Ok(Value::Map(inner)) = serde_cbor::from_slice::<Value>(d) {
            for (f, x) in &inner {
                let alt = |y: Value| {
                    let mut i = inner.clone();
                    i.insert(f.clone(), y);
                    serde_cbor::to_vec(&Value::Map(i)).unwrap()
                };
                match x {
                    Value::Integer(i) => {
                        alts.push(alt(Value::Integer(i + 1)));
                        alts.push(alt(Value::Integer(0)));
                    }
                    Value::Text(t) => {
                        alts.push(alt(Value::Text(format!("{}x", t))));
                        alts.push(alt(Value::Text("".into())));
                        alts.push(alt(Value::Text("File".into())));
                        alts.push(alt(Value::Text("Dir".into())));
                    }
                    Value::Array(a) => {
                        alts.push(alt(Value::Array(a.iter().rev().cloned().collect())));
                        alts.push(alt(Value::Array(a.iter().skip(1).cloned().collect())));
                        alts.push(alt(Value::Array(a.iter().cloned().chain([Value::Text("more".into())]).collect())));
                        for i in 0..a.len() {
                            let mut b = a.clone();
                            b[i] = Value::Text("renamed".into());
                            alts.push(alt(Value::Array(b)));
                        }
                    }
                    _ => {}
                }
            }
        }
        for (i, a) in alts.into_iter().enumerate() {
            if a != *d {
                r.push(set(format!("other data {}", i), put("data", Value::Bytes(a))));
            }
        }
    }
    if let Some(Value::Array(a)) = field(&top, "keys") {
        let mut alts = vec![vec![], a.iter().rev().cloned().collect::<Vec<_>>(), a.iter().cloned().chain(a.iter().cloned()).collect()];
        for i in 0..a.len() {
            let mut b = a.clone();
            b.remove(i);
            alts.push(b);
            for other in o.keys().chain([&vec![7u8; 33]]) {
                let mut b = a.clone();
                b[i] = Value::Map([(Value::Text("Blake3B".into()), Value::Array(other[1..].iter().map(|x| Value::Integer(*x as i128)).collect()))].into_iter().collect());
                alts.push(b);
            }
        }
        for (i, b) in alts.into_iter().enumerate() {
            if b != *a {
                r.push(set(format!("other keys {}", i), put("keys", Value::Array(b))));
            }
        }
    }
    for t in ["FileBlob", "FileBlobTree", "FSItemFile", "FSItemDir", "Commit", "Other"] {
        let b = put("objtype", Value::Text(t.into()));
        if b != *v {
            r.push(set(format!("type {}", t), b));
        }
    }
    r
}

/// Damages of single bytes, at every position or at some.
fn fine(v: &[u8], at: &dyn Fn(usize) -> bool, masks: &[u8], edits: bool) -> Vec<Damage> {
    let mut r = Vec::new();
    for i in 0..v.len() {
        if !at(i) {
            continue;
        }
        for m in masks {
            let mut b = v.to_vec();
            b[i] ^= m;
            r.push(set(format!("byte {} ^ {:#x}", i, m), b));
        }
        if !edits {
            continue;
        }
        r.push(set(format!("cut at {}", i), v[..i].to_vec()));
        let mut b = v.to_vec();
        b.remove(i);
        if b != v {
            r.push(set(format!("byte {} deleted", i), b));
        }
        let mut b = v.to_vec();
        b.insert(i, v[i]);
        r.push(set(format!("byte {} doubled", i), b));
        if i + 1 < v.len() && v[i] != v[i + 1] {
            let mut b = v.to_vec();
            b.swap(i, i + 1);
            r.push(set(format!("bytes {} and {} exchanged", i, i + 1), b));
        }
        let mut b = v.to_vec();
        for x in &mut b[i..] {
            *x = 0;
        }
        if b != v {
            r.push(set(format!("zeros from {}", i), b));
        }
    }
    r
}

#[derive(Clone, Debug)]
enum Cmd {
    Fetch(String),
    Checkout,
    Plain(Vec<String>),
}

impl Cmd {
    fn show(&self) -> String {
        match self {
            Cmd::Fetch(k) => format!("fetch {}", k),
            Cmd::Checkout => "checkout".into(),
            Cmd::Plain(v) => v.join(" "),
        }
    }
}

/// A repository made by the real program, kept as the bytes of its database.
struct Repo {
    name: &'static str,
    db: Vec<u8>,
    objs: Objs,
    commits: Vec<Vec<u8>>,
    trees: Vec<Vec<u8>>,
    work: Node,
}

fn make(ctx: &Ctx, name: &'static str, trees: &[Node], work: &Node) -> Result<Repo, String> {
    let w = World::new(ctx);
    let mut commits = Vec::new();
    for t in trees {
        w.set_tree(t);
        w.commit("message")?;
        let d = w.dump()?;
        commits.push(d.refs.last().unwrap().2.clone());
    }
    let objs = objects(&w.db())?;
    let tr = commits.iter().map(|c| refs(&objs[c])[0].clone()).collect();
    Ok(Repo { name, db: std::fs::read(w.db()).unwrap(), objs, commits, trees: tr, work: work.clone() })
}

impl Repo {
    fn commands(&self) -> Vec<Cmd> {
        let p = |x: &[&str]| Cmd::Plain(x.iter().map(|y| y.to_string()).collect());
        let mut v = Vec::new();
        for t in &self.trees {
            v.push(Cmd::Fetch(uk(t)));
        }
        for (k, o) in &self.objs {
            if kind(o).starts_with("FSItem") && !self.trees.contains(k) {
                v.push(Cmd::Fetch(uk(k)));
            }
            v.push(p(&["debug", "pretty-print", &uk(k)]));
        }
        for c in &self.commits {
            v.push(p(&["show", &uk(c)]));
            v.push(p(&["log", &uk(c)]));
        }
        for t in &self.trees {
            v.push(p(&["debug", "walk-tree", &uk(t)]));
            v.push(p(&["compare", &uk(t)]));
        }
        v.push(p(&["show"]));
        v.push(p(&["log"]));
        v.push(p(&["status"]));
        v.push(p(&["compare"]));
        v.push(p(&["compare", "-s"]));
        v.push(Cmd::Checkout);
        v
    }
    /// Objects without which a command cannot give its answer.
    fn needs(&self, c: &Cmd) -> BTreeSet<Vec<u8>> {
        let find = |t: &str| self.objs.keys().find(|k| uk(k) == t).unwrap().clone();
        match c {
            Cmd::Fetch(k) => reach(&self.objs, &find(k)),
            Cmd::Checkout => {
                let tip = self.commits.last().unwrap();
                let mut r = reach(&self.objs, self.trees.last().unwrap());
                r.insert(tip.clone());
                r
            }
            Cmd::Plain(v) => match v[0].as_str() {
                "debug" if v[1] == "pretty-print" => [find(&v[2])].into_iter().collect(),
                "debug" if v[1] == "walk-tree" => reach(&self.objs, &find(&v[2])).into_iter().filter(|k| kind(&self.objs[k]).starts_with("FSItem")).collect(),
                "show" | "log" if v.len() > 1 => [find(&v[1])].into_iter().collect(),
                _ => BTreeSet::new(),
            },
        }
    }
}

/// Where the commands run.
struct Stage<'a> {
    w: World<'a>,
    s: Snap<'a>,
    out: PathBuf,
    dirty: bool,
}

#[derive(PartialEq, Clone)]
struct Answer {
    ok: bool,
    text: Vec<String>,
    effect: Option<Node>,
    show: String,
}

fn damage(db: &Path, k: &[u8], v: &[u8], c: &Change) -> Result<(), String> {
    let con = open(db)?;
    con.execute_batch("PRAGMA synchronous=OFF").map_err(|e| e.to_string())?;
    let n = match c {
        Change::Set(b) => con.execute("UPDATE data SET value=? WHERE key=?", params![b, k]),
        Change::Text(b) => con.execute("UPDATE data SET value=CAST(? AS TEXT) WHERE key=?", params![b, k]),
        Change::Null => con.execute("UPDATE data SET value=NULL WHERE key=?", params![k]).or_else(|_| con.execute("DELETE FROM data WHERE key=?", params![k])),
        Change::Int => con.execute("UPDATE data SET value=17 WHERE key=?", params![k]),
        Change::Gone => con.execute("DELETE FROM data WHERE key=?", params![k]),
        Change::Swap(k2) => {
            let v2: Vec<u8> = con.query_row("SELECT value FROM data WHERE key=?", params![k2], |r| r.get(0)).map_err(|e| e.to_string())?;
            con.execute("UPDATE data SET value=? WHERE key=?", params![v, k2]).map_err(|e| e.to_string())?;
            con.execute("UPDATE data SET value=? WHERE key=?", params![v2, k])
        }
    }
    .map_err(|e| e.to_string())?;
    if n != 1 {
        return Err(format!("damage changed {} rows", n));
    }
    Ok(())
}

impl<'a> Stage<'a> {
    fn new(ctx: &'a Ctx, r: &Repo) -> Stage<'a> {
        let w = World::new(ctx);
        w.set_tree(&r.work);
        let out = w.dir.join("out");
        let s = w.snap.with("SNAPCD_VERIF_CHECKOUT_ROOT", &w.repo);
        Stage { w, s, out, dirty: false }
    }
    fn ask(&mut self, r: &Repo, db: &[u8], c: &Cmd) -> Answer {
        std::fs::write(self.w.db(), db).unwrap();
        let _ = std::fs::remove_file(self.w.repo.join(".snapcd/snapcd.db-journal"));
        if self.dirty {
            self.w.set_tree(&r.work);
            self.dirty = false;
        }
        let o = match c {
            Cmd::Fetch(k) => {
                if self.out.is_dir() {
                    std::fs::remove_dir_all(&self.out).unwrap();
                } else if self.out.exists() {
                    std::fs::remove_file(&self.out).unwrap();
                }
                self.s.run(&["fetch", k, self.out.to_str().unwrap()])
            }
            Cmd::Checkout => {
                self.dirty = true;
                self.s.run(&["checkout"])
            }
            Cmd::Plain(v) => {
                // a cache made with the damaged store must not matter either
                self.s.run(v)
            }
        };
        let effect = match c {
            Cmd::Fetch(_) if o.ok() => Node::read(&self.out).ok(),
            Cmd::Checkout if o.ok() => self.w.tree().ok(),
            _ => None,
        };
        // some listings come in any order
        let mut text: Vec<String> = o.text().lines().map(|x| x.to_string()).collect();
        if matches!(c, Cmd::Plain(v) if v[0] == "compare" || v[0] == "status" || v[0] == "show" || v[0] == "log" || v[1] == "walk-tree") {
            text.sort();
        }
        Answer { ok: o.ok(), text, effect, show: o.show() }
    }
}

fn baseline(ctx: &Ctx, r: &Repo, cmds: &[Cmd]) -> Result<Vec<Answer>, String> {
    let mut st = Stage::new(ctx, r);
    let v: Vec<Answer> = cmds.iter().map(|c| st.ask(r, &r.db, c)).collect();
    for (c, a) in cmds.iter().zip(&v) {
        if !a.ok {
            return Err(format!("{}: {} without any damage: {}", r.name, c.show(), a.show));
        }
    }
    Ok(v)
}

fn judge(r: &Repo, what: &str, c: &Cmd, base: &Answer, got: &Answer, needed: bool) -> Result<(), String> {
    let say = |x: String| Err(format!("repository {}, {}, {}: {}\nundamaged: {}\ngot: {}", r.name, what, c.show(), x, base.show, got.show));
    if got.ok && (got.text != base.text || got.effect != base.effect) {
        return say(format!("succeeds with something else{}", if got.effect != base.effect { format!(": {:?} instead of {:?}", got.effect, base.effect) } else { String::new() }));
    }
    if got.ok && needed {
        return say("succeeds although what it depends on is damaged".into());
    }
    Ok(())
}

fn run(ctx: &Ctx) {
    let small = [
        d(&[("a", f("hello\n")), ("s", d(&[("e", f("")), ("t", empty())]))]),
        d(&[("a", f("hello\nworld\n")), ("s", d(&[("e", f("")), ("u", f("hello\n"))]))]),
    ];
    let big_a = d(&[("b", f(text_lines(2800))), ("c", f("x\n"))]);
    let big_b = d(&[("b", f(text_lines(3000))), ("c", f("y\n")), ("d", d(&[("b", f(text_lines(2000).replace("line", "row")))]))]);
    let single = [f_dir("", ""), f_dir("x", "abc")];
    let repos: Vec<Result<Repo, String>> = vec![
        make(ctx, "small", &small, &d(&[("a", f("hello\n")), ("n", f("new\n"))])),
        make(ctx, "plain", &single, &single[1]),
        make(ctx, "big", &[big_a, big_b.clone()], &big_b),
    ];
    let mut ok = Vec::new();
    for r in repos {
        match r {
            Ok(r) => ok.push(r),
            Err(e) => ctx.violate("making a repository", e, vec![]),
        }
    }
    let mut all = Vec::new();
    for r in &ok {
        let cmds = r.commands();
        match baseline(ctx, r, &cmds) {
            Ok(b) => all.push((cmds, b)),
            Err(e) => ctx.violate("baseline", e, vec![]),
        }
    }
    if ctx.nviolations() > 0 {
        return;
    }
    // (repository, object, first damage, how many, fine or coarse)
    let mut jobs: Vec<(usize, Vec<u8>, bool, usize)> = Vec::new();
    for (i, r) in ok.iter().enumerate() {
        ctx.count("objects", r.objs.len() as u64);
        for k in r.objs.keys() {
            for part in 0..4 {
                jobs.push((i, k.clone(), false, part));
                jobs.push((i, k.clone(), true, part));
            }
        }
    }
    ctx.par(&jobs, |(i, k, fine, p)| format!("repository {} object {} ({}) {} part {}", ok[*i].name, uk(k), kind(&ok[*i].objs[k]), if *fine { "bytes" } else { "whole" }, p), |(i, k, is_fine, part)| {
        let r = &ok[*i];
        let (cmds, base) = &all[*i];
        let v = &r.objs[k];
        let n = v.len();
        let step = (n / ctx.pick(12, 400)).max(1);
        let whole = n <= ctx.pick(600, 3000);
        let masks: Vec<u8> = if whole { ctx.pick(vec![1, 0x80], (0..8).map(|b| 1 << b).chain([0xff]).collect()) } else { vec![0x20] };
        let damages = if *is_fine { fine(v, &|x| whole || x < 20 || x + 20 >= n || x % step == 0, &masks, true) } else { coarse(&r.objs, k) };
        let needs: Vec<bool> = cmds.iter().map(|c| r.needs(c).contains(k)).collect();
        let mut st = Stage::new(ctx, r);
        for (j, dm) in damages.iter().enumerate() {
            if j % 4 != *part {
                continue;
            }
            std::fs::write(st.w.db(), &r.db).unwrap();
            damage(&st.w.db(), k, v, &dm.change)?;
            let db = std::fs::read(st.w.db()).unwrap();
            let swap = match &dm.change {
                Change::Swap(k2) => Some(k2.clone()),
                _ => None,
            };
            let what = format!("object {} ({}) {}", uk(k), kind(v), dm.name);
            let mut first = None;
            for (x, c) in cmds.iter().enumerate() {
                let needed = needs[x] && !matches!(&dm.change, Change::Text(_)) || swap.as_ref().map(|k2| r.needs(c).contains(k2)).unwrap_or(false);
                // all commands for damages of the whole object; for those of bytes the first
                // command that needs it, and one of the others in turn
                if *is_fine {
                    let turn = (j / 4) % cmds.len() == x && (!ctx.quick() || j % 3 == 0);
                    if needed && first.is_none() {
                        first = Some(x);
                    } else if !turn {
                        continue;
                    }
                } else if ctx.quick() && !needed && (j + x) % 3 != 0 {
                    continue;
                }
                let got = st.ask(r, &db, c);
                judge(r, &what, c, &base[x], &got, needed)?;
                ctx.eval(1);
                ctx.count(if got.ok { "not_affected" } else { "detected" }, 1);
                if ctx.distinct(format!("{} {} {} {}", r.name, uk(k), dm.name, x).as_bytes()) && j % 50 == 3 && x == 0 {
                    ctx.sample(format!("{}: {}: {} -> {}", r.name, what, c.show(), got.show));
                }
            }
            ctx.count("damages", 1);
        }
        Ok(())
    });
    if ctx.nviolations() > 0 {
        return;
    }
    file_bytes(ctx, &ok[1], &all[1].0, &all[1].1, 1);
    if !ctx.quick() && ctx.nviolations() == 0 {
        file_bytes(ctx, &ok[0], &all[0].0, &all[0].1, 3);
    }
}

fn text_lines(n: usize) -> String {
    (0..n).map(|i| format!("line {} of a longer file {}\n", i, i * 7919 % 1000)).collect()
}

fn f_dir(a: &str, b: &str) -> Node {
    d(&[("a", f(a)), ("b", f(b))])
}

/// Every byte of the database file.
fn file_bytes(ctx: &Ctx, r: &Repo, cmds: &[Cmd], base: &[Answer], nm: usize) {
    let masks = [0xffu8, 0x01, 0x40];
    let n = r.db.len();
    // zeros far from anything else are unused space
    let used = |i: usize| !ctx.quick() || r.db[i.saturating_sub(2)..(i + 3).min(n)].iter().any(|b| *b != 0);
    let pos: Vec<usize> = (0..n).filter(|&i| used(i)).collect();
    ctx.count("file_bytes", pos.len() as u64);
    let chunks: Vec<&[usize]> = pos.chunks(64).collect();
    // reading by id does not depend on refs
    let reads: Vec<usize> = (0..cmds.len())
        .filter(|&x| match &cmds[x] {
            Cmd::Fetch(k) => r.trees.iter().any(|t| &uk(t) == k),
            Cmd::Plain(v) => !ctx.quick() && v.len() > 1 && (v[0] == "show" || v[0] == "log"),
            _ => false,
        })
        .collect();
    ctx.par(&chunks, |c| format!("database of {} bytes from {}", r.name, c[0]), |c| {
        let mut st = Stage::new(ctx, r);
        for &i in c.iter() {
            for m in &masks[..nm] {
                let mut db = r.db.clone();
                db[i] ^= m;
                for &x in &reads {
                    let got = st.ask(r, &db, &cmds[x]);
                    judge(r, &format!("byte {} of the database ^ {:#x}", i, m), &cmds[x], &base[x], &got, false)?;
                    ctx.eval(1);
                    ctx.count(if got.ok { "file_not_affected" } else { "file_detected" }, 1);
                }
                ctx.distinct(format!("{} file {} {}", r.name, i, m).as_bytes());
            }
        }
        Ok(())
    });
}

