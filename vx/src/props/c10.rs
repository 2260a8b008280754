//! Concurrent commands behave as if run one after another.
use std::collections::HashMap;

use std::sync::Mutex;
use vx::db::Dump;
use vx::run::{Out, Snap};
use vx::sched::{self, Act};
use vx::tree::*;
use vx::world::{clear, World};
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C10",
    level: "model_checking",
    rule: "for every listed group of 2 or 3 commands: all interleavings of the real processes with at most P preemptions at their scheduling points (opens, locks, writes, truncations, syncs, unlinks of repository and cache files), the choice of who runs when a process ends or waits for a lock being free (at most P+2 choices other than the default in all), plus one process killed before any one of its points; the final state and the outputs of the successful ones must be those of some serial order. States: distinct (schedule) executed; transitions: scheduling points passed. Non-trivial: distinct (commands, schedule).",
    assumptions: &["processes interact through files only and reads see the latest write (one machine)", "between scheduling points a process runs without interruption"],
    run,
};

#[derive(Clone)]
struct Cmd {
    name: &'static str,
    args: Vec<&'static str>,
}

struct Group {
    id: String,
    base: usize,
    cmds: Vec<Vec<String>>,
    preempt: usize,
    kill: bool,
    all_points: bool,
}

/// A starting point: how to lay out the files, and the database and cache to put back every time.
struct Base {
    name: &'static str,
    files: Node,
    db: Option<Vec<u8>>,
    first: String,
    warm: bool,
}

#[derive(Clone)]
struct Outcome {
    seq: Vec<usize>,
    dump: Dump,
    outs: HashMap<usize, Out>,
    fetched: String,
    status: String,
}

struct Place<'a> {
    w: World<'a>,
    cache: Option<Vec<u8>>,
}

impl<'a> Place<'a> {
    fn new(ctx: &'a Ctx, b: &Base) -> Result<Place<'a>, String> {
        let w = World::bare(ctx);
        b.files.write(&w.repo);
        let mut p = Place { w, cache: None };
        p.reset(b)?;
        if b.warm {
            p.w.snap.good(&["status"])?;
        } else {
            // the cache file exists, with nothing in it
            p.w.snap.run(&["debug", "get-head"]);
        }
        p.cache = std::fs::read(p.w.cache.join("snapcd/cache.db")).ok();
        p.reset(b)?;
        Ok(p)
    }
    fn reset(&mut self, b: &Base) -> Result<(), String> {
        let s = self.w.repo.join(".snapcd");
        let _ = std::fs::remove_dir_all(&s);
        if let Some(db) = &b.db {
            std::fs::create_dir(&s).unwrap();
            std::fs::write(s.join("snapcd.db"), db).unwrap();
        }
        for d in ["dst"] {
            let _ = std::fs::remove_dir_all(self.w.dir.join(d));
        }
        clear(&self.w.cache, &[]);
        if let Some(c) = &self.cache {
            std::fs::create_dir(self.w.cache.join("snapcd")).unwrap();
            std::fs::write(self.w.cache.join("snapcd/cache.db"), c).unwrap();
        }
        Ok(())
    }
    /// What can be seen afterwards.
    fn after(&self) -> Result<(Dump, String, String), String> {
        let fetched = ["dst"]
            .iter()
            .map(|d| {
                let p = self.w.dir.join(d);
                if p.is_dir() {
                    format!("{}: {:?}", d, Node::read(&p))
                } else {
                    String::new()
                }
            })
            .collect::<String>();
        if self.w.db().exists() {
            let c = vx::db::open(&self.w.db())?;
            let ok: String = c.query_row("PRAGMA integrity_check", rusqlite::params![], |r| r.get(0)).map_err(|e| format!("integrity check: {}", e))?;
            if ok != "ok" {
                return Err(format!("integrity check: {}", ok));
            }
        }
        let dump = self.w.dump()?;
        let o = self.w.snap.run(&["status"]);
        Ok((dump, fetched, format!("{} {}", o.status(), o.text())))
    }
}

fn cut(_p: usize, op: &str, last: Option<&str>) -> bool {
    let Some((what, path)) = op.split_once(' ') else { return true };
    let repo = path.contains("/.snapcd") || path.ends_with(".snapcd");
    let cache = path.starts_with("cache/");
    let dest = path.starts_with("dst");
    if !(repo || cache || dest) {
        return false;
    }
    if path.ends_with("-shm") && !what.ends_with("lock") {
        return false;
    }
    // further writes to the same file, nothing in between
    if what.ends_with("write") && last == Some(op) {
        return false;
    }
    if what == "close" && !path.ends_with("snapcd.db") {
        return false;
    }
    true
}

fn run(ctx: &Ctx) {
    let bases = match bases(ctx) {
        Ok(b) => b,
        Err(e) => {
            ctx.violate("setup", e, vec![]);
            return;
        }
    };
    let groups = groups(ctx, &bases);
    ctx.set_count("groups", groups.len() as u64);
    ctx.set_count("traces_validated_against_impl", 0);
    // serial outcomes
    let idx: Vec<usize> = (0..groups.len()).collect();
    let outcomes: Mutex<HashMap<usize, Vec<Outcome>>> = Mutex::new(HashMap::new());
    ctx.par(&idx, |&i| format!("serial {}", groups[i].id), |&i| {
        let g = &groups[i];
        let b = &bases[g.base];
        let mut place = Place::new(ctx, b)?;
        let n = g.cmds.len();
        let mut list = Vec::new();
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut k = 0;
        while k < seqs.len() {
            for i in 0..n {
                if !seqs[k].contains(&i) {
                    let mut s = seqs[k].clone();
                    s.push(i);
                    seqs.push(s);
                }
            }
            k += 1;
        }
        for seq in seqs {
            place.reset(b)?;
            let mut outs = HashMap::new();
            for &c in &seq {
                outs.insert(c, place.w.snap.with("VX_ROOT", &place.w.dir).run(&g.cmds[c]));
            }
            let (dump, fetched, status) = place.after()?;
            list.push(Outcome { seq, dump, outs, fetched, status });
        }
        outcomes.lock().unwrap().insert(i, list);
        Ok(())
    });
    let outcomes = outcomes.into_inner().unwrap();
    if ctx.nviolations() > 0 {
        return;
    }
    // schedules, breadth first by number of deviations
    let pools: Vec<Mutex<Vec<Place<'_>>>> = groups.iter().map(|_| Mutex::new(vec![])).collect();
    let mut wave: Vec<(usize, Vec<(usize, Act)>, usize)> = idx.iter().map(|&g| (g, vec![], 0)).collect();
    let mut level = 0;
    let only = ctx.only.clone();
    while !wave.is_empty() {
        ctx.set_count(&format!("schedules_wave_{}", level), wave.len() as u64);
        let next: Mutex<Vec<(usize, Vec<(usize, Act)>, usize)>> = Mutex::new(vec![]);
        ctx.par(&wave, |(g, d, _)| case(&groups[*g].id, d), |(gi, dev, cost)| {
            let g = &groups[*gi];
            let b = &bases[g.base];
            let taken = pools[*gi].lock().unwrap().pop();
            let mut place = match taken {
                Some(p) => p,
                None => Place::new(ctx, b)?,
            };
            place.reset(b)?;
            let snaps: Vec<(Snap<'_>, Vec<String>)> = g.cmds.iter().map(|c| (place.w.snap.clone(), c.clone())).collect();
            let r = sched::run(&snaps, &place.w.dir, dev, g.all_points, &cut);
            ctx.count("states", 1);
            ctx.count("transitions", r.steps.len() as u64);
            ctx.count("traces_validated_against_impl", 1);
            judge(g, &outcomes[gi], &place, &r).map_err(|e| format!("{} (started from: {})\n{}\nschedule:{}", g.id, b.name, e, r.show(dev)))?;
            if r.outs.iter().all(|o| o.ok()) {
                ctx.count("all_succeeded", 1);
            }
            pools[*gi].lock().unwrap().push(place);
            if ctx.distinct(case(&g.id, dev).as_bytes()) && dev.len() == 2 {
                ctx.sample(format!("{}:{}", g.id, r.show(dev)));
            }
            // what can be done differently after the last deviation
            let from = dev.last().map(|x| x.0 + 1).unwrap_or(0);
            if dev.len() >= g.preempt + 2 + usize::from(g.kill) {
                return Ok(());
            }
            let mut more = Vec::new();
            let killed = dev.iter().any(|x| x.1 == Act::Kill);
            for (i, s) in r.steps.iter().enumerate().skip(from) {
                for &o in &s.others {
                    let default = s.blocked && o == *s.others.iter().find(|&&x| x > s.proc).unwrap_or(&s.others[0]);
                    let c = cost + usize::from(!s.blocked && !s.fresh);
                    if !default && c <= g.preempt {
                        more.push((i, Act::Switch(o), c));
                    }
                }
                // once is enough: the first time it waits
                if s.blocked && cost + 1 <= g.preempt && !r.steps[from..i].iter().any(|x| x.blocked && x.proc == s.proc) {
                    more.push((i, Act::Spin, cost + 1));
                }
                if g.kill && !killed && !s.blocked {
                    more.push((i, Act::Kill, *cost));
                }
            }
            let mut next = next.lock().unwrap();
            for (i, a, c) in more {
                let mut d = dev.clone();
                d.push((i, a));
                next.push((*gi, d, c));
            }
            Ok(())
        });
        if ctx.nviolations() > 0 || ctx.over_time() {
            return;
        }
        level += 1;
        wave = next.into_inner().unwrap();
        if let Some(o) = &only {
            wave.retain(|(g, d, _)| o.starts_with(&case(&groups[*g].id, d)));
        }
        wave.sort_by_key(|x| x.2);
    }
}

fn case(g: &str, dev: &[(usize, Act)]) -> String {
    let mut s = g.to_string();
    for (i, a) in dev {
        s += &match a {
            Act::Switch(p) => format!(" @{}>{}", i, p),
            Act::Kill => format!(" @{}kill", i),
            Act::Spin => format!(" @{}spin", i),
        };
    }
    s
}

fn judge(g: &Group, outcomes: &[Outcome], place: &Place<'_>, r: &sched::Run) -> Result<(), String> {
    for (i, o) in r.outs.iter().enumerate() {
        if o.code.is_none() && !r.killed[i] {
            return Err(format!("p{} ended by a signal: {}", i, o.show()));
        }
    }
    let (dump, fetched, status) = place.after()?;
    let mut why = Vec::new();
    for c in outcomes {
        let mut bad = None;
        for (i, o) in r.outs.iter().enumerate() {
            if o.ok() {
                match c.outs.get(&i) {
                    Some(x) if x.ok() && x.stdout == o.stdout => {}
                    Some(x) => bad = Some(format!("p{} would print {:?} ({})", i, x.text(), x.status())),
                    None => bad = Some(format!("p{} succeeded", i)),
                }
            }
        }
        if bad.is_none() && c.dump != dump {
            bad = Some(format!("state would be {}", c.dump.brief()));
        }
        // a failed or killed fetch may leave part of its output
        let fetch_failed = g.cmds.iter().enumerate().any(|(i, a)| a[0] == "fetch" && !r.outs[i].ok());
        if bad.is_none() && c.fetched != fetched && !fetch_failed {
            bad = Some(format!("fetched would be {}", c.fetched));
        }
        // an init that was killed may leave a repository that is still empty, without a HEAD
        let init_failed = g.cmds.iter().enumerate().any(|(i, a)| a[0] == "init" && !r.outs[i].ok());
        if bad.is_none() && c.status != status && !fetch_failed && !(init_failed && !status.starts_with("exit 0")) {
            bad = Some(format!("status would be {:?}", c.status));
        }
        match bad {
            None => return Ok(()),
            Some(b) => why.push(format!("  order {:?}: {}", c.seq, b)),
        }
    }
    Err(format!(
        "no serial order explains this:\n{}\nstate: {}\nstatus afterwards: {:?} fetched: {}\n{}",
        r.outs.iter().enumerate().map(|(i, o)| format!("p{} {:?}: {}", i, g.cmds[i], o.show())).collect::<Vec<_>>().join("\n"),
        dump.brief(),
        status,
        fetched,
        why.join("\n")
    ))
}

fn bases(ctx: &Ctx) -> Result<Vec<Base>, String> {
    let mut v = Vec::new();
    let old = d(&[("a", f("1\n")), ("s", d(&[("b", f("2\n"))]))]);
    let new = d(&[("a", f("changed\n")), ("s", d(&[("b", f("2\n")), ("n", f("new\n"))])), ("t", f("3\n"))]);
    // long enough to need several pages
    let big = d(&[("a", f(super::common::pattern(200_000, 1))), ("s", d(&[("b", f("2\n")), ("n", f(super::common::pattern(60_000, 2)))]))]);
    for (name, files, warm) in [("a changed tree", new.clone(), false), ("a clean tree", old.clone(), true), ("no repository", new.clone(), false), ("no commits", new.clone(), false), ("a big tree", big, false), ("a changed tree, warm cache", new, true)] {
        let w = World::bare(ctx);
        let mut first = String::new();
        if name != "no repository" {
            w.snap.good(&["init"])?;
        }
        if name != "no repository" && name != "no commits" {
            w.set_tree(&d(&[("a", f("0\n"))]));
            first = w.commit("first")?;
            w.set_tree(&old);
            w.commit("second")?;
            w.snap.good(&["commit", "-m", "other", "other"])?;
        }
        let db = std::fs::read(w.db()).ok();
        v.push(Base { name, files, db, first, warm });
    }
    Ok(v)
}

fn groups(ctx: &Ctx, bases: &[Base]) -> Vec<Group> {
    let cmds: Vec<Cmd> = [
        ("commit", "commit -m one"),
        ("commit2", "commit -m two"),
        ("commit other", "commit -m three -p s other"),
        ("insert", "insert s"),
        ("status", "status"),
        ("compare", "compare -s"),
        ("log", "log"),
        ("show", "show"),
        ("update", "ref update FIRST"),
        ("update other", "ref update FIRST other"),
        ("push remote", "debug reflog-push FIRST master origin"),
        ("set head", "debug set-head other"),
        ("checkout-head", "checkout-head other"),
        ("fetch", "fetch /other ../dst"),
        ("fetch tree", "fetch TREE ../dst"),
        ("init", "init"),
        ("ref log", "ref log"),
        ("commit-tree", "debug commit-tree TREE FIRST"),
        ("log other", "log /other"),
    ]
    .iter()
    .map(|(n, a)| Cmd { name: n, args: a.split(' ').collect() })
    .collect();
    let find = |n: &str| cmds.iter().find(|c| c.name == n).unwrap_or_else(|| panic!("{}", n)).clone();
    // a tree that is stored in every base with commits
    let tree = {
        let w = World::new(ctx);
        d(&[("b", f("2\n"))]).write(&w.repo.join("s"));
        w.snap.insert("s").unwrap()
    };
    let mk = |names: &[&str], base: usize, preempt: usize, kill: bool, all_points: bool| -> Group {
        let b = &bases[base];
        Group {
            id: format!("{} [{}]{}{}", names.join(" || "), b.name, if kill { " kill" } else { "" }, if all_points { " all points" } else { "" }),
            base,
            cmds: names.iter().map(|n| find(n).args.iter().map(|a| if *a == "FIRST" { b.first.clone() } else if *a == "TREE" { tree.clone() } else { a.to_string() }).collect()).collect(),
            preempt,
            kill,
            all_points,
        }
    };
    let mut v = Vec::new();
    let quick1: &[(&[&str], usize)] = &[
        (&["commit", "commit2"], 0),
        (&["commit", "commit2"], 3),
        (&["commit", "commit2"], 4),
        (&["commit", "commit other"], 0),
        (&["commit", "status"], 0),
        (&["commit", "status"], 5),
        (&["commit", "log"], 0),
        (&["commit", "update"], 0),
        (&["commit", "set head"], 0),
        (&["commit", "insert"], 0),
        (&["commit", "fetch tree"], 0),
        (&["status", "status"], 0),
        (&["status", "compare"], 0),
        (&["insert", "insert"], 0),
        (&["update", "update other"], 0),
        (&["update", "ref log"], 0),
        (&["set head", "set head"], 1),
        (&["commit", "checkout-head"], 1),
        (&["checkout-head", "update"], 1),
        (&["push remote", "commit"], 0),
        (&["fetch tree", "fetch tree"], 1),
        (&["init", "init"], 2),
        (&["init", "init"], 3),
        (&["init", "commit"], 2),
        (&["init", "commit"], 3),
        (&["init", "set head"], 1),
        (&["commit-tree", "commit"], 0),
    ];
    if ctx.quick() {
        for (g, b) in quick1 {
            v.push(mk(g, *b, 1, false, false));
        }
        v.push(mk(&["commit", "commit2"], 3, 0, true, false));
        v.push(mk(&["commit", "status"], 0, 0, true, false));
        v.push(mk(&["update", "update"], 0, 2, false, false));
        v.push(mk(&["update", "update other", "set head"], 0, 1, false, false));
        return v;
    }
    for base in 0..bases.len() {
        for i in 0..cmds.len() {
            for j in 0..=i {
                v.push(mk(&[cmds[j].name, cmds[i].name], base, 1, false, false));
            }
        }
    }
    for (g, b) in quick1 {
        v.push(mk(g, *b, 2, false, false));
        v.push(mk(g, *b, 1, true, false));
        v.push(mk(g, *b, 1, false, true));
    }
    for g in [
        ["commit", "commit2", "status"],
        ["commit", "commit2", "update"],
        ["commit", "commit2", "log"],
        ["update", "update other", "set head"],
        ["commit", "set head", "commit2"],
        ["commit", "commit2", "commit other"],
        ["status", "status", "commit"],
        ["init", "init", "commit"],
    ] {
        v.push(mk(&g, 0, 1, true, false));
        v.push(mk(&g, 0, 2, false, false));
        v.push(mk(&g, 3, 1, false, false));
        v.push(mk(&g, 2, 1, false, false));
    }
    v
}

