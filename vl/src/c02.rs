//! The id of a content is a function of its bytes, the recorded one, and injective.
use crate::c01::{script_inputs, scripts};
use crate::inputs::*;
use std::collections::HashMap;
use std::sync::Mutex;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C02",
    level: "exploration",
    rule: "ids of all enumerated contents (see C01) against the ids recorded for this release and pairwise against each other; every reader script with up to 2 deviations and every constant read length; every content after each of a set of store histories, inside and outside transactions, and in a file-backed store; through the insert command under different read lengths. Non-trivial: distinct (content, delivery, history) whose id was compared.",
    assumptions: &["BLAKE3 has no collisions", "recorded ids are those of the release under test (fixtures/content-ids.txt)"],
    run,
};

fn id_of(i: &Input) -> Result<String, String> {
    let mut ds = mem();
    Ok(put(&mut ds, &i.data()[..])?.to_string())
}

fn run(ctx: &Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    let inputs = all(ctx);
    let recorded: HashMap<String, String> = std::fs::read_to_string(ctx.fixtures.join("content-ids.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.split_once('\t').map(|(k, i)| (i.to_string(), k.to_string())))
        .collect();
    // 1. recorded ids, and distinctness
    let ids: Mutex<HashMap<String, (String, u64, usize)>> = Default::default();
    ctx.par(
        &inputs,
        |i| format!("id {}", i.id),
        |i| {
            let d = i.data();
            let mut ds = mem();
            let k = put(&mut ds, &d[..])?.to_string();
            if let Some(want) = recorded.get(&i.id) {
                ctx.count("recorded_ids_compared", 1);
                if *want != k {
                    return Err(format!("recorded id {}, computed {}", want, k));
                }
            }
            ctx.distinct(format!("id {}", i.id).as_bytes());
            ids.lock().unwrap().insert(i.id.clone(), (k, vx::hash64(&d), d.len()));
            Ok(())
        },
    );
    let ids = ids.into_inner().unwrap();
    if std::env::var_os("VX_PART").is_some() {
        // writes the record (used by hand, when the fixtures are made)
        let mut l: Vec<String> = ids.iter().map(|(i, (k, _, _))| format!("{}\t{}", k, i)).collect();
        l.sort();
        std::fs::write(ctx.out.join("content-ids.txt"), l.join("\n") + "\n").unwrap();
        println!("{}", l.join("\n"));
    }
    let mut by_id: HashMap<&str, (&str, u64, usize)> = HashMap::new();
    let mut sorted: Vec<_> = ids.iter().collect();
    sorted.sort();
    let mut pairs = 0u64;
    for (name, (k, h, n)) in sorted {
        pairs += by_id.len() as u64;
        if let Some((other, oh, on)) = by_id.get(k.as_str()) {
            if (oh, on) != (h, n) {
                ctx.violate(&format!("pair {} / {}", other, name), format!("different contents have the same id {}", k), vec![]);
            }
        }
        by_id.insert(k, (name, *h, *n));
    }
    ctx.set_count("pairs_compared", pairs);

    // 2. delivery
    let mut cases = Vec::new();
    for i in script_inputs() {
        let want = match id_of(&i) {
            Ok(x) => x,
            Err(e) => {
                ctx.violate(&i.id, e, vec![]);
                return;
            }
        };
        let n = i.data().len() / BLOCK + 1;
        for (s, r) in scripts(n.min(ctx.pick(3, 6))) {
            cases.push((i.clone(), want.clone(), s, r));
        }
    }
    ctx.par(
        &cases,
        |c| format!("{} reads {:?} rest {:?}", c.0.id, c.2, c.3),
        |(i, want, s, r)| {
            let d = i.data();
            let mut ds = mem();
            let mut rd = Scripted::new(&d, s);
            rd.rest = *r;
            let k = put(&mut ds, rd)?.to_string();
            ctx.distinct(format!("{} {:?} {:?}", i.id, s, r).as_bytes());
            if &k != want {
                return Err(format!("id {} when delivered like this, {} when delivered at once", k, want));
            }
            if s.len() == 2 {
                ctx.sample(format!("{} delivered {:?} -> {}", i.id, s, k));
            }
            Ok(())
        },
    );

    // 3. history of the store
    let mut small: Vec<Input> = inputs.iter().filter(|i| i.data().len() <= 270_000).cloned().collect();
    let keep = ctx.pick(600, 4000);
    let step = (small.len() / keep).max(1);
    small = small.into_iter().step_by(step).collect();
    let jobs: Vec<(Input, &str)> = small.into_iter().flat_map(|i| ["same before", "others before", "inside a transaction", "after a rollback", "file store"].map(|h| (i.clone(), h))).collect();
    let others = [pattern(200_000, 1), pattern(70_000, 9), vec![], vec![0; 100_000], pattern(33_000, 1)];
    ctx.par(
        &jobs,
        |c| format!("{} stored {}", c.0.id, c.1),
        |(i, h)| {
            use snapcd::ds::Transactional;
            let want = id_of(i)?;
            let d = i.data();
            let mut ds = mem();
            let mut dir = None;
            match *h {
                "same before" => {
                    put(&mut ds, &d[..])?;
                }
                "others before" => {
                    for o in &others {
                        put(&mut ds, &o[..])?;
                    }
                    if !d.is_empty() {
                        put(&mut ds, &d[..d.len() / 2])?;
                    }
                }
                "inside a transaction" => ds.begin_trans().map_err(|e| e.to_string())?,
                "after a rollback" => {
                    ds.begin_trans().map_err(|e| e.to_string())?;
                    put(&mut ds, &d[..])?;
                    ds.rollback().map_err(|e| e.to_string())?;
                }
                _ => {
                    let p = ctx.fresh("db");
                    ds = snapcd::ds::sqlite::SqliteDS::new(p.join("x.db")).map_err(|e| e.to_string())?;
                    dir = Some(p);
                }
            }
            let k = put(&mut ds, &d[..])?.to_string();
            let back = get(&ds, snapcd::DataStore::canonicalize(&ds, k.parse().unwrap()).map_err(|e| e.to_string())?)?;
            drop(ds);
            if let Some(p) = dir {
                let _ = std::fs::remove_dir_all(p);
            }
            ctx.distinct(format!("{} {}", i.id, h).as_bytes());
            if k != want {
                return Err(format!("id {} with this history, {} in an empty store", k, want));
            }
            if back != d {
                return Err(format!("content differs after this history: {}", first_diff(&d, &back)));
            }
            Ok(())
        },
    );

    // 4. through the command line, with the environment deciding how much each read returns
    let mut cli = Vec::new();
    for i in script_inputs() {
        for pat in ["65536", "8192", "1,0,4095", "4096", "0,8191,0,3", "100", "32768,1"] {
            cli.push((i.clone(), pat));
        }
    }
    ctx.par(
        &cli,
        |c| format!("insert of {} with read lengths {}", c.0.id, c.1),
        |(i, pat)| {
            let w = vx::world::World::new(ctx);
            std::fs::write(w.repo.join("x"), i.data()).unwrap();
            let a = w.snap.insert("x")?;
            let b = w.snap.with("VX_ROOT", w.repo.join("x")).with("VX_READ", pat).insert("x")?;
            ctx.distinct(format!("cli {} {}", i.id, pat).as_bytes());
            if a != b {
                return Err(format!("id {} with read lengths {}, {} without", b, pat, a));
            }
            Ok(())
        },
    );
}
