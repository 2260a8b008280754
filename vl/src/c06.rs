//! Text forms of object ids.
use crate::inputs::guard;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::CanonicalizeError;
use snapcd::key::Key;
use snapcd::{DataStore, Keyish};
use std::collections::BTreeSet;
use std::str::FromStr;
use vx::world::World;
use vx::{Check, Ctx};

pub const CHECK: Check = Check {
    id: "C06",
    level: "exploration",
    rule: "every set of at most N stored ids from a pool of extreme and bit-adjacent ids x every text: all prefixes of all pool ids, each in both letter cases, each with its last letter replaced by its neighbours, extended, or made non-alphabetic, all texts of up to 2 letters, and over-long and malformed texts; resolved by the library and compared with string prefixes of the printed ids. Stores of many ids: every prefix of up to two letters and of sampled ids, compared with all ids that share it. Through the program: all prefixes of all ids of a repository in several commands. Non-trivial: distinct (set, text) pairs resolved.",
    assumptions: &["ids outside the pool behave like those in it"],
    run,
};

fn pool() -> Vec<[u8; 32]> {
    let z = [0u8; 32];
    let o = [0xffu8; 32];
    let a = *blake3::hash(b"pool").as_bytes();
    let bit = |mut k: [u8; 32], n: usize| {
        k[n / 8] ^= 0x80 >> (n % 8);
        k
    };
    let mut ff0 = z;
    ff0[0] = 0xff;
    let mut carry = a;
    for b in carry.iter_mut().skip(2) {
        *b = 0xff;
    }
    let mut carry2 = a;
    carry2[2..].fill(0);
    carry2[1] = carry2[1].wrapping_add(1);
    vec![z, o, a, bit(a, 255), bit(a, 254), bit(a, 250), bit(a, 8), bit(a, 4), bit(z, 255), bit(z, 0), bit(o, 255), bit(o, 0), ff0, carry, carry2, bit(a, 128), bit(a, 5), bit(o, 4), bit(z, 251)]
}

const ALPHA: &str = "abcdefghijklmnopqrstuvwxyz234567";

fn printed(k: &[u8; 32]) -> String {
    format!("b{}", vx::db::base32(k))
}

fn texts(pool: &[[u8; 32]], quick: bool) -> Vec<String> {
    let mut t: BTreeSet<String> = BTreeSet::new();
    let al: Vec<char> = ALPHA.chars().collect();
    for k in pool {
        let p = printed(k);
        for n in 0..=p.len() {
            let s = &p[..n];
            t.insert(s.into());
            if n < 2 {
                continue;
            }
            t.insert(format!("b{}", s[1..].to_uppercase()));
            let last = s.chars().last().unwrap();
            let i = al.iter().position(|x| *x == last).unwrap();
            for j in [i + 1, i + 31, i ^ 16, i ^ 4] {
                t.insert(format!("{}{}", &s[..n - 1], al[j % 32]));
            }
            if n % 7 == 0 || n > 50 || !quick {
                for c in ["0", "1", "8", "9", "=", " ", "-", "\u{e9}", "\n", "\0", "@", "[", "`", "{", "_", ".", "Z"] {
                    t.insert(format!("{}{}", s, c));
                    t.insert(format!("b{}{}", c, &s[1..]));
                }
                t.insert(format!("{}{}", s, s));
                t.insert(s[1..].to_string());
                t.insert(format!(" {}", s));
                for c in ["B", "a", "c", "", "bb", "0", "\u{e9}"] {
                    t.insert(format!("{}{}", c, &s[1..]));
                }
            }
        }
        for extra in ["a", "aa", "7", "aaaaaaaaaaaa", "b", "A", "x"] {
            t.insert(format!("{}{}", p, extra));
            t.insert(format!("{}{}", p.to_uppercase().replacen('B', "b", 1), extra));
        }
        // other letters in the last place: the unused bits
        for c in &al {
            t.insert(format!("{}{}", &p[..52], c));
            t.insert(format!("{}{}", &p[..52], c.to_ascii_uppercase()));
        }
        // mixed case
        t.insert(p.char_indices().map(|(i, c)| if i > 0 && i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect());
    }
    for a in &al {
        t.insert(format!("b{}", a));
        for b in &al {
            t.insert(format!("b{}{}", a, b));
        }
    }
    for s in ["", "b", "B", "a", "z", " ", "b ", "bb", "\u{1F600}", "b\u{1F600}", "-", "b-", "bé", "é", "\u{130}", "b\u{212a}", "null"] {
        t.insert(s.into());
    }
    t.into_iter().filter(|x| !x.contains('/')).collect()
}

#[derive(Debug, PartialEq, Eq, Clone)]
enum Ans {
    One(String),
    Missing,
    Many(Vec<String>),
    Invalid,
    Other(String),
}

fn want(set: &[String], text: &str) -> Ans {
    let Some(rest) = text.strip_prefix('b') else { return Ans::Invalid };
    let low = format!("b{}", rest.to_ascii_lowercase());
    if !low[1..].chars().all(|c| ALPHA.contains(c)) || low.len() > 53 {
        return Ans::Invalid;
    }
    let m: Vec<String> = set.iter().filter(|x| x.starts_with(&low)).cloned().collect();
    match m.len() {
        0 => Ans::Missing,
        1 => Ans::One(m[0].clone()),
        _ => Ans::Many(m),
    }
}

fn resolve(ds: &SqliteDS, text: &str) -> Ans {
    let r = guard("resolving", || {
        let k = match Keyish::from_str(text) {
            Ok(k) => k,
            Err(_) => return Ok(Ans::Invalid),
        };
        Ok(match ds.canonicalize(k) {
            Ok(k) => Ans::One(k.to_string()),
            Err(CanonicalizeError::NotFound(_)) => Ans::Missing,
            Err(CanonicalizeError::InvalidHex(_)) => Ans::Invalid,
            Err(CanonicalizeError::Ambigious(_, mut v)) => {
                v.sort();
                Ans::Many(v.iter().map(|x| x.to_string()).collect())
            }
            Err(e) => Ans::Other(e.to_string()),
        })
    });
    r.unwrap_or_else(Ans::Other)
}

fn run(ctx: &Ctx) {
    std::panic::set_hook(Box::new(|_| {}));
    let pool = pool();
    let texts = texts(&pool, ctx.quick());
    ctx.set_count("texts", texts.len() as u64);
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let n = pool.len();
    for a in 0..n {
        sets.push(vec![a]);
    }
    for a in 0..n {
        for b in a + 1..n {
            sets.push(vec![a, b]);
        }
    }
    let most = ctx.pick(9, n);
    for a in 0..most {
        for b in a + 1..most {
            for c in b + 1..most {
                sets.push(vec![a, b, c]);
            }
        }
    }
    sets.push((0..n).collect());
    ctx.set_count("sets", sets.len() as u64);
    ctx.par(
        &sets,
        |s| format!("stored {:?}", s),
        |s| {
            let ds = SqliteDS::new(":memory:").map_err(|e| e.to_string())?;
            let mut ids = Vec::new();
            for &i in s {
                let k = Key::Blake3B(pool[i]);
                if k.to_string() != printed(&pool[i]) {
                    return Err(format!("{:?} is printed as {}, expected {}", pool[i], k, printed(&pool[i])));
                }
                ids.push((pool[i], k.to_string()));
                ds.raw_put(&k.as_db_key(), b"x").map_err(|e| e.to_string())?;
            }
            ids.sort();
            let ids: Vec<String> = ids.into_iter().map(|x| x.1).collect();
            for (i, t) in texts.iter().enumerate() {
                let w = want(&ids, t);
                if w == Ans::Invalid && s.len() > 1 && ctx.quick() {
                    continue; // malformed whatever is stored: done with the smaller sets
                }
                let g = resolve(&ds, t);
                ctx.eval(1);
                // what matches nothing may be called missing or invalid
                let same = g == w || matches!((&w, &g), (Ans::Missing, Ans::Invalid) | (Ans::Invalid, Ans::Missing));
                if !same {
                    return Err(format!("stored ids {:?}\ntext {:?}: resolved to {:?}, expected {:?}", ids, t, g, w));
                }
                if s.len() == 2 && matches!(w, Ans::Many(_)) && i % 9 == 0 {
                    ctx.sample(format!("ids {:?} text {:?} -> {:?}", ids, t, g));
                }
            }
            ctx.count("resolutions", texts.len() as u64);
            ctx.distinct(format!("{:?}", s).as_bytes());
            Ok(())
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    crowds(ctx);
    if ctx.nviolations() > 0 {
        return;
    }
    cli(ctx);
}

/// Stores with many objects: every prefix that many of them share.
fn crowds(ctx: &Ctx) {
    let mut jobs = Vec::new();
    for n in ctx.pick(vec![10usize, 100, 300, 1100, 2100], vec![10, 30, 100, 129, 257, 300, 1023, 1100, 6000, 70_000]) {
        for how in ["even", "shared start"] {
            jobs.push((n, how));
        }
    }
    ctx.par(
        &jobs,
        |(n, how)| format!("{} stored ids, {}", n, how),
        |&(n, how)| {
            let mut ds = SqliteDS::new(":memory:").map_err(|e| e.to_string())?;
            use snapcd::ds::Transactional;
            ds.begin_trans().map_err(|e| e.to_string())?;
            let mut ids = BTreeSet::new();
            for i in 0..n {
                let mut k = *blake3::hash(&(i as u64).to_le_bytes()).as_bytes();
                if how == "shared start" {
                    k[..6].copy_from_slice(b"\x5a\xff\x00\xff\x81\x7e");
                }
                ids.insert(k);
                ds.raw_put(&Key::Blake3B(k).as_db_key(), b"x").map_err(|e| e.to_string())?;
            }
            ds.commit().map_err(|e| e.to_string())?;
            let ids: Vec<String> = ids.iter().map(printed).collect();
            // every prefix of some ids, and every one of up to two letters
            let mut texts: BTreeSet<String> = BTreeSet::new();
            for i in [0, 1, n / 2, n - 1] {
                for l in 1..=ids[i].len() {
                    texts.insert(ids[i][..l].into());
                }
            }
            for a in ALPHA.chars() {
                texts.insert(format!("b{}", a));
                if n <= 1100 || !ctx.quick() {
                    texts.extend(ALPHA.chars().map(|b| format!("b{}{}", a, b)));
                }
            }
            for t in &texts {
                let w = want(&ids, t);
                let g = resolve(&ds, t);
                ctx.eval(1);
                if g != w && !matches!((&w, &g), (Ans::Missing, Ans::Invalid)) {
                    let len = |a: &Ans| match a {
                        Ans::Many(v) => format!("{} ids", v.len()),
                        x => format!("{:?}", x),
                    };
                    return Err(format!("text {:?}: resolved to {}, expected {}", t, len(&g), len(&w)));
                }
            }
            ctx.count("crowd_resolutions", texts.len() as u64);
            ctx.distinct(format!("crowd {} {}", n, how).as_bytes());
            Ok(())
        },
    );
}

/// Every prefix of every id of one repository through the program.
fn cli(ctx: &Ctx) {
    let w = World::new(ctx);
    use vx::tree::*;
    let t = d(&(0..ctx.pick(14, 40)).map(|i| (["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9"][i % 10], f(format!("{}\n", i)))).collect::<Vec<_>>());
    for i in 0..ctx.pick(14, 60) {
        w.set_tree(&t);
        std::fs::write(w.repo.join("n"), format!("{}\n", i)).unwrap();
        if let Err(e) = w.commit("m") {
            ctx.violate("repository", e, vec![]);
            return;
        }
    }
    let objs = match vx::db::objects(&w.db()) {
        Ok(o) => o,
        Err(e) => return ctx.violate("repository", e, vec![]),
    };
    let ids: Vec<String> = objs.keys().map(|k| vx::db::user_key(k)).collect();
    let mut cases = Vec::new();
    for id in &ids {
        for n in (0..=9).chain([25, 50, 51, 52, 53]) {
            for up in [false, true] {
                for cmd in ["pretty-print", "fetch", "show"] {
                    if cmd != "pretty-print" && !matches!(n, 2 | 5 | 52 | 53) {
                        continue;
                    }
                    let s = if up && n > 0 { format!("b{}", id[1..n].to_uppercase()) } else { id[..n].to_string() };
                    cases.push((cmd, s));
                }
            }
        }
        for extra in ["a", "7", "0", "="] {
            cases.push(("pretty-print", format!("{}{}", id, extra)));
        }
    }
    cases.sort();
    cases.dedup();
    ctx.set_count("program_texts", cases.len() as u64);
    let full: std::collections::HashMap<&str, std::sync::OnceLock<Vec<u8>>> = ids.iter().map(|x| (x.as_str(), Default::default())).collect();
    ctx.par(
        &cases,
        |(c, t)| format!("{} {:?}", c, t),
        |(c, t)| {
            let want = want(&ids, t);
            let out;
            match *c {
                "pretty-print" => out = w.snap.run(&["debug", "pretty-print", t]),
                "show" => out = w.snap.run(&["show", t]),
                _ => {
                    let dst = ctx.fresh("f").join("x");
                    out = w.snap.run(&["fetch", t, dst.to_str().unwrap()]);
                    let _ = std::fs::remove_dir_all(dst.parent().unwrap());
                }
            }
            ctx.distinct(format!("{} {}", c, t).as_bytes());
            if let Ans::One(id) = &want {
                // the same as with the full id
                if *c == "pretty-print" {
                    let f = full[id.as_str()].get_or_init(|| w.snap.run(&["debug", "pretty-print", id]).stdout);
                    if !out.ok() || &out.stdout != f {
                        return Err(format!("{} only fits {}, got {}", t, id, out.show()));
                    }
                } else if out.text().contains("not found") || out.text().contains("ambig") || out.text().contains("Invalid") {
                    return Err(format!("{} only fits {}, got {}", t, id, out.show()));
                }
            } else if out.ok() {
                return Err(format!("{:?} resolves to {:?}, yet the command succeeded: {}", t, want, out.show()));
            } else if out.code == Some(101) || out.signal.is_some() {
                return Err(format!("{:?}: {}", t, out.show()));
            }
            Ok(())
        },
    );
}
