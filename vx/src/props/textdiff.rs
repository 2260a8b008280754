//! Log line counts and patches (two properties over the same histories).
use super::common::*;
use std::collections::BTreeMap;
use vx::run::Out;
use vx::tree::*;
use vx::world::World;
use vx::{Check, Ctx};

pub const C14: Check = Check {
    id: "C14",
    level: "exploration",
    rule: "every ordered pair of line sequences up to a length over small alphabets, every placement of one, two and (thorough) three edits in a file, every pair of small trees, every small commit graph, and sweeps over names, line texts, sizes, messages, all as real commits; the real log (and compare --stat on the working tree) has to list exactly the changed files with the counts of a longest-common-subsequence difference computed independently. Non-trivial: distinct (old content, new content), tree pair or graph whose log was compared.",
    assumptions: &["the layout of log (commit line, message, one line `path  +A -R` per file) is taken as given", "counts only for newline-terminated text; other files only have to be listed"],
    run: |c| run(c, true),
};
pub const C15: Check = Check {
    id: "C15",
    level: "exploration",
    rule: "every ordered pair of line sequences up to a length over small alphabets (including lines that look like patch syntax), every placement of one, two and (thorough) three edits in a file, every pair of small trees, every small commit graph, and sweeps over names, sizes, messages, all as real commits; the output of the real show is parsed strictly by its hunk headers and applied to the parent's files by an independent applier that checks positions, counts and context; the result has to be the commit's files. Non-trivial: distinct (old content, new content), tree pair or graph whose patch was applied.",
    assumptions: &["the file header lines `--- path` and `+++ path` quote a path with blanks or control characters with backslash escapes (as the patch library does)"],
    run: |c| run(c, false),
};

pub fn lines(b: &[u8]) -> Vec<&[u8]> {
    let mut v: Vec<&[u8]> = b.split(|c| *c == b'\n').collect();
    assert_eq!(v.pop(), Some(&b""[..]));
    v
}

/// Length of a longest common subsequence.
fn lcs(a: &[&[u8]], b: &[&[u8]]) -> usize {
    let mut row = vec![0; b.len() + 1];
    for x in a {
        let mut diag = 0;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = if x == y { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}

fn is_text(b: &Option<Vec<u8>>) -> bool {
    match b {
        Some(b) => (b.is_empty() || b.ends_with(b"\n")) && (std::str::from_utf8(b).is_ok() || !b.contains(&0)),
        None => true,
    }
}

/// The lines that have to be printed for a change of trees; a count is left out if it isn't text.
fn stat_lines(old: &Node, new: &Node) -> Vec<(String, Option<(usize, usize)>)> {
    file_changes(old, new)
        .into_iter()
        .map(|(p, a, b)| {
            let n = (is_text(&a) && is_text(&b)).then(|| {
                let (a, b) = (a.unwrap_or_default(), b.unwrap_or_default());
                let (a, b) = (lines(&a), lines(&b));
                let mut pre = 0;
                while pre < a.len() && pre < b.len() && a[pre] == b[pre] {
                    pre += 1;
                }
                let c = pre + lcs(&a[pre..], &b[pre..]);
                (b.len() - c, a.len() - c)
            });
            (p, n)
        })
        .collect()
}

/// Takes the expected stat lines from the start of a text; gives what follows.
fn take_stat<'t>(text: &'t str, want: &[(String, Option<(usize, usize)>)]) -> Result<&'t str, String> {
    let mut left: Vec<&(String, Option<(usize, usize)>)> = want.iter().collect();
    let mut t = text;
    while !left.is_empty() {
        // The path may hold anything, so look for each one that is still to come, longest first.
        let hit = left.iter().enumerate().filter(|(_, (p, _))| t.starts_with(p.as_str()) && t[p.len()..].starts_with("  +")).max_by_key(|(_, (p, _))| p.len());
        let Some((i, (p, n))) = hit else {
            let l: String = t.chars().take(200).collect();
            return Err(format!("next is {:?}, still to come {:?}", l, &left[..left.len().min(5)]));
        };
        let eol = t[p.len()..].find('\n').map(|x| x + p.len()).ok_or("line without end")?;
        let line = &t[p.len()..eol];
        let counts = line.strip_prefix("  +").and_then(|x| x.split_once(" -")).and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?)));
        let Some(counts) = counts else { return Err(format!("line {:?}{:?}", p, line)) };
        if let Some(n) = n {
            if *n != counts {
                return Err(format!("{:?} is listed with +{} -{}, a minimal difference has +{} -{}", p, counts.0, counts.1, n.0, n.1));
            }
        }
        t = &t[eol + 1..];
        left.remove(i);
    }
    Ok(t)
}

/// A commit as it has to be shown.
pub struct Commit<'n> {
    pub id: String,
    pub msg: String,
    pub old: Option<&'n Node>,
    pub new: &'n Node,
}

pub fn check_log(o: &Out, commits: &[Commit]) -> Result<(), String> {
    let none = empty();
    if !o.ok() {
        return Err(format!("log: {}", o.show()));
    }
    let text = String::from_utf8(o.stdout.clone()).map_err(|_| "log is not UTF-8")?;
    let mut t = &text[..];
    for (i, c) in commits.iter().enumerate() {
        let at = format!("commit {} of {} in the log", i + 1, commits.len());
        let head = format!("commit: {}\n\n{}\n\n", c.id, c.msg);
        t = t.strip_prefix(head.as_str()).ok_or_else(|| format!("{}: expected {:?}, found {:?}", at, head, t.chars().take(300).collect::<String>()))?;
        t = take_stat(t, &stat_lines(c.old.unwrap_or(&none), c.new)).map_err(|e| format!("{}: {}\nold {:?}\nnew {:?}", at, e, c.old, c.new))?;
        t = t.strip_prefix("\n\n").ok_or_else(|| format!("{}: unexpected {:?} after the files", at, t.chars().take(200).collect::<String>()))?;
    }
    if !t.is_empty() {
        return Err(format!("log goes on with {:?}", t.chars().take(200).collect::<String>()));
    }
    Ok(())
}

fn unquote(s: &str) -> Result<String, String> {
    let Some(q) = s.strip_prefix('"') else { return Ok(s.to_string()) };
    let q = q.strip_suffix('"').ok_or_else(|| format!("unfinished quote in {:?}", s))?;
    let mut o = String::new();
    let mut it = q.chars();
    while let Some(c) = it.next() {
        o.push(if c == '\\' {
            match it.next() {
                Some('n') => '\n',
                Some('r') => '\r',
                Some('t') => '\t',
                Some('0') => '\0',
                Some(c @ ('"' | '\\')) => c,
                c => return Err(format!("escape {:?} in {:?}", c, s)),
            }
        } else {
            c
        });
    }
    Ok(o)
}

fn range(s: &str) -> Option<(usize, usize)> {
    let num = |x: &str| if x.bytes().all(|c| c.is_ascii_digit()) { x.parse().ok() } else { None };
    match s.split_once(',') {
        Some((a, b)) => Some((num(a)?, num(b)?)),
        None => Some((num(s)?, 1)),
    }
}

/// Applies the patches of a text to files; every rule of the format is checked.
fn apply(text: &str, files: &BTreeMap<String, Vec<u8>>) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let all: Vec<&str> = {
        let mut v: Vec<&str> = text.split('\n').collect();
        if v.last() == Some(&"") {
            v.pop();
        }
        v
    };
    let mut out = BTreeMap::new();
    let mut i = 0;
    while i < all.len() {
        if all[i].is_empty() {
            i += 1;
            continue;
        }
        let a = all[i].strip_prefix("--- ").ok_or_else(|| format!("line {}: expected a file header, found {:?}", i + 1, all[i]))?;
        let b = all.get(i + 1).and_then(|x| x.strip_prefix("+++ ")).ok_or_else(|| format!("line {}: no +++ after {:?}", i + 2, all[i]))?;
        let (pa, pb) = (unquote(a)?, unquote(b)?);
        if pa != pb {
            return Err(format!("patch goes from {:?} to {:?}", pa, pb));
        }
        i += 2;
        let none = Vec::new();
        let old = files.get(&pa).unwrap_or(&none);
        let old = lines(old);
        let mut new: Vec<&[u8]> = Vec::new();
        let mut at = 0; // lines of the old file used so far
        let mut hunks = 0;
        while i < all.len() && all[i].starts_with("@@ ") {
            let err = |m: String| Err(format!("{:?}, hunk {:?}: {}", pa, all[i], m));
            let h = all[i].strip_prefix("@@ -").and_then(|x| x.strip_suffix(" @@")).and_then(|x| x.split_once(" +"));
            let Some((ho, hn)) = h else { return err("malformed".into()) };
            let (Some((os, oc)), Some((ns, nc))) = (range(ho), range(hn)) else { return err("malformed range".into()) };
            // An empty range names the line it comes after.
            let o0 = if oc == 0 { os } else if os == 0 { return err("position 0".into()) } else { os - 1 };
            let n0 = if nc == 0 { ns } else if ns == 0 { return err("position 0".into()) } else { ns - 1 };
            if o0 < at || o0 + oc > old.len() {
                return err(format!("the old range does not fit a file of {} lines of which {} are used", old.len(), at));
            }
            if hunks > 0 && o0 == at && oc > 0 && at > 0 {
                // touching hunks are legal; nothing to check
            }
            new.extend(&old[at..o0]);
            at = o0;
            if new.len() != n0 {
                return err(format!("starts at line {} of the new file, which has {} lines there", n0 + 1, new.len()));
            }
            let (mut co, mut cn) = (0, 0);
            let mut j = i + 1;
            while co < oc || cn < nc {
                let Some(l) = all.get(j) else { return err("ends early".into()) };
                let Some((k, body)) = l.split_at_checked(1) else { return err(format!("line {:?} without a marker", l)) };
                match k {
                    " " | "-" => {
                        if co == oc || at >= old.len() || old[at] != body.as_bytes() {
                            return err(format!("line {:?} does not match line {} of the old file: {:?}", l, at + 1, old.get(at).map(|x| String::from_utf8_lossy(x).into_owned())));
                        }
                        at += 1;
                        co += 1;
                        if k == " " {
                            if cn == nc {
                                return err("more lines than it says".into());
                            }
                            new.push(body.as_bytes());
                            cn += 1;
                        }
                    }
                    "+" => {
                        if cn == nc {
                            return err("more lines than it says".into());
                        }
                        new.push(body.as_bytes());
                        cn += 1;
                    }
                    _ => return err(format!("line {:?}", l)),
                }
                j += 1;
            }
            i = j;
            hunks += 1;
        }
        new.extend(&old[at..]);
        let mut bytes = Vec::new();
        for l in new {
            bytes.extend(l);
            bytes.push(b'\n');
        }
        if out.insert(pa.clone(), bytes).is_some() {
            return Err(format!("two patches for {:?}", pa));
        }
    }
    Ok(out)
}

fn check_show(o: &Out, c: &Commit) -> Result<(), String> {
    let none = empty();
    let old = c.old.unwrap_or(&none);
    if !o.ok() {
        return Err(format!("show: {}", o.show()));
    }
    let text = String::from_utf8(o.stdout.clone()).map_err(|_| "show is not UTF-8")?;
    let head = format!("commit: {}\n\n{}\n\n", c.id, c.msg);
    let t = text.strip_prefix(head.as_str()).ok_or_else(|| format!("expected {:?}, found {:?}", head, text.chars().take(300).collect::<String>()))?;
    let before: BTreeMap<String, Vec<u8>> = old.paths().into_iter().filter_map(|(p, x)| if let Node::F(b) = x { Some((p, b)) } else { None }).collect();
    let fail = |m: String, show: &str| format!("{}\n{}", m, show.chars().take(1500).collect::<String>());
    let got = apply(t, &before).map_err(|e| fail(e, t))?;
    let mut want = BTreeMap::new();
    for (p, _, b) in file_changes(old, c.new) {
        want.insert(p, b.unwrap_or_default());
    }
    if got != want {
        let k: Vec<_> = want.keys().chain(got.keys()).filter(|k| want.get(*k) != got.get(*k)).take(3).collect();
        let mut m = String::new();
        for k in k {
            let s = |x: Option<&Vec<u8>>| x.map(|x| String::from_utf8_lossy(x).into_owned());
            m += &format!("{:?}: applying the patch to {:?} gives {:?}, the commit has {:?}\n", k, s(before.get(k)), s(got.get(k)), s(want.get(k)));
        }
        return Err(fail(m, t));
    }
    Ok(())
}

/// A family of content pairs, by number.
struct Family {
    name: String,
    n: usize,
    get: Box<dyn Fn(usize) -> (Vec<u8>, Vec<u8>) + Sync>,
}

fn sequences<A: AsRef<[u8]>>(alpha: &[A], max: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = Vec::new();
        for x in &last {
            for a in alpha {
                let mut y = x.clone();
                y.extend(a.as_ref());
                y.push(b'\n');
                next.push(y);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

fn pairs_of(name: &str, s: Vec<Vec<u8>>) -> Family {
    let k = s.len();
    Family { name: name.into(), n: k * k, get: Box::new(move |i| (s[i / k].clone(), s[i % k].clone())) }
}

const SYNTAX: &[&str] = &[
    "", "-", "+", " ", "@@ -1,1 +1,1 @@", "--- a", "+++ a", "\\ No newline at end of file", "a\r", "\t", "é", "\u{0}", "\u{2028}", "-- ", "@@", "\u{c}", "\\", "commit: x", "\u{85}",
];

/// `edits` edits (0 insert, 1 delete, 2 replace, 3 insert two, 4 delete two) separated by gaps.
fn spaced(name: &str, lead: Vec<usize>, gaps: Vec<usize>, tail: Vec<usize>, edits: usize, kinds: usize, period: usize) -> Family {
    let mut n = lead.len() * tail.len();
    for _ in 0..edits {
        n *= kinds;
    }
    for _ in 1..edits {
        n *= gaps.len();
    }
    Family {
        name: name.into(),
        n,
        get: Box::new(move |mut i| {
            let mut pick = |k: usize| {
                let r = i % k;
                i /= k;
                r
            };
            let (mut old, mut new) = (Vec::new(), Vec::new());
            let mut ln = 0;
            let mut keep = |old: &mut Vec<u8>, new: &mut Vec<u8>, k: usize| {
                for _ in 0..k {
                    let s = format!("l{}\n", if period == 0 { ln } else { ln % period });
                    ln += 1;
                    old.extend(s.as_bytes());
                    new.extend(s.as_bytes());
                }
            };
            let k = lead[pick(lead.len())];
            keep(&mut old, &mut new, k);
            for e in 0..edits {
                let x = format!("o{}\n", e);
                let y = format!("n{}\n", e);
                match pick(kinds) {
                    0 => new.extend(y.as_bytes()),
                    1 => old.extend(x.as_bytes()),
                    2 => {
                        old.extend(x.as_bytes());
                        new.extend(y.as_bytes());
                    }
                    3 => {
                        new.extend(y.as_bytes());
                        new.extend(y.as_bytes());
                    }
                    _ => {
                        old.extend(x.as_bytes());
                        old.extend(x.as_bytes());
                    }
                }
                if e + 1 < edits {
                    let k = gaps[pick(gaps.len())];
                    keep(&mut old, &mut new, k);
                }
            }
            let k = tail[pick(tail.len())];
            keep(&mut old, &mut new, k);
            (old, new)
        }),
    }
}

/// Every line of up to two characters of an alphabet.
fn line_texts() -> Vec<String> {
    let alpha = ["a", " ", "\t", "\r", "-", "+", "@", "\\", "A", "\u{b}", "\u{a0}", "0", "\u{feff}"];
    let mut v = vec![String::new()];
    v.extend(alpha.iter().map(|x| x.to_string()));
    v.extend(alpha.iter().flat_map(|x| alpha.iter().map(move |y| format!("{}{}", x, y))));
    v
}

/// One line text for another; the same ones as what is around a change.
fn texts(name: &str, around: bool) -> Family {
    let l = line_texts();
    let k = l.len();
    Family {
        name: name.into(),
        n: k * k,
        get: Box::new(move |i| {
            let (x, y) = (&l[i / k], &l[i % k]);
            if around {
                (format!("{}\no\n{}\n", x, y).into_bytes(), format!("{}\nn\n{}\n", x, y).into_bytes())
            } else {
                (format!("{}\n", x).into_bytes(), format!("{}\n", y).into_bytes())
            }
        }),
    }
}

fn numbered(from: usize, n: usize, tag: &str) -> String {
    (from..from + n).map(|i| format!("{}{}\n", tag, i)).collect()
}

/// A block of lines for another one after `lead` lines, and another edit `gap` lines later.
fn blocks(name: &str, lead: Vec<usize>, out: Vec<usize>, into: Vec<usize>, gap: Vec<usize>) -> Family {
    Family {
        name: name.into(),
        n: lead.len() * out.len() * into.len() * gap.len() * 3,
        get: Box::new(move |mut i| {
            let mut pick = |v: &[usize]| {
                let r = v[i % v.len()];
                i /= v.len();
                r
            };
            let last = pick(&[0, 1, 2]);
            let (l, o, n, g) = (pick(&lead), pick(&out), pick(&into), pick(&gap));
            let mut old = numbered(0, l, "l");
            let mut new = old.clone();
            old += &numbered(0, o, "o");
            new += &numbered(0, n, "n");
            let k = numbered(l, g, "l");
            old += &k;
            new += &k;
            if last != 0 {
                new += "new\n";
            }
            if last != 1 {
                old += "old\n";
            }
            old += "end\n";
            new += "end\n";
            (old.into_bytes(), new.into_bytes())
        }),
    }
}

/// One edit in a long file whose lines repeat after `period` lines (0: never).
fn long(name: &str, n: Vec<usize>, period: Vec<usize>, size: Vec<usize>) -> Family {
    Family {
        name: name.into(),
        n: n.len() * period.len() * size.len() * 9 * 4,
        get: Box::new(move |mut i| {
            let mut pick = |v: &[usize]| {
                let r = v[i % v.len()];
                i /= v.len();
                r
            };
            let kind = pick(&[0, 1, 2, 3]);
            let at = pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8]);
            let (k, p, n) = (pick(&size), pick(&period), pick(&n));
            let line = |i: usize| format!("{}\n", if p == 0 { i } else { i % p }).into_bytes();
            let at = [0, 1, 4, n / 2, n * 4 / 5, n - k - 4, n - k - 1, n - k, n][at];
            let old: Vec<Vec<u8>> = (0..n).map(line).collect();
            let mut new = old.clone();
            let to = (at + k).min(n);
            match kind {
                // removed; more of the same; others instead; as many as that, shifted
                0 => drop(new.drain(at..to)),
                1 => drop(new.splice(at..at, (at..at + k).map(line))),
                2 => drop(new.splice(at..to, (0..k).map(|i| format!("n{}\n", i).into_bytes()))),
                _ => drop(new.splice(at..to, (at + 1..to + 1).map(line))),
            }
            (old.concat(), new.concat())
        }),
    }
}

/// `n` edits of one kind, each after `gap` lines.
fn many(name: &str, n: Vec<usize>, gap: Vec<usize>) -> Family {
    Family {
        name: name.into(),
        n: n.len() * gap.len() * 4,
        get: Box::new(move |i| {
            let (kind, n, gap) = (i % 4, n[i / 4 % n.len()], gap[i / 4 / n.len()]);
            let (mut old, mut new) = (String::new(), String::new());
            for e in 0..n {
                let k = numbered(e * gap, gap, "l");
                old += &k;
                new += &k;
                if kind != 0 && (kind != 3 || e % 2 == 0) {
                    old += &format!("o{}\n", e);
                }
                if kind != 1 && (kind != 3 || e % 2 == 1) {
                    new += &format!("n{}\n", e);
                }
            }
            (old.into_bytes(), new.into_bytes())
        }),
    }
}

/// Lines in other encodings than UTF-8.
const BYTES: &[&[u8]] = &[b"\xe9t\xe9", b"\xe8t\xe8", b"\xef\xbf\xbdt\xef\xbf\xbd", b"\xff", b"\xff\xff", b"\xc3", b"\xc3\xa9", b"e", b"", b"\xe9\r", b"\xe9 ", b"\xc3\x28", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\x80", b"\xa0", b"a\x85b", b"\xfe"];

fn families(ctx: &Ctx, c14: bool) -> Vec<Family> {
    let r = |a: usize, b: usize| (a..=b).collect::<Vec<_>>();
    let mut v = vec![
        pairs_of("lines a b c", sequences(&["a", "b", "c"], ctx.pick(3, 4))),
        pairs_of("lines a b", sequences(&["a", "b"], ctx.pick(5, 6))),
        pairs_of("lines with an empty one", sequences(&["", "a"], ctx.pick(4, 6))),
        pairs_of("lines like syntax", sequences(SYNTAX, ctx.pick(1, 2))),
        spaced("one edit", r(0, 12), vec![], r(0, 12), 1, 5, 0),
        spaced("two edits", ctx.pick(vec![0, 1, 2, 3, 4, 5, 7], r(0, 12)), ctx.pick(r(0, 11), r(0, 20)), ctx.pick(vec![0, 1, 2, 4, 5, 6, 8], r(0, 12)), 2, 3, 0),
        spaced("two edits in repeating lines", vec![0, 1, 3, 4, 6], r(0, 11), vec![0, 3, 6], 2, ctx.pick(3, 5), 2),
        texts("line texts, changed", false),
        texts("line texts, around", true),
        spaced("one edit far down", r(13, 131), vec![], vec![0, 3, 9], 1, 5, 0),
        blocks("an edit moved by another", vec![0, 5], r(0, 12).into_iter().chain([20, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 128, 256, 300]).collect(), vec![0, 1, 2], vec![8, 20, 64, 130]),
        blocks("an edit moved down by another", vec![0, 5], vec![0, 1, 2], r(3, 12).into_iter().chain([20, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 128, 256, 300]).collect(), vec![8, 20, 64, 130]),
        blocks("blocks", vec![0, 1, 5], vec![0, 1, 3, 4, 9, 10, 11, 49, 50, 51, 98, 99, 100, 101], vec![0, 1, 3, 4, 9, 10, 11, 49, 50, 51, 98, 99, 100, 101], vec![2, 9]),
        many("many edits", r(1, 40).into_iter().chain([64, 100]).collect(), vec![1, 2, 5, 6, 7, 8]),
        long("long files", ctx.pick(vec![1000, 2049, 4200], vec![1000, 1024, 2049, 4200, 8200, 12000]), ctx.pick(vec![0, 1, 2], vec![0, 1, 2, 3, 7, 100]), ctx.pick(vec![1, 4], vec![1, 3, 4, 9, 30])),
        many("many edits in long files", vec![250, 500], vec![7, 10]),
        spaced("two larger edits", vec![0, 2, 6], r(0, 11), vec![0, 2, 7], 2, 5, 0),
    ];
    if c14 {
        v.push(pairs_of("lines of bytes", sequences(BYTES, ctx.pick(1, 2))));
        v.push(pairs_of("lines of few bytes", sequences(&BYTES[..4], ctx.pick(2, 3))));
        let around = |x: &[u8]| [b"first\n\xe4\n", x, b"\n\xe4\nlast\n"].concat();
        v.push(pairs_of("bytes amid others", BYTES.iter().map(|x| around(x)).collect()));
    }
    if ctx.quick() {
        v.push(spaced("three edits", vec![0, 4], vec![0, 1, 4, 7, 8, 9, 10], vec![0, 6], 3, 3, 0));
        v.push(pairs_of("syntax pairs", SYNTAX.iter().take(8).flat_map(|a| SYNTAX.iter().take(4).map(move |b| format!("{}\n{}\n", a, b).into_bytes())).collect()));
    } else {
        v.push(spaced("three edits", r(0, 6), r(0, 12), r(0, 7), 3, 3, 0));
        v.push(spaced("three edits in repeating lines", vec![0, 2, 4], r(0, 10), vec![0, 5, 7], 3, 3, 3));
        v.push(spaced("four edits", vec![0, 4], vec![0, 2, 7, 8, 9, 10], vec![0, 6], 4, 3, 0));
    }
    v
}

/// A chain of commits of these trees, and what is shown for it.
fn chain(ctx: &Ctx, trees: &[Node], msgs: &[String], c14: bool) -> Result<(), String> {
    let w = World::new(ctx);
    let mut ids: Vec<String> = Vec::new();
    for (i, t) in trees.iter().enumerate() {
        w.set_tree(t);
        if c14 && i > 0 {
            let o = w.snap.run(&["compare", "-s"]);
            let lines = stat_lines(&trees[i - 1], t);
            if !o.ok() || take_stat(&o.text(), &lines).map_err(|e| format!("compare --stat: {}", e))? != "" {
                return Err(format!("compare --stat: {}\nexpected {:?}", o.show(), lines));
            }
        }
        let m = msgs.get(i).cloned().unwrap_or_else(|| format!("m{}", i));
        let a = format!("--message={}", m);
        w.snap.good(&["commit", a.as_str()])?;
        let h = w.dump()?.tip("master").ok_or("no tip")?;
        ids.push(h);
    }
    let commits: Vec<Commit> = (0..trees.len())
        .rev()
        .map(|i| Commit { id: ids[i].clone(), msg: msgs.get(i).cloned().unwrap_or_else(|| format!("m{}", i)), old: if i > 0 { Some(&trees[i - 1]) } else { None }, new: &trees[i] })
        .collect();
    if c14 {
        check_log(&w.snap.run(&["log"]), &commits)?;
        if commits.len() > 2 {
            check_log(&w.snap.run(&["log", &commits[1].id]), &commits[1..])?;
        }
    } else {
        check_show(&w.snap.run(&["show"]), &commits[0])?;
        for c in &commits[1..] {
            check_show(&w.snap.run(&["show", &c.id]), c)?;
        }
    }
    Ok(())
}

const BATCH: usize = 160;

fn run(ctx: &Ctx, c14: bool) {
    let fams = families(ctx, c14);
    let mut jobs = Vec::new();
    for (k, fam) in fams.iter().enumerate() {
        ctx.set_count(&format!("pairs: {}", fam.name), fam.n as u64);
        let mut i = 0;
        while i < fam.n {
            jobs.push((k, i, (i + BATCH).min(fam.n)));
            i += BATCH;
        }
    }
    ctx.par(
        &jobs,
        |&(k, a, b)| format!("{} {}..{}", fams[k].name, a, b),
        |&(k, a, b)| {
            // every file goes from old to new in the second commit, then away
            let (mut old, mut new) = (empty(), empty());
            for i in a..b {
                let (x, y) = (fams[k].get)(i);
                ctx.distinct(format!("pair {:?} {:?}", x, y).as_bytes());
                let p = format!("d{}/f{}", i % 3, i);
                old.put(&p, f(x));
                new.put(&p, f(y));
            }
            ctx.eval((b - a) as u64);
            ctx.count("content_pairs", (b - a) as u64);
            let mut one = |i: usize| -> Result<(), String> {
                let (x, y) = (fams[k].get)(i);
                chain(ctx, &[d(&[("f", f(x))]), d(&[("f", f(y))]), empty()], &[], c14)
            };
            match chain(ctx, &[old, new, empty()], &[], c14) {
                Ok(()) => {
                    if a == BATCH {
                        let (x, y) = (fams[k].get)(a + 7);
                        ctx.sample(format!("{}: {:?} -> {:?}", fams[k].name, String::from_utf8_lossy(&x), String::from_utf8_lossy(&y)));
                    }
                    Ok(())
                }
                Err(e) => {
                    // a smaller example, if one file alone shows it
                    for i in a..b {
                        if let Err(e2) = one(i) {
                            return Err(e2);
                        }
                    }
                    Err(e)
                }
            }
        },
    );
    if ctx.nviolations() > 0 {
        return;
    }
    // trees
    let trees = enumerate(&["a", "b"], &[b"x\n", b"y\n", b""], 3, ctx.pick(2, 3));
    let idx: Vec<usize> = (0..trees.len()).collect();
    ctx.set_count("trees", trees.len() as u64);
    ctx.par(&idx, |&i| format!("trees from {}", trees[i].id()), |&i| {
        // from this one to every other one and back
        let mut v = Vec::new();
        for t in &trees {
            v.push(trees[i].clone());
            v.push(t.clone());
            ctx.distinct(format!("trees {:?} {:?}", trees[i], t).as_bytes());
        }
        ctx.eval(trees.len() as u64);
        if v.len() > 60 {
            for c in v.chunks(40) {
                chain(ctx, c, &[], c14)?;
            }
            return Ok(());
        }
        chain(ctx, &v, &[], c14)
    });
    if ctx.nviolations() > 0 {
        return;
    }
    sweeps(ctx, c14);
    if ctx.nviolations() > 0 {
        return;
    }
    graphs(ctx, c14);
}

fn sweeps(ctx: &Ctx, c14: bool) {
    let num = |n: usize, tag: &str| (0..n).map(|i| format!("{} line {}\n", tag, i)).collect::<String>().into_bytes();
    let mut jobs: Vec<(String, Vec<Node>, Vec<String>)> = Vec::new();
    for n in odd_names().into_iter().filter(|n| n != ".snapcd") {
        jobs.push((
            format!("name {:?}", n),
            vec![
                d(&[(&n, f("a\n"))]),
                d(&[(&n, f("b\n"))]),
                d(&[(&n, d(&[("x", f("1\n")), (&n, f("2\n"))]))]),
                d(&[(&n, d(&[("x", f("3\n")), (&n, f("2\n3\n"))])), ("z", f(""))]),
                d(&[("q", d(&[(&n, f("a\n"))]))]),
            ],
            vec![],
        ));
    }
    jobs.push(("name grid".into(), grid_trees(&grid_names(!ctx.quick())).into_iter().map(|x| x.1).collect(), vec![]));
    for (i, m) in ["", " ", "two\nlines", "\n", "x\n", "\nx", "commit: b", "é日本\u{1F600}", "-m", "\t", "a  +1 -1", "--- a\n+++ a\n@@ -1,1 +1,1 @@\n-x\n+y", "\u{1b}[0m", "\r\n"].iter().enumerate() {
        jobs.push((format!("message {:?}", m), vec![d(&[("a", f("a\n"))]), d(&[("a", f(format!("{}\n", i)))]), empty()], vec!["first".into(), m.to_string(), m.to_string()]));
    }
    jobs.push(("long message".into(), vec![d(&[("a", f("a\n"))]), empty()], vec!["m".repeat(70_000), "x\n".repeat(5000)]));
    // sizes: whole files, and single lines in large files
    for n in [1usize, 2, 9, 10, 11, 99, 100, 1000, 4000, 20_000] {
        let a = num(n, "a");
        let mut first = a.clone();
        first[0] = b'X';
        let mut last = a.clone();
        let k = last.len() - 2;
        last[k] = b'X';
        let mut mid = lines(&a).iter().map(|x| x.to_vec()).collect::<Vec<_>>();
        mid[n / 2] = b"changed".to_vec();
        mid.insert(n / 3, b"inserted".to_vec());
        let mid = mid.iter().flat_map(|x| x.iter().copied().chain([b'\n'])).collect::<Vec<u8>>();
        let mut more = a.clone();
        more.extend(num(n, "b"));
        let t = |x: &Vec<u8>| d(&[("big", f(x)), ("same", f(&a))]);
        let mut v = vec![t(&a), t(&first), t(&a), t(&last), t(&a), t(&more), t(&a), t(&vec![]), t(&a)];
        if n <= 4000 {
            v.push(t(&mid));
            v.push(t(&a));
        }
        if n <= ctx.pick(1000, 4000) {
            v.push(t(&num(n, "c")));
        }
        jobs.push((format!("{} lines", n), v, vec![]));
    }
    for n in [100usize, 4096, 32768, 65536, 70_000, 1_000_000] {
        let l = |c: u8| {
            let mut v = vec![c; n];
            v.push(b'\n');
            v
        };
        jobs.push((format!("line of {} bytes", n), vec![d(&[("a", f(l(b'x')))]), d(&[("a", f([l(b'y'), l(b'x')].concat()))]), d(&[("a", f([l(b'y'), l(b'x'), l(b'y')].concat()))])], vec![]));
    }
    // entry counts
    for n in [2usize, 10, 24, 256, 600] {
        let mk = |k: usize| dir_of(n, |i| (format!("f{}", i), f(format!("{}\n", if i % 3 == k { "x" } else { "y" }))));
        jobs.push((format!("{} files", n), vec![mk(0), mk(1), empty(), mk(2)], vec![]));
        let dirs = |k: usize| dir_of(n, |i| (format!("d{}", i), if i % 2 == k { empty() } else { d(&[("a", f("x\n")), ("b", f(format!("{}\n", i)))]) }));
        jobs.push((format!("{} directories", n), vec![dirs(0), dirs(1), empty(), dirs(0)], vec![]));
    }
    // depths
    for n in [5usize, 30, 60] {
        let mk = |c: &str| (0..n).fold(f(c), |t, i| d(&[("d", t), ("s", f(format!("{}\n", i)))]));
        jobs.push((format!("depth {}", n), vec![mk("a\n"), mk("b\n"), mk("a\nb\n"), f_dir(), mk("c\n")], vec![]));
    }
    // moves, exchanges, kind changes
    let sub = d(&[("x", f("1\n2\n")), ("y", d(&[("z", f("3\n"))]))]);
    jobs.push((
        "moves".into(),
        vec![
            d(&[("a", sub.clone()), ("b", f("4\n"))]),
            d(&[("c", sub.clone()), ("b", f("4\n"))]),
            d(&[("c", f("4\n")), ("b", sub.clone())]),
            d(&[("c", f("1\n2\n")), ("b", d(&[("x", f("4\n")), ("y", f("3\n"))]))]),
            d(&[("c", d(&[("c", f("1\n2\n"))])), ("b", f(""))]),
            d(&[("c", d(&[("c", empty())])), ("b", empty())]),
            d(&[("c", d(&[("c", empty())])), ("b", f(""))]),
        ],
        vec![],
    ));
    if c14 {
        // other contents only have to be listed
        let mut v = Vec::new();
        for (_, c) in odd_contents() {
            if c.len() < 40_000 {
                v.push(d(&[("x", f(&c)), ("y", f("same\n"))]));
            }
        }
        jobs.push(("other contents".into(), v, vec![]));
        for (n, c) in odd_contents() {
            jobs.push((format!("content {}", n), vec![d(&[("x", f(&c))]), empty(), d(&[("x", f("t\n"))]), d(&[("x", f(&c)), ("t", f("t\n"))]), d(&[("t", f(&c))])], vec![]));
        }
    }
    ctx.set_count("sweeps", jobs.len() as u64);
    ctx.par(&jobs, |(n, _, _)| n.clone(), |(n, t, m)| {
        ctx.distinct(format!("sweep {}", n).as_bytes());
        chain(ctx, t, m, c14)
    });
}

fn f_dir() -> Node {
    d(&[("d", d(&[("d", empty())]))])
}

/// Every commit graph of up to four commits with at most two parents each.
fn graphs(ctx: &Ctx, c14: bool) {
    let kinds: Vec<Node> = vec![
        d(&[("a", f("1\n2\n3\n")), ("b", f("x\n"))]),
        d(&[("a", f("1\n3\n4\n")), ("c", d(&[("d", f("y\n"))]))]),
        d(&[("b", f("x\nz\n")), ("c", f("y\n"))]),
        d(&[("a", f("")), ("b", f("x\n")), ("c", d(&[("d", empty())]))]),
    ];
    let n = 4;
    let mut shapes: Vec<Vec<Vec<usize>>> = vec![vec![]];
    for i in 0..n {
        let mut next = Vec::new();
        for s in &shapes {
            let mut opts: Vec<Vec<usize>> = vec![vec![]];
            for a in 0..i {
                opts.push(vec![a]);
                for b in 0..i {
                    if a != b {
                        opts.push(vec![a, b]);
                    }
                }
            }
            if i == 3 {
                opts.push(vec![2, 0, 1]);
            }
            for o in opts {
                let mut s = s.clone();
                s.push(o);
                next.push(s);
            }
        }
        shapes = next;
    }
    let assign: Vec<Vec<usize>> = ctx.pick(
        vec![vec![0, 1, 2, 3], vec![3, 2, 1, 0], vec![0, 1, 0, 1]],
        (0..256).map(|x| vec![x & 3, (x >> 2) & 3, (x >> 4) & 3, x >> 6]).collect(),
    );
    let mut jobs = Vec::new();
    for s in &shapes {
        for a in &assign {
            jobs.push((s.clone(), a.clone()));
        }
    }
    ctx.set_count("graphs", jobs.len() as u64);
    ctx.par(&jobs, |(s, a)| format!("graph {:?} trees {:?}", s, a), |(s, a)| {
        let w = World::new(ctx);
        let mut tree_ids = Vec::new();
        for k in &kinds {
            w.set_tree(k);
            tree_ids.push(w.snap.insert(".")?);
        }
        let mut ids: Vec<String> = Vec::new();
        // the parent that counts
        let mut first: Vec<Option<usize>> = Vec::new();
        for i in 0..s.len() {
            let mut args = vec!["debug".to_string(), "commit-tree".to_string(), tree_ids[a[i]].clone()];
            args.extend(s[i].iter().map(|&p| ids[p].clone()));
            let id = w.snap.good(&args)?.text().trim().to_string();
            let o = w.snap.good(&["debug", "pretty-print", &id])?.text();
            let p = o.lines().skip_while(|l| !l.starts_with("--keys--")).take_while(|l| !l.starts_with("-/keys")).filter(|l| l.starts_with('b')).nth(1).map(|x| x.to_string());
            let p = match p {
                Some(x) => Some(ids.iter().position(|y| *y == x).ok_or_else(|| format!("parent {} is none of {:?}: {}", x, ids, o))?),
                None => None,
            };
            if p.is_some() != !s[i].is_empty() {
                return Err(format!("commit with parents {:?}: {}", s[i], o));
            }
            ids.push(id);
            first.push(p);
        }
        for i in 0..s.len() {
            let c = |i: usize| Commit { id: ids[i].clone(), msg: String::new(), old: first[i].map(|p| &kinds[a[p]]), new: &kinds[a[i]] };
            if c14 {
                let mut list = vec![c(i)];
                let mut k = i;
                while let Some(p) = first[k] {
                    list.push(c(p));
                    k = p;
                }
                check_log(&w.snap.run(&["log", &ids[i]]), &list)?;
            } else {
                check_show(&w.snap.run(&["show", &ids[i]]), &c(i))?;
            }
        }
        ctx.distinct(format!("graph {:?} {:?}", s, a).as_bytes());
        Ok(())
    });
}
