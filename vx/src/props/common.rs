//! Input alphabets shared by several explorers.
use std::collections::BTreeMap;
use vx::tree::Node;

/// Names that are legal but unusual.
pub fn odd_names() -> Vec<String> {
    let mut v: Vec<String> = [
        " ", "a b", " lead", "trail ", ".hidden", "..a", "...", "-dash", "--", "-", "a.", "A", "AB", "Ab", "é", "e\u{301}", "日本語", "😀", "\u{fffd}",
        "ß", "*", "?", "[a]", "{a,b}", "!x", "#x", "~", "$HOME", "%41", "a%b", "a\\b", "\\", "'", "\"", "`x`", "a\nb", "\n", "a\tb", "\u{1}", "a;b", "a|b",
        "a&b", "<", ">", "=", "+", ",", ":", "a:b", "con", "nul", ".git", ".snapcd", ".snapcd2", "x.snapcd", "snapcd.db", "snapcd.db-journal", "cache.db", "Dir", "File", "size",
        "children_names", "itemtype", "null", "true", "0", "00", "1", "-1", "/dev"
    ]
    .iter()
    .map(|x| x.replace('/', "_"))
    .collect();
    for n in [23, 24, 25, 63, 64, 100, 127, 128, 200, 254, 255] {
        v.push("n".repeat(n));
    }
    v.push("é".repeat(127));
    v
}

/// Every name of up to two characters of one alphabet and three (or four) of smaller ones.
pub fn grid_names(deep: bool) -> Vec<String> {
    let wide = ["a", "b", "A", "z", ".", "-", "_", "~", " ", "*", "?", "[", "]", "\\", "\"", "'", "é", "#", "0", "1", "+", "@", ",", ":", "{", "!", "\t", "%", "$", "^"];
    let narrow = ["a", "b", ".", "-", "A", " ", "~", "0"];
    let mut v: Vec<String> = Vec::new();
    let words = |alpha: &[&str], n: usize| -> Vec<String> {
        let mut v = vec![String::new()];
        for _ in 0..n {
            v = v.iter().flat_map(|x| alpha.iter().map(move |a| format!("{}{}", x, a))).collect();
        }
        v
    };
    v.extend(words(&wide, 1));
    v.extend(words(&wide, 2));
    v.extend(words(&narrow, 3));
    if deep {
        v.extend(words(&wide[..16], 3));
        v.extend(words(&narrow[..6], 4));
    }
    v.retain(|x| x != "." && x != "..");
    v.sort();
    v.dedup();
    v
}

/// Trees of the same names, each a step from the others: contents, kinds, what is missing.
pub fn grid_trees(names: &[String]) -> Vec<(String, Node)> {
    use vx::tree::{d, f};
    let mk = |g: &dyn Fn(usize, &String) -> Option<Node>| Node::D(names.iter().enumerate().filter_map(|(i, n)| Some((n.clone(), g(i, n)?))).collect());
    let one = |n: &String| f(format!("{}\n1\n", n.escape_debug()));
    let two = |n: &String| f(format!("{}\n2\n", n.escape_debug()));
    let dir = |n: &String, x: &str| d(&[(n.as_str(), f(format!("{}\n", x))), ("x", f("same\n"))]);
    vec![
        ("files".into(), mk(&|_, n| Some(one(n)))),
        ("changed".into(), mk(&|_, n| Some(two(n)))),
        ("every other one".into(), mk(&|i, n| Some(if i % 2 == 0 { one(n) } else { two(n) }))),
        ("directories".into(), mk(&|_, n| Some(dir(n, "1")))),
        ("directories, changed".into(), mk(&|i, n| Some(dir(n, if i % 2 == 0 { "1" } else { "2" })))),
        ("even ones".into(), mk(&|i, n| if i % 2 == 0 { Some(one(n)) } else { None })),
        ("odd ones below".into(), d(&[("q", mk(&|i, n| if i % 2 == 1 { Some(two(n)) } else { None }))])),
    ]
}

/// File contents around every boundary a reader might treat specially.
pub fn sizes() -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 15, 16, 23, 24, 25, 31, 32, 33, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193];
    for b in [16384usize, 32768, 49152, 65536, 98304, 131072, 163840, 196608, 262144] {
        v.extend([b - 1, b, b + 1]);
    }
    v.extend([100_000, 500_001, 1_048_576]);
    v
}

/// Bytes that differ between positions and do not repeat with any chunk length.
pub fn pattern(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 32) as u8
        })
        .collect()
}

pub fn odd_contents() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![
        ("empty".into(), vec![]),
        ("nul".into(), vec![0]),
        ("nuls".into(), vec![0; 100]),
        ("ff".into(), vec![0xff; 3]),
        ("newline".into(), b"\n".to_vec()),
        ("crlf".into(), b"a\r\nb\r\n".to_vec()),
        ("noeol".into(), b"a\nb".to_vec()),
        ("invalid utf8".into(), b"\xc3\x28\xa0\xa1".to_vec()),
        ("bom".into(), b"\xef\xbb\xbfx\n".to_vec()),
        ("all bytes".into(), (0..=255).collect()),
        ("cbor-like".into(), b"\xa3\x64data\x40\x64keys\x80\x67objtype\x68FileBlob".to_vec()),
    ];
    for n in sizes() {
        v.push((format!("pattern {}", n), pattern(n, n as u64)));
    }
    for n in [32768usize, 32769, 65536, 65537, 131073, 300_000] {
        v.push((format!("zeros {}", n), vec![0; n]));
        v.push((format!("ones {}", n), vec![0xff; n]));
    }
    v
}

pub fn dir_of(n: usize, mut mk: impl FnMut(usize) -> (String, Node)) -> Node {
    let mut m = BTreeMap::new();
    for i in 0..n {
        let (k, v) = mk(i);
        m.insert(k, v);
    }
    Node::D(m)
}

/// Directories with more entries than 16 bits can count.  (Looking up an object reads all of an
/// object that the search passes: with few objects, every lookup may read the large directory.)
pub fn huge_trees(counts: &[usize]) -> Vec<(String, Node)> {
    use vx::tree::{d, empty, f};
    let mut v = Vec::new();
    for &n in counts {
        v.push((format!("{} small files", n), d(&[("h", dir_of(n, |i| (format!("f{:x}", i), f(format!("{}", i % 1000))))), ("z", f("last"))])));
        v.push((format!("{} small dirs", n), dir_of(n, |i| (format!("d{:x}", i), d(&[("x", f(format!("{}", i % 1000)))])))));
    }
    v
}

/// Trees that vary one dimension at a time: entry count, depth, name, content.
pub fn sweep_trees(counts: &[usize], depths: &[usize]) -> Vec<(String, Node)> {
    use vx::tree::{d, empty, f};
    let mut v = Vec::new();
    for &n in counts {
        v.push((format!("{} files", n), dir_of(n, |i| (format!("f{}", i), f(format!("{}", i))))));
        v.push((format!("{} equal files", n), dir_of(n, |i| (format!("f{}", i), f("same")))));
        v.push((format!("{} empty dirs", n), dir_of(n, |i| (format!("d{}", i), empty()))));
        v.push((format!("{} mixed", n), dir_of(n, |i| if i % 2 == 0 { (format!("e{}", i), f("")) } else { (format!("e{}", i), d(&[("x", f(format!("{}", i)))])) })));
    }
    for &n in depths {
        let mut t = f("leaf");
        let mut e = empty();
        let mut side = f("leaf");
        for i in 0..n {
            t = d(&[("d", t)]);
            e = d(&[("d", e)]);
            side = d(&[("b", side), ("a", f(format!("{}", i))), ("c", f(""))]);
        }
        if n > 0 {
            v.push((format!("depth {}", n), t));
            v.push((format!("depth {} to an empty dir", n), e));
            v.push((format!("depth {} with side files", n), side));
        }
    }
    for n in odd_names() {
        v.push((format!("file named {:?}", n), d(&[(&n, f("x"))])));
        v.push((format!("dir named {:?}", n), d(&[(&n, d(&[("x", f("x")), ("y", empty())]))])));
        v.push((format!("nested name {:?}", n), d(&[("q", d(&[(&n, f("")), ("z", d(&[(&n, f("deep"))]))]))])));
    }
    for (n, c) in odd_contents() {
        v.push((format!("content {}", n), d(&[("a", f(&c)), ("b", d(&[("c", f(&c))]))])));
    }
    // everything at once, in one directory
    let mut all = BTreeMap::new();
    for (i, n) in odd_names().into_iter().enumerate() {
        all.insert(n, if i % 3 == 0 { d(&[("x", f(format!("{}", i)))]) } else { f(format!("{}", i)) });
    }
    v.push(("all odd names".into(), Node::D(all)));
    // names that sort differently with and without the separator
    v.push((
        "separator order".into(),
        d(&[("a", d(&[("b", f("1")), ("c", empty())])), ("a.b", f("2")), ("a-b", f("3")), ("a b", f("4")), ("ab", d(&[("a", f("5"))])), ("a0", f("6"))]),
    ));
    // the same subtree in several places
    let sub = d(&[("x", f("1")), ("y", d(&[("z", f("2"))]))]);
    v.push(("repeated subtree".into(), d(&[("a", sub.clone()), ("b", sub.clone()), ("c", d(&[("a", sub.clone()), ("x", f("1"))]))])));
    v
}

/// What a comparison lists: added, deleted and modified paths.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Changes {
    pub added: std::collections::BTreeSet<String>,
    pub deleted: std::collections::BTreeSet<String>,
    pub modified: std::collections::BTreeSet<String>,
}

impl Changes {
    /// What has to be listed for going from `old` to `new`.
    pub fn between(old: &Node, new: &Node) -> Changes {
        let (o, n) = (old.paths(), new.paths());
        let mut c = Changes::default();
        for (p, x) in &n {
            match o.get(p) {
                Some(y) if y.is_dir() == x.is_dir() => {
                    if !x.is_dir() && x != y {
                        c.modified.insert(p.clone());
                    }
                }
                _ => {
                    c.added.insert(p.clone());
                }
            }
        }
        for (p, x) in &o {
            if n.get(p).map(|y| y.is_dir()) != Some(x.is_dir()) {
                c.deleted.insert(p.clone());
            }
        }
        c.added = fold(&c.added);
        c.deleted = fold(&c.deleted);
        c
    }
    pub fn is_empty(&self) -> bool {
        *self == Changes::default()
    }
    /// Reads the output of status or compare. Names with line breaks cannot be told apart.
    pub fn parse(text: &str, header: bool) -> Result<Changes, String> {
        let mut c = Changes::default();
        let mut lines = text.split('\n').collect::<Vec<_>>();
        if lines.last() == Some(&"") {
            lines.pop();
        }
        let mut it = lines.into_iter();
        if header {
            match it.next() {
                Some(l) if l.starts_with("HEAD: ") => {}
                l => return Err(format!("first line is {:?}", l)),
            }
        }
        let mut sec = 0;
        for l in it {
            match l {
                "added:" => sec = 1,
                "deleted:" => sec = 2,
                "modified:" => sec = 3,
                _ => {
                    let p = l.strip_prefix("  ").ok_or_else(|| format!("unexpected line {:?}", l))?;
                    let p = p.strip_suffix('/').unwrap_or(p).to_string();
                    let s = match sec {
                        1 => &mut c.added,
                        2 => &mut c.deleted,
                        3 => &mut c.modified,
                        _ => return Err(format!("line {:?} before any section", l)),
                    };
                    if !s.insert(p) {
                        return Err(format!("{:?} is listed twice", l));
                    }
                }
            }
        }
        Ok(c)
    }
    pub fn show(&self) -> String {
        format!("added {:?} deleted {:?} modified {:?}", self.added, self.deleted, self.modified)
    }
}

fn fold(s: &std::collections::BTreeSet<String>) -> std::collections::BTreeSet<String> {
    s.iter()
        .filter(|p| {
            let mut q = p.as_str();
            while let Some((h, _)) = q.rsplit_once('/') {
                if s.contains(h) {
                    return false;
                }
                q = h;
            }
            true
        })
        .cloned()
        .collect()
}

/// The files that differ between two trees: (path, old bytes, new bytes).
pub fn file_changes(old: &Node, new: &Node) -> Vec<(String, Option<Vec<u8>>, Option<Vec<u8>>)> {
    let files = |n: &Node| -> BTreeMap<String, Vec<u8>> {
        n.paths().into_iter().filter_map(|(p, x)| if let Node::F(b) = x { Some((p, b)) } else { None }).collect()
    };
    let (o, n) = (files(old), files(new));
    let mut r = Vec::new();
    for p in o.keys().chain(n.keys()).collect::<std::collections::BTreeSet<_>>() {
        if o.get(p) != n.get(p) {
            r.push((p.clone(), o.get(p).cloned(), n.get(p).cloned()));
        }
    }
    r
}

/// The tree id of a commit, as the program prints it.
pub fn tree_of(w: &vx::world::World<'_>, commit: &str) -> Result<String, String> {
    let o = w.snap.good(&["debug", "pretty-print", commit])?.text();
    let mut it = o.lines().skip_while(|l| !l.starts_with("--keys--")).skip(1);
    it.next().map(|x| x.to_string()).ok_or_else(|| "no tree in commit".into())
}
