//! The exclude patterns' language, written down independently: `*` and `?` also match separators,
//! `**` between separators stands for any number of directories, `[..]`, `{..,..}`, backslash.
#[derive(Clone, Debug)]
enum T {
    Lit(u8),
    Any,
    Star,
    Prefix,
    Suffix,
    Mid,
    Class(bool, Vec<(u8, u8)>),
    Alt(Vec<Vec<T>>),
}

fn parse(p: &[u8], i: &mut usize, nested: bool) -> Vec<T> {
    let mut v = Vec::new();
    while *i < p.len() {
        let c = p[*i];
        match c {
            b',' | b'}' if nested => return v,
            b'*' => {
                let start = *i;
                while *i < p.len() && p[*i] == b'*' {
                    *i += 1;
                }
                let before = start == 0 || p[start - 1] == b'/';
                let end = *i == p.len();
                let after = end || p[*i] == b'/';
                if *i - start == 2 && before && after && !nested {
                    if start == 0 {
                        v.push(T::Prefix);
                        *i += 1;
                    } else {
                        v.pop(); // the separator belongs to the token
                        if end {
                            v.push(T::Suffix);
                        } else {
                            v.push(T::Mid);
                            *i += 1;
                        }
                    }
                } else {
                    v.push(T::Star);
                }
                continue;
            }
            b'?' => v.push(T::Any),
            b'\\' => {
                *i += 1;
                v.push(T::Lit(p[*i]));
            }
            b'[' => {
                *i += 1;
                let neg = p[*i] == b'!' || p[*i] == b'^';
                if neg {
                    *i += 1;
                }
                let mut r = Vec::new();
                let first = *i;
                while p[*i] != b']' || *i == first {
                    if *i + 2 < p.len() && p[*i + 1] == b'-' && p[*i + 2] != b']' {
                        r.push((p[*i], p[*i + 2]));
                        *i += 3;
                    } else {
                        r.push((p[*i], p[*i]));
                        *i += 1;
                    }
                }
                v.push(T::Class(neg, r));
            }
            b'{' => {
                let mut alts = Vec::new();
                loop {
                    *i += 1;
                    alts.push(parse(p, i, true));
                    if p[*i] == b'}' {
                        break;
                    }
                }
                v.push(T::Alt(alts));
            }
            c => v.push(T::Lit(c)),
        }
        *i += 1;
    }
    v
}

fn go(t: &[T], s: &[u8], k: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    let Some((h, rest)) = t.split_first() else { return k(s) };
    let mut any_tail = |from: usize, k: &mut dyn FnMut(&[u8]) -> bool| (from..=s.len()).any(|j| go(rest, &s[j..], k));
    match h {
        T::Lit(c) => s.first() == Some(c) && go(rest, &s[1..], k),
        T::Any => !s.is_empty() && go(rest, &s[1..], k),
        T::Star => any_tail(0, k),
        T::Class(neg, r) => !s.is_empty() && r.iter().any(|(a, b)| *a <= s[0] && s[0] <= *b) != *neg && go(rest, &s[1..], k),
        T::Alt(alts) => alts.iter().any(|a| go(a, s, &mut |x| go(rest, x, k))),
        // nothing, a separator, or anything that ends with one
        T::Prefix => go(rest, s, k) || (0..s.len()).any(|j| s[j] == b'/' && go(rest, &s[j + 1..], k)),
        // nothing, or a separator and anything
        T::Suffix => go(rest, s, k) || s.first() == Some(&b'/') && any_tail(1, k),
        // a separator, or anything between two
        T::Mid => s.first() == Some(&b'/') && (0..s.len()).any(|j| s[j] == b'/' && go(rest, &s[j + 1..], k)),
    }
}

pub fn matches(pattern: &str, path: &str) -> bool {
    matches_bytes(pattern, path.as_bytes())
}

/// Paths are bytes: each of them is one `?`, whatever it is a part of.
pub fn matches_bytes(pattern: &str, path: &[u8]) -> bool {
    let mut i = 0;
    let t = parse(pattern.as_bytes(), &mut i, false);
    go(&t, path, &mut |x| x.is_empty())
}

/// A pattern that matches exactly this path.
pub fn escape(path: &str) -> String {
    let mut o = String::new();
    for c in path.chars() {
        if "*?[]{}\\,!".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}
