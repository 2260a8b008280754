//! File contents that steer the chunker, and readers that answer in every way a source may.
use snapcd::ds::sqlite::SqliteDS;
use snapcd::file::{put_data, read_data};
use snapcd::key::Key;
use snapcd::DataStore;
use std::io::Read;
use vx::Ctx;

/// 64-byte windows after which the rolling hash has exactly this many leading zero bits.
pub const WINDOWS: &[(u32, &str)] = &[
    (13, "d87c0a0837e1e3109e6d5e7694fd6b6a5ba71d6c338310ecd4bee9f1314bd4d17abc67eb52bee18a002624b2002e6e1600654b69658ecf66ca69deeb879c6470"),
    (14, "e721d7b26ffb071e2a6cf7296323ff6e09c9cc80bbb99d0ed7eb829831e341913cb39d164bfdadcd0077fcaa0041debf00dc41fcd086dc4af91f6fb9430d0381"),
    (20, "4200a8aebe96dd72756a895b400376881e8fe8f8f200efdab0fa14851770cf13c47fdf191f777761005d087800b278b600a6056952552ea61264d18ea8b9bae7"),
    (21, "51a57658f6b00080026a210f0f280a8ccdb0970cee367dfcc227ac2d0b073cd38576154517b643a401addf6f00c5e760001cfbfbbd4d3b8b411a615c632b59f8"),
    (22, "604a43022eca248e8e69b9c2df4d9d917bd14720596d0a1f655544d4039fa994476d4b7010f50fe800feb66700d856090093f18d2845496f70d0f22a1f9df709"),
    (27, "ac844654454cd6d44d68b341eb0881a6e277b384457dcec96e363e1a2f94ca550e425748eb300c382093eb3d0036825600e6bf683f1c8ce65b5fc430c8d7105f"),
    (28, "bb2914fe7d66fae2da674bf4bb2d14aa90986398edb35ceba263d7c2342c3716cf398d73e46fd97b44e4c2340349f100005db5faaa149acb8a1554fe8449af70"),
    (29, "cacee1a8b4801ef06667e4a88a53a8af3eb912ac00eaea0d5f916f6937c3a4d69130c39eddaea5bea5349a2c035c60a900d4ab8c150ca7afb9cbe4cc3fbb4d81"),
    (34, "1608e5facc02d0352565dd27970d8bc4a55f7e1040faaeb8f47269af23b9c6975705d076b8e8a20fccc9ce020aba8cf6002779672ce4eb26a35ab6d2e9f566d6"),
    (35, "25adb2a4031cf443b16576da67321fc953802e24c2303cda319f01562d50335819fc06a1b1276e524f1aa6fa43cdfba0009e6ff997dcf80bd21047a0a46704e7"),
    (36, "3452804e3b3617513e640e8d3658b3cd01a1dd38a267c9fc7ccc99fe37e8a018daf33bcca9663b954f6b7df163e06a490015658c02d406ef01c6d76e60d9a3f8"),
    (41, "808c83a052b8c997fc62080d431296e268474a9ce9778da771ae934406ddc1daa1c848a485a138e501ffb2c7393e96972068346619ab4a66ec55a9740913bc4d"),
    (42, "8f31514a8ad1eda58962a0c012382ae71668f9b0d8ae1bc963db2ceb2e752e9a62bf7ed07ee00429bd5089bfac51054035df2af984a3574b1b0b3942c5845a5e"),
    (43, "6472d2f1662e786187aa0cded155409eba330c8637d8616943345830298a16f56fe9ce8b218f6111a6c8053b030e08dd03a91b89a305244e0c807dc9651e3c78"),
];

pub fn window(k: u32) -> Vec<u8> {
    let h = WINDOWS.iter().find(|x| x.0 == k).unwrap().1;
    (0..64).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// One 64 KiB block: a stamp that makes it unique, and optionally a window ending at `pos`.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Block {
    pub zeros: u32,
    pub pos: usize,
}
pub const BLOCK: usize = 1 << 16;

pub fn build(blocks: &[Block], tail: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(blocks.len() * BLOCK + tail);
    for (i, b) in blocks.iter().enumerate() {
        let at = v.len();
        v.resize(at + BLOCK, 0u8);
        for o in [8usize, 20_000, 32_760, 32_780, 50_000] {
            v[at + o..at + o + 4].copy_from_slice(&(i as u32 + 1).to_le_bytes());
        }
        if b.zeros > 0 {
            v[at + b.pos - 64..at + b.pos].copy_from_slice(&window(b.zeros));
        }
    }
    let at = v.len();
    v.resize(at + tail, 7u8);
    if tail > 4 {
        v[at] = 1;
        v[at + tail - 1] = 2;
    }
    v
}

#[derive(Clone, Debug)]
pub struct Input {
    pub id: String,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Blocks(Vec<Block>, usize),
    Pattern(usize, u64),
    Const(usize, u8),
    Bytes(Vec<u8>),
    /// the same window again and again
    Windows(u32, usize),
    /// period
    Periodic(usize, usize),
}
impl Input {
    pub fn data(&self) -> Vec<u8> {
        match &self.kind {
            Kind::Blocks(b, t) => build(b, *t),
            Kind::Pattern(n, s) => pattern(*n, *s),
            Kind::Const(n, b) => vec![*b; *n],
            Kind::Bytes(b) => b.clone(),
            Kind::Windows(k, n) => {
                let w = window(*k);
                (0..*n).map(|i| w[i % 64]).collect()
            }
            Kind::Periodic(p, n) => {
                let w = pattern(*p, 3);
                (0..*n).map(|i| w[i % p]).collect()
            }
        }
    }
}

pub fn pattern(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(n);
    v
}

fn blocks(id: &str, b: Vec<Block>, tail: usize) -> Input {
    let name: Vec<String> = b.iter().map(|x| if x.zeros == 0 { "-".into() } else { format!("{}@{}", x.zeros, x.pos) }).collect();
    Input { id: format!("{} [{}]+{}", id, name.join(" "), tail), kind: Kind::Blocks(b, tail) }
}

/// All block sequences up to a length over an alphabet of blocks.
pub fn sequences(alpha: &[Block], max: usize, tails: &[usize]) -> Vec<Input> {
    let mut out = Vec::new();
    let mut level: Vec<Vec<Block>> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &level {
            for a in alpha {
                let mut t = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        for s in &next {
            for &t in tails {
                out.push(blocks("seq", s.clone(), t));
            }
        }
        level = next;
    }
    out
}

pub fn alphabet(positions: &[usize], zeros: &[u32]) -> Vec<Block> {
    let mut a = vec![Block { zeros: 0, pos: 0 }];
    for &zeros in zeros {
        for &pos in positions {
            a.push(Block { zeros, pos });
        }
    }
    a
}

/// Files whose chunk lists reach the length limit of a level.
pub fn counted(ctx: &Ctx) -> Vec<Input> {
    let mut v = Vec::new();
    let counts: &[usize] = if ctx.quick() { &[511, 512, 513, 514, 515] } else { &[510, 511, 512, 513, 514, 515, 516, 1023, 1024, 1025, 1026, 1536, 1537] };
    for &n in counts {
        let levels: &[u32] = if ctx.quick() { &[0, 21, 28, 42] } else { &[0, 13, 21, 28, 35, 42] };
        for &z in levels {
            let tails: &[usize] = if ctx.quick() { &[0, 1] } else { &[0, 1, 40000] };
            for &t in tails {
                let mut i = blocks("n", vec![Block { zeros: z, pos: 100 }; 1], t);
                i.kind = Kind::Blocks(vec![Block { zeros: z, pos: 100 }; n], t);
                i.id = format!("{} blocks of {} zeros +{}", n, z, t);
                v.push(i);
            }
        }
        // a fold by count and a fold by hash at the same place
        for z in [28, 35, 42] {
            let mut b = vec![Block { zeros: 0, pos: 0 }; n];
            b[n - 1] = Block { zeros: z, pos: 100 };
            v.push(Input { id: format!("{} blocks then {} zeros", n, z), kind: Kind::Blocks(b, 1) });
        }
    }
    v
}

pub fn lengths(ctx: &Ctx) -> Vec<Input> {
    let mut ns: Vec<usize> = (0..=ctx.pick(130, 1100)).collect();
    for m in 1..=ctx.pick(16, 40) {
        for d in [0usize, 1, 2, 63, 64, 65] {
            ns.push(m * 16384 + d);
            ns.push(m * 16384 - d);
        }
    }
    for p in 8..=ctx.pick(20, 23) {
        for d in [0usize, 1] {
            ns.push((1 << p) + d);
            ns.push((1 << p) - d);
        }
    }
    ns.extend([1_000_000, 1_048_577, 1_500_000, 3_000_000]);
    ns.sort_unstable();
    ns.dedup();
    let mut v = Vec::new();
    for n in ns {
        v.push(Input { id: format!("pattern {}", n), kind: Kind::Pattern(n, 1) });
        if n % 3 == 1 || n > 16000 {
            v.push(Input { id: format!("zeros {}", n), kind: Kind::Const(n, 0) });
        }
        if n > 60 && n < 500_000 {
            for k in [13, 21, 42] {
                v.push(Input { id: format!("windows {} {}", k, n), kind: Kind::Windows(k, n) });
            }
        }
        if n > 30000 {
            v.push(Input { id: format!("0xff {}", n), kind: Kind::Const(n, 255) });
            v.push(Input { id: format!("pattern2 {}", n), kind: Kind::Pattern(n, 2) });
            v.push(Input { id: format!("period 32768 {}", n), kind: Kind::Periodic(32768, n) });
        }
    }
    for b in 0..=255u8 {
        v.push(Input { id: format!("byte {}", b), kind: Kind::Bytes(vec![b]) });
    }
    for (n, b) in [
        ("object", &b"\xa3\x64data\x40\x64keys\x80\x67objtype\x68FileBlob"[..]),
        ("tree", b"\xa3\x64data\x40\x64keys\x80\x67objtype\x6cFileBlobTree"),
        ("text", b"line\nline\r\n"),
        ("bad utf8", b"\xff\xfe\x00\xc0"),
    ] {
        v.push(Input { id: format!("bytes {}", n), kind: Kind::Bytes(b.to_vec()) });
    }
    v
}

pub fn all(ctx: &Ctx) -> Vec<Input> {
    let mut v = lengths(ctx);
    let z = [13, 20, 21, 27, 28, 34, 35, 41, 42];
    v.extend(sequences(&alphabet(&[100, 33_000, BLOCK], &z), ctx.pick(2, 3), &[0, 1]));
    v.extend(sequences(&alphabet(&[100], &[21, 28, 35, 42]), ctx.pick(4, 6), &[0]));
    v.extend(sequences(&alphabet(&[100], &[21, 28, 35, 42]), ctx.pick(3, 4), &[1, 32_767, 32_768, 40_000]));
    v.extend(counted(ctx));
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.id.clone()));
    v
}

// ---- readers -------------------------------------------------------------------------------

/// What a source answers to one read call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Answer {
    Full,
    /// at most this many bytes
    Short(usize),
    Interrupted,
    Fail(std::io::ErrorKind),
}

/// A source that gives the listed answers and then full ones.
pub struct Scripted<'a> {
    pub data: &'a [u8],
    pub script: &'a [(usize, Answer)],
    pub rest: Answer,
    pub calls: usize,
}
impl<'a> Scripted<'a> {
    pub fn new(data: &'a [u8], script: &'a [(usize, Answer)]) -> Self {
        Scripted { data, script, rest: Answer::Full, calls: 0 }
    }
}
impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        let a = self.script.iter().find(|x| x.0 == n).map(|x| x.1).unwrap_or(self.rest);
        let lim = match a {
            Answer::Full => buf.len(),
            Answer::Short(k) => k,
            Answer::Interrupted => return Err(std::io::ErrorKind::Interrupted.into()),
            Answer::Fail(k) => return Err(std::io::Error::new(k, "injected")),
        };
        let n = lim.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

pub fn mem() -> SqliteDS {
    SqliteDS::new(":memory:").expect("in-memory store")
}

/// Runs code of the library; a panic is an error.
pub fn guard<T>(what: &str, f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            Err(format!("{} panicked: {}", what, m))
        }
    }
}

pub fn put(ds: &mut SqliteDS, r: impl Read) -> Result<Key, String> {
    guard("put_data", || put_data(ds, r).map_err(|e| format!("put_data: {}", e)))
}
pub fn get(ds: &SqliteDS, k: Key) -> Result<Vec<u8>, String> {
    guard("read_data", || {
        let mut v = Vec::new();
        read_data(ds, k, &mut v).map_err(|e| format!("read_data: {}", e))?;
        Ok(v)
    })
}

/// The shape of what was stored: nesting and child counts.
pub fn shape(ds: &SqliteDS, k: Key) -> String {
    let Ok(o) = ds.get_obj(k) else { return "?".into() };
    if o.keys().is_empty() {
        return "b".into();
    }
    let mut kids: Vec<(String, usize)> = Vec::new();
    for k in o.keys() {
        let s = shape(ds, *k);
        match kids.last_mut() {
            Some((l, n)) if *l == s => *n += 1,
            _ => kids.push((s, 1)),
        }
    }
    format!("({})", kids.iter().map(|(s, n)| if *n > 1 { format!("{}*{}", n, s) } else { s.clone() }).collect::<Vec<_>>().join(" "))
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} and {}, first difference at {}", a.len(), b.len(), i)
}
