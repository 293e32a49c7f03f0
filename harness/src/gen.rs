//! Random choices. All of them are drawn from a tape, so that a case can be
//! replayed, mutated and shrunk.

use std::rc::Rc;

use crate::{cov, model::*};

/// Numbers and byte strings that occur in the source under test.
#[derive(Default)]
pub struct Dict {
    pub nums: Vec<u32>,
    pub blobs: Vec<Vec<u8>>,
}

impl Dict {
    pub fn load(dir: &str) -> Dict {
        let mut d = Dict::default();
        let mut todo = vec![std::path::PathBuf::from(dir)];
        while let Some(p) = todo.pop() {
            let Ok(rd) = std::fs::read_dir(&p) else {
                continue;
            };
            let mut entries: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            entries.sort();
            for e in entries {
                if e.is_dir() {
                    todo.push(e);
                } else if e.extension().map_or(false, |x| x == "rs") {
                    if let Ok(s) = std::fs::read_to_string(&e) {
                        // Leave out the unit tests.
                        let s = s.split("#[cfg(test)]\nmod tests").next().unwrap_or("");
                        d.scan(s);
                    }
                }
            }
        }
        d.nums.sort();
        d.nums.dedup();
        d.blobs.sort();
        d.blobs.dedup();
        d
    }

    fn num(&mut self, v: u128) {
        if v <= u32::MAX as u128 {
            let v = v as u32;
            self.nums.push(v);
            self.nums.push(v.wrapping_add(1));
            self.nums.push(v.wrapping_sub(1));
        }
        if v > 255 {
            let be: Vec<u8> = v
                .to_be_bytes()
                .into_iter()
                .skip_while(|b| *b == 0)
                .collect();
            self.blobs.push(be);
        }
    }

    fn scan(&mut self, s: &str) {
        let b = s.as_bytes();
        let mut i = 0;
        let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        while i < b.len() {
            if b[i] == b'/' && b.get(i + 1) == Some(&b'/') {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            } else if b[i] == b'"' {
                let start = i + 1;
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                let lit = &b[start.min(b.len())..i.min(b.len())];
                if !lit.is_empty() && lit.len() <= 32 {
                    self.blobs.push(lit.to_vec());
                    let t = std::str::from_utf8(lit).unwrap_or("");
                    let t = t.strip_prefix("0x").unwrap_or(t);
                    if let Ok(v) = u128::from_str_radix(t, 16) {
                        self.num(v);
                    }
                }
                i += 1;
            } else if b[i].is_ascii_digit() && (i == 0 || !ident(b[i - 1])) {
                let start = i;
                while i < b.len() && ident(b[i]) {
                    i += 1;
                }
                let t: String = s[start..i].chars().filter(|c| *c != '_').collect();
                let (t, radix) = if let Some(x) = t.strip_prefix("0x") {
                    (x.to_string(), 16)
                } else if let Some(x) = t.strip_prefix("0b") {
                    (x.to_string(), 2)
                } else {
                    (t.clone(), 10)
                };
                // Type suffixes.
                let t = t
                    .trim_end_matches("usize")
                    .trim_end_matches("u128")
                    .trim_end_matches("u64")
                    .trim_end_matches("u32")
                    .trim_end_matches("u16")
                    .trim_end_matches("u8");
                if let Ok(v) = u128::from_str_radix(t, radix) {
                    self.num(v);
                }
            } else {
                i += 1;
            }
        }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x1234_5678_9abc_def1) | 1)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 33) as usize % n.max(1)
    }
}

pub fn mix(z: u64) -> u64 {
    let z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub const MAX_TAPE: usize = 60_000;

pub struct Gen {
    tape: Vec<u32>,
    pos: usize,
    rng: Rng,
    pub out: Vec<u32>,
    dict: Rc<Dict>,
    next_id: u32,
    /// Do not use what was observed at run time.
    pub plain: bool,
}

impl Gen {
    pub fn new(tape: Vec<u32>, seed: u64, dict: Rc<Dict>) -> Gen {
        Gen {
            tape,
            pos: 0,
            rng: Rng::new(seed),
            out: vec![],
            dict,
            next_id: 0,
            plain: false,
        }
    }

    fn put(&mut self, v: u32) -> u32 {
        self.pos += 1;
        if self.out.len() < MAX_TAPE {
            self.out.push(v);
        }
        v
    }

    pub fn raw(&mut self) -> u32 {
        let v = match self.tape.get(self.pos) {
            Some(v) => *v,
            None => (self.rng.next() >> 32) as u32,
        };
        self.put(v)
    }

    /// A number that occurs in the code under test.
    pub fn dict_num(&mut self) -> u32 {
        let v = match self.tape.get(self.pos) {
            Some(v) => *v,
            None => {
                let r = self.rng.next();
                let from_src = if self.dict.nums.is_empty() {
                    None
                } else {
                    Some(self.dict.nums[(r >> 8) as usize % self.dict.nums.len()])
                };
                let seen = cov::observed_const((r >> 40) as u32)
                    .filter(|v| *v <= u32::MAX as u64 && !self.plain)
                    .map(|v| {
                        (v as u32)
                            .wrapping_add((r as u32 & 0xf0 == 0) as u32)
                            .wrapping_sub((r as u32 & 0xf0 == 0x10) as u32)
                    });
                match r & 1 {
                    0 => from_src.or(seen),
                    _ => seen.or(from_src),
                }
                .unwrap_or((r >> 32) as u32)
            }
        };
        self.put(v)
    }

    pub fn dict_blob(&mut self) -> Vec<u8> {
        let r = self.raw();
        if self.dict.blobs.is_empty() {
            return r.to_be_bytes().to_vec();
        }
        self.dict.blobs[r as usize % self.dict.blobs.len()].clone()
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.raw() as usize % n.max(1)
    }
    pub fn range(&mut self, a: usize, b_incl: usize) -> usize {
        a + self.below(b_incl - a + 1)
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }

    /// A length in 0..=max, with boundaries and numbers of the code preferred.
    pub fn len(&mut self, max: usize) -> usize {
        let l = match self.below(10) {
            0..=2 => self.below(max.min(4) + 1),
            3..=5 => self.below(max + 1),
            6 => max - self.below(max.min(3) + 1),
            7 => *self.pick(&[
                0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 55, 56, 62, 63, 64,
            ]),
            _ => self.dict_num() as usize,
        };
        if l > max {
            l % (max + 1)
        } else {
            l
        }
    }

    pub fn nibble(&mut self) -> u8 {
        match self.below(8) {
            0 => 0,
            1 => 15,
            2 => (self.dict_num() & 15) as u8,
            _ => self.below(16) as u8,
        }
    }

    pub fn byte(&mut self) -> u8 {
        match self.below(8) {
            0 => 0,
            1 => *self.pick(&[0x7f, 0x80, 0x81, 0xff, 0xb7, 0xb8, 0xc0, 0xf8, 1]),
            2 => self.dict_num() as u8,
            _ => self.raw() as u8,
        }
    }

    pub fn nibbles_of_len(&mut self, l: usize) -> Key {
        let style = self.below(8);
        let seed = self.raw();
        let mut r = Rng::new(seed as u64);
        let mut k: Key = match style {
            0 => vec![0; l],
            1 => vec![15; l],
            2 => (0..l).map(|_| (r.next() & 1) as u8).collect(),
            3 => {
                // Leading zeros.
                let z = r.below(l + 1);
                (0..l)
                    .map(|i| if i < z { 0 } else { (r.next() >> 20 & 15) as u8 })
                    .collect()
            }
            4 => {
                // Trailing zeros.
                let z = r.below(l + 1);
                (0..l)
                    .map(|i| if i < z { (r.next() >> 20 & 15) as u8 } else { 0 })
                    .collect()
            }
            _ => (0..l).map(|_| (r.next() >> 20 & 15) as u8).collect(),
        };
        if l > 0 && style == 7 {
            let b = self.dict_blob();
            let at = r.below(l);
            for (i, x) in b.iter().enumerate() {
                for (j, n) in [x >> 4, x & 15].into_iter().enumerate() {
                    if let Some(t) = k.get_mut(at + 2 * i + j) {
                        *t = n;
                    }
                }
            }
        }
        k
    }

    pub fn any_key(&mut self) -> Key {
        let l = self.len(64);
        self.nibbles_of_len(l)
    }

    pub fn bytes(&mut self, l: usize) -> Vec<u8> {
        let style = self.below(10);
        let seed = self.raw();
        let mut r = Rng::new(seed as u64);
        let mut v: Vec<u8> = match style {
            0 => vec![0; l],
            1 => vec![0xff; l],
            2 => vec![seed as u8; l],
            _ => {
                let mut v = Vec::with_capacity(l + 8);
                while v.len() < l {
                    v.extend(r.next().to_le_bytes());
                }
                v.truncate(l);
                v
            }
        };
        if style == 3 && l > 0 {
            v[0] = self.byte();
        }
        if style == 4 && l > 0 {
            let b = self.dict_blob();
            let at = if seed & 1 == 0 { 0 } else { r.below(l) };
            for (i, x) in b.iter().enumerate() {
                if let Some(t) = v.get_mut(at + i) {
                    *t = *x;
                }
            }
        }
        v
    }

    pub fn value_len(&mut self) -> usize {
        match self.below(24) {
            0..=3 => 1,
            4..=6 => self.range(1, 8),
            7..=10 => self.range(20, 36),
            11..=12 => *self.pick(&[1, 2, 31, 32, 33, 54, 55, 56, 57, 254, 255, 256, 257]),
            13 => (self.dict_num() as usize % 600).max(1),
            14 if self.pct(10) => *self.pick(&[65534, 65535, 65536, 65537, 4096]),
            14 | 15 => self.range(1, 300),
            16 if self.pct(20) => (self.dict_num() as usize % 70_000).max(1),
            _ => self.range(1, 64),
        }
    }

    /// A non-empty value, mostly unique within the case.
    pub fn value(&mut self) -> Vec<u8> {
        let l = self.value_len();
        let mut v = self.bytes(l);
        self.next_id += 1;
        if l >= 6 && self.pct(70) {
            let at = l - 4;
            v[at..].copy_from_slice(&self.next_id.to_be_bytes());
        }
        v
    }

    /// Almost the given value: one bit, one byte at the end or nothing is different.
    pub fn near(&mut self, old: &[u8]) -> Vec<u8> {
        let mut v = old.to_vec();
        match self.below(10) {
            0 => v.push(self.byte()),
            1 if v.len() > 1 => {
                v.pop();
            }
            2 => (),
            _ if !v.is_empty() => {
                let at = self.below(v.len());
                v[at] ^= 1 << self.below(8);
            }
            _ => v.push(1),
        }
        v
    }

    /// A value for a key that holds `old` now: sometimes almost the same one.
    pub fn value_over(&mut self, old: Option<Vec<u8>>) -> Vec<u8> {
        match old {
            Some(v) if self.pct(30) => self.near(&v),
            _ => self.value(),
        }
    }

    pub fn hash32(&mut self) -> [u8; 32] {
        let s = self.u64();
        match s & 15 {
            0 => [0; 32],
            1 => [0xff; 32],
            // The hash of an empty trie, and that of an empty string.
            2 => keccak(&[0x80]),
            3 => keccak(&[]),
            _ => keccak(&s.to_be_bytes()),
        }
    }
}

/// Keys of one case, related to each other.
pub struct Keys {
    mode: usize,
    base: Key,
    fixed: usize,
    pub pool: Vec<Key>,
}

impl Keys {
    pub fn new(g: &mut Gen) -> Keys {
        let mode = g.below(8);
        let base = if mode == 3 {
            let l = g.len(63);
            g.nibbles_of_len(l)
        } else {
            vec![]
        };
        let fixed = g.len(64);
        Keys {
            mode,
            base,
            fixed,
            pool: vec![],
        }
    }

    pub fn fresh(&mut self, g: &mut Gen) -> Key {
        let mut k = match self.mode {
            0 => {
                let l = g.below(5);
                (0..l).map(|_| g.below(2) as u8).collect()
            }
            1 => {
                let l = g.below(4);
                (0..l).map(|_| g.nibble()).collect()
            }
            2 => {
                let s = g.raw();
                keccak(&s.to_be_bytes())
                    .iter()
                    .flat_map(|b| [b >> 4, b & 15])
                    .collect()
            }
            3 => {
                let mut k = self.base.clone();
                let l = g.below((64 - k.len()).min(4) + 1);
                k.extend((0..l).map(|_| g.nibble()));
                k
            }
            5 => g.nibbles_of_len(self.fixed),
            6 => {
                let l = g.below(33) * 2;
                g.nibbles_of_len(l)
            }
            _ => g.any_key(),
        };
        k.truncate(64);
        k
    }

    /// A key for a write: new keys are remembered.
    pub fn write_key(&mut self, g: &mut Gen) -> Key {
        let k = self.any(g);
        if self.pool.len() < 4096 {
            self.pool.push(k.clone());
        }
        k
    }

    /// A key that is, or is close to, one used before.
    pub fn any(&mut self, g: &mut Gen) -> Key {
        if self.pool.is_empty() {
            return self.fresh(g);
        }
        let how = g.below(20);
        if how >= 15 {
            return self.fresh(g);
        }
        let i = g.below(self.pool.len());
        let mut k = self.pool[i].clone();
        match how {
            0..=6 => (),
            7 | 8 => {
                let c = g.below(k.len() + 1);
                k.truncate(c);
            }
            9 | 10 => {
                let n = if g.pct(80) { 1 } else { g.len(64) };
                for _ in 0..n {
                    if k.len() < 64 {
                        k.push(g.nibble());
                    }
                }
            }
            11 | 12 if !k.is_empty() => {
                let c = g.below(k.len());
                k[c] = (k[c] + 1 + g.below(15) as u8) & 15;
            }
            13 if !k.is_empty() => {
                let c = g.below(k.len());
                k[c] = (k[c] + 1 + g.below(15) as u8) & 15;
                k.truncate(c + 1);
                let n = g.len(63 - c);
                let t = g.nibbles_of_len(n);
                k.extend(t);
            }
            14 if !k.is_empty() => {
                // Sibling in the last place.
                let l = k.len() - 1;
                k[l] = g.nibble();
            }
            _ => k = self.fresh(g),
        }
        k
    }
}

/// How many operations a history gets.
pub fn history_len(g: &mut Gen) -> usize {
    match g.below(100) {
        0..=44 => g.range(1, 10),
        45..=84 => g.range(5, 50),
        85..=97 => g.range(30, 150),
        98 => g.range(100, 500),
        _ => g.range(100, 1500),
    }
}
