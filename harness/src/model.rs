//! The reference model: contents, canonical trees, encodings and hashes written
//! from the Ethereum specification, without any code of the library under test.

use std::collections::BTreeMap;

use ethereum_types::{H256, U512};
use sut::{
    nibbles::Nibbles,
    partial_trie::{Node, PartialTrie},
    trie_ops::ValOrHash,
    Sut,
};
use tiny_keccak::{Hasher, Keccak};

pub type Key = Vec<u8>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ent {
    Val(Vec<u8>),
    Hash([u8; 32]),
}

impl Ent {
    pub fn voh(&self) -> ValOrHash {
        match self {
            Ent::Val(v) => ValOrHash::Val(v.clone()),
            Ent::Hash(h) => ValOrHash::Hash(H256(*h)),
        }
    }
    pub fn from_voh(v: &ValOrHash) -> Ent {
        match v {
            ValOrHash::Val(v) => Ent::Val(v.clone()),
            ValOrHash::Hash(h) => Ent::Hash(h.0),
        }
    }
}

pub type Map = BTreeMap<Key, Ent>;

/// A reference tree.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum R {
    Empty,
    Hash([u8; 32]),
    Branch(Vec<R>, Vec<u8>),
    Ext(Key, Box<R>),
    Leaf(Key, Vec<u8>),
}

pub fn keccak(b: &[u8]) -> [u8; 32] {
    let mut k = Keccak::v256();
    let mut out = [0; 32];
    k.update(b);
    k.finalize(&mut out);
    out
}

// ---------------------------------------------------------------- nibbles

pub fn nib(k: &[u8]) -> Nibbles {
    let mut packed = U512::zero();
    for n in k {
        packed = (packed << 4) | U512::from(*n);
    }
    Nibbles {
        count: k.len(),
        packed,
    }
}

/// Reads the nibbles back, refusing bits outside of the sequence.
pub fn unnib_checked(n: &Nibbles) -> Result<Key, String> {
    if n.count > 128 {
        return Err(format!("nibble count {} is impossible", n.count));
    }
    let mut out = Vec::with_capacity(n.count);
    let mut p = n.packed;
    for _ in 0..n.count {
        out.push((p.low_u32() & 0xf) as u8);
        p = p >> 4;
    }
    if !p.is_zero() {
        return Err(format!(
            "bits outside of the {} nibbles are set: {:#x}",
            n.count, n.packed
        ));
    }
    out.reverse();
    Ok(out)
}

pub fn unnib(n: &Nibbles) -> Key {
    match unnib_checked(n) {
        Ok(k) => k,
        // Never equal to a real key.
        Err(_) => vec![0xff; 65],
    }
}

pub fn hexk(k: &[u8]) -> String {
    let mut s = String::from("0x");
    for n in k {
        if *n < 16 {
            s.push(char::from_digit(*n as u32, 16).unwrap());
        } else {
            s.push('?');
        }
    }
    s
}

pub fn hexb(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 40 {
        hexb(b)
    } else {
        format!("{}..[{} bytes]", hexb(&b[..16]), b.len())
    }
}

pub fn is_prefix(p: &[u8], k: &[u8]) -> bool {
    k.len() >= p.len() && &k[..p.len()] == p
}

// ---------------------------------------------------------------- encoding

pub fn hex_prefix(k: &[u8], leaf: bool) -> Vec<u8> {
    let f = if leaf { 2 } else { 0 };
    let mut out = Vec::with_capacity(k.len() / 2 + 1);
    let rest = if k.len() % 2 == 1 {
        out.push(((f + 1) << 4) | k[0]);
        &k[1..]
    } else {
        out.push(f << 4);
        k
    };
    for c in rest.chunks(2) {
        out.push((c[0] << 4) | c[1]);
    }
    out
}

fn rlp_len(n: usize, base: u8, out: &mut Vec<u8>) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let be: Vec<u8> = n
            .to_be_bytes()
            .into_iter()
            .skip_while(|b| *b == 0)
            .collect();
        out.push(base + 55 + be.len() as u8);
        out.extend(be);
    }
}

pub fn rlp_str(b: &[u8], out: &mut Vec<u8>) {
    if b.len() == 1 && b[0] < 0x80 {
        out.push(b[0]);
    } else {
        rlp_len(b.len(), 0x80, out);
        out.extend_from_slice(b);
    }
}

fn rlp_list(payload: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(payload.len() + 5);
    rlp_len(payload.len(), 0xc0, &mut out);
    out.extend_from_slice(payload);
    out
}

/// How a node is referenced by its parent, and its hash when it is a root.
pub struct Enc {
    pub reference: Vec<u8>,
    pub hash: [u8; 32],
    pub len: usize,
}

impl R {
    pub fn enc(&self) -> Enc {
        self.enc_visit(&mut |_, _| ())
    }

    /// Encodes the tree and reports the encoding of all nodes, children first.
    pub fn enc_visit<'a>(&'a self, f: &mut dyn FnMut(&'a R, &Enc)) -> Enc {
        let raw = match self {
            R::Empty => vec![0x80],
            R::Hash(h) => {
                let mut reference = vec![0xa0];
                reference.extend(h);
                let e = Enc {
                    reference,
                    hash: *h,
                    len: 32,
                };
                f(self, &e);
                return e;
            }
            R::Branch(c, v) => {
                let mut p = Vec::with_capacity(600);
                for x in c {
                    if let R::Empty = x {
                        p.push(0x80);
                    } else {
                        p.extend(x.enc_visit(f).reference);
                    }
                }
                rlp_str(v, &mut p);
                rlp_list(&p)
            }
            R::Ext(k, c) => {
                let mut p = vec![];
                rlp_str(&hex_prefix(k, false), &mut p);
                p.extend(c.enc_visit(f).reference);
                rlp_list(&p)
            }
            R::Leaf(k, v) => {
                let mut p = vec![];
                rlp_str(&hex_prefix(k, true), &mut p);
                rlp_str(v, &mut p);
                rlp_list(&p)
            }
        };
        let hash = keccak(&raw);
        let len = raw.len();
        let reference = if len < 32 {
            raw
        } else {
            let mut r = vec![0xa0];
            r.extend(hash);
            r
        };
        let e = Enc {
            reference,
            hash,
            len,
        };
        f(self, &e);
        e
    }

    pub fn hash(&self) -> [u8; 32] {
        self.enc().hash
    }

    pub fn kind(&self) -> &'static str {
        match self {
            R::Empty => "Empty",
            R::Hash(_) => "Hash",
            R::Branch(..) => "Branch",
            R::Ext(..) => "Extension",
            R::Leaf(..) => "Leaf",
        }
    }

    pub fn piece(&self) -> &[u8] {
        match self {
            R::Ext(k, _) | R::Leaf(k, _) => k,
            _ => &[],
        }
    }

    pub fn get(&self, k: &[u8]) -> Option<&[u8]> {
        match self {
            R::Empty | R::Hash(_) => None,
            R::Branch(c, v) => match k.split_first() {
                None => (!v.is_empty()).then_some(v),
                Some((n, r)) => c[*n as usize].get(r),
            },
            R::Ext(p, c) => {
                if is_prefix(p, k) {
                    c.get(&k[p.len()..])
                } else {
                    None
                }
            }
            R::Leaf(p, v) => (p == k).then_some(v),
        }
    }

    /// All entries, by walking the tree.
    pub fn entries(&self) -> Map {
        let mut m = Map::new();
        self.entries_rec(&mut vec![], &mut m);
        m
    }

    fn entries_rec(&self, at: &mut Key, m: &mut Map) {
        match self {
            R::Empty => (),
            R::Hash(h) => {
                m.insert(at.clone(), Ent::Hash(*h));
            }
            R::Branch(c, v) => {
                if !v.is_empty() {
                    m.insert(at.clone(), Ent::Val(v.clone()));
                }
                for (i, x) in c.iter().enumerate() {
                    at.push(i as u8);
                    x.entries_rec(at, m);
                    at.pop();
                }
            }
            R::Ext(k, c) => {
                let l = at.len();
                at.extend(k);
                c.entries_rec(at, m);
                at.truncate(l);
            }
            R::Leaf(k, v) => {
                let mut kk = at.clone();
                kk.extend(k);
                m.insert(kk, Ent::Val(v.clone()));
            }
        }
    }

    /// Calls `f` with the position of every non-empty node.
    pub fn visit<'a>(&'a self, at: &mut Key, depth: usize, f: &mut dyn FnMut(&'a R, &Key, usize)) {
        if let R::Empty = self {
            return;
        }
        f(self, at, depth);
        match self {
            R::Branch(c, _) => {
                for (i, x) in c.iter().enumerate() {
                    at.push(i as u8);
                    x.visit(at, depth + 1, f);
                    at.pop();
                }
            }
            R::Ext(k, c) => {
                let l = at.len();
                at.extend(k);
                c.visit(at, depth + 1, f);
                at.truncate(l);
            }
            _ => (),
        }
    }

    /// The node at exactly this position.
    pub fn at(&self, k: &[u8]) -> Option<&R> {
        if k.is_empty() {
            return Some(self);
        }
        match self {
            R::Branch(c, _) => c[k[0] as usize].at(&k[1..]),
            R::Ext(p, c) if is_prefix(p, k) => c.at(&k[p.len()..]),
            _ => None,
        }
    }

    pub fn at_mut(&mut self, k: &[u8]) -> Option<&mut R> {
        if k.is_empty() {
            return Some(self);
        }
        match self {
            R::Branch(c, _) => c[k[0] as usize].at_mut(&k[1..]),
            R::Ext(p, c) if is_prefix(p, k) => {
                let l = p.len();
                c.at_mut(&k[l..])
            }
            _ => None,
        }
    }

    /// Builds the real thing with exactly this structure.
    pub fn build<T: Sut>(&self) -> T {
        T::s_new(match self {
            R::Empty => Node::Empty,
            R::Hash(h) => Node::Hash(H256(*h)),
            R::Branch(c, v) => {
                let ch: Vec<std::sync::Arc<Box<T>>> = c
                    .iter()
                    .map(|x| std::sync::Arc::new(Box::new(x.build::<T>())))
                    .collect();
                Node::Branch {
                    children: match ch.try_into() {
                        Ok(c) => c,
                        Err(_) => unreachable!(),
                    },
                    value: v.clone(),
                }
            }
            R::Ext(k, c) => Node::Extension {
                nibbles: nib(k),
                child: std::sync::Arc::new(Box::new(c.build::<T>())),
            },
            R::Leaf(k, v) => Node::Leaf {
                nibbles: nib(k),
                value: v.clone(),
            },
        })
    }

    pub fn show(&self) -> String {
        match self {
            R::Empty => "-".into(),
            R::Hash(h) => format!("#{}", hexb(&h[..4])),
            R::Leaf(k, v) => format!("L({},{})", hexk(k), short(v)),
            R::Ext(k, c) => format!("E({},{})", hexk(k), c.show()),
            R::Branch(c, v) => {
                let mut s = String::from("B[");
                for (i, x) in c.iter().enumerate() {
                    if *x != R::Empty {
                        s.push_str(&format!("{:x}:{} ", i, x.show()));
                    }
                }
                s.push_str(&format!("|{}]", short(v)));
                s
            }
        }
    }

    pub fn count_nodes(&self) -> usize {
        let mut n = 0;
        self.visit(&mut vec![], 0, &mut |_, _, _| n += 1);
        n
    }
}

pub fn empty_children() -> Vec<R> {
    vec![R::Empty; 16]
}

/// The canonical tree for the given contents.
pub fn canonical(m: &Map) -> R {
    let e: Vec<(&[u8], &Ent)> = m.iter().map(|(k, v)| (k.as_slice(), v)).collect();
    canon(&e, 0)
}

fn canon(e: &[(&[u8], &Ent)], d: usize) -> R {
    match e {
        [] => R::Empty,
        [(k, Ent::Val(v))] => R::Leaf(k[d..].to_vec(), v.clone()),
        [(k, Ent::Hash(h))] => match k.len() == d {
            true => R::Hash(*h),
            false => R::Ext(k[d..].to_vec(), Box::new(R::Hash(*h))),
        },
        _ => {
            let (a, b) = (e[0].0, e[e.len() - 1].0);
            let cp = a[d..]
                .iter()
                .zip(&b[d..])
                .take_while(|(x, y)| x == y)
                .count();
            if cp > 0 {
                return R::Ext(a[d..d + cp].to_vec(), Box::new(canon(e, d + cp)));
            }
            let mut rest = e;
            let mut value = vec![];
            if a.len() == d {
                match e[0].1 {
                    Ent::Val(v) => value = v.clone(),
                    Ent::Hash(_) => unreachable!("model: entries below a hash entry"),
                }
                rest = &e[1..];
            }
            let mut c = empty_children();
            while let Some((k, _)) = rest.first() {
                let n = k[d];
                let end = rest
                    .iter()
                    .position(|(k, _)| k[d] != n)
                    .unwrap_or(rest.len());
                c[n as usize] = canon(&rest[..end], d + 1);
                rest = &rest[end..];
            }
            R::Branch(c, value)
        }
    }
}

/// Reads the structure of a real trie.
pub fn read<T: PartialTrie>(n: &Node<T>) -> R {
    match n {
        Node::Empty => R::Empty,
        Node::Hash(h) => R::Hash(h.0),
        Node::Branch { children, value } => {
            R::Branch(children.iter().map(|c| read(c)).collect(), value.clone())
        }
        Node::Extension { nibbles, child } => R::Ext(unnib(nibbles), Box::new(read(child))),
        Node::Leaf { nibbles, value } => R::Leaf(unnib(nibbles), value.clone()),
    }
}

/// Order of iteration: a key comes after all keys that extend it.
pub fn iter_order(m: &Map) -> Vec<(Key, Ent)> {
    let mut v: Vec<(Key, Ent)> = m.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    v.sort_by(|a, b| {
        a.0.iter()
            .chain(&[16])
            .cmp(b.0.iter().chain(&[16]))
    });
    v
}

pub fn show_map(m: &Map) -> String {
    let mut s = String::from("{");
    for (k, e) in m.iter().take(40) {
        match e {
            Ent::Val(v) => s.push_str(&format!("{}={} ", hexk(k), short(v))),
            Ent::Hash(h) => s.push_str(&format!("{}=#{} ", hexk(k), hexb(&h[..4]))),
        }
    }
    if m.len() > 40 {
        s.push_str(&format!("..({} entries)", m.len()));
    }
    s.push('}');
    s
}

// ------------------------------------------------- which operations are refused

/// A hash entry that the key reaches or continues past.
pub fn meets_hash(m: &Map, k: &[u8]) -> bool {
    (0..=k.len()).any(|l| matches!(m.get(&k[..l]), Some(Ent::Hash(_))))
}

pub fn insert_refused(m: &Map, k: &[u8], e: &Ent) -> bool {
    if meets_hash(m, k) {
        return true;
    }
    match e {
        Ent::Val(_) => false,
        Ent::Hash(_) => m
            .range(k.to_vec()..)
            .next()
            .map_or(false, |(x, _)| is_prefix(k, x)),
    }
}
