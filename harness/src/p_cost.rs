//! C22: the cost of updates, hashing and clones, and memory that is not released.

use sut::{
    partial_trie::{HashedPartialTrie, Node, StandardTrie},
    trie_ops::ValOrHash,
    Format, Sut,
};

use crate::{
    alloc, cov, ensure,
    engine::{Prop, Sys},
    gen::*,
    model::*,
    obs::Obs,
};

type H = HashedPartialTrie;

/// Number of nodes on the path of a key.
fn path_len<T: Sut>(t: &T, k: &[u8]) -> u64 {
    let mut cur: &T = t;
    let mut k = k;
    let mut n = 1;
    loop {
        match &**cur {
            Node::Branch { children, .. } => match k.split_first() {
                Some((i, rest)) => {
                    cur = &children[*i as usize];
                    k = rest;
                }
                None => return n,
            },
            Node::Extension { nibbles, child } => {
                let p = unnib(nibbles);
                if !is_prefix(&p, k) {
                    return n;
                }
                k = &k[p.len()..];
                cur = child;
            }
            _ => return n,
        }
        n += 1;
    }
}

/// What an operation has cost.
#[derive(Clone, Copy, Debug)]
struct Cost {
    allocs: u64,
    bytes: u64,
    steps: u64,
}

fn cost<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let s = cov::steps();
    let (r, u) = alloc::measure(f);
    let steps = cov::steps().wrapping_sub(s);
    (
        r,
        Cost {
            allocs: u.count,
            bytes: u.bytes,
            steps,
        },
    )
}

/// Generous: several times of what is needed per node, with 16 children each,
/// and much less than a walk over all nodes of the tries used.
const ALLOCS: u64 = 80;
const BYTES: u64 = 16_000;
const STEPS: u64 = 4_000;

fn bounded(what: &str, c: Cost, nodes: u64, extra_bytes: u64, o: &mut Obs) -> Result<(), String> {
    o.count(&format!("{what}_measured"), 1);
    o.max(&format!("{what}_allocations_per_node"), c.allocs / nodes);
    o.max(&format!("{what}_bytes_per_node"), c.bytes.saturating_sub(extra_bytes) / nodes);
    o.max(&format!("{what}_steps_per_node"), c.steps / nodes);
    let n = nodes + 2;
    ensure!(
        c.allocs <= ALLOCS * n && c.bytes <= BYTES * n + extra_bytes && c.steps <= STEPS * n,
        "{what} with {nodes} nodes on the path took {} allocations, {} bytes and {} steps, more than {}, {} and {}",
        c.allocs,
        c.bytes,
        c.steps,
        ALLOCS * n,
        BYTES * n + extra_bytes,
        STEPS * n
    );
    Ok(())
}

const SHAPES: usize = 5;

fn key_of(r: &mut Rng, shape: usize, i: usize) -> Key {
    match shape {
        // Hashed keys.
        0 => (0..64).map(|_| (r.next() >> 60) as u8).collect(),
        // Numbers in sequence.
        1 => {
            let mut k = vec![0; 56];
            k.extend((0..8).rev().map(|s| (i >> (4 * s) & 15) as u8));
            k
        }
        // Short keys of different lengths, which are prefixes of each other.
        2 => {
            let l = 2 + r.below(5);
            (0..l).map(|_| (r.next() >> 60) as u8).collect()
        }
        // Groups below long common prefixes.
        3 => {
            let mut k = vec![(i % 16) as u8; 20];
            k.extend((0..20).map(|_| (r.next() >> 60) as u8));
            k
        }
        // Few different digits: deep.
        _ => (0..40).map(|_| (r.next() >> 63) as u8).collect(),
    }
}

fn value_of(r: &mut Rng) -> Vec<u8> {
    let l = 32 + r.below(64);
    let b = r.next() as u8;
    let mut v = vec![b; l];
    v[..8].copy_from_slice(&r.next().to_be_bytes());
    v
}

fn filled<T: Sut>(r: &mut Rng, shape: usize, n: usize) -> (T, Vec<Key>) {
    let mut t = T::default();
    let mut keys = vec![];
    for i in 0..n {
        let k = key_of(r, shape, i);
        t.s_insert(nib(&k), ValOrHash::Val(value_of(r)));
        keys.push(k);
    }
    (t, keys)
}

fn hash_cost(t: &H, nodes: u64, what: &str, o: &mut Obs) -> Result<(), String> {
    let (_, c) = cost(|| t.s_hash());
    bounded(what, c, nodes, 0, o)
}

fn costs<T: Sut>(seed: u64, shape: usize, size: usize, rounds: usize, o: &mut Obs) -> Result<T, String> {
    let mut r = Rng::new(seed);
    let (mut t, mut keys) = filled::<T>(&mut r, shape, size);
    o.max("entries", size as u64);
    // A clone that shares all nodes, or none.
    for round in 0..rounds {
        let mut kept = None;
        let shared = round % 3;
        if shared > 0 {
            let (c, k) = cost(|| t.clone());
            bounded("clone", k, 1, 0, o)?;
            kept = Some(c);
        }
        let i = r.below(keys.len());
        let old = keys[i].clone();
        let before = path_len(&t, &old);
        match r.below(4) {
            0 => {
                // Change a value.
                let v = value_of(&mut r);
                let extra = 4 * v.len() as u64;
                let (_, c) = cost(|| t.s_insert(nib(&old), ValOrHash::Val(v)));
                bounded("update", c, before, extra, o)?;
            }
            1 => {
                let mut k = key_of(&mut r, shape, size + round);
                if r.below(3) == 0 {
                    // Close to another key.
                    k = old.clone();
                    let l = k.len();
                    k[l - 1 - r.below(l.min(8))] ^= 1;
                }
                let v = value_of(&mut r);
                let extra = 4 * v.len() as u64;
                let n = path_len(&t, &k);
                let (_, c) = cost(|| t.s_insert(nib(&k), ValOrHash::Val(v)));
                bounded("insert", c, n.max(path_len(&t, &k)), extra, o)?;
                keys.push(k);
            }
            2 if keys.len() > size / 2 => {
                let (_, c) = cost(|| t.s_delete(nib(&old)));
                bounded("delete", c, before, 400, o)?;
                keys.swap_remove(i);
            }
            _ => {
                // An absent key.
                let mut k = old.clone();
                let l = k.len();
                k[l - 1 - r.below(l)] ^= 1;
                let n = path_len(&t, &k);
                let (_, c) = cost(|| t.s_delete(nib(&k)));
                bounded("delete", c, n, 400, o)?;
            }
        }
        let (_, c) = cost(|| std::hint::black_box(t.s_get(nib(&old)).is_some()));
        bounded("lookup", c, before, 0, o)?;
        o.state(&(seed, shape, size, round));
        if let Some(k) = kept {
            if round % 2 == 0 {
                drop(std::mem::replace(&mut t, k));
            }
        }
    }
    Ok(t)
}

fn rehash(seed: u64, shape: usize, size: usize, rounds: usize, o: &mut Obs) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let (mut t, mut keys) = filled::<H>(&mut r, shape, size);
    let (h, full) = cost(|| t.s_hash());
    o.max("first_hash_allocations", full.allocs);
    o.max("first_hash_steps", full.steps);
    o.max("entries", size as u64);
    let mut last = h;
    hash_cost(&t, 1, "hash_unchanged", o)?;
    for round in 0..rounds {
        let kept = (round % 2 == 0).then(|| t.clone());
        let i = r.below(keys.len());
        let mut nodes = path_len(&t, &keys[i]);
        let key = keys[i].clone();
        match r.below(3) {
            0 => {
                t.s_insert(nib(&key), ValOrHash::Val(value_of(&mut r)));
            }
            1 => {
                let mut k = key_of(&mut r, shape, size + round);
                if r.below(3) == 0 {
                    k = key.clone();
                    let l = k.len();
                    k[l - 1 - r.below(l.min(8))] ^= 1;
                }
                t.s_insert(nib(&k), ValOrHash::Val(value_of(&mut r)));
                nodes = path_len(&t, &k);
                keys.push(k);
            }
            _ => {
                t.s_delete(nib(&key));
                nodes = nodes.max(path_len(&t, &key));
                keys.swap_remove(i);
            }
        }
        let (h, c) = cost(|| t.s_hash());
        bounded("rehash", c, nodes, 0, o)?;
        last = h;
        hash_cost(&t, 1, "hash_unchanged", o)?;
        if let Some(k) = kept {
            // The one it was cloned from still has its hashes, and other clones
            // profit from them.
            hash_cost(&k, 1, "hash_of_original", o)?;
            hash_cost(&k.clone(), 1, "hash_of_clone", o)?;
        }
        o.state(&(seed, shape, size, round, h.0));
    }
    // All of that must be right, too.
    let want = read(&t).hash();
    ensure!(last.0 == want, "the hash is {} instead of {}", hexb(&last.0), hexb(&want));
    Ok(())
}

fn off() {
    // Printing nodes is not what is measured.
    log::set_max_level(log::LevelFilter::Off);
}

fn c22_sys(i: usize, o: &mut Obs) -> Result<(), String> {
    off();
    let shape = i % SHAPES;
    let size = [4000, 20_000, 60_000, 200_000][i / SHAPES % 4];
    let rounds = 400;
    o.log(|| format!("shape {shape}, {size} entries"));
    rehash(i as u64, shape, size, rounds, o)?;
    costs::<H>(i as u64, shape, size, rounds, o)?;
    costs::<StandardTrie>(i as u64, shape, size, rounds, o)?;
    Ok(())
}

fn c22_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    off();
    let shape = g.below(SHAPES);
    let size = g.range(2000, 6000);
    let seed = g.u64();
    let rounds = g.range(20, 120);
    o.log(|| format!("shape {shape}, {size} entries, seed {seed}, {rounds} rounds"));
    if g.pct(50) {
        rehash(seed, shape, size, rounds, o)?;
    } else if g.pct(50) {
        costs::<H>(seed, shape, size, rounds, o)?;
    } else {
        costs::<StandardTrie>(seed, shape, size, rounds, o)?;
    }
    o.sample(|| format!("{size} entries of shape {shape}, {rounds} updates"));
    Ok(())
}

// -------------------------------------------------------------- released memory

#[derive(Clone, Debug)]
enum Op {
    Insert(usize, Key, Vec<u8>),
    Delete(usize, Key),
    Extend(usize, Vec<(Key, Vec<u8>)>),
    Get(usize, Key),
    Hash(usize),
    Clone(usize),
    Drop(usize),
    Items(usize, usize),
    Subset(usize, Vec<Key>),
    Subsets(usize, Vec<Key>),
    Serialize(usize, u8),
    Print(usize),
    Sub(usize, u8),
    Tools(usize, usize, Key),
}

fn play<T: Sut>(ops: &[Op]) {
    let mut ts: Vec<T> = vec![T::default()];
    for op in ops {
        let n = ts.len();
        match op {
            Op::Insert(i, k, v) => ts[i % n].s_insert(nib(k), ValOrHash::Val(v.clone())),
            Op::Delete(i, k) => {
                ts[i % n].s_delete(nib(k));
            }
            Op::Extend(i, l) => {
                let l = l.iter().map(|(k, v)| (nib(k), ValOrHash::Val(v.clone()))).collect();
                ts[i % n].s_extend(l)
            }
            Op::Get(i, k) => {
                ts[i % n].s_get(nib(k));
            }
            Op::Hash(i) => {
                ts[i % n].s_hash();
            }
            Op::Clone(i) => {
                let c = ts[i % n].clone();
                ts.push(c);
            }
            Op::Drop(i) => {
                if n > 1 {
                    ts.swap_remove(i % n);
                }
            }
            Op::Items(i, m) => {
                // Iterators that are dropped in the middle.
                let t = &ts[i % n];
                let mut a = t.s_items();
                let mut b = t.s_keys();
                let mut c = t.s_values();
                for _ in 0..*m {
                    a.next();
                    b.next();
                    c.next();
                }
            }
            Op::Subset(i, ks) => {
                if let Ok(s) = ts[i % n].s_subset(ks.iter().map(|k| nib(k)).collect()) {
                    // Hash nodes would refuse later operations.
                    s.s_hash();
                }
            }
            Op::Subsets(i, ks) => {
                let _ = ts[i % n].s_subsets(ks.iter().map(|k| vec![nib(k)]).collect());
            }
            Op::Serialize(i, f) => {
                let f = [Format::Json, Format::Cbor, Format::Bincode][*f as usize % 3];
                if let Ok(b) = ts[i % n].s_ser(f) {
                    if let Ok(t) = T::s_de(&b, f) {
                        ts.push(t);
                    }
                    // Something that breaks off.
                    let _ = T::s_de(&b[..b.len() / 2], f);
                }
            }
            Op::Print(i) => {
                std::hint::black_box(format!("{:?}", ts[i % n]).len());
            }
            Op::Sub(i, c) => {
                let s = match &*ts[i % n] {
                    Node::Branch { children, .. } => Some(children[*c as usize % 16].clone()),
                    Node::Extension { child, .. } => Some(child.clone()),
                    _ => None,
                };
                if let Some(s) = s {
                    ts.push((**s).clone());
                }
            }
            Op::Tools(i, j, k) => tools(&ts[i % n], &ts[j % n], k),
        }
    }
}

#[cfg(feature = "debug_tools")]
fn tools<T: Sut>(a: &T, b: &T, k: &[u8]) {
    let s = a.s_stats(None).compare(&b.s_stats(None)).to_string();
    let q = a.s_query(nib(k).into()).to_string();
    std::hint::black_box((s, q));
}
#[cfg(not(feature = "debug_tools"))]
fn tools<T: Sut>(_: &T, _: &T, _: &[u8]) {}

fn c22_leaks(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    off();
    let mut keys = Keys::new(g);
    let n = history_len(g).min(120);
    let mut ops = vec![];
    for _ in 0..n {
        let i = g.below(8);
        ops.push(match g.below(22) {
            0..=6 => Op::Insert(i, keys.write_key(g), g.value()),
            7..=9 => Op::Delete(i, keys.any(g)),
            10 => {
                let m = g.below(5);
                Op::Extend(i, (0..m).map(|_| (keys.write_key(g), g.value())).collect())
            }
            11 => Op::Get(i, keys.any(g)),
            12 => Op::Hash(i),
            13 => Op::Clone(i),
            14 => Op::Drop(i),
            15 => Op::Items(i, g.below(12)),
            16 => {
                let m = g.below(4);
                Op::Subset(i, (0..m).map(|_| keys.any(g)).collect())
            }
            17 => {
                let m = g.below(4);
                Op::Subsets(i, (0..m).map(|_| keys.any(g)).collect())
            }
            18 => Op::Serialize(i, g.below(3) as u8),
            19 => Op::Print(i),
            20 => Op::Sub(i, g.nibble()),
            _ => Op::Tools(i, g.below(8), keys.any(g)),
        });
    }
    o.log(|| format!("{ops:?}"));
    let hashed = g.pct(60);
    let run = || {
        if hashed {
            alloc::measure(|| play::<H>(&ops)).1
        } else {
            alloc::measure(|| play::<StandardTrie>(&ops)).1
        }
    };
    let first = run();
    o.count("histories_until_all_dropped", 1);
    o.count("allocations_watched", first.count);
    if first.live != 0 {
        // Something that is set up once is not lost; a leak comes back.
        let again = [run(), run()];
        ensure!(
            again.iter().any(|u| u.live == 0),
            "{} bytes are not released when everything has been dropped (of {} allocated)",
            again[1].live,
            again[1].bytes
        );
    }
    o.state(&(first.count, first.bytes, n));
    Ok(())
}

pub fn prop_c22() -> Prop {
    Prop {
        id: "C22",
        rule: "an evaluation fills a trie with thousands of entries and measures allocations, bytes and executed comparisons of many single updates, clones and hashes against a bound per node of the path, or plays a history and counts the bytes left after all is dropped; \
               distinct_nontrivial counts distinct measured updates and distinct histories by what they allocated",
        sys: vec![Sys { name: "large tries of 5 shapes", quick: 10, thorough: 20, item: c22_sys }],
        cases: vec![("costs", 1, c22_case), ("released memory", 20, c22_leaks)],
        assumptions: vec![
            "work is measured in memory allocations and in comparisons and switches executed by the library, which are counted by instrumentation",
            "the bounds per node are several times of what is needed now",
        ],
    }
}
