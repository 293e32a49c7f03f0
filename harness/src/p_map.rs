//! C01, C03, C04, C11: contents.

use sut::{
    partial_trie::{HashedPartialTrie, PartialTrie, StandardTrie},
    Sut,
};

use crate::{
    engine::{Prop, Sys},
    gen::*,
    model::*,
    obs::{catch, fingerprint, Obs},
    p_hash::{choose_hidden, hide},
};

#[macro_export]
macro_rules! both {
    ($f:ident, $name:ident) => {
        pub fn $name(g: &mut $crate::gen::Gen, o: &mut $crate::obs::Obs) -> Result<(), String> {
            match g.below(2) {
                0 => $f::<sut::partial_trie::StandardTrie>(g, o),
                _ => $f::<sut::partial_trie::HashedPartialTrie>(g, o),
            }
        }
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}

pub fn show_opt(v: &Option<Vec<u8>>) -> String {
    match v {
        None => "nothing".into(),
        Some(v) => short(v),
    }
}

fn check_get<T: Sut>(t: &T, m: &Map, k: &[u8], o: &mut Obs) -> Result<(), String> {
    o.count("lookups", 1);
    let got = t.s_get(nib(k));
    let want = match m.get(k) {
        Some(Ent::Val(v)) => Some(v.as_slice()),
        _ => None,
    };
    ensure!(
        got == want,
        "get({}) returned {} instead of {} in {}",
        hexk(k),
        show_opt(&got.map(|v| v.to_vec())),
        show_opt(&want.map(|v| v.to_vec())),
        show_map(m)
    );
    o.count(
        if want.is_some() {
            "lookups_present"
        } else {
            "lookups_absent"
        },
        1,
    );
    Ok(())
}

/// Keys around the given one.
pub fn neighbours(k: &[u8]) -> Vec<Key> {
    let mut v = vec![];
    for l in 0..k.len() {
        v.push(k[..l].to_vec());
    }
    if k.len() < 64 {
        for n in [0, 7, 15] {
            let mut x = k.to_vec();
            x.push(n);
            v.push(x);
        }
    }
    if let Some(l) = k.last() {
        let mut x = k.to_vec();
        let i = x.len() - 1;
        x[i] = (l + 1) & 15;
        v.push(x);
    }
    if let Some(f) = k.first() {
        let mut x = k.to_vec();
        x[0] = (f + 1) & 15;
        v.push(x);
    }
    v
}

pub fn map_print(m: &Map) -> u64 {
    fingerprint(m)
}

/// Non-trivial: at least two entries.
pub fn note_state(m: &Map, o: &mut Obs) {
    // Fingerprints of large contents are taken now and then only.
    o.tick += 1;
    if m.len() >= 2 && o.tick % (1 + m.len() as u64 / 16) == 0 {
        o.state(&map_print(m));
    }
    o.max("entries", m.len() as u64);
}

/// The value that the map holds for a key.
pub fn held(m: &Map, k: &Key) -> Option<Vec<u8>> {
    match m.get(k) {
        Some(Ent::Val(v)) => Some(v.clone()),
        _ => None,
    }
}

// ------------------------------------------------------------------ C01

fn c01<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let mut m = Map::new();
    o.log(|| format!("trie type: {}", T::NAME));
    let mut t: T = if g.pct(25) {
        let n = g.len(20);
        let mut v = vec![];
        for _ in 0..n {
            let k = keys.write_key(g);
            let x = g.value();
            o.log(|| format!("from_iter {} = {}", hexk(&k), short(&x)));
            m.insert(k.clone(), Ent::Val(x.clone()));
            v.push((nib(&k), sut::trie_ops::ValOrHash::Val(x)));
        }
        T::s_from_iter(v)
    } else {
        T::default()
    };
    let n = history_len(g);
    for _ in 0..n {
        let mut touched = vec![];
        match g.below(20) {
            0..=8 => {
                let k = if g.pct(10) && !m.is_empty() {
                    let i = g.below(m.len());
                    m.keys().nth(i).unwrap().clone()
                } else {
                    keys.write_key(g)
                };
                let v = g.value_over(held(&m, &k));
                o.log(|| format!("insert {} = {}", hexk(&k), short(&v)));
                t.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(v.clone()));
                m.insert(k.clone(), Ent::Val(v));
                o.count("inserts", 1);
                touched.push(k);
            }
            9 => {
                // A full branch.
                let mut k = keys.any(g);
                k.truncate(63);
                k.push(0);
                let l = k.len() - 1;
                for i in 0..16 {
                    k[l] = i;
                    let v = g.value_over(held(&m, &k));
                    o.log(|| format!("insert {} = {}", hexk(&k), short(&v)));
                    t.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(v.clone()));
                    m.insert(k.clone(), Ent::Val(v));
                    o.count("inserts", 1);
                }
                keys.pool.push(k.clone());
                touched.push(k);
            }
            10 => {
                let n = g.len(12);
                let mut v = vec![];
                for _ in 0..n {
                    let k = keys.write_key(g);
                    let x = g.value_over(held(&m, &k));
                    o.log(|| format!("extend {} = {}", hexk(&k), short(&x)));
                    m.insert(k.clone(), Ent::Val(x.clone()));
                    v.push((nib(&k), sut::trie_ops::ValOrHash::Val(x)));
                    touched.push(k);
                }
                t.s_extend(v);
                o.count("extends", 1);
            }
            11..=15 => {
                let k = if g.pct(60) && !m.is_empty() {
                    let i = g.below(m.len());
                    m.keys().nth(i).unwrap().clone()
                } else {
                    keys.any(g)
                };
                let want = match m.remove(&k) {
                    Some(Ent::Val(v)) => Some(v),
                    _ => None,
                };
                o.log(|| format!("delete {} -> {}", hexk(&k), show_opt(&want)));
                let got = t.s_delete(nib(&k));
                o.count("deletes", 1);
                if want.is_some() {
                    o.count("deletes_present", 1);
                }
                ensure!(
                    got == want,
                    "delete({}) returned {} instead of {}, leaving {}",
                    hexk(&k),
                    show_opt(&got),
                    show_opt(&want),
                    show_map(&m)
                );
                touched.push(k);
            }
            16 => {
                o.log(|| "hash".into());
                t.s_hash();
            }
            17 => {
                o.log(|| "continue on a clone".into());
                t = t.clone();
            }
            _ => (),
        }
        for k in &touched {
            check_get(&t, &m, k, o)?;
            if g.pct(10) {
                for x in neighbours(k) {
                    check_get(&t, &m, &x, o)?;
                }
            }
        }
        let k = keys.any(g);
        check_get(&t, &m, &k, o)?;
        note_state(&m, o);
    }
    for k in m.keys() {
        check_get(&t, &m, k, o)?;
    }
    for k in m.keys().take(12) {
        for x in neighbours(k) {
            check_get(&t, &m, &x, o)?;
        }
    }
    for k in &keys.pool {
        check_get(&t, &m, k, o)?;
    }
    o.sample(|| format!("{} trie ended as {}", T::NAME, show_map(&m)));
    if g.pct(25) {
        // Take everything out again.
        let mut ks: Vec<Key> = m.keys().cloned().collect();
        while !ks.is_empty() {
            let k = ks.swap_remove(g.below(ks.len()));
            let want = match m.remove(&k) {
                Some(Ent::Val(v)) => Some(v),
                _ => None,
            };
            o.log(|| format!("delete {}", hexk(&k)));
            let got = t.s_delete(nib(&k));
            o.count("deletes_present", 1);
            ensure!(
                got == want,
                "delete({}) returned {} instead of {}, leaving {}",
                hexk(&k),
                show_opt(&got),
                show_opt(&want),
                show_map(&m)
            );
            for x in ks.iter().take(3) {
                check_get(&t, &m, x, o)?;
            }
        }
    }
    Ok(())
}
both!(c01, c01_case);

// ------------------------------------------- all histories over small universes

fn hx(s: &str) -> Key {
    s.chars().map(|c| c.to_digit(16).unwrap() as u8).collect()
}

/// Small sets of keys in all kinds of relations.
fn universes() -> Vec<Vec<Key>> {
    let long = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcde";
    let l0 = format!("{long}0");
    let l1 = format!("{long}f");
    let lm = format!("{}1", &long[..40]);
    let lp = &long[..40];
    vec![
        ["", "0", "00", "000", "01", "1"].iter().map(|s| hx(s)).collect(),
        ["1234", "1235", "12", "123", "1", "2"].iter().map(|s| hx(s)).collect(),
        ["0", "1", "2", "f", "00", "f0"].iter().map(|s| hx(s)).collect(),
        ["abcd", "abcdef", "abcdef12", "abce", "ab", "b"].iter().map(|s| hx(s)).collect(),
        [l0.as_str(), l1.as_str(), lm.as_str(), lp, "", "0"].iter().map(|s| hx(s)).collect(),
        ["000000", "000001", "0000", "00", "000010", "100000"].iter().map(|s| hx(s)).collect(),
    ]
}

const OPS: usize = 12;

struct Explore<'a, T: Sut> {
    keys: &'a [Key],
    probes: Vec<Key>,
    left: usize,
    step: u8,
    visit: &'a mut dyn FnMut(&T, &Map, &[Key], &mut Obs) -> Result<(), String>,
}

fn small_value(step: u8, which: usize) -> Vec<u8> {
    let l = match (step as usize + which) % 3 {
        0 => 1,
        1 => 40,
        _ => 20,
    };
    let mut v = vec![step; l];
    v[0] = 0x10 * (which as u8 + 1) + step;
    v
}

impl<'a, T: Sut> Explore<'a, T> {
    fn apply(&self, t: &mut T, m: &mut Map, op: usize, o: &mut Obs) -> Result<(), String> {
        let ki = op % self.keys.len();
        let k = &self.keys[ki];
        if op < self.keys.len() {
            let v = small_value(self.step, ki);
            o.log(|| format!("insert {} = {}", hexk(k), short(&v)));
            t.s_insert(nib(k), sut::trie_ops::ValOrHash::Val(v.clone()));
            m.insert(k.clone(), Ent::Val(v));
        } else {
            let want = match m.remove(k) {
                Some(Ent::Val(v)) => Some(v),
                _ => None,
            };
            o.log(|| format!("delete {}", hexk(k)));
            let got = t.s_delete(nib(k));
            ensure!(
                got == want,
                "delete({}) returned {} instead of {}, leaving {}",
                hexk(k),
                show_opt(&got),
                show_opt(&want),
                show_map(m)
            );
        }
        o.count("operations", 1);
        Ok(())
    }

    fn rec(&mut self, t: &T, m: &Map, o: &mut Obs) -> Result<(), String> {
        if self.left == 0 {
            return Ok(());
        }
        for op in 0..OPS {
            let mut t2 = t.clone();
            let mut m2 = m.clone();
            let mark = o.trace.as_ref().map(|t| t.len());
            self.apply(&mut t2, &mut m2, op, o)?;
            (self.visit)(&t2, &m2, &self.probes, o)?;
            note_state(&m2, o);
            self.left -= 1;
            self.step += 1;
            self.rec(&t2, &m2, o)?;
            self.left += 1;
            self.step -= 1;
            if let (Some(l), Some(t)) = (mark, &mut o.trace) {
                t.truncate(l);
            }
        }
        Ok(())
    }
}

/// Item `i`: a trie type, a universe and the first two operations.
fn explore<T: Sut>(
    u: usize,
    first: usize,
    depth: usize,
    o: &mut Obs,
    visit: &mut dyn FnMut(&T, &Map, &[Key], &mut Obs) -> Result<(), String>,
) -> Result<(), String> {
    let us = universes();
    let keys = &us[u % us.len()];
    let mut probes = keys.clone();
    for k in keys {
        probes.extend(neighbours(k).into_iter().rev().take(5));
    }
    probes.sort();
    probes.dedup();
    let mut e = Explore {
        keys,
        probes,
        left: depth,
        step: 0,
        visit,
    };
    let mut t = T::default();
    let mut m = Map::new();
    for op in [first / OPS, first % OPS] {
        e.apply(&mut t, &mut m, op, o)?;
        let probes = e.probes.clone();
        (e.visit)(&t, &m, &probes, o)?;
        e.step += 1;
    }
    e.left = depth - 2;
    e.rec(&t, &m, o)
}

pub const EXPLORE_ITEMS: usize = 2 * 6 * OPS * OPS;

fn explore_item(
    i: usize,
    depth: usize,
    o: &mut Obs,
    vs: &mut dyn FnMut(&StandardTrie, &Map, &[Key], &mut Obs) -> Result<(), String>,
    vh: &mut dyn FnMut(&HashedPartialTrie, &Map, &[Key], &mut Obs) -> Result<(), String>,
) -> Result<(), String> {
    let (ty, i) = (i % 2, i / 2);
    let (u, first) = (i % 6, i / 6);
    match ty {
        0 => explore::<StandardTrie>(u, first, depth, o, vs),
        _ => explore::<HashedPartialTrie>(u, first, depth, o, vh),
    }
}

fn c01_visit<T: Sut>(t: &T, m: &Map, probes: &[Key], o: &mut Obs) -> Result<(), String> {
    for k in probes {
        check_get(t, m, k, o)?;
    }
    Ok(())
}

fn c01_sys(i: usize, o: &mut Obs) -> Result<(), String> {
    explore_item(i, 4, o, &mut c01_visit, &mut c01_visit)
}

fn c01_sys5(i: usize, o: &mut Obs) -> Result<(), String> {
    explore_item(i, 5, o, &mut c01_visit, &mut c01_visit)
}

/// All lengths of a key against all lengths of a second key that shares a
/// prefix of every possible length with it.
fn c01_pairs(i: usize, o: &mut Obs) -> Result<(), String> {
    pairs::<StandardTrie>(i, o)?;
    pairs::<HashedPartialTrie>(i, o)
}

fn pairs<T: Sut>(la: usize, o: &mut Obs) -> Result<(), String> {
    let a: Key = (0..la).map(|i| ((i * 7 + 3) % 16) as u8).collect();
    for cp in 0..=la {
        for lb in [cp, cp + 1, cp + 2, 63, 64] {
            if lb < cp || lb > 64 {
                continue;
            }
            let mut b = a[..cp].to_vec();
            while b.len() < lb {
                let n = match a.get(b.len()) {
                    Some(x) if b.len() == cp => (x + 5) & 15,
                    _ => (b.len() % 16) as u8,
                };
                b.push(n);
            }
            for (x, y) in [(&a, &b), (&b, &a)] {
                let mut t = T::default();
                let mut m = Map::new();
                for (k, v) in [(x, vec![1; 3]), (y, vec![2; 35])] {
                    o.log(|| format!("insert {}", hexk(k)));
                    t.s_insert(nib(k), sut::trie_ops::ValOrHash::Val(v.clone()));
                    m.insert(k.clone(), Ent::Val(v));
                }
                for k in [x, y] {
                    check_get(&t, &m, k, o)?;
                }
                for k in [x, y] {
                    for n in neighbours(k).into_iter().rev().take(8) {
                        check_get(&t, &m, &n, o)?;
                    }
                }
                for n in neighbours(x).into_iter().rev().take(8) {
                    if !m.contains_key(&n) {
                        let d = t.s_delete(nib(&n));
                        ensure!(d.is_none(), "delete of absent {} returned a value", hexk(&n));
                    }
                }
                let mut t2 = t.clone();
                for k in [x, y] {
                    let want = match m.remove(k) {
                        Some(Ent::Val(v)) => Some(v),
                        _ => None,
                    };
                    o.log(|| format!("delete {}", hexk(k)));
                    let d = t2.s_delete(nib(k));
                    ensure!(
                        d == want,
                        "delete({}) returned {} instead of {}",
                        hexk(k),
                        show_opt(&d),
                        show_opt(&want)
                    );
                    for k in [x, y] {
                        check_get(&t2, &m, k, o)?;
                    }
                }
                o.state(&(la, cp, lb, x == &a));
            }
        }
    }
    Ok(())
}

/// Values replaced by others of the same length (the item) that differ in one byte.
fn c01_over(i: usize, o: &mut Obs) -> Result<(), String> {
    fn run<T: Sut>(l: usize, o: &mut Obs) -> Result<(), String> {
        // As a leaf at the root, as a leaf below a branch and as the value of a branch.
        for (k, others) in [("12", vec![]), ("1234", vec!["1235", "2"]), ("12", vec!["123", "2"])] {
            let k = hx(k);
            let mut m = Map::new();
            let mut t = T::default();
            for (j, x) in others.iter().enumerate() {
                let v = vec![j as u8 + 1; 33];
                t.s_insert(nib(&hx(x)), sut::trie_ops::ValOrHash::Val(v.clone()));
                m.insert(hx(x), Ent::Val(v));
            }
            let mut v: Vec<u8> = (0..l).map(|x| x as u8).collect();
            for at in 0..l + 1 {
                o.log(|| format!("insert {} = {}", hexk(&k), short(&v)));
                t.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(v.clone()));
                m.insert(k.clone(), Ent::Val(v.clone()));
                for x in m.keys() {
                    check_get(&t, &m, x, o)?;
                }
                o.state(&(l, at, others.len()));
                if let Some(b) = v.get_mut(at) {
                    *b ^= 1 << (at % 8);
                }
            }
        }
        Ok(())
    }
    let l = [300, 257, 1024][..].get(i).copied().unwrap_or_else(|| i - 2);
    run::<StandardTrie>(l, o)?;
    run::<HashedPartialTrie>(l, o)
}

pub fn prop_c01() -> Prop {
    Prop {
        id: "C01",
        rule: "an evaluation is one history of inserts, extends, deletes and lookups compared step by step with a sorted map; \
               distinct_nontrivial counts the distinct contents with at least two entries that were reached and compared",
        sys: vec![
            Sys { name: "pairs of keys of all lengths", quick: 65, thorough: 65, item: c01_pairs },
            Sys { name: "values replaced by others that differ in one byte", quick: 83, thorough: 83, item: c01_over },
            Sys { name: "all histories of length 4 over 6 universes of 6 keys", quick: EXPLORE_ITEMS, thorough: 0, item: c01_sys },
            Sys { name: "all histories of length 5 over 6 universes of 6 keys", quick: 0, thorough: EXPLORE_ITEMS, item: c01_sys5 },
        ],
        cases: vec![("history", 1, c01_case)],
        assumptions: vec!["keys have at most 64 nibbles and values are not empty, as documented"],
    }
}

// ------------------------------------------------------------------ C03

pub fn structure_err(got: &R, want: &R) -> String {
    format!("the structure is {} instead of {}", got.show(), want.show())
}

fn c03_visit<T: Sut>(t: &T, m: &Map, _: &[Key], o: &mut Obs) -> Result<(), String> {
    let want = canonical(m);
    let got = read(t);
    o.count("structures_compared", 1);
    ensure!(got == want, "{}", structure_err(&got, &want));
    Ok(())
}

fn c03_sys(i: usize, o: &mut Obs) -> Result<(), String> {
    explore_item(i, 4, o, &mut c03_visit, &mut c03_visit)
}
fn c03_sys5(i: usize, o: &mut Obs) -> Result<(), String> {
    explore_item(i, 5, o, &mut c03_visit, &mut c03_visit)
}

/// Random contents; with `hashes`, some of the entries are hash entries.
pub fn random_map(g: &mut Gen, keys: &mut Keys, n: usize, hashes: usize) -> Map {
    let mut m = Map::new();
    for _ in 0..n {
        let k = keys.write_key(g);
        let e = if g.pct(hashes) {
            Ent::Hash(g.hash32())
        } else {
            Ent::Val(g.value())
        };
        if !insert_refused(&m, &k, &e) {
            m.insert(k, e);
        }
    }
    m
}

pub fn map_size(g: &mut Gen) -> usize {
    match g.below(20) {
        0..=5 => g.below(5),
        6..=15 => g.range(2, 25),
        16..=18 => g.range(10, 80),
        _ => g.range(50, 400),
    }
}

pub fn shuffled(g: &mut Gen, m: &Map) -> Vec<(Key, Ent)> {
    let mut v: Vec<(Key, Ent)> = m.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    for i in (1..v.len()).rev() {
        let j = g.below(i + 1);
        v.swap(i, j);
    }
    v
}

/// Reaches exactly the contents `m` over a random detour.
pub fn build_by_detour<T: Sut>(g: &mut Gen, keys: &mut Keys, m: &Map, o: &mut Obs) -> T {
    let mut t = T::default();
    let mut cur = Map::new();
    let detours = g.below(40);
    let mut todo = shuffled(g, m);
    let mut left = detours;
    loop {
        let want_detour = left > 0 && (todo.is_empty() || g.pct(50));
        if want_detour {
            left -= 1;
            if g.pct(40) {
                if cur.is_empty() {
                    continue;
                }
                let i = g.below(cur.len());
                let (k, e) = cur.iter().nth(i).map(|(k, e)| (k.clone(), e.clone())).unwrap();
                if let Ent::Hash(_) = e {
                    continue;
                }
                o.log(|| format!("B: delete {}", hexk(&k)));
                t.s_delete(nib(&k));
                cur.remove(&k);
                if m.contains_key(&k) {
                    todo.push((k.clone(), m[&k].clone()));
                }
            } else {
                let k = keys.any(g);
                let e = Ent::Val(g.value());
                if !insert_refused(&cur, &k, &e) {
                    o.log(|| format!("B: insert {}", hexk(&k)));
                    t.s_insert(nib(&k), e.voh());
                    cur.insert(k.clone(), e);
                    if m.contains_key(&k) {
                        todo.push((k.clone(), m[&k].clone()));
                    }
                }
            }
        } else if let Some((k, e)) = todo.pop() {
            if cur.get(&k) == Some(&e) {
                continue;
            }
            if insert_refused(&cur, &k, &e) {
                // Clear what is in the way.
                let bad: Vec<Key> = cur
                    .range(k.clone()..)
                    .take_while(|(x, _)| is_prefix(&k, x))
                    .map(|(x, _)| x.clone())
                    .collect();
                for x in bad {
                    o.log(|| format!("B: delete {}", hexk(&x)));
                    t.s_delete(nib(&x));
                    cur.remove(&x);
                }
            }
            o.log(|| format!("B: insert {} (final)", hexk(&k)));
            t.s_insert(nib(&k), e.voh());
            cur.insert(k, e);
        } else {
            break;
        }
    }
    let extra: Vec<Key> = cur.keys().filter(|k| !m.contains_key(*k)).cloned().collect();
    for k in extra {
        o.log(|| format!("B: delete {} (final)", hexk(&k)));
        t.s_delete(nib(&k));
        cur.remove(&k);
    }
    debug_assert_eq!(&cur, m);
    t
}

/// Tries with different contents must neither be equal nor hash equally.
fn differ<T: Sut>(a: &T, b: &T, o: &mut Obs) -> Result<(), String> {
    o.count("different_tries_compared", 1);
    ensure!(
        !a.s_eq(b) && !b.s_eq(a),
        "different tries compare equal: {} and {}",
        read(a).show(),
        read(b).show()
    );
    ensure!(
        a.s_hash() != b.s_hash(),
        "different tries hash equally: {} and {}",
        read(a).show(),
        read(b).show()
    );
    Ok(())
}

/// Every bit of keys, values and hashes, and every slot of a branch, counts.
fn c03_bits(i: usize, o: &mut Obs) -> Result<(), String> {
    fn run<T: Sut>(i: usize, o: &mut Obs) -> Result<(), String> {
        // Sits as the root, below a branch, or below an extension and a branch.
        let wrap = |k: &[u8], e: Ent| -> T {
            let mut t = T::default();
            let p: &[u8] = [&[][..], &[3], &[5, 0, 7]][i / 65 % 3];
            let k: Key = p.iter().chain(k).copied().take(64).collect();
            if p.len() > 0 {
                let mut other = p.to_vec();
                *other.last_mut().unwrap() ^= 9;
                t.s_insert(nib(&other), Ent::Val(vec![1; 33]).voh());
            }
            t.s_insert(nib(&k), e.voh());
            t
        };
        let l = (i % 65).min(61);
        let key: Key = (0..l).map(|j| ((j * 7 + i) % 16) as u8).collect();
        let val = vec![0x5a; [1, 31, 32, 33, 60, 140, 300][i % 7]];
        let base = wrap(&key, Ent::Val(val.clone()));
        for at in 0..l {
            for bit in 0..4 {
                let mut k = key.clone();
                k[at] ^= 1 << bit;
                differ(&base, &wrap(&k, Ent::Val(val.clone())), o)?;
            }
        }
        for at in 0..val.len() {
            let mut v = val.clone();
            v[at] ^= 1 << ((at + i) % 8);
            differ(&base, &wrap(&key, Ent::Val(v)), o)?;
        }
        let mut k = key.clone();
        k.insert(0, 0);
        differ(&base, &wrap(&k, Ent::Val(val.clone())), o)?;
        let mut v = val.clone();
        v.push(0);
        differ(&base, &wrap(&key, Ent::Val(v)), o)?;
        let h = keccak(&[i as u8]);
        let base = wrap(&key, Ent::Hash(h));
        for bit in 0..256 {
            let mut x = h;
            x[bit / 8] ^= 1 << (bit % 8);
            differ(&base, &wrap(&key, Ent::Hash(x)), o)?;
        }
        for at in 0..l {
            let mut k = key.clone();
            k[at] ^= 1 << ((at + i) % 4);
            differ(&base, &wrap(&k, Ent::Hash(h)), o)?;
        }
        // Two children of a branch in any slots, with and without its value.
        for n in 0..16u8 {
            for v in [false, true] {
                let slot = |n: u8, v: bool| -> T {
                    let mut t = wrap(&[15 - n, 1], Ent::Val(vec![7; 40]));
                    t.s_insert(nib(&[15 - n, 2]), Ent::Val(vec![8; 40]).voh());
                    if v {
                        t.s_insert(nib(&[15 - n]), Ent::Val(vec![9]).voh());
                    }
                    t
                };
                differ(&slot(n, v), &slot((n + 1) % 16, v), o)?;
                differ(&slot(n, v), &slot(n, !v), o)?;
            }
        }
        Ok(())
    }
    run::<StandardTrie>(i, o)?;
    run::<HashedPartialTrie>(i, o)?;
    Ok(())
}

fn c03<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let n = map_size(g);
    let hashes = *g.pick(&[0, 0, 0, 15, 40]);
    let m = random_map(g, &mut keys, n, hashes);
    o.log(|| format!("{} trie, contents {}", T::NAME, show_map(&m)));
    let mut a = T::default();
    for (k, e) in &m {
        a.s_insert(nib(k), e.voh());
    }
    let b: T = build_by_detour(g, &mut keys, &m, o);
    let want = canonical(&m);
    let (ra, rb) = (read(&a), read(&b));
    ensure!(ra == want, "inserting in order: {}", structure_err(&ra, &want));
    ensure!(rb == want, "after a detour: {}", structure_err(&rb, &want));
    o.count("structures_compared", 2);
    ensure!(a.s_eq(&b) && b.s_eq(&a), "equal contents compare unequal: {}", show_map(&m));
    ensure!(a == a.clone(), "a clone compares unequal");
    ensure!(a.s_hash() == b.s_hash(), "equal contents hash differently: {}", show_map(&m));
    // Made in one go, with the entries repeated.
    let mut l: Vec<_> = shuffled(g, &m)
        .into_iter()
        .map(|(k, e)| (nib(&k), e.voh()))
        .collect();
    if hashes == 0 && g.pct(50) {
        let again = l.clone();
        l.extend(again);
    }
    let c = T::s_from_iter(l);
    ensure!(c.s_eq(&a), "collected from an iterator: {}", structure_err(&read(&c), &want));
    // Equality of structures does not depend on how they were made.
    let d: T = want.build();
    ensure!(d.s_eq(&b) && b.s_eq(&d), "a directly built trie compares unequal");
    note_state(&m, o);
    o.sample(|| format!("{} trie with canonical form {}", T::NAME, want.show()));

    // The same with hashes in place of some parts: as good for the root hash, but
    // not equal, whether or not hashes have been computed.
    let hidden = choose_hidden(g, &want);
    if !hidden.is_empty() {
        let p: T = hide(&want, &hidden).build();
        let (x, y): (T, T) = (want.build(), hide(&want, &hidden).build());
        for round in 0..2 {
            ensure!(
                !p.s_eq(&x) && !x.s_eq(&p),
                "a partial trie {} compares equal to the full one {}{}",
                read(&p).show(),
                want.show(),
                ["", ", after hashing both"][round]
            );
            ensure!(p.s_eq(&y) && y.s_eq(&p), "equal partial tries compare unequal: {}", read(&p).show());
            o.count("partial_tries_compared", 1);
            let (h1, h2) = (x.s_hash(), p.s_hash());
            ensure!(h1 == h2, "{} hashes differently with parts hidden: {}", want.show(), read(&p).show());
        }
    }

    // One bit of a hash entry is different.
    let hidden: Vec<&Key> = m.iter().filter(|(_, e)| matches!(e, Ent::Hash(_))).map(|(k, _)| k).collect();
    if !hidden.is_empty() {
        let k = hidden[g.below(hidden.len())].clone();
        let mut m2 = m.clone();
        if let Some(Ent::Hash(h)) = m2.get_mut(&k) {
            let bit = g.below(256);
            h[bit / 8] ^= 1 << (bit % 8);
        }
        let mut x = T::default();
        for (k, e) in &m2 {
            x.s_insert(nib(k), e.voh());
        }
        differ(&a, &x, o)?;
    }

    // A minimally different one.
    if hashes == 0 {
        let mut m2 = m.clone();
        let mut x = b.clone();
        let what = g.below(3);
        if what == 0 || m.is_empty() {
            let k = keys.any(g);
            let v = g.value();
            o.log(|| format!("X: insert {} = {}", hexk(&k), short(&v)));
            m2.insert(k.clone(), Ent::Val(v.clone()));
            x.s_insert(nib(&k), Ent::Val(v).voh());
        } else {
            let i = g.below(m.len());
            let k = m.keys().nth(i).unwrap().clone();
            if what == 1 {
                o.log(|| format!("X: delete {}", hexk(&k)));
                m2.remove(&k);
                x.s_delete(nib(&k));
            } else if let Ent::Val(mut v) = m[&k].clone() {
                if g.pct(30) {
                    v.push(g.byte());
                } else {
                    let at = g.below(v.len());
                    v[at] ^= 1 << g.below(8);
                }
                o.log(|| format!("X: insert {} = {}", hexk(&k), short(&v)));
                m2.insert(k.clone(), Ent::Val(v.clone()));
                x.s_insert(nib(&k), Ent::Val(v).voh());
            }
        }
        let same = m == m2;
        ensure!(
            x.s_eq(&a) == same && a.s_eq(&x) == same,
            "tries compare {} although their contents are {}: {} and {}",
            if same { "unequal" } else { "equal" },
            if same { "equal" } else { "different" },
            show_map(&m),
            show_map(&m2)
        );
        ensure!(
            (x.s_hash() == a.s_hash()) == same,
            "hashes are {} although contents are {}: {} and {}",
            if same { "different" } else { "equal" },
            if same { "equal" } else { "different" },
            show_map(&m),
            show_map(&m2)
        );
        let (rx, wx) = (read(&x), canonical(&m2));
        ensure!(rx == wx, "after a change: {}", structure_err(&rx, &wx));
        o.count("unequal_pairs_compared", !same as u64);
    }
    Ok(())
}
both!(c03, c03_case);

/// Histories that delete a lot, with the structure compared after every step.
fn c03_steps<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let mut m = Map::new();
    let mut t = T::default();
    let n = history_len(g).min(120);
    let hashes = *g.pick(&[0, 0, 10]);
    for _ in 0..n {
        if g.pct(55) || m.is_empty() {
            let k = keys.write_key(g);
            let e = if g.pct(hashes) {
                Ent::Hash(g.hash32())
            } else {
                Ent::Val(g.value_over(held(&m, &k)))
            };
            if insert_refused(&m, &k, &e) {
                continue;
            }
            o.log(|| format!("insert {} {:?}", hexk(&k), e));
            t.s_insert(nib(&k), e.voh());
            m.insert(k, e);
        } else {
            let k = if g.pct(85) {
                let i = g.below(m.len());
                m.keys().nth(i).unwrap().clone()
            } else {
                keys.any(g)
            };
            if meets_hash(&m, &k) {
                continue;
            }
            o.log(|| format!("delete {}", hexk(&k)));
            t.s_delete(nib(&k));
            m.remove(&k);
        }
        let want = canonical(&m);
        let got = read(&t);
        o.count("structures_compared", 1);
        ensure!(got == want, "{}", structure_err(&got, &want));
        note_state(&m, o);
    }
    Ok(())
}
both!(c03_steps, c03_steps_case);

pub fn prop_c03() -> Prop {
    Prop {
        id: "C03",
        rule: "an evaluation builds the same contents along different histories and compares node structure (read through the public node type) with the canonical tree, \
               equality and hash, then the same for minimally different contents; distinct_nontrivial counts distinct contents with at least two entries",
        sys: vec![
            Sys { name: "all histories of length 4 over 6 universes of 6 keys", quick: EXPLORE_ITEMS, thorough: 0, item: c03_sys },
            Sys { name: "all histories of length 5 over 6 universes of 6 keys", quick: 0, thorough: EXPLORE_ITEMS, item: c03_sys5 },
            Sys { name: "tries that differ in one bit, one slot or one value", quick: 195, thorough: 195, item: c03_bits },
        ],
        cases: vec![("detours", 1, c03_case), ("steps", 1, c03_steps_case)],
        assumptions: vec!["different contents hashing alike would be a Keccak collision"],
    }
}

// ------------------------------------------------------------------ C04

pub fn check_iteration<T: Sut>(t: &T, m: &Map, o: &mut Obs) -> Result<(), String> {
    let want = iter_order(m);
    let mut items = t.s_items();
    let mut keys = t.s_keys();
    let mut values = t.s_values();
    for (i, (k, e)) in want.iter().enumerate() {
        let it = items.next();
        let kk = keys.next();
        let vv = values.next();
        let got = it.map(|(k, v)| (unnib_checked(&k), Ent::from_voh(&v)));
        match &got {
            Some((Ok(gk), ge)) if gk == k && ge == e => (),
            Some((Ok(gk), ge)) => {
                return Err(format!(
                    "item {i} is {} {:?} instead of {} {:?} in {}",
                    hexk(gk),
                    ge,
                    hexk(k),
                    e,
                    show_map(m)
                ))
            }
            Some((Err(x), _)) => return Err(format!("item {i}: {x} (expected {})", hexk(k))),
            None => {
                return Err(format!(
                    "iteration ended after {i} of {} entries of {}",
                    want.len(),
                    show_map(m)
                ))
            }
        }
        ensure!(
            kk.as_ref().map(unnib_checked) == Some(Ok(k.clone())),
            "key {i} is {:?} instead of {} in {}",
            kk,
            hexk(k),
            show_map(m)
        );
        ensure!(
            vv.as_ref().map(Ent::from_voh) == Some(e.clone()),
            "value {i} is {:?} instead of {:?} in {}",
            vv,
            e,
            show_map(m)
        );
        o.count("items", 1);
    }
    for _ in 0..2 {
        if let Some((k, v)) = items.next() {
            return Err(format!(
                "surplus item {} {:?} after all {} entries of {}",
                hexk(&unnib(&k)),
                v,
                want.len(),
                show_map(m)
            ));
        }
        ensure!(keys.next().is_none(), "surplus key in {}", show_map(m));
        ensure!(values.next().is_none(), "surplus value in {}", show_map(m));
    }
    o.count("iterations", 1);
    Ok(())
}

fn c04<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let n = map_size(g);
    let hashes = *g.pick(&[0, 0, 10, 30, 60, 100]);
    let mut m = random_map(g, &mut keys, n, hashes);
    let mut t: T = if g.pct(50) {
        canonical(&m).build()
    } else {
        let mut t = T::default();
        for (k, e) in shuffled(g, &m) {
            t.s_insert(nib(&k), e.voh());
        }
        t
    };
    o.log(|| format!("{} trie {}", T::NAME, canonical(&m).show()));
    check_iteration(&t, &m, o)?;
    note_state(&m, o);
    o.sample(|| {
        format!(
            "{} trie iterated as {:?}",
            T::NAME,
            iter_order(&m).iter().take(12).map(|(k, _)| hexk(k)).collect::<Vec<_>>()
        )
    });
    // Delete some and look again.
    let d = g.below(6);
    for _ in 0..d {
        let k = keys.any(g);
        if meets_hash(&m, &k) {
            continue;
        }
        o.log(|| format!("delete {}", hexk(&k)));
        t.s_delete(nib(&k));
        m.remove(&k);
    }
    if d > 0 {
        check_iteration(&t, &m, o)?;
        note_state(&m, o);
    }
    Ok(())
}
both!(c04, c04_case);

/// Every subset of a small set of entries, as values and as hash entries.
fn c04_sys(i: usize, o: &mut Obs) -> Result<(), String> {
    let us: [[&str; 7]; 4] = [
        ["", "0", "00", "01", "1", "f", "0f0"],
        ["1234", "1235", "12", "123", "13", "f234", "f235"],
        ["0000", "0001", "00010", "00011", "0f", "1", "10"],
        ["a", "ab", "abc", "abcd", "abce", "b0", "bf"],
    ];
    let u = &us[i / 2187 % 4];
    let mut code = i % 2187;
    let mut m = Map::new();
    for (j, k) in u.iter().enumerate() {
        let c = code % 3;
        code /= 3;
        let e = match c {
            0 => continue,
            1 => Ent::Val(vec![j as u8 + 1; 1 + 37 * (j % 2)]),
            _ => Ent::Hash([j as u8 + 1; 32]),
        };
        if !insert_refused(&m, &hx(k), &e) {
            m.insert(hx(k), e);
        }
    }
    o.log(|| show_map(&m));
    let r = canonical(&m);
    let s: StandardTrie = r.build();
    check_iteration(&s, &m, o)?;
    let mut h = HashedPartialTrie::default();
    for (k, e) in &m {
        h.insert(nib(k), e.voh());
    }
    check_iteration(&h, &m, o)?;
    note_state(&m, o);
    Ok(())
}

pub fn prop_c04() -> Prop {
    Prop {
        id: "C04",
        rule: "an evaluation iterates over one trie with all three iterators and compares them item by item with the sorted entries; \
               distinct_nontrivial counts distinct contents with at least two entries",
        sys: vec![Sys {
            name: "all value/hash/absent assignments over 4 universes of 7 keys",
            quick: 4 * 2187,
            thorough: 4 * 2187,
            item: c04_sys,
        }],
        cases: vec![("iteration", 1, c04_case)],
        assumptions: vec!["extensions lie above branches or hash nodes only, as in every trie made by the library"],
    }
}

// ------------------------------------------------------------------ C11

struct StopIter(Vec<(sut::nibbles::Nibbles, sut::trie_ops::ValOrHash)>, usize);
impl Iterator for StopIter {
    type Item = (sut::nibbles::Nibbles, sut::trie_ops::ValOrHash);
    fn next(&mut self) -> Option<Self::Item> {
        if self.1 == 0 {
            std::panic::panic_any("the caller's iterator fails");
        }
        self.1 -= 1;
        if self.0.is_empty() {
            None
        } else {
            Some(self.0.remove(0))
        }
    }
}

fn unchanged<T: Sut>(t: &T, r: &R, m: &Map, what: &str, hash_first: bool, o: &mut Obs) -> Result<(), String> {
    let want = r.hash();
    if hash_first {
        let h = t.s_hash().0;
        ensure!(h == want, "after {what}: hash is {} instead of {}", hexb(&h), hexb(&want));
    }
    let got = read(t);
    ensure!(got == *r, "after {what}: {}", structure_err(&got, r));
    let h = t.s_hash().0;
    ensure!(h == want, "after {what}: hash is {} instead of {}", hexb(&h), hexb(&want));
    check_iteration(t, m, o)
}

fn c11<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let n = map_size(g).min(60);
    let hashes = *g.pick(&[10, 30, 60]);
    let mut m = random_map(g, &mut keys, n, hashes);
    let mut t: T = if g.pct(50) {
        canonical(&m).build()
    } else {
        let mut t = T::default();
        for (k, e) in shuffled(g, &m) {
            t.s_insert(nib(&k), e.voh());
        }
        t
    };
    o.log(|| format!("{} trie {}", T::NAME, canonical(&m).show()));
    let steps = g.range(1, 25);
    for _ in 0..steps {
        if g.pct(30) {
            t.s_hash();
        }
        let before = canonical(&m);
        let hash_first = g.pct(50);
        // Keys close to hash entries.
        let k = if g.pct(40) && !m.is_empty() {
            let i = g.below(m.len());
            let mut k = m.keys().nth(i).unwrap().clone();
            match g.below(5) {
                0 => {
                    k.push(g.nibble());
                    k.truncate(64);
                }
                1 => {
                    let c = g.below(k.len() + 1);
                    k.truncate(c)
                }
                2 => {
                    let e = g.len(8);
                    for _ in 0..e {
                        k.push(g.nibble());
                    }
                    k.truncate(64);
                }
                _ => (),
            }
            k
        } else {
            keys.any(g)
        };
        match g.below(10) {
            0..=4 => {
                let e = if g.pct(50) {
                    Ent::Hash(g.hash32())
                } else {
                    Ent::Val(g.value_over(held(&m, &k)))
                };
                let refused = insert_refused(&m, &k, &e);
                o.log(|| format!("insert {} {:?} refused={refused}", hexk(&k), e));
                let r = catch(|| t.s_insert(nib(&k), e.voh()));
                match (&r, refused) {
                    (Ok(()), false) => {
                        m.insert(k, e);
                        let want = canonical(&m);
                        let got = read(&t);
                        ensure!(got == want, "after an insert: {}", structure_err(&got, &want));
                        o.count("accepted", 1);
                    }
                    (Err(p), true) => {
                        o.count("refused_inserts", 1);
                        o.state(&(map_print(&m), &k, matches!(e, Ent::Hash(_))));
                        unchanged(&t, &before, &m, &format!("a refused insert ({})", p.msg), hash_first, o)?;
                    }
                    (Ok(()), true) => {
                        return Err(format!(
                            "inserting {:?} at {} was not refused in {}",
                            e,
                            hexk(&k),
                            before.show()
                        ))
                    }
                    (Err(p), false) => {
                        return Err(format!(
                            "inserting {:?} at {} in {} {}",
                            e,
                            hexk(&k),
                            before.show(),
                            p.show()
                        ))
                    }
                }
            }
            5..=7 => {
                let refused = meets_hash(&m, &k);
                o.log(|| format!("delete {} refused={refused}", hexk(&k)));
                let r = catch(|| t.s_delete(nib(&k)));
                match (r, refused) {
                    (Ok(_), false) => {
                        m.remove(&k);
                        let want = canonical(&m);
                        let got = read(&t);
                        ensure!(got == want, "after a delete: {}", structure_err(&got, &want));
                        o.count("accepted", 1);
                    }
                    (Err(p), true) => {
                        o.count("refused_deletes", 1);
                        o.state(&(map_print(&m), &k, 2));
                        unchanged(&t, &before, &m, &format!("a refused delete ({})", p.msg), hash_first, o)?;
                    }
                    (Ok(v), true) => {
                        return Err(format!(
                            "deleting {} was not refused but returned {} in {}",
                            hexk(&k),
                            show_opt(&v),
                            before.show()
                        ))
                    }
                    (Err(p), false) => {
                        return Err(format!("deleting {} in {} {}", hexk(&k), before.show(), p.show()))
                    }
                }
            }
            _ => {
                // Extend with a failing entry or iterator somewhere.
                let n = g.range(1, 8);
                let mut list = vec![];
                for _ in 0..n {
                    let k = keys.any(g);
                    let e = if g.pct(30) {
                        Ent::Hash(g.hash32())
                    } else {
                        Ent::Val(g.value())
                    };
                    list.push((k, e));
                }
                let stop = if g.pct(50) { g.below(n + 2) } else { n + 5 };
                let mut fails = false;
                let mut m2 = m.clone();
                for (i, (k, e)) in list.iter().enumerate() {
                    if i >= stop || insert_refused(&m2, k, e) {
                        fails = true;
                        break;
                    }
                    m2.insert(k.clone(), e.clone());
                }
                if !fails && stop <= n {
                    fails = true;
                }
                o.log(|| format!("extend {:?} stop={stop} fails={fails}", list));
                let mut it = StopIter(list.iter().map(|(k, e)| (nib(k), e.voh())).collect(), stop);
                let r = catch(|| t.s_extend_dyn(&mut it));
                ensure!(
                    r.is_err() == fails,
                    "extending {} by {:?} (iterator failing at {stop}) {}",
                    before.show(),
                    list,
                    match r {
                        Ok(()) => "did not fail".to_string(),
                        Err(p) => p.show(),
                    }
                );
                m = m2;
                let want = canonical(&m);
                unchanged(&t, &want, &m, if fails { "a failed extend" } else { "an extend" }, hash_first, o)?;
                if fails {
                    o.count("failed_extends", 1);
                    o.state(&(map_print(&m), stop, 3));
                }
            }
        }
    }
    // Still usable.
    let k = keys.any(g);
    check_get(&t, &m, &k, o)?;
    unchanged(&t, &canonical(&m), &m, "all operations", false, o)?;
    o.sample(|| format!("{} trie after refused operations: {}", T::NAME, canonical(&m).show()));
    Ok(())
}
both!(c11, c11_case);

/// Every operation at every position around hash entries in small tries.
fn c11_sys(i: usize, o: &mut Obs) -> Result<(), String> {
    c11_sys_t::<StandardTrie>(i, o)?;
    c11_sys_t::<HashedPartialTrie>(i, o)
}

fn c11_sys_t<T: Sut>(i: usize, o: &mut Obs) -> Result<(), String> {
    let u = ["", "1", "12", "123", "124", "1234", "2"];
    let mut code = i % 2187;
    let mut m = Map::new();
    for (j, k) in u.iter().enumerate() {
        let c = code % 3;
        code /= 3;
        let e = match c {
            0 => continue,
            1 => Ent::Val(vec![j as u8 + 1; 1 + 37 * (j % 2)]),
            _ => Ent::Hash([j as u8 + 1; 32]),
        };
        if !insert_refused(&m, &hx(k), &e) {
            m.insert(hx(k), e);
        }
    }
    let r = canonical(&m);
    let t: T = r.build();
    o.log(|| format!("{} trie {}", T::NAME, r.show()));
    for k in ["", "1", "12", "120", "123", "1230", "12345", "124", "1241", "13", "2", "20", "3"] {
        let k = hx(k);
        for op in 0..3 {
            let mut x = t.clone();
            if i % 2 == 1 {
                x.s_hash();
            }
            let e = match op {
                0 => Some(Ent::Val(vec![0x77; 33])),
                1 => Some(Ent::Hash([0x99; 32])),
                _ => None,
            };
            let refused = match &e {
                Some(e) => insert_refused(&m, &k, e),
                None => meets_hash(&m, &k),
            };
            let mut m2 = m.clone();
            let res = catch(|| match &e {
                Some(e) => x.s_insert(nib(&k), e.voh()),
                None => {
                    x.s_delete(nib(&k));
                }
            });
            if !refused {
                match &e {
                    Some(e) => m2.insert(k.clone(), e.clone()),
                    None => m2.remove(&k),
                };
            }
            ensure!(
                res.is_err() == refused,
                "operation {op} at {} in {}: refused={} expected={refused}",
                hexk(&k),
                r.show(),
                res.is_err()
            );
            o.count(if refused { "refused_small" } else { "accepted" }, 1);
            if refused {
                o.state(&(i, &k, op));
            }
            unchanged(&x, &canonical(&m2), &m2, &format!("operation {op} at {}", hexk(&k)), op == 1, o)?;
        }
    }
    Ok(())
}

pub fn prop_c11() -> Prop {
    Prop {
        id: "C11",
        rule: "an evaluation is a partial trie on which operations that must be refused (and some that must not) are tried, each followed by a comparison of structure, hash and iteration; \
               distinct_nontrivial counts distinct pairs of contents and refused operation",
        sys: vec![Sys {
            name: "3 operations at 13 keys in all value/hash/absent assignments of 7 keys",
            quick: 2187,
            thorough: 2187,
            item: c11_sys,
        }],
        cases: vec![("refused operations", 1, c11_case)],
        assumptions: vec!["panics unwind"],
    }
}
