//! C02, C05, C06, C07: hashes, partial tries and subsets.

use std::collections::HashMap;

use sut::{
    partial_trie::{HashedPartialTrie, Node, StandardTrie},
    Sut,
};

use crate::{
    both, ensure,
    engine::{Prop, Sys},
    gen::*,
    model::*,
    obs::{catch, Obs},
    p_map::{held, map_size, neighbours, random_map, show_opt, shuffled, structure_err},
};

// ------------------------------------------------------------------ C02

/// A random tree in canonical form, with at most `room` nibbles below.
pub fn gen_tree(g: &mut Gen, room: usize, budget: &mut usize, hashes: usize) -> R {
    *budget = budget.saturating_sub(1);
    if room > 0 && *budget > 0 {
        match g.below(10) {
            0..=4 => return gen_branch(g, room, budget, hashes),
            5 | 6 => {
                let l = if g.pct(60) {
                    1 + g.below(room.min(4))
                } else {
                    1 + g.len(room - 1)
                };
                let k = g.nibbles_of_len(l);
                let c = if room == l || g.pct(hashes) {
                    R::Hash(g.hash32())
                } else {
                    gen_branch(g, room - l, budget, hashes)
                };
                return R::Ext(k, Box::new(c));
            }
            _ => (),
        }
    }
    let l = g.len(room);
    R::Leaf(g.nibbles_of_len(l), g.value())
}

fn gen_branch(g: &mut Gen, room: usize, budget: &mut usize, hashes: usize) -> R {
    let mut c = empty_children();
    let n = match g.below(8) {
        0..=3 => 2,
        4 | 5 => g.range(2, 5),
        6 => g.range(2, 16),
        _ => 16,
    };
    let value = if g.pct(30) { g.value() } else { vec![] };
    let start = g.below(16);
    let step = *g.pick(&[1, 3, 5, 7, 15]);
    let n = if !value.is_empty() && g.pct(30) { 1 } else { n };
    for i in 0..n {
        let at = (start + i * step) % 16;
        c[at] = if g.pct(hashes) {
            R::Hash(g.hash32())
        } else {
            gen_tree(g, room - 1, budget, hashes)
        };
    }
    R::Branch(c, value)
}

type Hashes = HashMap<*const R, [u8; 32]>;

pub fn ref_hashes(r: &R) -> Hashes {
    let mut m = Hashes::new();
    r.enc_visit(&mut |n, e| {
        m.insert(n as *const R, e.hash);
    });
    m
}

/// Calls `f` for all pairs of corresponding nodes.
pub fn pair_visit<T: Sut>(
    t: &T,
    r: &R,
    children_first: bool,
    f: &mut dyn FnMut(&T, &R) -> Result<(), String>,
) -> Result<(), String> {
    if !children_first {
        f(t, r)?;
    }
    match (&**t, r) {
        (Node::Branch { children, .. }, R::Branch(c, _)) => {
            for (a, b) in children.iter().zip(c) {
                pair_visit::<T>(a, b, children_first, f)?;
            }
        }
        (Node::Extension { child, .. }, R::Ext(_, c)) => pair_visit::<T>(child, c, children_first, f)?,
        _ => (),
    }
    if children_first {
        f(t, r)?;
    }
    Ok(())
}

pub fn check_hashes<T: Sut>(t: &T, r: &R, children_first: bool, o: &mut Obs) -> Result<(), String> {
    let h = ref_hashes(r);
    let empty = keccak(&[0x80]);
    pair_visit(t, r, children_first, &mut |t, r| {
        let want = h.get(&(r as *const R)).unwrap_or(&empty);
        let got = t.s_hash().0;
        o.count("node_hashes", 1);
        ensure!(
            got == *want,
            "the hash of {} is {} instead of {}",
            r.show(),
            hexb(&got),
            hexb(want)
        );
        Ok(())
    })
}

fn note_tree(r: &R, o: &mut Obs) {
    let h = r.hash();
    if !matches!(r, R::Empty | R::Hash(_)) {
        o.state(&h);
    }
    let n = r.count_nodes() as u64;
    o.max("nodes", n);
    r.visit(&mut vec![], 0, &mut |n, _, d| {
        o.count(&format!("nodes_{}", n.kind()), 1);
        o.max("depth", d as u64);
    });
}

fn c02<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mode = g.below(3);
    let t: T;
    let r: R;
    match mode {
        0 => {
            let mut budget = g.range(1, 60);
            let hashes = *g.pick(&[0, 5, 20, 50]);
            let room = *g.pick(&[64, 64, 64, 4, 63, 10]);
            r = gen_tree(g, room, &mut budget, hashes);
            t = r.build();
        }
        _ => {
            let mut keys = Keys::new(g);
            let n = map_size(g);
            let hashes = *g.pick(&[0, 0, 10, 40]);
            let m = random_map(g, &mut keys, n, hashes);
            let mut x = T::default();
            for (k, e) in &m {
                x.s_insert(nib(k), e.voh());
                if g.pct(5) {
                    x.s_hash();
                }
            }
            // Some more changes.
            let n = g.below(10);
            for _ in 0..n {
                let k = keys.any(g);
                if meets_hash(&read(&x).entries(), &k) {
                    continue;
                }
                if g.pct(50) {
                    let v = g.value_over(x.s_get(nib(&k)).map(|v| v.to_vec()));
                    x.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(v));
                } else {
                    x.s_delete(nib(&k));
                }
            }
            r = read(&x);
            t = x;
        }
    }
    o.log(|| format!("{} trie {}", T::NAME, r.show()));
    note_tree(&r, o);
    check_hashes(&t, &r, g.pct(50), o)?;
    // Once more, and in the other order on a clone.
    check_hashes(&t.clone(), &r, g.pct(50), o)?;
    o.sample(|| format!("{} trie {} hashes to {}", T::NAME, r.show(), hexb(&r.hash())));
    Ok(())
}
both!(c02, c02_case);

fn lens() -> Vec<usize> {
    let mut v: Vec<usize> = (1..=80).collect();
    v.extend(250..=260);
    v.extend([65530, 65535, 65536, 65540]);
    v
}

fn check_both(r: &R, o: &mut Obs) -> Result<(), String> {
    o.log(|| r.show());
    check_hashes::<StandardTrie>(&r.build(), r, false, o)?;
    check_hashes::<HashedPartialTrie>(&r.build(), r, true, o)?;
    check_hashes::<HashedPartialTrie>(&r.build(), r, false, o)?;
    o.state(&r.hash());
    Ok(())
}

/// Key length `i` against all value lengths around the limits of the encoding.
fn c02_lens(i: usize, o: &mut Obs) -> Result<(), String> {
    let k: Key = (0..i).map(|x| ((x * 11 + 6) % 16) as u8).collect();
    for l in lens() {
        for fill in [0x00u8, 0x7f, 0x80, 0xff] {
            if l > 300 && fill != 0x80 {
                continue;
            }
            let leaf = R::Leaf(k.clone(), vec![fill; l]);
            check_both(&leaf, o)?;
            if i < 64 {
                let mut c = empty_children();
                c[i % 16] = leaf.clone();
                let b = R::Branch(c, vec![fill; l]);
                check_both(&b, o)?;
                if i < 63 && fill == 0x80 {
                    check_both(&R::Ext(vec![(i % 16) as u8; 63 - i], Box::new(b)), o)?;
                }
            }
        }
        if l <= 80 && i + l < 64 {
            // Small branch below an extension, so that its own length matters.
            let mut c = empty_children();
            c[3] = R::Leaf(vec![], vec![1]);
            c[9] = R::Leaf(vec![1], vec![2; 1 + l % 9]);
            let b = R::Branch(c, vec![]);
            check_both(&R::Ext(vec![5; i + 1], Box::new(b)), o)?;
        }
    }
    // Hash nodes below extensions of this length.
    if i > 0 {
        check_both(&R::Ext(k.clone(), Box::new(R::Hash([0xab; 32]))), o)?;
        check_both(&R::Ext(k, Box::new(R::Hash([0; 32]))), o)?;
    }
    Ok(())
}

/// One-byte values, and full branches of small leaves.
fn c02_bytes(i: usize, o: &mut Obs) -> Result<(), String> {
    let b = i as u8;
    check_both(&R::Leaf(vec![], vec![b]), o)?;
    check_both(&R::Leaf(vec![b & 15], vec![b]), o)?;
    check_both(&R::Leaf(vec![b >> 4, b & 15], vec![b]), o)?;
    for n in 1..=16 {
        let mut c = empty_children();
        for x in c.iter_mut().take(n) {
            *x = R::Leaf(vec![], vec![b]);
        }
        check_both(&R::Branch(c.clone(), vec![b]), o)?;
        c[n - 1] = R::Hash([b; 32]);
        check_both(&R::Branch(c, vec![]), o)?;
    }
    Ok(())
}

fn c02_large(i: usize, o: &mut Obs) -> Result<(), String> {
    let l = [0usize, (1 << 24) - 40, 1 << 24, (1 << 24) + 3, 1 << 20][i];
    if l == 0 {
        return check_both(&R::Empty, o);
    }
    let mut c = empty_children();
    c[1] = R::Leaf(vec![1, 2], vec![0x5a; l]);
    c[2] = R::Leaf(vec![3], vec![7]);
    check_both(&R::Branch(c, vec![]), o)?;
    o.max("value_bytes", l as u64);
    Ok(())
}

pub fn prop_c02() -> Prop {
    Prop {
        id: "C02",
        rule: "an evaluation is one trie whose hash is compared, at the root and at every node, with an independent encoder written from the specification; \
               distinct_nontrivial counts distinct root hashes of tries with at least one leaf, extension or branch",
        sys: vec![
            Sys { name: "all key lengths with all value lengths around encoding limits", quick: 65, thorough: 65, item: c02_lens },
            Sys { name: "all one-byte values", quick: 256, thorough: 256, item: c02_bytes },
            Sys { name: "values around 16 MiB", quick: 3, thorough: 5, item: c02_large },
        ],
        cases: vec![("trees", 1, c02_case)],
        assumptions: vec!["hash nodes stand for nodes whose encoding has at least 32 bytes, as documented"],
    }
}

// ------------------------------------------------------------------ C05

/// Positions that may be hidden: not the same as or below another one.
pub fn choose_hidden(g: &mut Gen, r: &R) -> Vec<(Key, [u8; 32])> {
    let mut cand = vec![];
    let mut lens: HashMap<*const R, (usize, [u8; 32])> = HashMap::new();
    r.enc_visit(&mut |n, e| {
        lens.insert(n as *const R, (e.len, e.hash));
    });
    r.visit(&mut vec![], 0, &mut |n, at, _| {
        let (l, h) = lens[&(n as *const R)];
        if l >= 32 && !matches!(n, R::Hash(_)) {
            cand.push((at.clone(), h));
        }
    });
    if cand.is_empty() {
        return vec![];
    }
    let want = match g.below(6) {
        0 => cand.len(),
        _ => 1 + g.below(6),
    };
    let mut out: Vec<(Key, [u8; 32])> = vec![];
    for _ in 0..want {
        let c = g.pick(&cand).clone();
        if c.0.is_empty() && !g.pct(5) {
            continue;
        }
        if !out.iter().any(|x| is_prefix(&x.0, &c.0) || is_prefix(&c.0, &x.0)) {
            out.push(c);
        }
    }
    out
}

pub fn hide(r: &R, hidden: &[(Key, [u8; 32])]) -> R {
    let mut x = r.clone();
    for (p, h) in hidden {
        if let Some(n) = x.at_mut(p) {
            *n = R::Hash(*h);
        }
    }
    x
}

fn reaches(hidden: &[(Key, [u8; 32])], k: &[u8]) -> bool {
    hidden.iter().any(|(p, _)| is_prefix(p, k))
}

/// Whether the hidden nodes are still where they were, unchanged.
fn hidden_stay(r: &R, hidden: &[(Key, [u8; 32])]) -> bool {
    hidden.iter().all(|(p, h)| match r.at(p) {
        Some(n) => n.hash() == *h,
        None => false,
    })
}

/// The class of the recorded finding: a delete after which a hidden leaf or
/// extension would have to be merged with the node above it. Only the root hash
/// is waived, and only as long as the partial trie keeps exactly the entries it
/// should have; works on copies.
fn would_merge<T: Sut>(full: &T, part: &T, k: &Key, hidden: &[(Key, [u8; 32])], o: &mut Obs) -> Result<(), String> {
    let (mut f, mut p) = (full.clone(), part.clone());
    let mut want = read(part).entries();
    want.remove(k);
    let a = f.s_delete(nib(k));
    let b = match catch(|| p.s_delete(nib(k))) {
        // Refusing is as good as it gets.
        Err(_) => {
            o.count("merging_deletes_refused", 1);
            return Ok(());
        }
        Ok(b) => b,
    };
    ensure!(
        a == b,
        "delete({}) next to a hidden node returned {} on the partial trie and {} on the full trie",
        hexk(k),
        show_opt(&b),
        show_opt(&a)
    );
    for q in want.keys().chain([k]) {
        let w = if reaches(hidden, q) { None } else { f.s_get(nib(q)) };
        ensure!(
            p.s_get(nib(q)) == w,
            "after delete({}) next to a hidden node get({}) differs from the full trie",
            hexk(k),
            hexk(q)
        );
        o.count("lookups", 1);
    }
    if f.s_hash() == p.s_hash() {
        o.count("merging_deletes_with_equal_hash", 1);
        return Ok(());
    }
    ensure!(
        read(&p).entries() == want,
        "delete({}) next to a hidden node made {} of {}",
        hexk(k),
        read(&p).show(),
        read(part).show()
    );
    o.count("merging_deletes_with_hash_waived", 1);
    Ok(())
}

/// Hashes of nothing in particular, inserted and placed directly.
fn any_hashes<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let n = g.range(1, 12);
    let m = random_map(g, &mut keys, n, 50);
    let want = canonical(&m);
    let mut t = T::default();
    for (k, e) in shuffled(g, &m) {
        o.log(|| format!("insert {} {e:?}", hexk(&k)));
        t.s_insert(nib(&k), e.voh());
    }
    let d: T = want.build();
    ensure!(
        t.s_eq(&d) && read(&t) == want,
        "inserting hashes: {}",
        structure_err(&read(&t), &want)
    );
    ensure!(t.s_hash() == d.s_hash(), "the hash differs after inserting hashes into {}", want.show());
    o.count("tries_with_any_hashes", 1);
    Ok(())
}

fn c05<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    if g.pct(15) {
        any_hashes::<T>(g, o)?;
    }
    let mut keys = Keys::new(g);
    let n = map_size(g).clamp(2, 120);
    let mut m = random_map(g, &mut keys, n, 0);
    let mut full: T = canonical(&m).build();
    let r = read(&full);
    let hidden = choose_hidden(g, &r);
    let pr = hide(&r, &hidden);
    let mut part: T = if g.pct(50) {
        pr.build()
    } else {
        // By inserting the hashes.
        let mut es: Vec<(Key, Ent)> = pr.entries().into_iter().collect();
        for i in (1..es.len()).rev() {
            let j = g.below(i + 1);
            es.swap(i, j);
        }
        let mut t = T::default();
        for (k, e) in &es {
            o.log(|| format!("partial: insert {} {:?}", hexk(k), e));
            t.s_insert(nib(k), e.voh());
        }
        o.count("hashes_inserted", hidden.len() as u64);
        let d: T = pr.build();
        ensure!(
            t.s_eq(&d),
            "inserting hashes: {}",
            structure_err(&read(&t), &pr)
        );
        t
    };
    o.log(|| format!("{} full {}", T::NAME, r.show()));
    o.log(|| format!("partial {}", pr.show()));
    if hidden.is_empty() {
        return Ok(());
    }
    o.count("hidden_parts", hidden.len() as u64);
    for (p, _) in &hidden {
        o.count(&format!("hidden_{}", r.at(p).map_or("?", |n| n.kind())), 1);
    }
    let compare = |full: &T, part: &T, m: &Map, ks: &[Key], what: &str, o: &mut Obs| -> Result<(), String> {
        let (a, b) = (full.s_hash(), part.s_hash());
        ensure!(
            a == b,
            "after {what} the partial trie {} has hash {b:?}, the full trie {} has {a:?}",
            read(part).show(),
            read(full).show()
        );
        o.count("hash_comparisons", 1);
        for k in ks {
            let want = if reaches(&hidden, k) { None } else { full.s_get(nib(k)) };
            let got = part.s_get(nib(k));
            o.count("lookups", 1);
            ensure!(
                got == want,
                "after {what} get({}) gives {} in the partial trie instead of {}",
                hexk(k),
                show_opt(&got.map(|x| x.to_vec())),
                show_opt(&want.map(|x| x.to_vec()))
            );
            // The full trie itself, too.
            let w = match m.get(k) {
                Some(Ent::Val(v)) => Some(v.as_slice()),
                _ => None,
            };
            ensure!(full.s_get(nib(k)) == w, "the full trie lost track of {}", hexk(k));
        }
        Ok(())
    };
    let all: Vec<Key> = m.keys().cloned().collect();
    compare(&full, &part, &m, &all, "hiding", o)?;
    let steps = g.below(30);
    for _ in 0..steps {
        let k = if g.pct(30) {
            // Close to a hidden part.
            let mut k = g.pick(&hidden).0.clone();
            match g.below(3) {
                0 => {
                    let c = g.below(k.len() + 1);
                    k.truncate(c);
                }
                _ => {
                    if let Some(l) = k.len().checked_sub(1) {
                        let at = if g.pct(60) { l } else { g.below(l + 1) };
                        k[at] = (k[at] + 1 + g.below(15) as u8) & 15;
                        if g.pct(50) {
                            k.truncate(at + 1);
                        }
                    }
                }
            }
            k
        } else if g.pct(50) && !m.is_empty() {
            let i = g.below(m.len());
            m.keys().nth(i).unwrap().clone()
        } else {
            keys.any(g)
        };
        if reaches(&hidden, &k) {
            o.count("skipped_reaching_hidden", 1);
            continue;
        }
        let v = if g.pct(50) { Some(g.value_over(held(&m, &k))) } else { None };
        let mut m2 = m.clone();
        match &v {
            Some(v) => m2.insert(k.clone(), Ent::Val(v.clone())),
            None => m2.remove(&k),
        };
        let after = canonical(&m2);
        if !hidden_stay(&after, &hidden) {
            ensure!(v.is_none(), "the model moved a hidden node on an insert");
            o.log(|| format!("delete {} on copies", hexk(&k)));
            would_merge(&full, &part, &k, &hidden, o)?;
            continue;
        }
        m = m2;
        match v {
            Some(v) => {
                o.log(|| format!("insert {} = {}", hexk(&k), short(&v)));
                full.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(v.clone()));
                part.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(v));
                o.count("inserts", 1);
            }
            None => {
                o.log(|| format!("delete {}", hexk(&k)));
                let a = full.s_delete(nib(&k));
                let b = part.s_delete(nib(&k));
                ensure!(
                    a == b,
                    "delete({}) returned {} on the partial trie and {} on the full trie",
                    hexk(&k),
                    show_opt(&b),
                    show_opt(&a)
                );
                o.count("deletes", 1);
            }
        }
        compare(&full, &part, &m, &[k.clone()], &format!("an operation at {}", hexk(&k)), o)?;
        if after != read(&full) {
            return Err(structure_err(&read(&full), &after));
        }
        o.state(&(full.s_hash().0, hidden.len()));
    }
    let all: Vec<Key> = m.keys().cloned().collect();
    compare(&full, &part, &m, &all, "everything", o)?;
    o.sample(|| format!("partial {} of full {}", read(&part).show(), read(&full).show()));
    Ok(())
}
both!(c05, c05_case);

pub const MERGE_FINDING: &str = "delete-leaves-hidden-leaf-alone";

/// The recorded finding, in its exact form.
fn c05_witness(i: usize, o: &mut Obs) -> Result<(), String> {
    let m: Map = [
        (vec![1, 2, 3, 4], Ent::Val(vec![0xaa; 40])),
        (vec![2, 5, 6, 7], Ent::Val(vec![0xbb; 40])),
    ]
    .into_iter()
    .collect();
    fn run<T: Sut>(m: &Map) -> Result<Option<String>, String> {
        let r = canonical(m);
        let mut full: T = r.build();
        let h = r.at(&[1]).map(|n| n.hash()).unwrap_or_default();
        let mut part: T = hide(&r, &[(vec![1], h)]).build();
        let k = [2, 5, 6, 7];
        let a = full.s_delete(nib(&k));
        match catch(|| part.s_delete(nib(&k))) {
            // Refusing is as good as it gets.
            Err(_) => Ok(None),
            Ok(b) => {
                ensure!(a == b, "delete returned {} instead of {}", show_opt(&b), show_opt(&a));
                if full.s_hash() == part.s_hash() {
                    return Ok(None);
                }
                let got = read(&part);
                ensure!(
                    got == R::Ext(vec![1], Box::new(R::Hash(h))),
                    "the partial trie became {}",
                    got.show()
                );
                Ok(Some(format!(
                    "partial {} hashes to {:?}, the full trie to {:?}",
                    got.show(),
                    part.s_hash(),
                    full.s_hash()
                )))
            }
        }
    }
    let x = match i {
        0 => run::<StandardTrie>(&m)?,
        _ => run::<HashedPartialTrie>(&m)?,
    };
    if let Some(x) = x {
        o.known.insert(MERGE_FINDING.into(), x);
        o.count("known_finding_reproduced", 1);
    }
    Ok(())
}

/// All ways of hiding in a few small tries, followed by every single operation.
fn c05_small(i: usize, o: &mut Obs) -> Result<(), String> {
    c05_small_t::<StandardTrie>(i, o)?;
    c05_small_t::<HashedPartialTrie>(i, o)
}

fn c05_small_t<T: Sut>(i: usize, o: &mut Obs) -> Result<(), String> {
    let ks = ["", "1", "12", "1234", "1235", "13", "2", "20"];
    let set = i % 256;
    let mut m = Map::new();
    for (j, k) in ks.iter().enumerate() {
        if set >> j & 1 == 1 {
            let k: Key = k.chars().map(|c| c.to_digit(16).unwrap() as u8).collect();
            m.insert(k, Ent::Val(vec![j as u8 + 1; if j % 3 == 2 { 2 } else { 33 }]));
        }
    }
    let r = canonical(&m);
    let mut pos = vec![];
    r.visit(&mut vec![], 0, &mut |n, at, _| {
        let e = n.enc();
        if e.len >= 32 {
            pos.push((at.clone(), e.hash));
        }
    });
    let full: T = r.build();
    for h in &pos {
        let hidden = vec![h.clone()];
        let pr = hide(&r, &hidden);
        let part: T = pr.build();
        ensure!(
            full.s_hash() == part.s_hash(),
            "{} and {} hash differently",
            r.show(),
            pr.show()
        );
        let mut probe: Vec<Key> = ks
            .iter()
            .map(|k| k.chars().map(|c| c.to_digit(16).unwrap() as u8).collect())
            .collect();
        probe.push(vec![1, 2, 3]);
        probe.push(vec![1, 2, 3, 6]);
        probe.push(vec![3]);
        for k in probe {
            let want = if reaches(&hidden, &k) { None } else { r.get(&k) };
            ensure!(part.s_get(nib(&k)) == want, "get({}) in {}", hexk(&k), pr.show());
            o.count("lookups", 1);
            if reaches(&hidden, &k) {
                continue;
            }
            for op in 0..2 {
                let (mut f, mut p) = (full.clone(), part.clone());
                let mut m2 = m.clone();
                if op == 0 {
                    m2.insert(k.clone(), Ent::Val(vec![0x99; 34]));
                } else {
                    m2.remove(&k);
                }
                let after = canonical(&m2);
                if !hidden_stay(&after, &hidden) {
                    ensure!(op == 1, "the model moved a hidden node on an insert");
                    would_merge(&full, &part, &k, &hidden, o)?;
                    continue;
                }
                o.log(|| format!("{} op {op} at {}", pr.show(), hexk(&k)));
                if op == 0 {
                    f.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(vec![0x99; 34]));
                    p.s_insert(nib(&k), sut::trie_ops::ValOrHash::Val(vec![0x99; 34]));
                } else {
                    let (a, b) = (f.s_delete(nib(&k)), p.s_delete(nib(&k)));
                    ensure!(a == b, "delete({}) in {}", hexk(&k), pr.show());
                }
                o.count("hash_comparisons", 1);
                ensure!(
                    f.s_hash() == p.s_hash() && f.s_hash().0 == after.hash(),
                    "operation {op} at {} makes {} of {} and {} of {}",
                    hexk(&k),
                    read(&p).show(),
                    pr.show(),
                    read(&f).show(),
                    r.show()
                );
                o.state(&(&pr.hash(), &h.0, &k, op));
            }
        }
    }
    Ok(())
}

pub fn prop_c05() -> Prop {
    Prop {
        id: "C05",
        rule: "an evaluation is a full trie and a partial one with some sub-tries hidden, on which the same operations are applied, with hash and lookups compared after each; \
               distinct_nontrivial counts distinct (root hash, number of hidden parts) pairs reached with at least one part hidden",
        sys: vec![
            Sys { name: "recorded finding", quick: 2, thorough: 2, item: c05_witness },
            Sys { name: "every hidden position and single operation in 256 small tries", quick: 256, thorough: 256, item: c05_small },
        ],
        cases: vec![("partial against full", 1, c05_case)],
        assumptions: vec![
            "the root hash is not compared after a delete that would have to merge a hidden leaf or extension with the node above it, if the entries are right: see the known finding",
        ],
    }
}

// ------------------------------------------------------------------ C06, C07

/// The subset for these keys, or `None` if a key continues past a hash node.
pub fn ref_subset(r: &R, keys: &[&[u8]]) -> Option<R> {
    if keys.is_empty() {
        return Some(match r {
            R::Empty | R::Hash(_) => r.clone(),
            _ => {
                let e = r.enc();
                if e.len >= 32 {
                    R::Hash(e.hash)
                } else {
                    r.clone()
                }
            }
        });
    }
    Some(match r {
        R::Empty | R::Leaf(..) => r.clone(),
        R::Hash(_) => {
            if keys.iter().any(|k| !k.is_empty()) {
                return None;
            }
            r.clone()
        }
        R::Branch(c, v) => {
            let mut out = vec![];
            for (i, x) in c.iter().enumerate() {
                let sub: Vec<&[u8]> = keys
                    .iter()
                    .filter(|k| k.first() == Some(&(i as u8)))
                    .map(|k| &k[1..])
                    .collect();
                out.push(ref_subset(x, &sub)?);
            }
            R::Branch(out, v.clone())
        }
        R::Ext(p, c) => {
            let sub: Vec<&[u8]> = keys
                .iter()
                .filter(|k| is_prefix(p, k))
                .map(|k| &k[p.len()..])
                .collect();
            R::Ext(p.clone(), Box::new(ref_subset(c, &sub)?))
        }
    })
}

fn base<T: Sut>(g: &mut Gen, o: &mut Obs) -> (T, R, Map, Keys) {
    let mut keys = Keys::new(g);
    let n = map_size(g);
    let hashes = *g.pick(&[0, 0, 0, 10, 30]);
    let m = random_map(g, &mut keys, n, hashes);
    let t: T = if g.pct(50) {
        canonical(&m).build()
    } else {
        let mut t = T::default();
        for (k, e) in &m {
            t.s_insert(nib(k), e.voh());
        }
        t
    };
    if g.pct(30) {
        t.s_hash();
    }
    let r = read(&t);
    o.log(|| format!("{} base {}", T::NAME, r.show()));
    (t, r, m, keys)
}

fn ask(g: &mut Gen, keys: &mut Keys, m: &Map, past_hash: bool) -> Vec<Key> {
    let n = match g.below(10) {
        0 => 0,
        1..=4 => 1,
        5..=7 => g.range(2, 5),
        _ => g.range(1, 20),
    };
    let mut v = vec![];
    for _ in 0..n {
        let mut k = if g.pct(50) && !m.is_empty() {
            let i = g.below(m.len());
            m.keys().nth(i).unwrap().clone()
        } else {
            keys.any(g)
        };
        if g.pct(15) {
            let c = g.below(k.len() + 1);
            k.truncate(c);
        }
        let past = (0..k.len()).any(|l| matches!(m.get(&k[..l]), Some(Ent::Hash(_))));
        if past && !(past_hash && g.pct(30)) {
            continue;
        }
        v.push(k.clone());
        if g.pct(10) {
            v.push(k);
        }
    }
    v
}

fn c06<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let (t, r, m, mut keys) = base::<T>(g, o);
    let want_hash = r.hash();
    let lists: Vec<Vec<Key>> = if g.pct(70) {
        vec![ask(g, &mut keys, &m, false)]
    } else {
        let n = g.below(5);
        (0..n).map(|_| ask(g, &mut keys, &m, false)).collect()
    };
    o.log(|| format!("keys {:?}", lists.iter().map(|l| l.iter().map(|k| hexk(k)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let subs: Vec<T> = if lists.len() == 1 {
        let ks: Vec<_> = lists[0].iter().map(|k| nib(k)).collect();
        match t.s_subset(ks) {
            Ok(s) => vec![s],
            Err(e) => return Err(format!("an error was returned: {e:.300}")),
        }
    } else {
        match t.s_subsets(lists.iter().map(|l| l.iter().map(|k| nib(k)).collect()).collect()) {
            Ok(s) => s,
            Err(e) => return Err(format!("an error was returned: {e:.300}")),
        }
    };
    ensure!(subs.len() == lists.len(), "{} subsets for {} key lists", subs.len(), lists.len());
    let mut probe: Vec<Key> = m.keys().cloned().collect();
    for k in m.keys().take(6) {
        probe.extend(neighbours(k));
    }
    for (s, l) in subs.iter().zip(&lists) {
        let h = s.s_hash().0;
        ensure!(
            h == want_hash,
            "the subset {} of {} hashes to {} instead of {}",
            read(s).show(),
            r.show(),
            hexb(&h),
            hexb(&want_hash)
        );
        for k in l {
            o.count("requested_lookups", 1);
            let (a, b) = (s.s_get(nib(k)), r.get(k));
            ensure!(
                a == b,
                "requested key {} gives {} instead of {} in subset {} of {}",
                hexk(k),
                show_opt(&a.map(|x| x.to_vec())),
                show_opt(&b.map(|x| x.to_vec())),
                read(s).show(),
                r.show()
            );
        }
        for k in &probe {
            o.count("other_lookups", 1);
            let (a, b) = (s.s_get(nib(k)), r.get(k));
            ensure!(
                a.is_none() || a == b,
                "key {} gives {} instead of {} or nothing in subset {}",
                hexk(k),
                show_opt(&a.map(|x| x.to_vec())),
                show_opt(&b.map(|x| x.to_vec())),
                read(s).show()
            );
        }
        o.count("subsets", 1);
        if !matches!(r, R::Empty) {
            o.state(&(want_hash, l));
        }
    }
    ensure!(read(&t) == r, "the base changed: {}", structure_err(&read(&t), &r));
    ensure!(t.s_hash().0 == want_hash, "the hash of the base changed");
    o.sample(|| format!("base {} keys {:?}", r.show(), lists));
    Ok(())
}
both!(c06, c06_case);

fn c07<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let (t, r, m, mut keys) = base::<T>(g, o);
    let n = match g.below(4) {
        0 => 1,
        1 => g.below(3),
        _ => g.range(2, 6),
    };
    let lists: Vec<Vec<Key>> = (0..n).map(|_| ask(g, &mut keys, &m, true)).collect();
    o.log(|| format!("keys {:?}", lists.iter().map(|l| l.iter().map(|k| hexk(k)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let want: Vec<Option<R>> = lists
        .iter()
        .map(|l| {
            let ks: Vec<&[u8]> = l.iter().map(|k| k.as_slice()).collect();
            ref_subset(&r, &ks)
        })
        .collect();
    for (l, w) in lists.iter().zip(&want) {
        let got = t.s_subset(l.iter().map(|k| nib(k)).collect());
        compare_subset(&r, l, got.map(|s| read(&s)), w, "alone", o)?;
        if !matches!(r, R::Empty) {
            o.state(&(r.hash(), l));
        }
    }
    let got = t.s_subsets(lists.iter().map(|l| l.iter().map(|k| nib(k)).collect()).collect());
    match (got, want.iter().all(|w| w.is_some())) {
        (Err(_), false) => o.count("errors_expected", 1),
        (Err(e), true) => return Err(format!("several subsets: an error was returned: {e:.300}")),
        (Ok(_), false) => return Err("several subsets: a key past a hash node gave no error".into()),
        (Ok(s), true) => {
            ensure!(s.len() == lists.len(), "{} subsets for {} lists", s.len(), lists.len());
            for ((s, l), w) in s.iter().zip(&lists).zip(&want) {
                compare_subset(&r, l, Ok(read(s)), w, "together", o)?;
            }
        }
    }
    o.sample(|| format!("base {} subset {:?}", r.show(), want.first().and_then(|w| w.as_ref()).map(|w| w.show())));
    Ok(())
}
both!(c07, c07_case);

fn compare_subset(
    r: &R,
    l: &[Key],
    got: Result<R, String>,
    want: &Option<R>,
    how: &str,
    o: &mut Obs,
) -> Result<(), String> {
    let ks: Vec<String> = l.iter().map(|k| hexk(k)).collect();
    match (got, want) {
        (Ok(g), Some(w)) => {
            o.count("subsets_compared", 1);
            ensure!(
                g == *w,
                "{how}: subset of {} for {ks:?}: {}",
                r.show(),
                structure_err(&g, w)
            );
            g.visit(&mut vec![], 0, &mut |n, _, _| {
                if let R::Hash(_) = n {
                    o.count("hash_nodes_in_subsets", 1)
                }
            });
        }
        (Err(_), None) => o.count("errors_expected", 1),
        (Ok(g), None) => {
            return Err(format!(
                "{how}: no error although a key of {ks:?} continues past a hash node in {}: {}",
                r.show(),
                g.show()
            ))
        }
        (Err(e), Some(_)) => {
            return Err(format!("{how}: error for {ks:?} in {}: {e:.300}", r.show()))
        }
    }
    Ok(())
}

fn hx(s: &str) -> Key {
    s.chars().map(|c| c.to_digit(16).unwrap() as u8).collect()
}

/// All small bases against all pairs of keys.
fn small_base(i: usize) -> (Map, Vec<Key>) {
    let us: [[&str; 6]; 2] = [
        ["", "1", "12", "1234", "1235", "2"],
        ["00", "01", "0123", "0124", "0f", "1"],
    ];
    let u = us[i / 729 % 2];
    let mut code = i % 729;
    let mut m = Map::new();
    for (j, k) in u.iter().enumerate() {
        let c = code % 3;
        code /= 3;
        let e = match c {
            0 => continue,
            1 => Ent::Val(vec![j as u8 + 1; if (i + j) % 2 == 0 { 1 } else { 33 }]),
            _ if j % 2 == 0 => Ent::Hash([j as u8 + 1; 32]),
            _ => Ent::Val(vec![j as u8 + 0x41; 29]),
        };
        if !insert_refused(&m, &hx(k), &e) {
            m.insert(hx(k), e);
        }
    }
    let mut probe: Vec<Key> = u.iter().map(|k| hx(k)).collect();
    probe.extend(["0", "123", "1236", "12345", "3", "10", "012", "01230"].iter().map(|k| hx(k)));
    probe.sort();
    probe.dedup();
    (m, probe)
}

fn c06_small(i: usize, o: &mut Obs) -> Result<(), String> {
    subset_small::<StandardTrie>(i, false, o)?;
    subset_small::<HashedPartialTrie>(i, false, o)
}

fn c07_small(i: usize, o: &mut Obs) -> Result<(), String> {
    subset_small::<StandardTrie>(i, true, o)?;
    subset_small::<HashedPartialTrie>(i, true, o)
}

fn subset_small<T: Sut>(i: usize, structure: bool, o: &mut Obs) -> Result<(), String> {
    let (m, probe) = small_base(i);
    let r = canonical(&m);
    let t: T = r.build();
    let h = r.hash();
    o.log(|| format!("{} base {}", T::NAME, r.show()));
    for a in 0..=probe.len() {
        for b in a..=probe.len() {
            let l: Vec<Key> = [a, b].iter().filter_map(|i| probe.get(*i)).cloned().collect();
            let ks: Vec<&[u8]> = l.iter().map(|k| k.as_slice()).collect();
            let want = ref_subset(&r, &ks);
            let got = t.s_subset(l.iter().map(|k| nib(k)).collect());
            if structure {
                compare_subset(&r, &l, got.map(|s| read(&s)), &want, "alone", o)?;
            } else if let (Ok(s), Some(_)) = (&got, &want) {
                ensure!(s.s_hash().0 == h, "subset {} of {} has a different hash", read(s).show(), r.show());
                for k in &probe {
                    let (x, y) = (s.s_get(nib(k)), r.get(k));
                    o.count("lookups", 1);
                    ensure!(
                        x == y || (x.is_none() && !l.contains(k)),
                        "key {} in subset {} of {}",
                        hexk(k),
                        read(s).show(),
                        r.show()
                    );
                }
            } else if want.is_some() {
                return Err(format!("error for a subset of {}", r.show()));
            }
            if !m.is_empty() {
                o.state(&(h, &l));
            }
        }
    }
    if structure {
        let lists: Vec<Vec<Key>> = probe
            .iter()
            .filter(|k| ref_subset(&r, &[k.as_slice()]).is_some())
            .map(|k| vec![k.clone()])
            .collect();
        let got = t.s_subsets(lists.iter().map(|l| l.iter().map(|k| nib(k)).collect()).collect())?;
        ensure!(got.len() == lists.len(), "{} subsets for {} lists", got.len(), lists.len());
        for (s, l) in got.iter().zip(&lists) {
            compare_subset(&r, l, Ok(read(s)), &ref_subset(&r, &[l[0].as_slice()]), "together", o)?;
        }
    }
    Ok(())
}

pub fn prop_c06() -> Prop {
    Prop {
        id: "C06",
        rule: "an evaluation is a base trie with one or several key collections; the subsets' hash and lookups are compared with the base; \
               distinct_nontrivial counts distinct pairs of non-empty base (by root hash) and key collection",
        sys: vec![Sys { name: "all pairs of 12 to 14 keys in 1458 small bases", quick: 1458, thorough: 1458, item: c06_small }],
        cases: vec![("subsets", 1, c06_case)],
        assumptions: vec!["requested keys do not continue past hash nodes of the base (see C07 for those)"],
    }
}

pub fn prop_c07() -> Prop {
    Prop {
        id: "C07",
        rule: "an evaluation is a base trie with several key collections; every subset is compared node for node with a reference subset, made alone and together; \
               distinct_nontrivial counts distinct pairs of non-empty base (by root hash) and key collection",
        sys: vec![Sys { name: "all pairs of 12 to 14 keys in 1458 small bases", quick: 1458, thorough: 1458, item: c07_small }],
        cases: vec![("subsets", 1, c07_case)],
        assumptions: vec![],
    }
}
