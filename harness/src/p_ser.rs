//! C17: serialization.

use sut::{
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie, Node, StandardTrie},
    Format, Sut,
};

use crate::{
    both, ensure,
    engine::{Prop, Sys},
    gen::*,
    model::*,
    obs::{catch, Obs},
    p_hash::{check_hashes, gen_tree},
    p_map::{check_iteration, map_size, random_map, structure_err},
};

const FORMATS: [Format; 3] = [Format::Json, Format::Cbor, Format::Bincode];

fn nibbles_round_trip(k: &[u8], o: &mut Obs) -> Result<(), String> {
    let n = nib(k);
    for f in FORMATS {
        let b = sut::ser(&n, f).map_err(|e| format!("{} to {f:?}: {e}", hexk(k)))?;
        let x: Nibbles = sut::de(&b, f).map_err(|e| format!("{} from {f:?}: {e}", hexk(k)))?;
        let got = unnib_checked(&x)?;
        ensure!(got == k && x == n, "{} came back as {} from {f:?}", hexk(k), hexk(&got));
        let again = sut::ser(&x, f)?;
        ensure!(again == b, "{} is not serialized to {f:?} the same way again", hexk(k));
        o.count("nibble_round_trips", 1);
    }
    o.state(&k);
    Ok(())
}

/// Hashes some inner nodes, so that only they have their hash cached.
fn hash_parts<T: Sut>(t: &T, g: &mut Gen, pct: usize) {
    if g.pct(pct) {
        t.s_hash();
    }
    match &**t {
        Node::Branch { children, .. } => {
            for c in children {
                if !matches!(****c, Node::Empty) {
                    hash_parts::<T>(c, g, pct);
                }
            }
        }
        Node::Extension { child, .. } => hash_parts::<T>(child, g, pct),
        _ => (),
    }
}

fn round_trip<T: Sut>(t: &T, r: &R, f: Format, o: &mut Obs) -> Result<(T, Vec<u8>), String> {
    let b = t.s_ser(f).map_err(|e| format!("serializing {} to {f:?}: {e}", r.show()))?;
    let x = T::s_de(&b, f).map_err(|e| format!("deserializing {} from {f:?}: {e}", r.show()))?;
    let got = read(&x);
    ensure!(
        got == *r,
        "through {f:?}: {}",
        structure_err(&got, r)
    );
    let again = x.s_ser(f).map_err(|e| format!("serializing {} again: {e}", r.show()))?;
    ensure!(again == b, "{} is not serialized to {f:?} the same way again", r.show());
    ensure!(x.s_eq(t) && t.s_eq(&x), "{} is not equal after {f:?}", r.show());
    o.count(&format!("round_trips_{f:?}"), 1);
    o.max("bytes", b.len() as u64);
    o.state(&(f as u8, &b));
    Ok((x, b))
}

fn c17<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let mut t: T;
    if g.pct(30) {
        let mut budget = g.range(1, 60);
        let hashes = *g.pick(&[0, 5, 30]);
        t = gen_tree(g, 64, &mut budget, hashes).build();
        for k in read(&t).entries().into_keys() {
            if g.pct(20) {
                keys.pool.push(k);
            }
        }
    } else {
        let n = map_size(g);
        let hashes = *g.pick(&[0, 0, 10, 30]);
        let m = random_map(g, &mut keys, n, hashes);
        t = T::default();
        for (k, e) in &m {
            t.s_insert(nib(k), e.voh());
        }
    }
    let cached = g.below(4);
    match cached {
        0 => (),
        1 => {
            t.s_hash();
        }
        _ => {
            let p = *g.pick(&[5, 20, 50]);
            hash_parts(&t, g, p);
        }
    }
    if cached == 3 {
        // Some changes on top of cached hashes.
        let n = g.below(5);
        for _ in 0..n {
            change(&mut t, g, &mut keys, o)?;
        }
    }
    let r = read(&t);
    let f = *g.pick(&FORMATS);
    o.log(|| format!("{} {f:?} {} (cached {cached})", T::NAME, r.show()));
    let (mut x, b) = round_trip(&t, &r, f, o)?;
    if g.pct(30) {
        // Twice.
        x = round_trip(&x, &r, *g.pick(&FORMATS), o)?.0;
    }
    if g.pct(50) {
        check_hashes(&x, &r, g.pct(50), o)?;
    }
    // Changes of one must not be seen by the other.
    let mut other = t.clone();
    let n = g.below(6);
    for _ in 0..n {
        let (k, e) = op(g, &mut keys);
        let res = [apply(&mut x, &k, &e), apply(&mut other, &k, &e)];
        o.log(|| format!("{} {e:?}: {:?}", hexk(&k), res[0]));
        o.count("further_operations", 1);
        ensure!(
            res[0] == res[1],
            "after {f:?}, changing {} to {e:?} gives {:?} instead of {:?}",
            hexk(&k),
            res[0],
            res[1]
        );
        let (rx, ro) = (read(&x), read(&other));
        ensure!(rx == ro, "after {f:?} and a change of {}: {}", hexk(&k), structure_err(&rx, &ro));
        if g.pct(40) {
            let (a, b) = (x.s_hash().0, rx.hash());
            ensure!(a == b, "after {f:?} and a change of {}: hash {} instead of {}", hexk(&k), hexb(&a), hexb(&b));
        }
    }
    let rx = read(&x);
    check_hashes(&x, &rx, g.pct(50), o)?;
    let m = rx.entries();
    check_iteration(&x, &m, o)?;
    let rt = read(&t);
    ensure!(rt == r, "changing the deserialized trie changed the original: {}", structure_err(&rt, &r));
    drop(other);
    let back = T::s_de(&b, f)?;
    ensure!(back.s_hash().0 == r.hash(), "the hash is not the same after {f:?}");
    ensure!(t.s_hash().0 == r.hash(), "the hash of the original is wrong after {f:?}");
    o.sample(|| format!("{} trie through {f:?} in {} bytes: {}", T::NAME, b.len(), r.show()));
    Ok(())
}
both!(c17, c17_case);

fn op(g: &mut Gen, keys: &mut Keys) -> (Key, Option<Ent>) {
    if g.pct(60) {
        (keys.write_key(g), Some(Ent::Val(g.value())))
    } else {
        (keys.any(g), None)
    }
}

/// `Err` for a refused operation.
fn apply<T: Sut>(t: &mut T, k: &[u8], e: &Option<Ent>) -> Result<Option<Vec<u8>>, ()> {
    match e {
        Some(e) => catch(|| t.s_insert(nib(k), e.voh())).map(|_| None).map_err(|_| ()),
        None => catch(|| t.s_delete(nib(k))).map_err(|_| ()),
    }
}

fn change<T: Sut>(t: &mut T, g: &mut Gen, keys: &mut Keys, _: &mut Obs) -> Result<(), String> {
    let (k, e) = op(g, keys);
    let _ = apply(t, &k, &e);
    Ok(())
}

fn nibbles_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let k = g.any_key();
    o.log(|| hexk(&k));
    nibbles_round_trip(&k, o)
}

fn nibbles_sys(l: usize, o: &mut Obs) -> Result<(), String> {
    for n in 0..16u8 {
        nibbles_round_trip(&vec![n; l], o)?;
        for at in 0..l {
            let mut k = vec![0; l];
            k[at] = n;
            nibbles_round_trip(&k, o)?;
        }
    }
    Ok(())
}

/// Single nodes of all kinds with values and keys of all lengths.
fn nodes_sys(i: usize, o: &mut Obs) -> Result<(), String> {
    let l = i % 65;
    let v = vec![(i * 37 + 1) as u8; [1, 31, 32, 33, 300][i / 65 % 5]];
    let leaf = R::Leaf(vec![(l % 16) as u8; l], v.clone());
    let mut c = empty_children();
    c[l % 16] = R::Leaf(vec![3; l.saturating_sub(1)], v.clone());
    c[(l + 5) % 16] = R::Hash(keccak(&v));
    let branch = R::Branch(c, if i % 2 == 0 { vec![] } else { v.clone() });
    let mut nodes = vec![R::Empty, R::Hash(keccak(&v)), leaf, branch.clone()];
    if l > 0 {
        nodes.push(R::Ext(vec![7; l], Box::new(R::Hash(keccak(&v)))));
        if l <= 1 {
            nodes.push(R::Ext(vec![0; l], Box::new(branch)));
        }
    }
    for r in nodes {
        o.log(|| r.show());
        for f in FORMATS {
            for hashed in [false, true] {
                let t: StandardTrie = r.build();
                let (x, _) = round_trip(&t, &r, f, o)?;
                check_hashes(&x, &r, false, o)?;
                let t: HashedPartialTrie = r.build();
                if hashed {
                    check_hashes(&t, &r, true, o)?;
                }
                let (x, _) = round_trip(&t, &r, f, o)?;
                check_hashes(&x, &r, i % 2 == 0, o)?;
            }
        }
    }
    Ok(())
}

pub fn prop_c17() -> Prop {
    Prop {
        id: "C17",
        rule: "an evaluation serializes a trie (with no, some or all hashes cached) or nibble sequence, deserializes it, compares structure, equality, hashes, the second serialization and the behaviour under further operations; \
               distinct_nontrivial counts distinct serialized forms and sequences",
        sys: vec![
            Sys { name: "nibble sequences of all lengths with one or all digits set", quick: 65, thorough: 65, item: nibbles_sys },
            Sys { name: "nodes of all kinds and key lengths", quick: 650, thorough: 650, item: nodes_sys },
        ],
        cases: vec![("tries", 6, c17_case), ("nibbles", 1, nibbles_case)],
        assumptions: vec!["JSON, CBOR and bincode stand for all formats; the recursion limits of the JSON and CBOR readers are lifted"],
    }
}
