//! C08, C09, C10: cached hashes, snapshots and threads.

use std::sync::{Arc, Barrier};

use sut::{
    partial_trie::{HashedPartialTrie, Node, PartialTrie},
    trie_ops::ValOrHash,
    Format, Sut,
};

use crate::{
    both, ensure,
    engine::{Prop, Sys},
    gen::*,
    model::*,
    obs::{catch, Obs},
    p_hash::{check_hashes, ref_subset},
    p_map::{check_iteration, map_size, random_map, structure_err},
};

type H = HashedPartialTrie;

// ------------------------------------------------------------------ C08

fn small_value(g: &mut Gen) -> Vec<u8> {
    let l = match g.below(4) {
        0 => g.range(1, 4),
        1 => g.range(20, 34),
        _ => g.range(1, 40),
    };
    g.bytes(l)
}

fn small_value_over(g: &mut Gen, old: Option<Vec<u8>>) -> Vec<u8> {
    match old {
        Some(v) if g.pct(30) => g.near(&v),
        _ => small_value(g),
    }
}

/// Modifies a node somewhere below through mutable access, keeping the tree in
/// canonical form.
fn edit(t: &mut H, g: &mut Gen, room: usize, o: &mut Obs) {
    let new_value = small_value(g);
    let n: &mut Node<H> = &mut *t;
    match n {
        Node::Empty => {
            o.log(|| "edit: empty becomes a leaf".into());
            *n = Node::Leaf {
                nibbles: nib(&[]),
                value: new_value,
            };
        }
        Node::Hash(h) => {
            o.log(|| "edit: change a hash".into());
            h.0[31] ^= 1;
            h.0[0] = h.0[0].wrapping_add(3);
        }
        Node::Leaf { nibbles, value } => {
            if nibbles.count > 0 && g.pct(30) {
                let mut k = unnib(nibbles);
                let l = k.len() - 1;
                k[l] = (k[l] + 1) & 15;
                o.log(|| "edit: change the key of a leaf".into());
                *nibbles = nib(&k);
            } else {
                o.log(|| "edit: change the value of a leaf".into());
                *value = if g.pct(40) { g.near(value) } else { new_value };
            }
        }
        Node::Extension { nibbles, child } => {
            if g.pct(25) {
                let mut k = unnib(nibbles);
                k[0] = (k[0] + 1) & 15;
                o.log(|| "edit: change the key of an extension".into());
                *nibbles = nib(&k);
            } else {
                o.log(|| "edit: below an extension".into());
                let room = room.saturating_sub(nibbles.count);
                edit_child(child, g, room, true, o);
            }
        }
        Node::Branch { children, value } => {
            let full: Vec<usize> = (0..16).filter(|i| !matches!(***children[*i], Node::Empty)).collect();
            match g.below(6) {
                0 if !value.is_empty() => {
                    o.log(|| "edit: change the value of a branch".into());
                    *value = new_value;
                }
                1 => {
                    o.log(|| "edit: set the value of a branch".into());
                    *value = new_value;
                }
                2 => {
                    let (a, b) = (g.below(16), g.below(16));
                    o.log(|| format!("edit: swap children {a} and {b}"));
                    children.swap(a, b);
                }
                3 if full.len() < 16 => {
                    let i = (0..16).find(|i| !full.contains(i)).unwrap();
                    o.log(|| format!("edit: new child {i}"));
                    if let Some(f) = full.first().filter(|_| g.pct(50)) {
                        // The same node a second time.
                        children[i] = children[*f].clone();
                    } else {
                        children[i] = Node::Leaf {
                            nibbles: nib(&[]),
                            value: new_value,
                        }
                        .into();
                    }
                }
                _ => {
                    if full.is_empty() {
                        *value = new_value;
                    } else {
                        let i = *g.pick(&full);
                        o.log(|| format!("edit: below child {i}"));
                        edit_child(&mut children[i], g, room.saturating_sub(1), false, o);
                    }
                }
            }
        }
    }
}

fn edit_child(c: &mut Arc<Box<H>>, g: &mut Gen, room: usize, below_ext: bool, o: &mut Obs) {
    match g.below(6) {
        0 => {
            o.log(|| "edit: replace by a hash node".into());
            let h = g.hash32();
            *c = Node::Hash(ethereum_types::H256(h)).into();
        }
        1 if !below_ext => {
            o.log(|| "edit: replace by a leaf".into());
            let l = g.below(room.min(6) + 1);
            let k = g.nibbles_of_len(l);
            *c = Node::Leaf {
                nibbles: nib(&k),
                value: small_value(g),
            }
            .into();
        }
        _ => {
            let b: &mut Box<H> = Arc::make_mut(c);
            edit(b, g, room, o)
        }
    }
}

/// A random node at or below `t`.
fn some_node<T: Sut>(t: &T, g: &mut Gen) -> T
where
    T: Clone,
{
    let mut cur: &T = t;
    loop {
        match &**cur {
            Node::Branch { children, .. } => {
                if g.pct(30) {
                    break;
                }
                cur = &children[g.below(16)];
            }
            Node::Extension { child, .. } => {
                if g.pct(30) {
                    break;
                }
                cur = child;
            }
            _ => break,
        }
    }
    cur.clone()
}

fn hash_some(t: &H, g: &mut Gen, o: &mut Obs) {
    let mut cur: &H = t;
    let steps = g.below(4);
    for _ in 0..steps {
        match &**cur {
            Node::Branch { children, .. } => cur = &children[g.below(16)],
            Node::Extension { child, .. } => cur = child,
            _ => break,
        }
    }
    o.log(|| format!("hash at depth {steps}"));
    cur.s_hash();
}

fn c08_check(t: &H, deep: bool, first: bool, what: &str, o: &mut Obs) -> Result<(), String> {
    let r = read(t);
    if deep {
        check_hashes(t, &r, first, o).map_err(|e| format!("after {what}: {e}"))?;
    } else {
        let (got, want) = (t.s_hash().0, r.hash());
        o.count("root_hashes", 1);
        ensure!(
            got == want,
            "after {what}: the hash of {} is {} instead of {}",
            r.show(),
            hexb(&got),
            hexb(&want)
        );
    }
    if !matches!(r, R::Empty | R::Hash(_)) {
        o.state(&r.hash());
    }
    Ok(())
}

fn c08_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let n = map_size(g).min(40);
    let hashes = *g.pick(&[0, 0, 10, 30]);
    let m = random_map(g, &mut keys, n, hashes);
    let first: H = canonical(&m).build();
    o.log(|| format!("start {}", canonical(&m).show()));
    let mut hs: Vec<H> = vec![first];
    let steps = history_len(g).min(60);
    for _ in 0..steps {
        let i = g.below(hs.len());
        let mut what = String::new();
        match g.below(24) {
            0..=4 => {
                let k = keys.write_key(g);
                let e = if g.pct(hashes / 2) {
                    Ent::Hash(g.hash32())
                } else {
                    Ent::Val(small_value_over(g, hs[i].s_get(nib(&k)).map(|v| v.to_vec())))
                };
                o.log(|| format!("{i}: insert {} {:?}", hexk(&k), e));
                let r = catch(|| hs[i].s_insert(nib(&k), e.voh()));
                o.count(if r.is_ok() { "inserts" } else { "refused" }, 1);
                what.push_str(if r.is_ok() { "an insert" } else { "a refused insert" });
            }
            5..=8 => {
                let k = keys.any(g);
                o.log(|| format!("{i}: delete {}", hexk(&k)));
                let r = catch(|| hs[i].s_delete(nib(&k)));
                o.count(if r.is_ok() { "deletes" } else { "refused" }, 1);
                what.push_str(if r.is_ok() { "a delete" } else { "a refused delete" });
            }
            9 => {
                let n = g.below(6);
                let l: Vec<_> = (0..n)
                    .map(|_| {
                        let k = keys.write_key(g);
                        let e = if g.pct(hashes / 4) {
                            Ent::Hash(g.hash32())
                        } else {
                            Ent::Val(small_value(g))
                        };
                        (nib(&k), e.voh())
                    })
                    .collect();
                o.log(|| format!("{i}: extend {:?}", l));
                let _ = catch(|| hs[i].s_extend(l));
                o.count("extends", 1);
                what.push_str("an extend");
            }
            10..=12 => {
                let c = hs[i].clone();
                o.log(|| format!("clone {i} as {}", hs.len()));
                hs.push(c);
                o.count("clones", 1);
                what.push_str("a clone");
            }
            13..=17 => {
                o.log(|| format!("{i}: edit"));
                edit(&mut hs[i], g, 60, o);
                o.count("edits", 1);
                what.push_str("a direct edit");
            }
            18 => {
                let s = some_node(&hs[i], g);
                o.log(|| format!("sub-trie of {i} as {}: {}", hs.len(), read(&s).show()));
                if !matches!(*s, Node::Empty) {
                    hs.push(s);
                }
                what.push_str("taking a sub-trie");
            }
            19 => {
                let k = keys.any(g);
                o.log(|| format!("subset of {i} for {}", hexk(&k)));
                if let Ok(s) = hs[i].s_subset(vec![nib(&k)]) {
                    hs.push(s);
                }
                o.count("subsets", 1);
                what.push_str("a subset");
            }
            20 => {
                let f = *g.pick(&[Format::Json, Format::Cbor, Format::Bincode]);
                o.log(|| format!("serialize {i} as {:?}", f));
                if let Ok(b) = hs[i].s_ser(f) {
                    match H::s_de(&b, f) {
                        Ok(x) => hs.push(x),
                        Err(e) => return Err(format!("cannot deserialize: {e}")),
                    }
                }
                o.count("serializations", 1);
                what.push_str("a serialization");
            }
            21 => {
                // The same nodes in a new trie.
                let n: Node<H> = (*hs[i]).clone();
                o.log(|| format!("new trie from the nodes of {i}"));
                hs.push(H::new(n));
                what.push_str("making a new trie");
            }
            22 => {
                let (a, b) = (i, g.below(hs.len()));
                o.log(|| format!("{a} = {b} by assignment through mutable access"));
                let n: Node<H> = (*hs[b]).clone();
                *hs[a] = n;
                o.count("edits", 1);
                what.push_str("an assignment");
            }
            _ => (),
        }
        if g.pct(40) {
            let j = g.below(hs.len());
            hash_some(&hs[j], g, o);
            o.count("hash_requests", 1);
        }
        if g.pct(60) {
            let deep = g.pct(40);
            c08_check(&hs[i], deep, g.pct(50), &what, o)?;
        }
        if g.pct(40) {
            let j = g.below(hs.len());
            let deep = g.pct(40);
            c08_check(&hs[j], deep, g.pct(50), &format!("{what} elsewhere"), o)?;
        }
        if hs.len() > 6 {
            let j = g.below(hs.len());
            o.log(|| format!("drop {j}"));
            hs.swap_remove(j);
        }
    }
    for h in &hs {
        c08_check(h, true, g.pct(50), "everything", o)?;
    }
    o.sample(|| format!("{} tries at the end, the first one {}", hs.len(), read(&hs[0]).show()));
    Ok(())
}

/// All sequences of operations and hash requests over a few keys.
fn c08_small(i: usize, o: &mut Obs) -> Result<(), String> {
    let keys: [&[u8]; 4] = [&[1, 2], &[1, 3, 4], &[], &[1]];
    let mut code = i;
    let mut t = H::default();
    let mut other: Option<H> = None;
    let big = code % 2 == 1;
    code /= 2;
    for step in 0..5u8 {
        // hash, clone, insert/delete at 4 keys
        let op = code % 10;
        code /= 10;
        match op {
            0 => {
                o.log(|| "hash".into());
                t.s_hash();
            }
            1 => {
                o.log(|| "clone and go on with the clone".into());
                let c = t.clone();
                other = Some(std::mem::replace(&mut t, c));
            }
            2..=5 => {
                let k = keys[op - 2];
                o.log(|| format!("insert {}", hexk(k)));
                t.s_insert(nib(k), ValOrHash::Val(vec![step + 1; if big { 40 } else { 3 }]));
            }
            _ => {
                let k = keys[op - 6];
                o.log(|| format!("delete {}", hexk(k)));
                t.s_delete(nib(k));
            }
        }
    }
    c08_check(&t, true, i % 3 == 0, "a short history", o)?;
    if let Some(x) = other {
        c08_check(&x, true, i % 3 == 1, "a short history of a clone", o)?;
    }
    Ok(())
}

pub fn prop_c08() -> Prop {
    Prop {
        id: "C08",
        rule: "an evaluation is a history over a family of hash-caching tries that share nodes; reported hashes of roots and inner nodes are compared with the reference hash of the nodes read back; \
               distinct_nontrivial counts distinct root hashes of tries with at least one leaf, extension or branch that were compared",
        sys: vec![Sys { name: "all sequences of 5 out of 10 operations with small and large values", quick: 200_000, thorough: 200_000, item: c08_small }],
        cases: vec![("family", 1, c08_case)],
        assumptions: vec!["direct modifications keep the structure canonical"],
    }
}

// ------------------------------------------------------------------ C09

enum Snap<T: Sut> {
    Trie(T),
    Sub(Arc<Box<T>>),
    Iter(LiveIter<T>),
}

/// An iterator together with the trie it borrows from.
struct LiveIter<T: Sut> {
    it: Option<Box<dyn Iterator<Item = (sut::nibbles::Nibbles, ValOrHash)>>>,
    owner: *mut T,
    rest: std::collections::VecDeque<(Key, Ent)>,
}

impl<T: Sut> LiveIter<T> {
    fn new(t: T, rest: Vec<(Key, Ent)>) -> Self {
        let owner = Box::into_raw(Box::new(t));
        // SAFETY: the trie lives until the iterator has been dropped.
        let r: &'static T = unsafe { &*owner };
        LiveIter {
            it: Some(r.s_items()),
            owner,
            rest: rest.into(),
        }
    }
}

impl<T: Sut> Drop for LiveIter<T> {
    fn drop(&mut self) {
        self.it = None;
        // SAFETY: made by `Box::into_raw` above, and no longer borrowed.
        drop(unsafe { Box::from_raw(self.owner) });
    }
}

struct Taken<T: Sut> {
    snap: Snap<T>,
    r: R,
    what: String,
}

impl<T: Sut> Taken<T> {
    fn check(&mut self, deep: bool, o: &mut Obs) -> Result<(), String> {
        let t: &T = match &mut self.snap {
            Snap::Trie(t) => t,
            Snap::Sub(a) => a,
            Snap::Iter(i) => {
                let n = if deep { usize::MAX } else { 2 };
                let mut k = 0;
                while k < n {
                    k += 1;
                    let got = i
                        .it
                        .as_mut()
                        .and_then(|i| i.next())
                        .map(|(k, v)| (unnib(&k), Ent::from_voh(&v)));
                    let want = i.rest.pop_front();
                    o.count("items", 1);
                    ensure!(
                        got == want,
                        "{}: the iterator yields {:?} instead of {:?}",
                        self.what,
                        got,
                        want
                    );
                    if want.is_none() {
                        break;
                    }
                }
                return Ok(());
            }
        };
        let got = read(t);
        ensure!(got == self.r, "{}: {}", self.what, structure_err(&got, &self.r));
        let (h, want) = (t.s_hash().0, self.r.hash());
        ensure!(
            h == want,
            "{}: the hash of {} is {} instead of {}",
            self.what,
            self.r.show(),
            hexb(&h),
            hexb(&want)
        );
        if deep {
            let m = self.r.entries();
            check_iteration(t, &m, o)?;
            for (k, e) in &m {
                let want = match e {
                    Ent::Val(v) => Some(v.as_slice()),
                    _ => None,
                };
                ensure!(t.s_get(nib(k)) == want, "{}: get({}) changed", self.what, hexk(k));
            }
        }
        o.count("snapshots_checked", 1);
        Ok(())
    }
}

fn arcs_of<T: Sut>(t: &T) -> Vec<Arc<Box<T>>> {
    let mut out = vec![];
    fn rec<T: Sut>(t: &T, out: &mut Vec<Arc<Box<T>>>) {
        if out.len() > 60 {
            return;
        }
        match &**t {
            Node::Branch { children, .. } => {
                for c in children {
                    if !matches!(****c, Node::Empty) {
                        out.push(c.clone());
                        rec::<T>(c, out);
                    }
                }
            }
            Node::Extension { child, .. } => {
                out.push(child.clone());
                rec::<T>(child, out);
            }
            _ => (),
        }
    }
    rec(t, &mut out);
    out
}

fn c09<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let n = map_size(g).min(40);
    let hashes = *g.pick(&[0, 0, 10]);
    let m = random_map(g, &mut keys, n, hashes);
    let t0: T = canonical(&m).build();
    o.log(|| format!("{} start {}", T::NAME, canonical(&m).show()));
    let mut live: Vec<T> = vec![t0];
    let mut taken: Vec<Taken<T>> = vec![];
    let steps = history_len(g).min(60);
    for step in 0..steps {
        let i = g.below(live.len());
        match g.below(16) {
            0..=4 => {
                let k = keys.write_key(g);
                let e = if g.pct(hashes) {
                    Ent::Hash(g.hash32())
                } else {
                    Ent::Val(small_value_over(g, live[i].s_get(nib(&k)).map(|v| v.to_vec())))
                };
                o.log(|| format!("{i}: insert {} {:?}", hexk(&k), e));
                let r = catch(|| live[i].s_insert(nib(&k), e.voh()));
                o.count(if r.is_ok() { "inserts" } else { "refused" }, 1);
            }
            5..=7 => {
                let k = keys.any(g);
                o.log(|| format!("{i}: delete {}", hexk(&k)));
                let r = catch(|| live[i].s_delete(nib(&k)));
                o.count(if r.is_ok() { "deletes" } else { "refused" }, 1);
            }
            8 => {
                let n = g.below(6);
                let l: Vec<_> = (0..n)
                    .map(|_| (nib(&keys.write_key(g)), ValOrHash::Val(small_value(g))))
                    .collect();
                o.log(|| format!("{i}: extend {:?}", l));
                let _ = catch(|| live[i].s_extend(l));
            }
            9 => {
                let c = live[i].clone();
                o.log(|| format!("clone {i} as {}", live.len()));
                live.push(c);
            }
            10 => {
                o.log(|| format!("{i}: hash"));
                live[i].s_hash();
            }
            _ => {
                let kind = g.below(5);
                let snap = match kind {
                    0 => Some((Snap::Trie(live[i].clone()), read(&live[i]))),
                    1 => {
                        let a = arcs_of(&live[i]);
                        if a.is_empty() {
                            None
                        } else {
                            let a = g.pick(&a).clone();
                            let r = read::<T>(&a);
                            Some((Snap::Sub(a), r))
                        }
                    }
                    2 => {
                        let c = live[i].clone();
                        let r = read(&c);
                        let items = iter_order(&r.entries());
                        let mut it = LiveIter::new(c, items);
                        let n = g.below(4);
                        for _ in 0..n {
                            let got = it.it.as_mut().and_then(|x| x.next()).map(|(k, v)| (unnib(&k), Ent::from_voh(&v)));
                            let want = it.rest.pop_front();
                            ensure!(got == want, "an iterator starts with {:?} instead of {:?}", got, want);
                        }
                        Some((Snap::Iter(it), r))
                    }
                    3 => {
                        let k = keys.any(g);
                        let base = read(&live[i]);
                        match (live[i].s_subset(vec![nib(&k)]), ref_subset(&base, &[&k])) {
                            (Ok(s), Some(_)) => {
                                let r = read(&s);
                                Some((Snap::Trie(s), r))
                            }
                            _ => None,
                        }
                    }
                    _ => {
                        // A live trie continues as a snapshot of its own sub-trie.
                        let s = some_node(&live[i], g);
                        let r = read(&s);
                        Some((Snap::Trie(s), r))
                    }
                };
                if let Some((snap, r)) = snap {
                    let what = format!(
                        "{} taken at step {step} from {i}",
                        ["clone", "sub-trie handle", "iterator", "subset", "sub-trie clone"][kind]
                    );
                    o.log(|| what.clone());
                    o.count(&format!("taken_{}", ["clone", "handle", "iterator", "subset", "sub_trie"][kind]), 1);
                    if !matches!(r, R::Empty) {
                        o.state(&(r.hash(), kind));
                    }
                    taken.push(Taken { snap, r, what });
                }
            }
        }
        if g.pct(50) && !taken.is_empty() {
            let j = g.below(taken.len());
            taken[j].check(false, o)?;
        }
        if g.pct(8) && !taken.is_empty() {
            let j = g.below(taken.len());
            o.log(|| format!("drop: {}", taken[j].what));
            taken.swap_remove(j);
            o.count("dropped", 1);
        }
        if g.pct(5) && live.len() > 1 {
            let j = g.below(live.len());
            o.log(|| format!("drop trie {j}"));
            live.swap_remove(j);
            o.count("dropped", 1);
        }
        // A snapshot comes back to life and is modified itself.
        if g.pct(5) && !taken.is_empty() {
            let j = g.below(taken.len());
            if let Snap::Trie(t) = &taken[j].snap {
                let c = t.clone();
                o.log(|| format!("go on from {}", taken[j].what));
                live.push(c);
            }
        }
    }
    while !live.is_empty() && g.pct(70) {
        live.pop();
    }
    for t in &mut taken {
        t.check(true, o)?;
    }
    o.max("snapshots_at_once", taken.len() as u64);
    o.sample(|| format!("{} snapshots, such as {}", taken.len(), taken.first().map_or(String::new(), |t| format!("{}: {}", t.what, t.r.show()))));
    Ok(())
}
both!(c09, c09_case);

/// Every single operation on every small trie, with everything in it held.
fn c09_small(i: usize, o: &mut Obs) -> Result<(), String> {
    c09_small_t::<sut::partial_trie::StandardTrie>(i, o)?;
    c09_small_t::<H>(i, o)
}

fn c09_small_t<T: Sut>(i: usize, o: &mut Obs) -> Result<(), String> {
    let ks: [&[u8]; 8] = [&[], &[1], &[1, 2], &[1, 2, 3, 4], &[1, 2, 3, 5], &[1, 3], &[2], &[2, 0]];
    let mut m = Map::new();
    for (j, k) in ks.iter().enumerate() {
        if i >> j & 1 == 1 {
            m.insert(k.to_vec(), Ent::Val(vec![j as u8 + 1; if j % 2 == 0 { 2 } else { 33 }]));
        }
    }
    let r = canonical(&m);
    let t: T = r.build();
    t.s_hash();
    o.log(|| format!("{} {}", T::NAME, r.show()));
    let subs: Vec<(Arc<Box<T>>, R)> = arcs_of(&t).into_iter().map(|a| (a.clone(), read::<T>(&a))).collect();
    for k in ks.iter().chain(&[[1u8, 2, 3].as_slice(), &[3], &[1, 2, 3, 4, 5]]) {
        for op in 0..3 {
            let mut c = t.clone();
            o.log(|| format!("op {op} at {}", hexk(k)));
            match op {
                0 => c.s_insert(nib(k), ValOrHash::Val(vec![0x77; 33])),
                1 => {
                    c.s_delete(nib(k));
                }
                _ => {
                    let _ = catch(|| c.s_insert(nib(k), ValOrHash::Hash(ethereum_types::H256([9; 32]))));
                }
            }
            c.s_hash();
            let got = read(&t);
            ensure!(got == r, "operation {op} at {} on a clone: {}", hexk(k), structure_err(&got, &r));
            ensure!(t.s_hash().0 == r.hash(), "operation {op} at {} on a clone changed the hash", hexk(k));
            for (a, r) in &subs {
                let got = read::<T>(a);
                ensure!(got == *r, "a held sub-trie changed: {}", structure_err(&got, r));
                ensure!(a.s_hash().0 == r.hash(), "the hash of a held sub-trie changed");
            }
            o.count("snapshots_checked", 1 + subs.len() as u64);
            o.state(&(i, k, op));
        }
    }
    Ok(())
}

pub fn prop_c09() -> Prop {
    Prop {
        id: "C09",
        rule: "an evaluation is a history over tries sharing nodes with snapshots (clones, sub-trie handles, subsets, started iterators) taken in between, which are compared with what they were when taken; \
               distinct_nontrivial counts distinct pairs of non-empty snapshot contents (root hash) and kind",
        sys: vec![Sys { name: "single operations on clones of 256 small tries", quick: 256, thorough: 256, item: c09_small }],
        cases: vec![("snapshots", 1, c09_case)],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C10

enum Job {
    Hash,
    HashAt(Vec<u8>, [u8; 32]),
    Get(Key, Option<Vec<u8>>),
    Iterate,
    CloneAndChange(Vec<(Key, Option<Vec<u8>>)>, [u8; 32], Vec<Option<Vec<u8>>>),
    Subset(Key, R),
    Equal,
    /// Comparison with tries that share nodes, and so cached hashes, with the
    /// trie: itself, a clone, and a clone with another value at the key.
    EqualShared(Key, Vec<u8>, bool),
    HashOther,
    Print,
    Serialize(Format),
    Drop,
}

fn node_at<'a>(t: &'a H, path: &[u8]) -> &'a H {
    let mut cur = t;
    for p in path {
        match &**cur {
            Node::Branch { children, .. } => cur = &children[*p as usize],
            Node::Extension { child, .. } => cur = child,
            _ => break,
        }
    }
    cur
}

fn ref_at<'a>(r: &'a R, path: &[u8]) -> &'a R {
    let mut cur = r;
    for p in path {
        match cur {
            R::Branch(c, _) => cur = &c[*p as usize],
            R::Ext(_, c) => cur = c,
            _ => break,
        }
    }
    cur
}

fn run_job(j: &Job, t: &H, same: &H, (r, w): (&R, [u8; 32]), m: &Map, o: &mut Obs) -> Result<(), String> {
    match j {
        Job::Hash => {
            let h = t.s_hash().0;
            ensure!(h == w, "hash of {} is {} instead of {}", r.show(), hexb(&h), hexb(&w));
        }
        Job::HashAt(p, w) => {
            let h = node_at(t, p).s_hash().0;
            ensure!(h == *w, "hash of an inner node of {} is {} instead of {}", r.show(), hexb(&h), hexb(w));
        }
        Job::Get(k, w) => {
            let got = t.s_get(nib(k)).map(|v| v.to_vec());
            ensure!(got == *w, "get({}) is wrong", hexk(k));
        }
        Job::Iterate => check_iteration(t, m, o)?,
        Job::CloneAndChange(ops, w, rets) => {
            let mut c = t.clone();
            let mut rets = rets.iter();
            for (k, v) in ops {
                match v {
                    Some(v) => c.s_insert(nib(k), ValOrHash::Val(v.clone())),
                    None => {
                        let d = c.s_delete(nib(k));
                        ensure!(Some(&d) == rets.next(), "delete({}) on a clone is wrong", hexk(k));
                    }
                }
                c.s_hash();
            }
            let h = c.s_hash().0;
            ensure!(h == *w, "a modified clone of {} hashes to {} instead of {}", r.show(), hexb(&h), hexb(w));
        }
        Job::Subset(k, w) => match t.s_subset(vec![nib(k)]) {
            Ok(s) => {
                let got = read(&s);
                ensure!(got == *w, "subset for {}: {}", hexk(k), structure_err(&got, w));
            }
            Err(e) => return Err(format!("subset for {} failed: {e:.200}", hexk(k))),
        },
        Job::Equal => ensure!(t.s_eq(same) && same.s_eq(t), "equal tries compare unequal"),
        Job::EqualShared(k, v, changes) => {
            let mut c = t.clone();
            ensure!(t.s_eq(t) && t.s_eq(&c) && c.s_eq(t), "a trie and its clone compare unequal");
            c.s_insert(nib(k), ValOrHash::Val(v.clone()));
            ensure!(
                t.s_eq(&c) != *changes && c.s_eq(t) != *changes,
                "a trie and its clone with another value at {} are compared wrongly",
                hexk(k)
            );
            o.count("comparisons_of_tries_sharing_nodes", 5);
        }
        Job::HashOther => {
            let h = same.s_hash().0;
            ensure!(h == w, "hash of {} is {} instead of {}", r.show(), hexb(&h), hexb(&w));
        }
        Job::Print => {
            let s = format!("{t:?}");
            ensure!(!s.is_empty(), "empty debug output");
        }
        Job::Serialize(f) => {
            let b = t.s_ser(*f)?;
            let x = H::s_de(&b, *f).map_err(|e| format!("cannot read back what was serialized: {e}"))?;
            ensure!(read(&x) == *r, "serialized trie differs");
            ensure!(x.s_hash().0 == w, "hash of a serialized trie differs");
        }
        Job::Drop => drop(t.clone()),
    }
    Ok(())
}

fn c10_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    // All threads start with the same few jobs in different mixtures.
    let bias = g.below(6);
    let n = match g.below(4) {
        0 => g.range(1, 4),
        _ if bias == 2 => g.range(1, 8),
        1 | 2 => g.range(3, 20),
        _ => g.range(10, 60),
    };
    let m = random_map(g, &mut keys, n, 0);
    let r = canonical(&m);
    let threads = g.range(2, 4);
    let mut programs: Vec<Vec<Job>> = vec![];
    for _ in 0..threads {
        let n = g.range(1, 8);
        let mut p = vec![];
        for _ in 0..n {
            let kind = match bias {
                0 => 0,
                1 => *g.pick(&[0, 1, 4]),
                2 => *g.pick(&[0, 9, 10]),
                3 => *g.pick(&[0, 6, 11]),
                _ => g.below(13),
            };
            p.push(match kind {
                0 => Job::Hash,
                1 => {
                    let l = g.below(5);
                    let path: Vec<u8> = (0..l).map(|_| g.nibble()).collect();
                    let h = ref_at(&r, &path).hash();
                    Job::HashAt(path, h)
                }
                2 => {
                    let k = keys.any(g);
                    let v = r.get(&k).map(|v| v.to_vec());
                    Job::Get(k, v)
                }
                3 => Job::Iterate,
                4 => {
                    let mut m2 = m.clone();
                    let l = g.range(1, 4);
                    let mut rets = vec![];
                    let ops: Vec<_> = (0..l)
                        .map(|_| {
                            let k = keys.any(g);
                            if g.pct(60) {
                                let v = small_value(g);
                                m2.insert(k.clone(), Ent::Val(v.clone()));
                                (k, Some(v))
                            } else {
                                rets.push(match m2.remove(&k) {
                                    Some(Ent::Val(v)) => Some(v),
                                    _ => None,
                                });
                                (k, None)
                            }
                        })
                        .collect();
                    Job::CloneAndChange(ops, canonical(&m2).hash(), rets)
                }
                5 => {
                    let k = keys.any(g);
                    match ref_subset(&r, &[&k]) {
                        Some(s) => Job::Subset(k, s),
                        None => Job::Hash,
                    }
                }
                6 => Job::Equal,
                7 => Job::Print,
                8 => Job::Serialize(*g.pick(&[Format::Json, Format::Cbor, Format::Bincode])),
                9 | 10 => {
                    let k = keys.any(g);
                    let v = small_value(g);
                    let changes = r.get(&k) != Some(&v[..]);
                    Job::EqualShared(k, v, changes)
                }
                11 => Job::HashOther,
                _ => Job::Drop,
            });
        }
        programs.push(p);
    }
    let total: usize = programs.iter().map(|p| p.len()).sum();
    let rounds = g.range(1, 4);
    let every = *g.pick(&[0, 64, 256, 1024]);
    let first = g.u64();
    o.log(|| format!("{} threads, {total} jobs, {rounds} rounds on {}", threads, r.show()));
    let delays = crate::cov::delays();
    let w = r.hash();
    for round in 0..rounds {
        // Nothing cached yet, so that all threads fill the cache.
        let tries: Vec<(H, H)> = (0..4).map(|_| (r.build(), r.build())).collect();
        let barrier = Barrier::new(threads);
        crate::cov::set_delays(every);
        let results: Vec<Result<Obs, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = programs
                .iter()
                .enumerate()
                .map(|(i, p)| {
                    let (tries, r, m, barrier) = (&tries, &r, &m, &barrier);
                    s.spawn(move || {
                        let mut o = Obs::default();
                        let n = (round * 4 + i) as u64;
                        crate::cov::seed_delays(first.wrapping_add(n).wrapping_mul(0x9e37_79b9_7f4a_7c15));
                        let mut failed = None;
                        for (t, same) in tries {
                            barrier.wait();
                            let res = catch(|| {
                                for j in p {
                                    run_job(j, t, same, (r, w), m, &mut o)?;
                                }
                                Ok(())
                            });
                            // The other threads still wait for this one.
                            failed = failed.or(match res {
                                Ok(res) => res.err(),
                                Err(p) if p.is_ours() => {
                                    eprintln!("harness error: {}", p.show());
                                    std::process::exit(2)
                                }
                                Err(p) => Some(p.show()),
                            });
                        }
                        failed.map_or(Ok(o), Err)
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
                .collect()
        });
        crate::cov::set_delays(0);
        for x in results {
            let x = x?;
            for (k, v) in &x.counters {
                o.count(k, *v);
            }
        }
        o.count("rounds", tries.len() as u64);
        o.count("jobs", (total * tries.len()) as u64);
        o.count("threads", threads as u64);
        // What is left in the cache must be right, too.
        for (i, (t, same)) in tries.iter().enumerate() {
            if i % 2 == 0 {
                check_hashes(t, &r, false, o)?;
            }
            ensure!(t.s_hash().0 == w, "the hash is wrong afterwards");
            ensure!(same.s_hash().0 == w, "the hash of the other trie is wrong");
        }
    }
    o.count("pauses_between_two_steps_of_a_thread", crate::cov::delays() - delays);
    if total >= 2 && m.len() >= 2 {
        o.state(&(r.hash(), threads, total));
    }
    o.sample(|| format!("{threads} threads with {total} jobs on {}", r.show()));
    Ok(())
}

pub fn prop_c10() -> Prop {
    Prop {
        id: "C10",
        rule: "an evaluation is a set of 2 to 4 threads running read operations on one caching trie and modifying clones of it, released together, for several rounds, every result compared with that of a single-threaded reference; \
               distinct_nontrivial counts distinct (trie, number of threads, number of operations) with at least two entries; Miri runs a smaller program with a race and deadlock detector under many schedules",
        sys: vec![],
        cases: vec![("threads", 1, c10_case)],
        assumptions: vec!["native schedules are those of the operating system; Miri's are pseudo-random"],
    }
}
