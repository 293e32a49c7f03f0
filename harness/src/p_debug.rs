//! C18, C19, C20: diffs, path queries and statistics.

use std::collections::HashMap;

use sut::{
    debug_tools::query::{DebugQuery, DebugQueryParamsBuilder},
    partial_trie::{HashedPartialTrie, StandardTrie},
    Sut,
};

use crate::{
    both, ensure,
    engine::{Prop, Sys},
    gen::*,
    model::*,
    obs::{catch, Obs},
    p_hash::{gen_tree, ref_hashes, ref_subset},
    p_map::{map_size, neighbours, random_map},
};

type H = HashedPartialTrie;

/// Words and numbers, without punctuation.
fn tokens(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_alphanumeric())
        .filter(|t| !t.is_empty())
        .map(|t| t.to_string())
        .collect()
}

fn after<'a>(t: &'a [String], name: &str) -> Option<&'a str> {
    let i = t.iter().position(|x| x.eq_ignore_ascii_case(name))?;
    t.get(i + 1).map(|x| x.as_str())
}

fn hex_digits(s: &str) -> Option<Key> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    s.chars().map(|c| c.to_digit(16).map(|d| d as u8)).collect()
}

fn hex_bytes(s: &str) -> Option<Vec<u8>> {
    let d = hex_digits(s)?;
    if d.len() % 2 == 1 {
        return None;
    }
    Some(d.chunks(2).map(|c| c[0] << 4 | c[1]).collect())
}

// ------------------------------------------------------------------ C18

struct Point<'a> {
    node: bool,
    key: Key,
    path: Vec<(&'static str, Key)>,
    a: &'a R,
    b: &'a R,
}

struct Search<'a> {
    ha: HashMap<*const R, [u8; 32]>,
    hb: HashMap<*const R, [u8; 32]>,
    found: Vec<Point<'a>>,
    compared: u64,
}

fn hash_in(m: &HashMap<*const R, [u8; 32]>, r: &R) -> [u8; 32] {
    m.get(&(r as *const R)).cloned().unwrap_or_else(|| r.hash())
}

impl<'a> Search<'a> {
    fn go(&mut self, a: &'a R, b: &'a R, key: &Key, path: &[(&'static str, Key)]) {
        self.compared += 1;
        if hash_in(&self.ha, a) == hash_in(&self.hb, b) {
            return;
        }
        let mut point = |node| {
            self.found.push(Point {
                node,
                key: key.clone(),
                path: path.to_vec(),
                a,
                b,
            })
        };
        if (a.kind(), a.piece()) != (b.kind(), b.piece()) {
            return point(true);
        }
        match (a, b) {
            (R::Branch(c, _), R::Branch(d, _)) => {
                let n = self.found.len();
                for i in 0..16 {
                    let mut k = key.clone();
                    k.push(i as u8);
                    let mut p = path.to_vec();
                    p.push(("Branch", vec![i as u8]));
                    self.go(&c[i], &d[i], &k, &p);
                }
                if self.found.len() == n {
                    self.found.push(Point {
                        node: false,
                        key: key.clone(),
                        path: path.to_vec(),
                        a,
                        b,
                    });
                }
            }
            (R::Ext(x, c), R::Ext(_, d)) => {
                let mut k = key.clone();
                k.extend(x);
                let mut p = path.to_vec();
                p.push(("Extension", x.clone()));
                self.go(c, d, &k, &p);
            }
            _ => point(false),
        }
    }

    fn best(&self) -> Option<&Point<'a>> {
        let node = self.found.iter().any(|p| p.node);
        let mut best: Option<&Point> = None;
        for p in &self.found {
            if p.node == node && best.map_or(true, |b| b.key.len() < p.key.len()) {
                best = Some(p);
            }
        }
        best
    }
}

fn kind_word(r: &R) -> &'static str {
    match r {
        R::Empty => "Empty",
        R::Hash(_) => "Hash",
        R::Branch(..) => "Branch",
        R::Ext(..) => "Extension",
        R::Leaf(..) => "Leaf",
    }
}

fn parse_path(s: &str) -> Result<Vec<(String, Key)>, String> {
    let mut v = vec![];
    for x in s.split("-->") {
        let t = tokens(x);
        if t.is_empty() {
            continue;
        }
        let piece = match t.get(1) {
            None => vec![],
            Some(p) if p.starts_with("0x") => hex_digits(p).ok_or(format!("unreadable path {s:?}"))?,
            // The child of a branch is printed as a decimal number.
            Some(p) => vec![p.parse().map_err(|_| format!("unreadable path {s:?}"))?],
        };
        v.push((t[0].clone(), piece));
    }
    Ok(v)
}

fn check_info(s: &str, n: &R, key: &[u8], hash: [u8; 32], which: &str) -> Result<(), String> {
    let t = tokens(s);
    let kind = after(&t, "type").unwrap_or("");
    ensure!(kind == kind_word(n), "node {which} is described as {s:?} instead of {}", n.show());
    let mut full = key.to_vec();
    full.extend(n.piece());
    let k = after(&t, "key").and_then(hex_digits);
    ensure!(k.as_ref() == Some(&full), "the key of node {which} is described as {s:?} instead of {}", hexk(&full));
    // "Hash" is also the name of a kind.
    let h = t
        .iter()
        .rposition(|x| x.eq_ignore_ascii_case("hash"))
        .and_then(|i| t.get(i + 1))
        .and_then(|x| hex_bytes(x));
    ensure!(
        h.as_deref() == Some(&hash[..]),
        "the hash of node {which} is described as {s:?} instead of {}",
        hexb(&hash)
    );
    let v = after(&t, "value").unwrap_or("");
    let fine = match n {
        R::Leaf(_, w) => hex_bytes(v).as_ref() == Some(w) && v != "N",
        R::Branch(_, w) if w.is_empty() => v == "0x" || v == "N",
        R::Branch(_, w) => hex_bytes(v).as_ref() == Some(w),
        _ => v == "N",
    };
    ensure!(fine, "the value of node {which} is described as {s:?} but the node is {}", n.show());
    Ok(())
}

fn check_diff(a: &H, b: &H, ra: &R, rb: &R, o: &mut Obs) -> Result<(), String> {
    let d = catch(|| sut::diff(a, b)).map_err(|p| format!("comparing {} and {} {}", ra.show(), rb.show(), p.show()))?;
    let text = d.to_string();
    o.count("diffs", 1);
    let mut s = Search {
        ha: ref_hashes(ra),
        hb: ref_hashes(rb),
        found: vec![],
        compared: 0,
    };
    s.go(ra, rb, &vec![], &[]);
    let ctx = || format!("comparing {} and {}: ", ra.show(), rb.show());
    let equal = ra.hash() == rb.hash();
    o.count("nodes_compared", s.compared);
    let got = match (&d.latest_diff_res, equal) {
        (None, true) => {
            o.count("no_difference", 1);
            return Ok(());
        }
        (None, false) => return Err(format!("{}no difference reported", ctx())),
        (Some(p), true) => return Err(format!("{}the root hashes are equal, but {p} was reported", ctx())),
        (Some(p), false) => p,
    };
    let want = match s.best() {
        Some(p) => p,
        // Only possible with hash nodes for nodes that are never hashed.
        None => {
            o.count("no_reference", 1);
            return Ok(());
        }
    };
    o.count(if want.node { "node_differences" } else { "value_differences" }, 1);
    if s.found.len() > 1 {
        o.count("several_differences", 1);
    }
    o.state(&(ra.hash(), rb.hash()));
    o.max("difference_depth", want.path.len() as u64);
    let key = unnib_checked(&got.key).map_err(|e| format!("{}{e}", ctx()))?;
    let path = parse_path(&got.path.to_string())?;
    ensure!(
        key == want.key,
        "{}the difference reported is at key {} instead of {} ({got})",
        ctx(),
        hexk(&key),
        hexk(&want.key)
    );
    let mut paths = vec![want.path.clone()];
    if let (R::Hash(_), R::Hash(_)) = (want.a, want.b) {
        // The differing hash nodes may themselves be the end of the path.
        let mut p = want.path.clone();
        p.push(("Hash", vec![]));
        paths.push(p);
    }
    ensure!(
        paths
            .iter()
            .any(|p| p.len() == path.len() && p.iter().zip(&path).all(|(x, y)| x.0 == y.0 && x.1 == y.1)),
        "{}the path is reported as {} instead of {:?}",
        ctx(),
        got.path,
        want.path
    );
    ensure!(
        got.depth == path.len(),
        "{}the depth is {} for the path {}",
        ctx(),
        got.depth,
        got.path
    );
    check_info(&got.a_info.to_string(), want.a, &key, hash_in(&s.ha, want.a), "a").map_err(|e| ctx() + &e)?;
    check_info(&got.b_info.to_string(), want.b, &key, hash_in(&s.hb, want.b), "b").map_err(|e| ctx() + &e)?;
    // All of it must be in the printed form, too.
    for part in [got.a_info.to_string(), got.b_info.to_string(), got.path.to_string(), hexk(&key)] {
        ensure!(text.contains(part.as_str()), "{}{part:?} is missing in the printed form {text:?}", ctx());
    }
    Ok(())
}

/// Changes some node of a tree, keeping it canonical.
fn mutate_tree(g: &mut Gen, r: &R) -> R {
    let mut x = r.clone();
    let mut at = vec![];
    r.visit(&mut vec![], 0, &mut |_, k, _| at.push(k.clone()));
    if at.is_empty() {
        return R::Leaf(g.nibbles_of_len(3), g.value());
    }
    let k = g.pick(&at).clone();
    let room = 64 - k.len();
    let fresh = g.value();
    let n = match x.at_mut(&k) {
        Some(n) => n,
        None => return x,
    };
    match n {
        R::Empty => *n = R::Leaf(vec![], fresh),
        R::Hash(h) => h[g.below(32)] ^= 1 << g.below(8),
        R::Leaf(p, v) => match g.below(4) {
            0 if !p.is_empty() => {
                let i = g.below(p.len());
                p[i] = (p[i] + 1) & 15;
            }
            1 if p.len() < room => p.push(g.nibble()),
            2 => {
                let i = g.below(v.len());
                v[i] = v[i].wrapping_add(1);
            }
            _ => *v = fresh,
        },
        R::Ext(p, _) => {
            let i = g.below(p.len());
            p[i] = (p[i] + 1) & 15;
        }
        R::Branch(c, v) => match g.below(4) {
            0 if c.iter().filter(|c| !matches!(c, R::Empty)).count() >= 2 => {
                *v = if v.is_empty() { fresh } else { vec![] }
            }
            1 if !v.is_empty() => *v = fresh,
            _ => {
                let i = g.below(16);
                c[i] = if g.pct(30) {
                    R::Hash(g.hash32())
                } else {
                    let mut budget = g.range(1, 6);
                    gen_tree(g, room - 1, &mut budget, 10)
                };
            }
        },
    }
    x
}

fn c18_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let hashes = *g.pick(&[0, 0, 10, 30]);
    let (mut ra, mut rb);
    let a: H;
    let b: H;
    if g.pct(50) {
        let mut budget = g.range(1, 50);
        ra = gen_tree(g, 64, &mut budget, hashes);
        rb = ra.clone();
        let n = g.below(5);
        for _ in 0..n {
            rb = mutate_tree(g, &rb);
        }
    } else {
        let n = map_size(g).min(60);
        let m = random_map(g, &mut keys, n, hashes);
        let mut x: H = canonical(&m).build();
        if g.pct(50) {
            x.s_hash();
        }
        ra = read(&x);
        let n = g.below(6);
        for _ in 0..n {
            if g.pct(60) {
                let k = keys.write_key(g);
                let e = Ent::Val(g.value());
                let _ = catch(|| x.s_insert(nib(&k), e.voh()));
            } else {
                let k = keys.any(g);
                let _ = catch(|| x.s_delete(nib(&k)));
            }
            if g.pct(20) {
                x.s_hash();
            }
        }
        rb = read(&x);
    }
    // Partial versions of them.
    for r in [&mut ra, &mut rb] {
        if g.pct(25) {
            let n = g.below(4);
            let ks: Vec<Key> = r.entries().into_keys().filter(|_| g.pct(20)).take(n).collect();
            let ks: Vec<&[u8]> = ks.iter().map(|k| &k[..]).collect();
            if let Some(x) = ref_subset(r, &ks) {
                *r = x;
            }
        }
    }
    a = ra.build();
    b = rb.build();
    if g.pct(50) {
        a.s_hash();
    }
    if g.pct(30) {
        b.s_hash();
    }
    o.log(|| format!("a: {}", ra.show()));
    o.log(|| format!("b: {}", rb.show()));
    check_diff(&a, &b, &ra, &rb, o)?;
    check_diff(&b, &a, &rb, &ra, o)?;
    check_diff(&a, &a.clone(), &ra, &ra, o)?;
    let (x, y) = (read(&a), read(&b));
    ensure!(x == ra && y == rb, "comparing changed the tries");
    o.sample(|| format!("{} against {}", ra.show(), rb.show()));
    Ok(())
}

const SMALL_KEYS: [&[u8]; 6] = [&[], &[1], &[1, 2, 3], &[1, 2, 4], &[2], &[1, 2]];

fn small_map(mut code: usize, values: usize) -> Map {
    let mut m = Map::new();
    for k in SMALL_KEYS {
        let c = code % (values + 1);
        code /= values + 1;
        if c > 0 {
            let v = if c == 1 { vec![1] } else { vec![c as u8; 40] };
            m.insert(k.to_vec(), Ent::Val(v));
        }
    }
    m
}

fn c18_small(i: usize, o: &mut Obs) -> Result<(), String> {
    let ra = canonical(&small_map(i, 2));
    let a: H = ra.build();
    if i % 2 == 0 {
        a.s_hash();
    }
    for j in 0..729 {
        let rb = canonical(&small_map(j, 2));
        let b: H = rb.build();
        check_diff(&a, &b, &ra, &rb, o)?;
        if j % 9 == i % 9 {
            // A partial version of the second.
            let k = SMALL_KEYS[(i + j) % 6];
            if let Some(rc) = ref_subset(&rb, &[k]) {
                let c: H = rc.build();
                check_diff(&a, &c, &ra, &rc, o)?;
                check_diff(&c, &b, &rc, &rb, o)?;
            }
        }
    }
    Ok(())
}

pub fn prop_c18() -> Prop {
    Prop {
        id: "C18",
        rule: "an evaluation compares two tries in both directions and each with itself, and checks the reported point against a separate search over the nodes read back; \
               distinct_nontrivial counts distinct pairs of different root hashes",
        sys: vec![Sys { name: "all pairs of 729 small tries", quick: 729, thorough: 729, item: c18_small }],
        cases: vec![("pairs", 1, c18_case)],
        assumptions: vec![
            "hash nodes only stand for nodes whose encoding has at least 32 bytes, or for arbitrary hashes",
            "where two hash nodes differ, the path may or may not end with them",
        ],
    }
}

// ------------------------------------------------------------------ C19

/// The nodes a lookup visits with their key pieces, and whether the key ends at one.
fn walk<'a>(r: &'a R, k: &[u8], out: &mut Vec<(&'a R, Key)>) -> bool {
    match r {
        R::Empty => {
            out.push((r, vec![]));
            false
        }
        R::Hash(_) => {
            out.push((r, vec![]));
            k.is_empty()
        }
        R::Leaf(p, _) => {
            out.push((r, p.clone()));
            p[..] == *k
        }
        R::Ext(p, c) => {
            out.push((r, p.clone()));
            is_prefix(p, k) && walk(c, &k[p.len()..], out)
        }
        R::Branch(c, _) => match k.split_first() {
            None => {
                out.push((r, vec![]));
                true
            }
            Some((n, rest)) => {
                out.push((r, vec![*n]));
                walk(&c[*n as usize], rest, out)
            }
        },
    }
}

fn check_query<T: Sut>(t: &T, r: &R, k: &[u8], opts: Option<(bool, bool, bool)>, o: &mut Obs) -> Result<(), String> {
    let ctx = || format!("{} query of {} in {} with {opts:?}: ", T::NAME, hexk(k), r.show());
    let q: DebugQuery = match opts {
        None => nib(k).into(),
        Some((pieces, kinds, extra)) => DebugQueryParamsBuilder::default()
            .print_key_pieces(pieces)
            .print_node_type(kinds)
            .print_node_specific_values(extra)
            .build(nib(k)),
    };
    let (pieces, kinds, extra) = opts.unwrap_or((true, true, false));
    let text = catch(|| {
        let out = t.s_query(q);
        let c = out.clone();
        let s = out.to_string();
        (s, c.to_string())
    })
    .map_err(|p| format!("{}{}", ctx(), p.show()))?;
    ensure!(text.0 == text.1, "{}a copy is printed differently", ctx());
    let text = text.0;
    o.count("queries", 1);
    let mut want = vec![];
    let found = walk(r, k, &mut want);
    o.count(if found { "found" } else { "not_found" }, 1);
    o.max("path_nodes", want.len() as u64);

    let mut lines = text.lines();
    let mut got_key = None;
    let mut got_found = None;
    for l in lines.by_ref() {
        let tk = tokens(l);
        if tk.iter().any(|t| t.eq_ignore_ascii_case("path")) {
            break;
        }
        if let Some(x) = after(&tk, "key") {
            got_key = hex_digits(x);
        }
        if let Some(x) = after(&tk, "found") {
            got_found = x.to_ascii_lowercase().parse::<bool>().ok();
        }
    }
    ensure!(got_key.as_deref() == Some(k), "{}the key in {text:?} is {got_key:?}", ctx());
    ensure!(
        got_found == Some(found),
        "{}found is reported as {got_found:?} instead of {found}",
        ctx()
    );
    let nodes: Vec<&str> = lines
        .map(|l| l.trim())
        .filter(|l| !l.is_empty() && !l.eq_ignore_ascii_case("v"))
        .collect();
    ensure!(
        nodes.len() == want.len(),
        "{}{} nodes were listed instead of {}: {text:?}",
        ctx(),
        nodes.len(),
        want.len()
    );
    for (i, (line, (n, piece))) in nodes.iter().zip(&want).enumerate() {
        let (head, body) = line.split_once('(').unwrap_or((line, ""));
        let bad = |what: &str| format!("{}{what} of node {i} is listed as {line:?}, but the node is {}", ctx(), n.show());
        let kind = if kinds { kind_word(n) } else { "" };
        ensure!(head.trim() == kind, "{}", bad("the kind"));
        let tk = tokens(body);
        let key = after(&tk, "key");
        let has_piece = matches!(n, R::Leaf(..) | R::Ext(..)) || (matches!(n, R::Branch(..)) && !piece.is_empty());
        if pieces && has_piece {
            ensure!(key.and_then(hex_digits).as_ref() == Some(piece), "{}", bad("the key piece"));
        } else {
            ensure!(key.is_none(), "{}", bad("the key piece"));
        }
        o.count("nodes_listed", 1);
        let mask = after(&tk, "mask");
        let num = after(&tk, "children");
        let val = after(&tk, "value");
        let hash = after(&tk, "hash");
        if !extra {
            ensure!(
                mask.is_none() && num.is_none() && val.is_none() && hash.is_none(),
                "{}",
                bad("extra data")
            );
            continue;
        }
        match n {
            R::Branch(c, _) => {
                let slots = (0..16).filter(|i| !matches!(c[*i], R::Empty)).fold(0u16, |m, i| m | 1 << i);
                let got = mask.and_then(|m| u16::from_str_radix(m.trim_start_matches("0b"), 2).ok());
                ensure!(got == Some(slots), "{}", bad("the mask"));
                let got = num.and_then(|m| m.parse::<u32>().ok());
                ensure!(got == Some(slots.count_ones()), "{}", bad("the number of children"));
            }
            R::Leaf(_, v) => ensure!(val.and_then(hex_bytes).as_ref() == Some(v), "{}", bad("the value")),
            R::Hash(h) => ensure!(hash.and_then(hex_bytes).as_deref() == Some(&h[..]), "{}", bad("the hash")),
            _ => ensure!(mask.is_none() && val.is_none() && hash.is_none(), "{}", bad("extra data")),
        }
    }
    Ok(())
}

fn c19<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut keys = Keys::new(g);
    let t: T = if g.pct(50) {
        let mut budget = g.range(1, 60);
        let hashes = *g.pick(&[0, 10, 40]);
        let room = *g.pick(&[64, 64, 8, 4]);
        gen_tree(g, room, &mut budget, hashes).build()
    } else {
        let n = map_size(g);
        let hashes = *g.pick(&[0, 10, 40]);
        let m = random_map(g, &mut keys, n, hashes);
        let mut t = T::default();
        for (k, e) in &m {
            t.s_insert(nib(k), e.voh());
        }
        t
    };
    let r = read(&t);
    o.log(|| format!("{} trie {}", T::NAME, r.show()));
    let mut at: Vec<Key> = vec![];
    r.visit(&mut vec![], 0, &mut |_, k, _| at.push(k.clone()));
    at.extend(r.entries().into_keys());
    let n = g.range(1, 12);
    for _ in 0..n {
        let mut ks = vec![];
        if at.is_empty() || g.pct(25) {
            ks.push(keys.any(g));
        } else {
            let k = g.pick(&at).clone();
            if g.pct(50) {
                let l = neighbours(&k);
                ks.push(g.pick(&l).clone());
            } else if g.pct(50) {
                let mut k = k.clone();
                let room = 64 - k.len();
                let extra = g.len(room);
                k.extend(g.nibbles_of_len(extra));
                ks.push(k);
            }
            ks.push(k);
        }
        for k in ks {
            let opts = match g.below(9) {
                8 => None,
                x => Some((x & 1 == 1, x & 2 == 2, x & 4 == 4)),
            };
            o.log(|| format!("query {} with {opts:?}", hexk(&k)));
            check_query(&t, &r, &k, opts, o)?;
            if !matches!(r, R::Empty) {
                o.state(&(r.hash(), &k));
            }
        }
    }
    o.sample(|| format!("{n} queries in {}", r.show()));
    Ok(())
}
both!(c19, c19_case);

fn c19_small(i: usize, o: &mut Obs) -> Result<(), String> {
    let full = canonical(&small_map(i, 2));
    let mut rs = vec![full.clone()];
    for k in SMALL_KEYS {
        rs.extend(ref_subset(&full, &[k]));
    }
    rs.dedup();
    let mut ks: Vec<Key> = vec![];
    for k in SMALL_KEYS {
        ks.push(k.to_vec());
        ks.extend(neighbours(k));
    }
    ks.sort();
    ks.dedup();
    for r in rs {
        o.log(|| r.show());
        let (s, h): (StandardTrie, H) = (r.build(), r.build());
        for k in &ks {
            for x in 0..9 {
                let opts = match x {
                    8 => None,
                    x => Some((x & 1 == 1, x & 2 == 2, x & 4 == 4)),
                };
                check_query(&s, &r, k, opts, o)?;
                check_query(&h, &r, k, opts, o)?;
            }
            o.state(&(r.hash(), k));
        }
    }
    Ok(())
}

pub fn prop_c19() -> Prop {
    Prop {
        id: "C19",
        rule: "an evaluation queries several keys in a trie with some output options and compares every printed line with the nodes read back; distinct_nontrivial counts distinct pairs of non-empty trie and key",
        sys: vec![Sys { name: "729 small tries and their subsets with all neighbouring keys and all options", quick: 729, thorough: 729, item: c19_small }],
        cases: vec![("queries", 1, c19_case)],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ C20

#[derive(Default, Debug, Clone)]
struct Figures {
    counts: [usize; 5],
    lowest: usize,
    leaf_sum: usize,
    hash_sum: usize,
}

const KINDS: [&str; 5] = ["empty", "hash", "branch", "extension", "leaf"];

fn figures(r: &R, depth: usize, f: &mut Figures) {
    match r {
        R::Empty => f.counts[0] += 1,
        R::Hash(_) => {
            f.counts[1] += 1;
            f.hash_sum += depth;
            f.lowest = f.lowest.max(depth);
        }
        R::Branch(c, _) => {
            f.counts[2] += 1;
            for c in c {
                figures(c, depth + 1, f);
            }
        }
        R::Ext(_, c) => {
            f.counts[3] += 1;
            figures(c, depth + 1, f);
        }
        R::Leaf(..) => {
            f.counts[4] += 1;
            f.leaf_sum += depth;
            f.lowest = f.lowest.max(depth);
        }
    }
}

impl Figures {
    fn of(r: &R) -> Figures {
        let mut f = Figures::default();
        figures(r, 0, &mut f);
        f
    }
    fn total(&self) -> usize {
        self.counts.iter().sum()
    }
    fn avg(sum: usize, n: usize) -> Option<f64> {
        (n > 0).then(|| sum as f64 / n as f64)
    }
    fn leaf(&self) -> Option<f64> {
        Self::avg(self.leaf_sum, self.counts[4])
    }
    fn hash(&self) -> Option<f64> {
        Self::avg(self.hash_sum, self.counts[1])
    }
}

/// The numbers in a line after its label.
fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| c.is_whitespace() || "/()%,".contains(c))
        .filter(|t| !t.is_empty())
        .filter_map(|t| t.parse::<f64>().ok())
        .collect()
}

/// Label in lower case, and the numbers.
fn rows(text: &str) -> Vec<(String, Vec<f64>)> {
    text.lines()
        .filter_map(|l| {
            let (a, b) = l.rsplit_once(':')?;
            let n = numbers(b);
            let label = a.rsplit(':').next().unwrap_or(a);
            (!n.is_empty()).then(|| (label.trim().to_lowercase(), n))
        })
        .collect()
}

/// Equal to `digits` decimals; anything goes where there is no figure.
fn close(got: f64, want: Option<f64>, digits: i32) -> bool {
    match want {
        None => true,
        Some(w) => (got - w).abs() <= 0.51 * 10f64.powi(-digits) + w.abs() * 1e-5,
    }
}

fn check_stats<T: Sut>(t: &T, r: &R, name: Option<String>, o: &mut Obs) -> Result<Figures, String> {
    let f = Figures::of(r);
    let text = catch(|| t.s_stats(name.clone()).to_string())
        .map_err(|p| format!("statistics of {} {}", r.show(), p.show()))?;
    o.count("statistics", 1);
    let ctx = |what: &str| format!("statistics of {}: {what} in {text:?}, but it is {f:?}", r.show());
    let rows = rows(&text);
    if let Some(n) = &name {
        ensure!(text.contains(n.as_str()), "{}", ctx("no name"));
    }
    for (i, k) in KINDS.iter().enumerate() {
        let row = rows.iter().find(|x| x.0 == *k);
        let share = f.counts[i] as f64 / f.total() as f64 * 100.0;
        match row {
            Some((_, n)) if n.len() >= 2 => {
                ensure!(n[0] == f.counts[i] as f64, "{}", ctx(&format!("number of {k} nodes")));
                ensure!(close(n[1], Some(share), 2), "{}", ctx(&format!("share of {k} nodes")));
            }
            _ => return Err(ctx(&format!("no number of {k} nodes"))),
        }
    }
    let depth = |a: &str, b: &str| {
        rows.iter()
            .find(|x| x.0.contains(a) && x.0.contains(b) && x.0.contains("depth"))
            .map(|x| x.1[0])
            .ok_or_else(|| ctx(&format!("no {a} depth")))
    };
    ensure!(depth("lowest", "")? == f.lowest as f64, "{}", ctx("lowest depth"));
    if f.leaf().is_some() {
        ensure!(close(depth("leaf", "av")?, f.leaf(), 3), "{}", ctx("average leaf depth"));
    }
    if f.hash().is_some() {
        ensure!(close(depth("hash", "av")?, f.hash(), 3), "{}", ctx("average hash depth"));
    }
    if f.total() > 1 {
        o.state(&(f.counts, f.lowest, f.leaf_sum, f.hash_sum));
    }
    o.max("nodes", f.total() as u64);
    Ok(f)
}

fn check_comparison<T: Sut, U: Sut>(a: &T, b: &U, ra: &R, rb: &R, o: &mut Obs) -> Result<(), String> {
    let (fa, fb) = (Figures::of(ra), Figures::of(rb));
    let text = catch(|| a.s_stats(None).compare(&b.s_stats(None)).to_string())
        .map_err(|p| format!("comparing the statistics of {} and {} {}", ra.show(), rb.show(), p.show()))?;
    o.count("comparisons", 1);
    let ctx = |what: &str| format!("comparing {fa:?} and {fb:?}: {what} in {text:?}");
    let rows = rows(&text);
    let n = |x: usize| Some(x as f64);
    let mut want: Vec<(Vec<&str>, Option<f64>, Option<f64>)> = vec![
        (vec!["total nodes"], n(fa.total()), n(fb.total())),
        (vec!["non-empty"], n(fa.total() - fa.counts[0]), n(fb.total() - fb.counts[0])),
        (vec!["lowest", "depth"], n(fa.lowest), n(fb.lowest)),
        (vec!["leaf", "depth"], fa.leaf(), fb.leaf()),
        (vec!["hash", "depth"], fa.hash(), fb.hash()),
    ];
    for (i, k) in KINDS.iter().enumerate() {
        want.push((vec!["total", k], n(fa.counts[i]), n(fb.counts[i])));
    }
    for (label, x, y) in want {
        let row = rows.iter().find(|r| label.iter().all(|l| r.0.contains(l)));
        match row {
            Some((_, v)) if v.len() >= 3 => {
                ensure!(close(v[0], x, 3), "{}", ctx(&format!("first figure of {label:?}")));
                ensure!(close(v[1], y, 3), "{}", ctx(&format!("second figure of {label:?}")));
                if let (Some(x), Some(y)) = (x, y) {
                    if y > 0.0 {
                        ensure!(close(v[2], Some(x / y * 100.0), 3), "{}", ctx(&format!("ratio of {label:?}")));
                        o.count("ratios", 1);
                    }
                }
            }
            _ => return Err(ctx(&format!("no row for {label:?}"))),
        }
    }
    Ok(())
}

fn some_tree(g: &mut Gen) -> R {
    if g.pct(60) {
        let mut budget = g.range(1, 80);
        let hashes = *g.pick(&[0, 10, 40]);
        let room = *g.pick(&[64, 64, 8, 4]);
        gen_tree(g, room, &mut budget, hashes)
    } else {
        let mut keys = Keys::new(g);
        let n = map_size(g);
        let hashes = *g.pick(&[0, 10, 40]);
        canonical(&random_map(g, &mut keys, n, hashes))
    }
}

fn c20<T: Sut>(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let ra = some_tree(g);
    let rb = if g.pct(50) {
        let n = g.below(4);
        let ks: Vec<Key> = ra.entries().into_keys().filter(|_| g.pct(30)).take(n).collect();
        let ks: Vec<&[u8]> = ks.iter().map(|k| &k[..]).collect();
        ref_subset(&ra, &ks).unwrap_or(R::Empty)
    } else {
        some_tree(g)
    };
    o.log(|| format!("{} {}", T::NAME, ra.show()));
    o.log(|| format!("against {}", rb.show()));
    let (a, b): (T, T) = (ra.build(), rb.build());
    let name = g.pct(30).then(|| format!("name {}", g.below(1000)));
    check_stats(&a, &ra, name, o)?;
    check_stats(&b, &rb, None, o)?;
    check_comparison(&a, &b, &ra, &rb, o)?;
    check_comparison(&b, &a, &rb, &ra, o)?;
    check_comparison(&a, &rb.build::<StandardTrie>(), &ra, &rb, o)?;
    ensure!(read(&a) == ra, "the statistics changed the trie");
    o.sample(|| format!("{:?} and {:?}", Figures::of(&ra), Figures::of(&rb)));
    Ok(())
}
both!(c20, c20_case);

fn c20_small(i: usize, o: &mut Obs) -> Result<(), String> {
    let ra = canonical(&small_map(i, 2));
    let a: H = ra.build();
    check_stats(&a, &ra, None, o)?;
    check_stats(&ra.build::<StandardTrie>(), &ra, Some("x".into()), o)?;
    for k in SMALL_KEYS {
        if let Some(rb) = ref_subset(&ra, &[k]) {
            let b: H = rb.build();
            check_stats(&b, &rb, None, o)?;
            check_comparison(&a, &b, &ra, &rb, o)?;
            check_comparison(&b, &a, &rb, &ra, o)?;
        }
    }
    let rb = canonical(&small_map((i * 31 + 7) % 729, 2));
    let b: StandardTrie = rb.build();
    check_comparison(&a, &b, &ra, &rb, o)
}

/// Large and deep tries.
fn c20_large(i: usize, o: &mut Obs) -> Result<(), String> {
    let mut r = Rng::new(i as u64 + 77);
    let mut m = Map::new();
    let n = [1000, 20_000, 100_000][i % 3];
    for _ in 0..n {
        let l = [64, 8, 20][i % 3];
        let k: Key = (0..l).map(|_| (r.next() >> 60) as u8).collect();
        let e = if r.below(4) == 0 { Ent::Hash(keccak(&k)) } else { Ent::Val(k.clone()) };
        m.insert(k, e);
    }
    // A path with a branch at every nibble.
    for l in 0..64 {
        m.insert(vec![5; l], Ent::Val(vec![1]));
    }
    m.retain(|k, e| !(matches!(e, Ent::Hash(_)) && k.iter().all(|n| *n == 5)));
    let ra = canonical(&m);
    let t: H = ra.build();
    let f = check_stats(&t, &ra, None, o)?;
    ensure!(f.lowest >= 60, "harness: the trie should be deep");
    let few: Map = m.into_iter().take(50).collect();
    let rb = canonical(&few);
    let b: H = rb.build();
    check_comparison(&t, &b, &ra, &rb, o)?;
    check_comparison(&b, &t, &rb, &ra, o)
}

pub fn prop_c20() -> Prop {
    Prop {
        id: "C20",
        rule: "an evaluation computes the statistics of two tries and their comparisons and compares all printed figures with counts over the nodes read back; distinct_nontrivial counts distinct sets of figures of tries with more than one node",
        sys: vec![
            Sys { name: "729 small tries and their subsets", quick: 729, thorough: 729, item: c20_small },
            Sys { name: "large and deep tries", quick: 3, thorough: 6, item: c20_large },
        ],
        cases: vec![("statistics", 1, c20_case)],
        assumptions: vec!["averages over no nodes and ratios to zero may be printed in any way; figures are compared to the printed precision"],
    }
}
