//! C12 to C16: nibble sequences and conversions.

use std::{
    fmt::Write,
    hash::{Hash, Hasher},
    str::FromStr,
};

use ethereum_types::{H256, U128, U256, U512};
use sut::{
    nibbles::{Nibbles, ToNibbles},
    partial_trie::{HashedPartialTrie, PartialTrie, StandardTrie},
    trie_ops::ValOrHash,
};

use crate::{
    ensure,
    engine::{Prop, Sys},
    gen::*,
    model::*,
    obs::{catch, Obs},
};

fn std_hash(n: &Nibbles) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// The sequence must be this one in every respect.
fn same(got: &Nibbles, want: &[u8], what: &dyn Fn() -> String, o: &mut Obs) -> Result<(), String> {
    o.count("sequences_compared", 1);
    let list = unnib_checked(got).map_err(|e| format!("{}: {e}", what()))?;
    ensure!(
        list == want,
        "{}: got {} instead of {}",
        what(),
        hexk(&list),
        hexk(want)
    );
    let w = nib(want);
    ensure!(
        *got == w && std_hash(got) == std_hash(&w) && got.cmp(&w) == std::cmp::Ordering::Equal,
        "{}: {} does not compare as equal to {}",
        what(),
        got,
        w
    );
    Ok(())
}

// ------------------------------------------------------------------ C12

/// All reading operations of a sequence with the indices a <= b.
fn read_ops(k: &[u8], a: usize, b: usize, o: &mut Obs) -> Result<(), String> {
    let n = nib(k);
    let w = |s: &str| {
        let s = s.to_string();
        let k = k.to_vec();
        move || format!("{s} of {} ({a}, {b})", hexk(&k))
    };
    same(&n.get_nibble_range(a..b), &k[a..b], &w("range"), o)?;
    let (x, y) = n.split_at_idx(a);
    same(&x, &k[..a], &w("split prefix"), o)?;
    same(&y, &k[a..], &w("split postfix"), o)?;
    same(&n.split_at_idx_prefix(b), &k[..b], &w("prefix"), o)?;
    same(&n.split_at_idx_postfix(b), &k[b..], &w("postfix"), o)?;
    same(&n.get_next_nibbles(a), &k[..a], &w("next nibbles"), o)?;
    same(&n.truncate_n_nibbles_front(a), &k[a..], &w("truncate front"), o)?;
    same(&n.truncate_n_nibbles_back(a), &k[..k.len() - a], &w("truncate back"), o)?;
    let mut m = n;
    m.truncate_n_nibbles_front_mut(b);
    same(&m, &k[b..], &w("truncate front in place"), o)?;
    let mut m = n;
    m.truncate_n_nibbles_back_mut(b);
    same(&m, &k[..k.len() - b], &w("truncate back in place"), o)?;
    let mut m = n;
    let p = m.pop_nibbles_front(a);
    same(&p, &k[..a], &w("popped from the front"), o)?;
    same(&m, &k[a..], &w("left after pop from the front"), o)?;
    let mut m = n;
    let p = m.pop_nibbles_back(a);
    let rev: Key = k[k.len() - a..].iter().rev().cloned().collect();
    same(&p, &rev, &w("popped from the back"), o)?;
    same(&m, &k[..k.len() - a], &w("left after pop from the back"), o)?;
    if a < k.len() {
        ensure!(n.get_nibble(a) == k[a], "nibble {a} of {} is {:x}", hexk(k), n.get_nibble(a));
    }
    same(&n, k, &w("the original"), o)
}

fn single_ops(k: &[u8], o: &mut Obs) -> Result<(), String> {
    let n = nib(k);
    let w = |s: &str| {
        let s = s.to_string();
        let k = k.to_vec();
        move || format!("{s} of {}", hexk(&k))
    };
    ensure!(n.is_empty() == k.is_empty(), "is_empty of {}", hexk(k));
    ensure!(n.min_bytes() == (k.len() + 1) / 2, "min_bytes of {}", hexk(k));
    let rev: Key = k.iter().rev().cloned().collect();
    same(&n.reverse(), &rev, &w("reverse"), o)?;
    if !k.is_empty() {
        let mut m = n;
        let p = m.pop_next_nibble_front();
        ensure!(p == k[0], "front of {} is {p:x}", hexk(k));
        same(&m, &k[1..], &w("after popping the front"), o)?;
        let mut m = n;
        let p = m.pop_next_nibble_back();
        ensure!(p == k[k.len() - 1], "back of {} is {p:x}", hexk(k));
        same(&m, &k[..k.len() - 1], &w("after popping the back"), o)?;
    }
    if k.len() < 64 {
        for x in [0, 1, 7, 8, 15] {
            let mut m = n;
            m.push_nibble_front(x);
            let mut l = vec![x];
            l.extend(k);
            same(&m, &l, &w("push to the front"), o)?;
            let mut m = n;
            m.push_nibble_back(x);
            let mut l = k.to_vec();
            l.push(x);
            same(&m, &l, &w("push to the back"), o)?;
            same(&n.merge_nibble(x), &l, &w("merge a nibble"), o)?;
        }
    }
    for extra in [1usize, 64, 1000, usize::MAX] {
        for n in [
            n.truncate_n_nibbles_front(k.len().saturating_add(extra)),
            n.truncate_n_nibbles_back(k.len().saturating_add(extra)),
        ] {
            same(&n, &[], &w("truncating too much"), o)?;
        }
    }
    Ok(())
}

fn pair_ops(a: &[u8], b: &[u8], o: &mut Obs) -> Result<(), String> {
    let (x, y) = (nib(a), nib(b));
    let w = |s: &str| {
        let s = s.to_string();
        let (a, b) = (a.to_vec(), b.to_vec());
        move || format!("{s} of {} and {}", hexk(&a), hexk(&b))
    };
    if a.len() + b.len() <= 64 {
        let mut l = a.to_vec();
        l.extend(b);
        same(&x.merge_nibbles(&y), &l, &w("merge"), o)?;
        let mut m = y;
        m.push_nibbles_front(&x);
        same(&m, &l, &w("push to the front"), o)?;
    }
    let cp = a.iter().zip(b).take_while(|(p, q)| p == q).count();
    let min = a.len().min(b.len());
    let id = x.nibbles_are_identical_up_to_smallest_count(&y);
    ensure!(id == (cp == min), "identical prefixes of {} and {}: {id}", hexk(a), hexk(b));
    let d = Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&x, &y);
    ensure!(d == cp, "first difference of {} and {}: {d}", hexk(a), hexk(b));
    if a.len() == b.len() {
        let d = Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&x, &y);
        ensure!(d == cp, "first difference of {} and {}: {d}", hexk(a), hexk(b));
    }
    ensure!((x == y) == (a == b), "equality of {} and {}", hexk(a), hexk(b));
    ensure!(
        (x.cmp(&y) == std::cmp::Ordering::Equal) == (a == b) && x.cmp(&y) == y.cmp(&x).reverse(),
        "ordering of {} and {}",
        hexk(a),
        hexk(b)
    );
    o.count("pairs", 1);
    Ok(())
}

fn patterns(l: usize) -> Vec<Key> {
    vec![
        vec![0; l],
        vec![15; l],
        (0..l).map(|i| ((i * 7 + 1) % 16) as u8).collect(),
        (0..l).map(|i| if i < l / 2 { 0 } else { (i % 16) as u8 }).collect(),
        (0..l).map(|i| if i == 0 { 8 } else { 0 }).collect(),
        (0..l).map(|i| if i + 1 == l { 1 } else { 0 }).collect(),
        (0..l).map(|i| (15 - i % 16) as u8).collect(),
    ]
}

fn c12_sys(l: usize, o: &mut Obs) -> Result<(), String> {
    for k in patterns(l) {
        o.log(|| hexk(&k));
        single_ops(&k, o)?;
        for a in 0..=l {
            for b in a..=l {
                read_ops(&k, a, b, o)?;
            }
        }
        o.state(&k);
    }
    Ok(())
}

fn c12_pairs(l: usize, o: &mut Obs) -> Result<(), String> {
    for a in patterns(l) {
        for l2 in 0..=64 {
            for b in patterns(l2) {
                pair_ops(&a, &b, o)?;
            }
            // The same up to every position.
            let mut b: Key = a.iter().cloned().chain(std::iter::repeat(3)).take(l2).collect();
            pair_ops(&a, &b, o)?;
            if l2 > 0 {
                for at in [0, l2 / 2, l2 - 1, l % l2] {
                    b[at] ^= 8;
                    pair_ops(&a, &b, o)?;
                    b[at] ^= 8;
                }
            }
        }
    }
    // A difference in every single position.
    let a = &patterns(l)[2];
    for at in 0..l {
        for bit in 0..4 {
            let mut b = a.clone();
            b[at] ^= 1 << bit;
            pair_ops(a, &b, o)?;
            o.state(&(l, at, bit));
        }
    }
    Ok(())
}

fn c12_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut k = g.any_key();
    let mut n = nib(&k);
    let steps = g.range(1, 40);
    o.log(|| format!("start {}", hexk(&k)));
    for _ in 0..steps {
        let before = k.clone();
        let op = g.below(19);
        let idx = g.len(k.len());
        match op {
            0 if !k.is_empty() => {
                let x = n.pop_next_nibble_front();
                let y = k.remove(0);
                ensure!(x == y, "popped {x:x} from the front of {}", hexk(&before));
            }
            1 if !k.is_empty() => {
                let x = n.pop_next_nibble_back();
                let y = k.pop();
                ensure!(Some(x) == y, "popped {x:x} from the back of {}", hexk(&before));
            }
            2 | 3 if k.len() < 64 => {
                let x = g.nibble();
                n.push_nibble_front(x);
                k.insert(0, x);
            }
            4 | 5 if k.len() < 64 => {
                let x = g.nibble();
                n.push_nibble_back(x);
                k.push(x);
            }
            6 => {
                let l = g.len(64 - k.len());
                let p = g.nibbles_of_len(l);
                n.push_nibbles_front(&nib(&p));
                k = p.into_iter().chain(k).collect();
            }
            7 => {
                let l = g.len(64 - k.len());
                let p = g.nibbles_of_len(l);
                n = n.merge_nibbles(&nib(&p));
                k.extend(p);
            }
            8 => {
                n = n.reverse();
                k.reverse();
            }
            9 => {
                n = n.truncate_n_nibbles_front(idx);
                k = k[idx..].to_vec();
            }
            10 => {
                n.truncate_n_nibbles_back_mut(idx);
                k.truncate(k.len() - idx);
            }
            11 => {
                let p = n.pop_nibbles_front(idx);
                same(&p, &k[..idx], &|| format!("pop {idx} from the front of {}", hexk(&before)), o)?;
                k = k[idx..].to_vec();
            }
            12 => {
                let p = n.pop_nibbles_back(idx);
                let at = k.len() - idx;
                let rev: Key = k[at..].iter().rev().cloned().collect();
                same(&p, &rev, &|| format!("pop {idx} from the back of {}", hexk(&before)), o)?;
                k.truncate(at);
            }
            13 => {
                let e = idx + g.below(k.len() - idx + 1);
                n = n.get_nibble_range(idx..e);
                k = k[idx..e].to_vec();
            }
            14 => {
                let (a, b) = n.split_at_idx(idx);
                if g.pct(50) {
                    n = a;
                    k.truncate(idx);
                } else {
                    n = b;
                    k = k[idx..].to_vec();
                }
            }
            15 => {
                let e = idx + g.below(k.len() - idx + 1);
                read_ops(&k, idx, e, o)?;
            }
            16 => {
                let mut p = if g.pct(70) { k.clone() } else { g.any_key() };
                if !p.is_empty() && g.pct(80) {
                    let at = g.below(p.len());
                    p[at] = g.nibble();
                    if g.pct(50) {
                        p.truncate(at + 1);
                    }
                }
                pair_ops(&k, &p, o)?;
                pair_ops(&p, &k, o)?;
            }
            _ => single_ops(&k, o)?,
        }
        o.log(|| format!("op {op} {idx}: {}", hexk(&k)));
        same(&n, &k, &|| format!("operation {op} on {}", hexk(&before)), o)?;
        if k.len() >= 2 {
            o.state(&k);
        }
        o.count("operations", 1);
    }
    o.sample(|| format!("chain of {steps} operations ending in {}", hexk(&k)));
    Ok(())
}

pub fn prop_c12() -> Prop {
    Prop {
        id: "C12",
        rule: "an evaluation is a chain of operations on a nibble sequence compared with a plain list after each, or one length with all index pairs; \
               distinct_nontrivial counts distinct sequences of at least two nibbles (and positions of a single difference) that were compared",
        sys: vec![
            Sys { name: "all lengths and index pairs in 7 patterns", quick: 65, thorough: 65, item: c12_sys },
            Sys { name: "all pairs of lengths", quick: 65, thorough: 65, item: c12_pairs },
        ],
        cases: vec![("chain", 1, c12_case)],
        assumptions: vec!["sequences have at most 64 nibbles, as documented"],
    }
}

// ------------------------------------------------------------------ C13

fn hex_text(k: &[u8], upper: bool, prefix: bool) -> String {
    let s: String = k.iter().map(|n| char::from_digit(*n as u32, 16).unwrap()).collect();
    let s = if upper { s.to_uppercase() } else { s };
    if prefix {
        format!("0x{s}")
    } else {
        s
    }
}

fn packed(k: &[u8]) -> Vec<u8> {
    let mut v = k.to_vec();
    if v.len() % 2 == 1 {
        v.insert(0, 0);
    }
    v.chunks(2).map(|c| c[0] << 4 | c[1]).collect()
}

fn unpacked(b: &[u8]) -> Key {
    b.iter().flat_map(|b| [b >> 4, b & 15]).collect()
}

fn parse(s: &str) -> Result<Result<Nibbles, String>, String> {
    catch(|| Nibbles::from_str(s).map_err(|e| e.to_string())).map_err(|p| format!("parsing {s:?} {}", p.show()))
}

fn text_round_trip(k: &[u8], o: &mut Obs) -> Result<(), String> {
    let n = nib(k);
    for (s, upper) in [
        (format!("{n:x}"), false),
        (format!("{n:X}"), true),
        (format!("{n}"), false),
        (n.to_string(), false),
    ] {
        ensure!(
            s == hex_text(k, upper, true),
            "{} is printed as {s:?}",
            hexk(k)
        );
        o.count("printed", 1);
    }
    for upper in [false, true] {
        for prefix in [false, true] {
            let s = hex_text(k, upper, prefix);
            match parse(&s)? {
                Ok(p) => same(&p, k, &|| format!("parsing {s:?}"), o)?,
                Err(e) => return Err(format!("parsing {s:?} failed: {e}")),
            }
            o.count("parsed", 1);
        }
    }
    let d = format!("{n:?}");
    ensure!(d.contains(&hex_text(k, false, true)), "debug output of {} is {d}", hexk(k));
    ensure!(n.bytes_be() == packed(k), "bytes of {} are {}", hexk(k), hexb(&n.bytes_be()));
    let mut be = [0; 32];
    let p = packed(k);
    be[32 - p.len()..].copy_from_slice(&p);
    match n.try_into_u256() {
        Ok(u) => ensure!(u == U256::from_big_endian(&be), "{} as an integer is {u:#x}", hexk(k)),
        Err(e) => return Err(format!("{} as an integer: {e}", hexk(k))),
    }
    Ok(())
}

fn from_bytes(b: &[u8], o: &mut Obs) -> Result<(), String> {
    let be = catch(|| Nibbles::from_bytes_be(b)).map_err(|p| format!("{} bytes: {}", b.len(), p.show()))?;
    let le = catch(|| Nibbles::from_bytes_le(b)).map_err(|p| format!("{} bytes: {}", b.len(), p.show()))?;
    o.count("byte_strings", 1);
    match b.len() {
        0 => ensure!(be.is_err() && le.is_err(), "an empty byte slice gave no error"),
        1..=32 => {
            let mut r = b.to_vec();
            r.reverse();
            match (be, le) {
                (Ok(be), Ok(le)) => {
                    same(&be, &unpacked(b), &|| format!("big endian bytes {}", hexb(b)), o)?;
                    same(&le, &unpacked(&r), &|| format!("little endian bytes {}", hexb(b)), o)?;
                }
                _ => return Err(format!("bytes {} gave an error", hexb(b))),
            }
        }
        33 => (),
        _ => ensure!(be.is_err() && le.is_err(), "{} bytes gave no error", b.len()),
    }
    if b.len() == 32 {
        let h = H256::from_slice(b);
        let mut r = b.to_vec();
        r.reverse();
        same(&Nibbles::from_h256_be(h), &unpacked(b), &|| format!("big endian hash {}", hexb(b)), o)?;
        same(&Nibbles::from_h256_le(h), &unpacked(&r), &|| format!("little endian hash {}", hexb(b)), o)?;
        o.count("hashes", 1);
    }
    Ok(())
}

fn minimal(b: &[u8]) -> Key {
    unpacked(b).into_iter().skip_while(|n| *n == 0).collect()
}

fn from_int(b: &[u8], o: &mut Obs) -> Result<(), String> {
    // `b` has the width of the type.
    let min = minimal(b);
    let pad: Key = if min.len() % 2 == 1 {
        std::iter::once(0).chain(min.iter().cloned()).collect()
    } else {
        min.clone()
    };
    let check = |a: Nibbles, p: Nibbles, f: Nibbles, o: &mut Obs| -> Result<(), String> {
        // Longer than any key otherwise.
        if min.len() <= 64 {
            same(&a, &min, &|| format!("integer {}", hexb(b)), o)?;
            same(&f, &min, &|| format!("integer {}", hexb(b)), o)?;
            same(&p, &pad, &|| format!("padded integer {}", hexb(b)), o)?;
            o.count("integers", 1);
        }
        Ok(())
    };
    macro_rules! int {
        ($v:expr) => {{
            let v = $v;
            check(v.to_nibbles(), v.to_nibbles_byte_padded(), v.into(), o)?
        }};
    }
    match b.len() {
        1 => int!(b[0]),
        2 => int!(u16::from_be_bytes(b.try_into().unwrap())),
        4 => int!(u32::from_be_bytes(b.try_into().unwrap())),
        8 => int!(u64::from_be_bytes(b.try_into().unwrap())),
        16 => int!(U128::from_big_endian(b)),
        32 => int!(U256::from_big_endian(b)),
        64 => int!(U512::from_big_endian(b)),
        _ => (),
    }
    if b.len() == 64 {
        let n = Nibbles::get_num_nibbles_in_key(&U512::from_big_endian(b));
        ensure!(n == min.len(), "number of nibbles of {} is {n}", hexb(b));
    }
    Ok(())
}

fn bad_text(s: &str, o: &mut Obs) -> Result<(), String> {
    let r = parse(s)?;
    let body = s.strip_prefix("0x").unwrap_or(s);
    let bad = body.chars().any(|c| !c.is_ascii_hexdigit());
    if bad {
        ensure!(r.is_err(), "parsing {s:?} gave {:?} instead of an error", r);
        o.count("bad_texts", 1);
    } else if body.len() <= 64 {
        let k: Key = body.chars().map(|c| c.to_digit(16).unwrap() as u8).collect();
        match r {
            Ok(n) => same(&n, &k, &|| format!("parsing {s:?}"), o)?,
            Err(e) => return Err(format!("parsing {s:?} failed: {e}")),
        }
        o.count("parsed", 1);
    }
    Ok(())
}

fn c13_sys(l: usize, o: &mut Obs) -> Result<(), String> {
    if l <= 64 {
        for k in patterns(l) {
            text_round_trip(&k, o)?;
            o.state(&k);
        }
        // Every number of leading zeros.
        for z in 0..=l {
            let k: Key = (0..l).map(|i| if i < z { 0 } else { (i % 15 + 1) as u8 }).collect();
            text_round_trip(&k, o)?;
            o.state(&k);
        }
    }
    for fill in [0u8, 1, 0x10, 0x0f, 0xff] {
        from_bytes(&vec![fill; l], o)?;
        let mut v = vec![0; l];
        for at in 0..l.min(70) {
            v[at] = fill;
            from_bytes(&v, o)?;
            v[at] = 0;
        }
    }
    for w in [1usize, 2, 4, 8, 16, 32, 64] {
        // Every highest bit.
        let bit = l;
        if bit < w * 8 {
            for low in [0u8, 1, 0xff] {
                let mut b = vec![0; w];
                b[w - 1] = low;
                b[w - 1 - bit / 8] |= 1 << (bit % 8);
                from_int(&b, o)?;
                o.state(&b);
            }
        }
        if l == 0 {
            from_int(&vec![0; w], o)?;
            from_int(&vec![0xff; w], o)?;
        }
    }
    // A wrong character in every position.
    if l <= 66 {
        for c in ['g', 'G', '/', ':', '@', '`', 'x', ' ', '-', '+', '_', '\0', 'é', '０'] {
            for prefix in ["", "0x", "0X", "0x0x"] {
                for at in [0, l / 2, l.saturating_sub(1)] {
                    let mut t: Vec<char> = vec!['1'; l];
                    t.insert(at, c);
                    let s: String = t.into_iter().collect();
                    bad_text(&format!("{prefix}{s}"), o)?;
                }
            }
        }
        bad_text(&"0".repeat(l), o)?;
        bad_text(&format!("0x{}", "0".repeat(l)), o)?;
    }
    Ok(())
}

fn c13_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    match g.below(5) {
        0 => {
            let k = g.any_key();
            o.log(|| hexk(&k));
            text_round_trip(&k, o)?;
            if k.len() > 1 {
                o.state(&k);
            }
            o.sample(|| format!("text {}", hexk(&k)));
        }
        1 => {
            let l = match g.below(4) {
                0 => g.below(40),
                1 => g.range(30, 36),
                _ => g.range(1, 32),
            };
            let mut b = g.bytes(l);
            let z = g.below(l + 1);
            if g.pct(30) {
                b[..z].fill(0);
            } else if g.pct(30) {
                b[z..].fill(0);
            }
            o.log(|| hexb(&b));
            from_bytes(&b, o)?;
            o.state(&b);
        }
        2 => {
            let w = *g.pick(&[1, 2, 4, 8, 16, 32, 64]);
            let mut b = g.bytes(w);
            let bits = g.below(w * 8 + 1);
            // Only so many low bits.
            for (i, x) in b.iter_mut().rev().enumerate() {
                let keep = bits.saturating_sub(i * 8).min(8);
                *x &= ((1u16 << keep) - 1) as u8;
            }
            o.log(|| hexb(&b));
            from_int(&b, o)?;
            o.state(&b);
        }
        3 => {
            let l = g.below(70);
            let mut s = String::new();
            if g.pct(50) {
                s.push_str("0x");
            }
            for _ in 0..l {
                let c = match g.below(40) {
                    0 => char::from_u32(g.raw() % 0x11_0000).unwrap_or('?'),
                    1 => (g.raw() % 128) as u8 as char,
                    x => {
                        let d = char::from_digit(x as u32 % 16, 16).unwrap();
                        if g.pct(30) {
                            d.to_ascii_uppercase()
                        } else {
                            d
                        }
                    }
                };
                s.push(c);
            }
            o.log(|| s.clone());
            bad_text(&s, o)?;
            o.state(&s);
        }
        _ => {
            // Long and strange texts must not panic.
            let l = g.below(300);
            let mut s = String::new();
            let c = *g.pick(&['0', 'f', 'x', 'é', '1']);
            for _ in 0..l {
                let _ = s.write_char(c);
            }
            o.log(|| s.clone());
            bad_text(&s, o)?;
        }
    }
    Ok(())
}

pub fn prop_c13() -> Prop {
    Prop {
        id: "C13",
        rule: "an evaluation converts one source (text, bytes, hash or integer) and compares the digits, or converts a sequence and compares the text, bytes and number; \
               distinct_nontrivial counts distinct sources",
        sys: vec![Sys { name: "all lengths, leading zeros, highest bits and positions of a wrong character", quick: 512, thorough: 512, item: c13_sys }],
        cases: vec![("conversions", 1, c13_case)],
        assumptions: vec![
            "byte slices of exactly 33 bytes and texts or integers of more than 64 digits are unspecified: they only must not panic",
        ],
    }
}

// ------------------------------------------------------------------ C14

fn hp_round_trip(k: &[u8], o: &mut Obs) -> Result<(), String> {
    for leaf in [false, true] {
        let want = hex_prefix(k, leaf);
        let got = nib(k).to_hex_prefix_encoding(leaf);
        ensure!(
            got[..] == want[..],
            "encoding of {} (leaf: {leaf}) is {} instead of {}",
            hexk(k),
            hexb(&got),
            hexb(&want)
        );
        let mut back = k.to_vec();
        if leaf {
            back.extend([1, 0]);
        }
        match Nibbles::from_hex_prefix_encoding(&want) {
            Ok(n) => same(&n, &back, &|| format!("decoding {}", hexb(&want)), o)?,
            Err(e) => return Err(format!("decoding {} failed: {e}", hexb(&want))),
        }
        o.count("round_trips", 1);
        o.state(&want);
    }
    Ok(())
}

fn hp_decode(b: &[u8], o: &mut Obs) -> Result<(), String> {
    let r = catch(|| Nibbles::from_hex_prefix_encoding(b)).map_err(|p| format!("decoding {} {}", hexb(b), p.show()))?;
    o.count("decoded", 1);
    if b.is_empty() || b.len() > 33 || b[0] >> 4 > 3 {
        o.count("decoding_errors", 1);
        ensure!(r.is_err(), "decoding {} gave no error", hexb(b));
        if let Err(e) = r {
            ensure!(!e.to_string().is_empty(), "empty error message");
        }
        return Ok(());
    }
    let odd = b[0] >> 4 & 1 == 1;
    let leaf = b[0] >> 4 & 2 == 2;
    let mut k = unpacked(&b[1..]);
    if odd {
        k.insert(0, b[0] & 15);
    }
    // Only these are encodings of something.
    if k.len() <= 64 && (odd || b[0] & 15 == 0) {
        if leaf {
            k.extend([1, 0]);
        }
        match r {
            Ok(n) => same(&n, &k, &|| format!("decoding {}", hexb(b)), o)?,
            Err(e) => return Err(format!("decoding {} failed: {e}", hexb(b))),
        }
    }
    Ok(())
}

fn c14_sys(l: usize, o: &mut Obs) -> Result<(), String> {
    if l <= 64 {
        for k in patterns(l) {
            hp_round_trip(&k, o)?;
        }
        for z in 0..=l {
            let k: Key = (0..l).map(|i| if i < z { 0 } else { (i % 15 + 1) as u8 }).collect();
            hp_round_trip(&k, o)?;
        }
        for at in 0..l {
            for n in 0..16 {
                let mut k = vec![0; l];
                k[at] = n;
                hp_round_trip(&k, o)?;
            }
        }
    }
    for first in 0..=255u8 {
        for fill in [0u8, 0x10, 0xff] {
            let mut b = vec![fill; l];
            if l > 0 {
                b[0] = first;
            }
            hp_decode(&b, o)?;
        }
    }
    Ok(())
}

fn c14_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    if g.pct(50) {
        let k = g.any_key();
        o.log(|| hexk(&k));
        hp_round_trip(&k, o)?;
        o.sample(|| format!("{} as a leaf path is {}", hexk(&k), hexb(&hex_prefix(&k, true))));
    } else {
        let l = match g.below(4) {
            0 => g.below(80),
            1 => g.range(31, 35),
            _ => g.range(1, 33),
        };
        let mut b = g.bytes(l);
        if l > 0 && g.pct(70) {
            b[0] = (g.below(5) as u8) << 4 | if g.pct(50) { 0 } else { g.nibble() };
        }
        o.log(|| hexb(&b));
        hp_decode(&b, o)?;
        o.state(&b);
    }
    Ok(())
}

pub fn prop_c14() -> Prop {
    Prop {
        id: "C14",
        rule: "an evaluation encodes a sequence both ways and decodes it again, or decodes an arbitrary byte string; distinct_nontrivial counts distinct encodings and byte strings",
        sys: vec![Sys { name: "all lengths, leading zeros, single digits and flag bytes", quick: 100, thorough: 100, item: c14_sys }],
        cases: vec![("hex-prefix", 1, c14_case)],
        assumptions: vec!["byte strings that are no encoding of any sequence only must not panic, unless they have to be refused"],
    }
}

// ------------------------------------------------------------------ C15

fn must_panic<T: std::fmt::Debug>(
    what: &dyn Fn() -> String,
    k: &[u8],
    o: &mut Obs,
    f: impl FnOnce(&mut Nibbles) -> T,
) -> Result<(), String> {
    let mut n = nib(k);
    let r = catch(|| f(&mut n));
    o.count("out_of_range_calls", 1);
    if let Ok(v) = r {
        return Err(format!("{} on {} did not panic but returned {v:?}", what(), hexk(k)));
    }
    same(&n, k, &|| format!("after a failed {}", what()), o)
}

fn beyond(k: &[u8], n: usize, o: &mut Obs) -> Result<(), String> {
    // n > k.len()
    must_panic(&|| format!("get_nibble({n})"), k, o, |x| x.get_nibble(n))?;
    must_panic(&|| format!("get_next_nibbles({n})"), k, o, |x| x.get_next_nibbles(n))?;
    must_panic(&|| format!("pop_nibbles_front({n})"), k, o, |x| x.pop_nibbles_front(n))?;
    must_panic(&|| format!("pop_nibbles_back({n})"), k, o, |x| x.pop_nibbles_back(n))?;
    must_panic(&|| format!("split_at_idx({n})"), k, o, |x| x.split_at_idx(n))?;
    must_panic(&|| format!("split_at_idx_prefix({n})"), k, o, |x| x.split_at_idx_prefix(n))?;
    must_panic(&|| format!("split_at_idx_postfix({n})"), k, o, |x| x.split_at_idx_postfix(n))?;
    let mut starts = vec![0, k.len() / 2, k.len(), k.len() + 1, n - 1, n];
    starts.sort();
    starts.dedup();
    for s in starts {
        if s <= n {
            must_panic(&|| format!("get_nibble_range({s}..{n})"), k, o, |x| x.get_nibble_range(s..n))?;
        }
    }
    let x = nib(k);
    same(&x.truncate_n_nibbles_front(n), &[], &|| format!("truncate_n_nibbles_front({n}) of {}", hexk(k)), o)?;
    same(&x.truncate_n_nibbles_back(n), &[], &|| format!("truncate_n_nibbles_back({n}) of {}", hexk(k)), o)?;
    let mut y = x;
    y.truncate_n_nibbles_front_mut(n);
    same(&y, &[], &|| format!("truncate_n_nibbles_front_mut({n}) of {}", hexk(k)), o)?;
    let mut y = x;
    y.truncate_n_nibbles_back_mut(n);
    same(&y, &[], &|| format!("truncate_n_nibbles_back_mut({n}) of {}", hexk(k)), o)?;
    o.state(&(k, n));
    Ok(())
}

fn bad_nibble(k: &[u8], n: u8, o: &mut Obs) -> Result<(), String> {
    must_panic(&|| format!("push_nibble_front({n})"), k, o, |x| x.push_nibble_front(n))?;
    must_panic(&|| format!("push_nibble_back({n})"), k, o, |x| x.push_nibble_back(n))?;
    must_panic(&|| format!("merge_nibble({n})"), k, o, |x| x.merge_nibble(n))?;
    must_panic(&|| format!("from_nibble({n})"), k, o, |_| Nibbles::from_nibble(n))
}

fn bad_pair(a: &[u8], b: &[u8], o: &mut Obs) -> Result<(), String> {
    let y = nib(b);
    if a.len() + b.len() > 64 {
        must_panic(&|| format!("push_nibbles_front({})", hexk(b)), a, o, |x| x.push_nibbles_front(&y))?;
        must_panic(&|| format!("merge_nibbles({})", hexk(b)), a, o, |x| x.merge_nibbles(&y))?;
    }
    if a.len() != b.len() {
        must_panic(&|| format!("find difference with {}", hexk(b)), a, o, |x| {
            Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(x, &y)
        })?;
    }
    o.state(&(a, b));
    Ok(())
}

fn c15_sys(l: usize, o: &mut Obs) -> Result<(), String> {
    for k in patterns(l) {
        let mut ns: Vec<usize> = (l + 1..=l + 70).collect();
        ns.extend([
            127,
            128,
            129,
            192,
            255,
            256,
            257,
            1000,
            1 << 31,
            1 << 32,
            (1 << 32) + l,
            1 << 61,
            1 << 62,
            (1 << 62) + l,
            1 << 63,
            (1 << 63) + l,
            (1 << 63) + 1,
            usize::MAX / 4,
            usize::MAX / 4 + 1,
            usize::MAX / 4 + 1 + l,
            usize::MAX - 64,
            usize::MAX - 1,
            usize::MAX,
        ]);
        for n in ns {
            if n > l {
                o.log(|| format!("{} with {n}", hexk(&k)));
                beyond(&k, n, o)?;
            }
        }
        must_panic(&|| format!("get_nibble({l})"), &k, o, |x| x.get_nibble(l))?;
        if l == 0 {
            must_panic(&|| "pop_next_nibble_front".into(), &k, o, |x| x.pop_next_nibble_front())?;
            must_panic(&|| "pop_next_nibble_back".into(), &k, o, |x| x.pop_next_nibble_back())?;
        }
        for n in 16..=255 {
            bad_nibble(&k, n, o)?;
        }
        if l == 64 {
            for n in 0..16 {
                must_panic(&|| format!("push_nibble_front({n})"), &k, o, |x| x.push_nibble_front(n))?;
                must_panic(&|| format!("push_nibble_back({n})"), &k, o, |x| x.push_nibble_back(n))?;
                must_panic(&|| format!("merge_nibble({n})"), &k, o, |x| x.merge_nibble(n))?;
            }
        }
        for l2 in 0..=64 {
            bad_pair(&k, &patterns(l2)[l % 7], o)?;
            bad_pair(&k, &vec![0; l2], o)?;
        }
    }
    Ok(())
}

fn c15_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let k = g.any_key();
    match g.below(3) {
        0 => {
            let n = match g.below(4) {
                0 => k.len() + 1 + g.below(8),
                1 => g.dict_num() as usize,
                2 => g.u64() as usize,
                _ => usize::MAX - g.below(70),
            };
            if n > k.len() {
                o.log(|| format!("{} with {n}", hexk(&k)));
                beyond(&k, n, o)?;
                o.sample(|| format!("{} accessed up to {n}", hexk(&k)));
            }
        }
        1 => {
            let n = 16 + g.below(240) as u8;
            o.log(|| format!("{} with nibble {n}", hexk(&k)));
            bad_nibble(&k, n, o)?;
        }
        _ => {
            let b = g.any_key();
            o.log(|| format!("{} with {}", hexk(&k), hexk(&b)));
            bad_pair(&k, &b, o)?;
        }
    }
    Ok(())
}

pub fn prop_c15() -> Prop {
    Prop {
        id: "C15",
        rule: "an evaluation makes out of range calls on one sequence and watches that each panics and leaves the sequence as it was, in builds with and without overflow checks; \
               distinct_nontrivial counts distinct pairs of sequence and out of range argument",
        sys: vec![Sys { name: "all lengths with arguments of all magnitudes in 7 patterns", quick: 65, thorough: 65, item: c15_sys }],
        cases: vec![("out of range", 1, c15_case)],
        assumptions: vec!["ranges whose start lies after their end are not considered"],
    }
}

// ------------------------------------------------------------------ C16

fn entry(v: ValOrHash, want: &Ent, what: &str, o: &mut Obs) -> Result<(), String> {
    o.count("entries_converted", 1);
    ensure!(Ent::from_voh(&v) == *want, "{what} became {v:?} instead of {want:?}");
    match want {
        Ent::Val(w) => {
            ensure!(v.is_val() && !v.is_hash(), "{what}: kind");
            ensure!(v.as_val() == Some(w) && v.as_hash().is_none(), "{what}: borrowed content");
            ensure!(v.clone().into_val().ok().as_ref() == Some(w), "{what}: content");
            ensure!(v.clone().into_hash().is_err(), "{what}: content of the other kind");
            let c = v.clone();
            ensure!(catch(|| c.expect_val()).ok().as_ref() == Some(w), "{what}: expected content");
            let c = v.clone();
            ensure!(catch(|| c.expect_hash()).is_err(), "{what}: no panic for the other kind");
            let mut c = v.clone();
            ensure!(c.as_val_mut().map(|x| x.clone()).as_ref() == Some(w), "{what}: mutable content");
            ensure!(c.as_hash_mut().is_none(), "{what}: mutable content of the other kind");
        }
        Ent::Hash(w) => {
            let w = H256(*w);
            ensure!(v.is_hash() && !v.is_val(), "{what}: kind");
            ensure!(v.as_hash() == Some(&w) && v.as_val().is_none(), "{what}: borrowed content");
            ensure!(v.clone().into_hash().ok() == Some(w), "{what}: content");
            ensure!(v.clone().into_val().is_err(), "{what}: content of the other kind");
            let c = v.clone();
            ensure!(catch(|| c.expect_hash()).ok() == Some(w), "{what}: expected content");
            let c = v.clone();
            ensure!(catch(|| c.expect_val()).is_err(), "{what}: no panic for the other kind");
        }
    }
    Ok(())
}

fn through_trie<T: PartialTrie, V: Into<ValOrHash> + Clone>(k: &[u8], v: V, want: &Ent, o: &mut Obs) -> Result<(), String> {
    let mut t = T::default();
    t.insert(nib(k), v.clone());
    if !k.is_empty() {
        // A neighbour, so that the entry is not the root.
        let mut other = k.to_vec();
        other[0] ^= 1;
        t.insert(nib(&other), vec![1u8, 2, 3]);
    }
    let mut e = T::default();
    e.extend([(nib(k), v)]);
    for t in [&t, &e] {
        let got = t.get(nib(k)).map(|x| x.to_vec());
        let w = match want {
            Ent::Val(v) => Some(v.clone()),
            _ => None,
        };
        ensure!(got == w, "lookup of an inserted {want:?} gave {got:?}");
        let item = t.items().find(|(x, _)| unnib(x) == k).map(|x| Ent::from_voh(&x.1));
        ensure!(item.as_ref() == Some(want), "iteration over an inserted {want:?} gave {item:?}");
    }
    o.count("entries_through_tries", 1);
    Ok(())
}

fn all_of(b: &[u8], k: &[u8], o: &mut Obs) -> Result<(), String> {
    macro_rules! form {
        ($v:expr, $want:expr, $what:expr) => {{
            let v = $v;
            let want: Ent = $want;
            entry(v.clone().into(), &want, $what, o)?;
            if want != Ent::Val(vec![]) {
                through_trie::<StandardTrie, _>(k, v.clone(), &want, o)?;
                through_trie::<HashedPartialTrie, _>(k, v, &want, o)?;
            }
        }};
    }
    let val = || Ent::Val(b.to_vec());
    match b.len() {
        1 => form!(b[0], val(), "u8"),
        2 => form!(u16::from_be_bytes(b.try_into().unwrap()), val(), "u16"),
        4 => form!(u32::from_be_bytes(b.try_into().unwrap()), val(), "u32"),
        8 => form!(u64::from_be_bytes(b.try_into().unwrap()), val(), "u64"),
        16 => form!(U128::from_big_endian(b), val(), "U128"),
        32 => {
            form!(U256::from_big_endian(b), val(), "U256");
            form!(H256::from_slice(b), Ent::Hash(b.try_into().unwrap()), "H256");
        }
        64 => form!(U512::from_big_endian(b), val(), "U512"),
        _ => (),
    }
    form!(b.to_vec(), val(), "Vec");
    form!(b, val(), "slice");
    o.state(&b);
    Ok(())
}

/// Integers as keys: the minimal digits.
fn int_keys(b: &[u8], o: &mut Obs) -> Result<(), String> {
    let k = minimal(b);
    if k.len() > 64 {
        return Ok(());
    }
    macro_rules! key {
        ($v:expr) => {{
            let v = $v;
            let mut t = HashedPartialTrie::default();
            t.insert(v, vec![7u8; 3]);
            ensure!(t.get(v) == Some(&[7u8; 3][..]), "lookup by integer {}", hexb(b));
            ensure!(t.get(nib(&k)) == Some(&[7u8; 3][..]), "lookup by digits of {}", hexb(b));
            let ks: Vec<Key> = t.keys().map(|k| unnib(&k)).collect();
            ensure!(ks == vec![k.clone()], "keys after inserting integer {}", hexb(b));
            o.count("integer_keys", 1);
        }};
    }
    match b.len() {
        1 => key!(b[0]),
        2 => key!(u16::from_be_bytes(b.try_into().unwrap())),
        4 => key!(u32::from_be_bytes(b.try_into().unwrap())),
        8 => key!(u64::from_be_bytes(b.try_into().unwrap())),
        16 => key!(U128::from_big_endian(b)),
        32 => key!(U256::from_big_endian(b)),
        64 => key!(U512::from_big_endian(b)),
        _ => (),
    }
    Ok(())
}

fn c16_sys(i: usize, o: &mut Obs) -> Result<(), String> {
    let w = [1usize, 2, 4, 8, 16, 32, 64][i % 7];
    let at = i / 7;
    if at >= w {
        return Ok(());
    }
    for x in 0..=255u8 {
        for fill in [0u8, 0xff] {
            let mut b = vec![fill; w];
            b[at] = x;
            all_of(&b, &[(x & 15), 3], o)?;
            int_keys(&b, o)?;
        }
    }
    Ok(())
}

fn c16_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let l = if g.pct(70) {
        *g.pick(&[1, 2, 4, 8, 16, 32, 64])
    } else {
        g.value_len()
    };
    let mut b = g.bytes(l);
    if g.pct(50) {
        let z = g.below(l + 1);
        b[..z].fill(0);
    }
    if l == 32 && g.pct(30) {
        b = g.hash32().to_vec();
    }
    let k = g.any_key();
    o.log(|| format!("{} at {}", short(&b), hexk(&k)));
    all_of(&b, &k, o)?;
    int_keys(&b, o)?;
    o.sample(|| format!("{} bytes {} at key {}", l, short(&b), hexk(&k)));
    Ok(())
}

pub fn prop_c16() -> Prop {
    Prop {
        id: "C16",
        rule: "an evaluation converts one byte pattern through every type of its width to an entry, through all accessors, and through tries of both types; distinct_nontrivial counts distinct byte patterns",
        sys: vec![Sys { name: "every byte value in every byte of every integer width", quick: 448, thorough: 448, item: c16_sys }],
        cases: vec![("entries", 1, c16_case)],
        assumptions: vec![],
    }
}
