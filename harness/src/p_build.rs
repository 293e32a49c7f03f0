//! C21: the same program in different builds. A case only records what it
//! observes; the supervisor compares the records of the builds.

use std::{
    fs,
    io::Write,
    path::Path,
    rc::Rc,
    str::FromStr,
    time::{Duration, Instant},
};

use ethereum_types::{H256, U128, U256, U512};
use sut::{
    nibbles::{Nibbles, ToNibbles},
    partial_trie::{HashedPartialTrie, Node, StandardTrie},
    trie_ops::ValOrHash,
    Format, Sut,
};

use crate::{
    engine::Prop,
    gen::*,
    model::*,
    obs::{catch, fingerprint, Obs},
    p_hash::gen_tree,
};

/// What was observed, in the library itself and by its debug tools.
#[derive(Default)]
pub struct Record {
    pub main: u64,
    pub tools: u64,
    pub lines: Option<Vec<String>>,
    pub n: u64,
}

struct See<'a> {
    r: &'a mut Record,
    o: &'a mut Obs,
}

impl See<'_> {
    fn put(&mut self, tools: bool, s: String) {
        let x = if tools { &mut self.r.tools } else { &mut self.r.main };
        *x = x.rotate_left(7).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ fingerprint(&s);
        self.r.n += 1;
        self.o.count("observations", 1);
        if let Some(l) = &mut self.r.lines {
            l.push(if tools { format!("tools: {s}") } else { s });
        }
    }

    fn see<T: std::fmt::Debug>(&mut self, what: &str, f: impl FnOnce() -> T) {
        let s = match catch(f) {
            Ok(v) => format!("{what}: {v:?}"),
            Err(_) => {
                self.o.count("panics", 1);
                format!("{what}: panic")
            }
        };
        self.put(false, s);
    }

    #[cfg(feature = "debug_tools")]
    fn tool(&mut self, what: &str, f: impl FnOnce() -> String) {
        let s = match catch(f) {
            Ok(v) => format!("{what}: {v}"),
            Err(_) => format!("{what}: panic"),
        };
        self.put(true, s);
    }
}

fn keys_in(g: &mut Gen, keys: &mut Keys) -> Nibbles {
    let k = if g.pct(60) { keys.write_key(g) } else { keys.any(g) };
    nib(&k)
}

fn trie_program<T: Sut>(g: &mut Gen, s: &mut See) {
    let mut keys = Keys::new(g);
    let hashes = *g.pick(&[0, 0, 15, 40]);
    let mut ts: Vec<T> = vec![];
    if g.pct(30) {
        let mut budget = g.range(1, 30);
        ts.push(gen_tree(g, 64, &mut budget, hashes).build());
        for k in read(&ts[0]).entries().into_keys() {
            if g.pct(30) {
                keys.pool.push(k);
            }
        }
    } else {
        ts.push(T::default());
    }
    let steps = history_len(g).min(60);
    for _ in 0..steps {
        let i = g.below(ts.len());
        match g.below(24) {
            0..=6 => {
                let k = keys_in(g, &mut keys);
                let e = if g.pct(hashes) {
                    ValOrHash::Hash(H256(g.hash32()))
                } else if g.pct(2) {
                    ValOrHash::Val(vec![])
                } else {
                    ValOrHash::Val(g.value())
                };
                s.see("insert", || ts[i].s_insert(k, e));
            }
            7..=9 => {
                let k = keys_in(g, &mut keys);
                s.see("delete", || ts[i].s_delete(k));
            }
            10 | 11 => {
                let k = keys_in(g, &mut keys);
                s.see("get", || ts[i].s_get(k).map(|v| v.to_vec()));
            }
            12 => {
                let n = g.below(8);
                let l: Vec<_> = (0..n)
                    .map(|_| (keys_in(g, &mut keys), ValOrHash::Val(g.value())))
                    .collect();
                if g.pct(50) {
                    s.see("extend", || ts[i].s_extend(l));
                } else if let Ok(t) = catch(|| T::s_from_iter(l)) {
                    ts.push(t);
                }
            }
            13 | 14 => s.see("hash", || ts[i].s_hash()),
            15 => s.see("items", || ts[i].s_items().collect::<Vec<_>>()),
            16 => {
                s.see("keys", || ts[i].s_keys().collect::<Vec<_>>());
                s.see("values", || ts[i].s_values().collect::<Vec<_>>());
            }
            17 => {
                let c = ts[i].clone();
                ts.push(c);
            }
            18 => {
                let n = g.below(4);
                let ks: Vec<Nibbles> = (0..n).map(|_| keys_in(g, &mut keys)).collect();
                let r = catch(|| ts[i].s_subset(ks));
                match r {
                    Ok(Ok(t)) => {
                        s.see("subset", || t.s_hash());
                        ts.push(t);
                    }
                    Ok(Err(e)) => s.see("subset", || e),
                    Err(_) => s.see("subset", || "panic"),
                }
            }
            19 => {
                let n = g.below(3);
                let ks: Vec<Vec<Nibbles>> = (0..n)
                    .map(|_| (0..2).map(|_| keys_in(g, &mut keys)).collect())
                    .collect();
                s.see("subsets", || {
                    ts[i]
                        .s_subsets(ks)
                        .map(|v| v.into_iter().map(|t| read(&t).show()).collect::<Vec<_>>())
                });
            }
            20 => {
                let f = *g.pick(&[Format::Json, Format::Cbor, Format::Bincode]);
                s.see("serialize", || ts[i].s_ser(f));
                if let Ok(b) = ts[i].s_ser(f) {
                    if g.pct(30) {
                        // Damaged input: refused, or read in the same way.
                        let mut b = b.clone();
                        let at = g.below(b.len());
                        b[at] ^= 1 << g.below(8);
                        if f != Format::Bincode {
                            s.see("damaged", || T::s_de(&b, f).map(|t| read(&t).show()).map_err(|_| ()));
                        }
                    }
                    if let Ok(t) = T::s_de(&b, f) {
                        ts.push(t);
                    }
                }
            }
            21 => {
                s.see("print", || fingerprint(&format!("{:?}", ts[i])));
            }
            22 => {
                let j = g.below(ts.len());
                s.see("equal", || ts[i].s_eq(&ts[j]));
                let c = g.below(16);
                let sub = match &*ts[j] {
                    Node::Branch { children, .. } => Some((**children[c]).clone()),
                    Node::Extension { child, .. } => Some((***child).clone()),
                    _ => None,
                };
                ts.extend(sub);
            }
            _ => tools(g, s, &mut keys, &ts, i),
        }
        if g.pct(15) {
            s.see("nodes", || read(&ts[i]).show());
        }
        if ts.len() > 6 {
            ts.swap_remove(0);
        }
    }
    for t in &ts {
        s.see("nodes", || read(t).show());
        s.see("hash", || t.s_hash());
    }
}

#[cfg(feature = "debug_tools")]
fn tools<T: Sut>(g: &mut Gen, s: &mut See, keys: &mut Keys, ts: &[T], i: usize) {
    let j = g.below(ts.len());
    let k = keys_in(g, keys);
    let x = g.below(8);
    s.tool("stats", || {
        let (a, b) = (ts[i].s_stats(None), ts[j].s_stats(None));
        format!("{a} {}", a.compare(&b))
    });
    s.tool("query", || {
        let q = sut::debug_tools::query::DebugQueryParamsBuilder::default()
            .print_key_pieces(x & 1 == 1)
            .print_node_type(x & 2 == 2)
            .print_node_specific_values(x & 4 == 4)
            .build(k);
        ts[i].s_query(q).to_string()
    });
    let (a, b): (HashedPartialTrie, HashedPartialTrie) = (read(&ts[i]).build(), read(&ts[j]).build());
    s.tool("diff", || sut::diff(&a, &b).to_string());
}
#[cfg(not(feature = "debug_tools"))]
fn tools<T: Sut>(g: &mut Gen, _: &mut See, keys: &mut Keys, ts: &[T], _: usize) {
    // The same choices.
    g.below(ts.len());
    keys_in(g, keys);
    g.below(8);
}

fn nibble_program(g: &mut Gen, s: &mut See) {
    let mut n = nib(&g.any_key());
    let steps = g.range(5, 60);
    for _ in 0..steps {
        let len = n.count;
        // Mostly in range.
        let i = match g.below(12) {
            0 => len + 1 + g.below(70),
            1 => g.dict_num() as usize,
            2 => usize::MAX - g.below(4),
            _ => g.len(len),
        };
        match g.below(22) {
            0 => s.see("get", || n.get_nibble(i)),
            1 => s.see("pop front", || n.pop_next_nibble_front()),
            2 => s.see("pop back", || n.pop_next_nibble_back()),
            3 => s.see("next", || n.get_next_nibbles(i)),
            4 => s.see("pop n front", || n.pop_nibbles_front(i)),
            5 => s.see("pop n back", || n.pop_nibbles_back(i)),
            6 | 7 => {
                let x = if g.pct(5) { g.byte() } else { g.nibble() };
                s.see("push front", || n.push_nibble_front(x));
            }
            8 | 9 => {
                let x = if g.pct(5) { g.byte() } else { g.nibble() };
                s.see("push back", || n.push_nibble_back(x));
            }
            10 => {
                let k = nib(&g.any_key());
                s.see("push n front", || n.push_nibbles_front(&k));
            }
            11 => {
                let a = g.len(len);
                s.see("range", || n.get_nibble_range(a.min(i)..i));
            }
            12 => {
                n = n.truncate_n_nibbles_front(i);
            }
            13 => n.truncate_n_nibbles_back_mut(i),
            14 => s.see("split", || (n.split_at_idx(i), n.split_at_idx_prefix(i), n.split_at_idx_postfix(i))),
            15 => {
                let k = nib(&g.any_key());
                s.see("merge", || n.merge_nibbles(&k));
                s.see("compare", || (n.cmp(&k), n == k, n.nibbles_are_identical_up_to_smallest_count(&k)));
                s.see("differ", || {
                    Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&n, &k)
                });
                s.see("differ equal", || {
                    Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&n, &k)
                });
            }
            16 => n = n.reverse(),
            17 => {
                let leaf = g.pct(50);
                s.see("hex prefix", || n.to_hex_prefix_encoding(leaf).to_vec());
            }
            18 => {
                let l = g.below(36);
                let mut b = g.bytes(l);
                if l > 0 && g.pct(80) {
                    b[0] &= 0x3f;
                }
                s.see("from hex prefix", || Nibbles::from_hex_prefix_encoding(&b).map_err(|e| e.to_string()));
            }
            19 => {
                s.see("print", || format!("{n} {n:x} {n:X} {n:?} {}", n.min_bytes()));
                s.see("bytes", || n.bytes_be());
                s.see("number", || n.try_into_u256().map_err(|e| e.to_string()));
            }
            20 => {
                let f = *g.pick(&[Format::Json, Format::Cbor, Format::Bincode]);
                s.see("serialize", || sut::ser(&n, f));
            }
            _ => n = nib(&g.any_key()),
        }
        s.see("now", || n);
    }
}

fn conversion_program(g: &mut Gen, s: &mut See) {
    let steps = g.range(1, 10);
    for _ in 0..steps {
        let w = *g.pick(&[1usize, 2, 4, 8, 16, 32, 64]);
        let mut b = g.bytes(w);
        let z = g.below(w + 1);
        if g.pct(50) {
            b[..z].fill(0);
        }
        macro_rules! int {
            ($v:expr) => {{
                let v = $v;
                s.see("nibbles", || v.to_nibbles());
                s.see("padded", || v.to_nibbles_byte_padded());
                s.see("entry", || ValOrHash::from(v));
            }};
        }
        match w {
            1 => int!(b[0]),
            2 => int!(u16::from_be_bytes(b[..].try_into().unwrap())),
            4 => int!(u32::from_be_bytes(b[..].try_into().unwrap())),
            8 => int!(u64::from_be_bytes(b[..].try_into().unwrap())),
            16 => int!(U128::from_big_endian(&b)),
            32 => {
                int!(U256::from_big_endian(&b));
                s.see("hash", || Nibbles::from_h256_be(H256::from_slice(&b)));
                s.see("hash le", || Nibbles::from_h256_le(H256::from_slice(&b)));
            }
            _ => int!(U512::from_big_endian(&b)),
        }
        let l = g.below(36);
        let b = g.bytes(l);
        s.see("bytes be", || Nibbles::from_bytes_be(&b).map_err(|e| e.to_string()));
        s.see("bytes le", || Nibbles::from_bytes_le(&b).map_err(|e| e.to_string()));
        let t: String = {
            let k = g.any_key();
            let mut t = hexk(&k);
            if g.pct(20) {
                let at = g.below(t.len() + 1);
                t.insert(at, *g.pick(&['g', ' ', 'x', 'é', '-', '0']));
            }
            t
        };
        s.see("text", || Nibbles::from_str(&t).map_err(|e| e.to_string()));
        s.see("entry of bytes", || ValOrHash::from(&b[..]));
    }
}

fn program(g: &mut Gen, r: &mut Record, o: &mut Obs) {
    let mut s = See { r, o };
    match g.below(8) {
        0..=2 => trie_program::<HashedPartialTrie>(g, &mut s),
        3 | 4 => trie_program::<StandardTrie>(g, &mut s),
        5 | 6 => nibble_program(g, &mut s),
        _ => conversion_program(g, &mut s),
    }
}

fn c21_case(g: &mut Gen, o: &mut Obs) -> Result<(), String> {
    let mut r = Record::default();
    program(g, &mut r, o);
    o.state(&(r.main, r.tools));
    o.sample(|| format!("program with {} observations, digest {:016x}", r.n, r.main));
    Ok(())
}

pub fn prop_c21() -> Prop {
    Prop {
        id: "C21",
        rule: "an evaluation is a program of operations run in one build; the records of what it observed are compared among all builds; \
               distinct_nontrivial counts distinct records",
        sys: vec![],
        cases: vec![("programs", 1, c21_case)],
        assumptions: vec![
            "of a panic only its occurrence is compared, not the message",
            "both sides of a comparison were built by the same compiler on this machine",
        ],
    }
}

pub fn write_corpus(path: &str, corpus: &[Vec<u32>]) {
    let mut b = vec![];
    for t in corpus {
        b.extend((t.len() as u32).to_le_bytes());
        for x in t {
            b.extend(x.to_le_bytes());
        }
    }
    let _ = fs::write(path, b);
}

fn read_corpora(dir: &Path) -> Vec<Vec<u32>> {
    let mut files: Vec<_> = match fs::read_dir(dir) {
        Ok(d) => d
            .flatten()
            .map(|e| e.path())
            .filter(|p| p.extension().map_or(false, |x| x == "corpus"))
            .collect(),
        Err(_) => vec![],
    };
    files.sort();
    let mut all = vec![];
    for f in files {
        let b = fs::read(f).unwrap_or_default();
        let mut w = b.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap()));
        while let Some(n) = w.next() {
            all.push((&mut w).take(n as usize).collect());
        }
    }
    all
}

fn run_index(i: usize, seed: u64, corpus: &[Vec<u32>], dict: &Rc<Dict>, r: &mut Record) -> Result<Vec<u32>, String> {
    let tape = corpus.get(i).cloned().unwrap_or_default();
    let mut g = Gen::new(tape, mix(mix(seed) ^ i as u64), dict.clone());
    g.plain = true;
    let mut o = Obs::default();
    catch(|| program(&mut g, r, &mut o)).map_err(|p| format!("case {i}: {}", p.show()))?;
    Ok(g.out)
}

/// digest <seed> <worker> <of> <milliseconds> <out> <logging> <src> <corpus directory>
pub fn digests(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, worker, of, ms) = (n(0), n(1) as usize, n(2) as usize, n(3));
    crate::engine::set_logging(a[5] == "1");
    let dict = Rc::new(Dict::load(&a[6]));
    let corpus = read_corpora(Path::new(&a[7]));
    let mut out = std::io::BufWriter::new(fs::File::create(&a[4]).expect("cannot create the output"));
    let end = Instant::now() + Duration::from_millis(ms);
    let mut i = worker;
    while Instant::now() < end {
        let mut r = Record::default();
        // For the supervisor, in case this process dies.
        let _ = out.flush();
        if let Err(e) = run_index(i, seed, &corpus, &dict, &mut r) {
            eprintln!("{e}");
            return 2;
        }
        let _ = writeln!(out, "{i} {:016x} {:016x} {}", r.main, r.tools, r.n);
        i += of;
    }
    let _ = out.flush();
    0
}

/// digest-trace <seed> <index> <out> <logging> <src> <corpus directory>
pub fn digest_trace(a: &[String]) -> i32 {
    crate::engine::set_logging(a[3] == "1");
    let dict = Rc::new(Dict::load(&a[4]));
    let corpus = read_corpora(Path::new(&a[5]));
    let mut r = Record {
        lines: Some(vec![]),
        ..Default::default()
    };
    let res = run_index(a[1].parse().unwrap(), a[0].parse().unwrap(), &corpus, &dict, &mut r);
    let j = serde_json::json!({"lines": r.lines, "tape": res.clone().unwrap_or_default(), "error": res.err()});
    if fs::write(&a[2], serde_json::to_vec(&j).unwrap()).is_err() {
        return 2;
    }
    0
}

/// Runs a recorded program; returns what it observes.
pub fn observed(tape: &[u32], dict: &Rc<Dict>) -> Vec<String> {
    let mut r = Record {
        lines: Some(vec![]),
        ..Default::default()
    };
    let _ = run_index(0, 7, &[tape.to_vec()], dict, &mut r);
    r.lines.unwrap_or_default()
}
