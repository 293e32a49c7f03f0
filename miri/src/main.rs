//! Small programs of several threads that share nodes, for the interpreter.
//! threads <program number>: prints digests of what every thread observes when
//! it runs alone; threads <program number> <digests>: runs the threads together
//! and compares. The interpreter varies the schedule and reports data races
//! and deadlocks. (Only the second part is interpreted: it is slow.)

use std::sync::{
    atomic::{AtomicUsize, Ordering::Relaxed},
    Arc, Barrier,
};

use eth_trie_utils::{
    nibbles::Nibbles,
    partial_trie::{HashedPartialTrie, Node, PartialTrie},
    trie_subsets::create_trie_subset,
};

type H = HashedPartialTrie;

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        ((z ^ (z >> 31)) >> 16) as usize % n
    }
}

const KEYS: [&[u8]; 6] = [&[1, 2, 3, 4], &[1, 2, 3, 5], &[1, 2], &[7, 7], &[7, 8, 9], &[1, 9]];

fn key(i: usize) -> Nibbles {
    let mut n = Nibbles::default();
    for x in KEYS[i] {
        n.push_nibble_back(*x);
    }
    n
}

fn value(i: usize) -> Vec<u8> {
    vec![i as u8 + 1; 20 + i % 20]
}

#[derive(Clone, Debug)]
enum Op {
    Hash,
    HashChild(usize),
    Get(usize),
    Items,
    Clone,
    Insert(usize, usize),
    Delete(usize),
    HashOwn,
    Subset(usize),
    Equal,
    Serialize,
    Print,
    Drop,
}

fn ops(r: &mut Rng, n: usize) -> Vec<Op> {
    (0..n)
        .map(|_| match r.below(20) {
            0..=4 => Op::Hash,
            5 => Op::HashChild(r.below(16)),
            6 => Op::Get(r.below(6)),
            7 => Op::Items,
            8 => Op::Clone,
            9..=11 => Op::Insert(r.below(6), r.below(40)),
            12 | 13 => Op::Delete(r.below(6)),
            14 | 15 => Op::HashOwn,
            16 => Op::Subset(r.below(6)),
            17 => Op::Equal,
            18 => [Op::Serialize, Op::Print][r.below(2)].clone(),
            _ => Op::Drop,
        })
        .collect()
}

// The order of the operations, for counting schedules. Relaxed, so that it does
// not order anything else.
static CLOCK: AtomicUsize = AtomicUsize::new(0);

/// Runs the operations of one thread, with its own clone; what it observes, and
/// when each operation began and ended.
fn run(shared: &H, mut own: H, ops: &[Op]) -> (Vec<String>, Vec<usize>) {
    let (mut seen, mut times) = (vec![], vec![]);
    for op in ops {
        times.push(CLOCK.fetch_add(1, Relaxed));
        seen.push(match op {
            Op::Hash => format!("{:?}", shared.hash()),
            Op::HashChild(i) => match &**shared {
                Node::Branch { children, .. } => format!("{:?}", children[*i].hash()),
                Node::Extension { child, .. } => format!("{:?}", child.hash()),
                _ => String::new(),
            },
            Op::Get(k) => format!("{:?}", shared.get(key(*k))),
            Op::Items => format!("{:?}", shared.items().collect::<Vec<_>>()),
            Op::Clone => {
                own = shared.clone();
                String::new()
            }
            Op::Insert(k, v) => {
                own.insert(key(*k), value(*v));
                format!("{:?}", own.get(key(*k)))
            }
            Op::Delete(k) => format!("{:?}", own.delete(key(*k))),
            Op::HashOwn => format!("{:?}", own.hash()),
            Op::Subset(k) => match create_trie_subset(shared, [key(*k)]) {
                Ok(t) => format!("{:?}", t.hash()),
                Err(e) => format!("{e}"),
            },
            Op::Equal => format!("{}", own == *shared),
            // The cached hashes are part of these outputs, so only their
            // contents are looked at.
            Op::Serialize => {
                let s = serde_json::to_string(shared).unwrap();
                format!("{}", serde_json::from_str::<H>(&s).unwrap() == *shared)
            }
            Op::Print => format!("{}", !format!("{shared:?}").is_empty()),
            Op::Drop => {
                own = H::default();
                String::new()
            }
        });
        times.push(CLOCK.fetch_add(1, Relaxed));
    }
    (seen, times)
}

fn digest(l: &[String]) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in l.iter().flat_map(|s| s.bytes().chain([0xff])) {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    format!("{h:016x}")
}

fn base(entries: &[(usize, usize)], hidden: bool) -> H {
    let mut t = H::default();
    for (k, v) in entries {
        t.insert(key(*k), value(*v));
    }
    if hidden {
        t.insert(Nibbles::from_nibble(15), ethereum_types::H256::repeat_byte(5));
    }
    t
}

fn main() {
    let program: u64 = std::env::args().nth(1).map_or(0, |a| a.parse().unwrap());
    let r = &mut Rng(program);
    let threads = 2 + r.below(2);
    let n = 2 + r.below(3);
    let entries: Vec<_> = (0..n).map(|_| (r.below(6), r.below(40))).collect();
    let hidden = r.below(3) == 0;
    // Hashes that are already known when the threads start.
    let warm = r.below(3) == 0;
    let lists: Vec<Vec<Op>> = (0..threads)
        .map(|_| {
            let n = 2 + r.below(3);
            ops(r, n)
        })
        .collect();

    let expected: Vec<String> = std::env::args().skip(2).collect();
    if expected.is_empty() {
        for l in &lists {
            let t = base(&entries, hidden);
            print!("{} ", digest(&run(&t, base(&entries, hidden), l).0));
        }
        println!("{:?}", base(&entries, hidden).hash());
        return;
    }
    assert_eq!(expected.len(), threads + 1);
    let t = base(&entries, hidden);
    if warm {
        t.hash();
    }
    let shared = Arc::new(t);
    let start = Arc::new(Barrier::new(threads));
    let running: Vec<_> = lists
        .iter()
        .map(|l| {
            let (shared, l, start) = (shared.clone(), l.clone(), start.clone());
            let own = (*shared).clone();
            std::thread::spawn(move || {
                start.wait();
                run(&shared, own, &l)
            })
        })
        .collect();
    let mut order = vec![0; 2 * lists.iter().map(Vec::len).sum::<usize>()];
    for (i, h) in running.into_iter().enumerate() {
        match h.join() {
            Ok((seen, times)) => {
                for t in times {
                    order[t] = i;
                }
                if digest(&seen) != expected[i] {
                    eprintln!("OBSERVED-DIFFERENCE program {program} thread {i} of {lists:?} on {entries:?}: observed {seen:?}");
                    std::process::exit(3);
                }
            }
            Err(_) => {
                eprintln!("OBSERVED-PANIC program {program} thread {i} of {lists:?} on {entries:?}");
                std::process::exit(3);
            }
        }
    }
    if format!("{:?}", shared.hash()) != expected[threads] {
        eprintln!("OBSERVED-DIFFERENCE program {program}: the hash afterwards is different after {lists:?} on {entries:?}");
        std::process::exit(3);
    }
    let order: String = order.iter().map(|i| i.to_string()).collect();
    println!("RUN program={program} threads={threads} operations={} order={order}", order.len() / 2);
}
