//! Runs the cases of a property in one process: first the enumerated ones, then
//! coverage guided random ones until the time is over.

use std::{
    fs::File,
    os::unix::fs::FileExt,
    rc::Rc,
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};
use serde_json::json;

use crate::{
    cov,
    gen::{mix, Dict, Gen, Rng, MAX_TAPE},
    obs::{catch, Obs},
};

pub type Case = fn(&mut Gen, &mut Obs) -> Result<(), String>;
pub type Item = fn(usize, &mut Obs) -> Result<(), String>;

/// An enumeration of cases, run completely.
pub struct Sys {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub item: Item,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub sys: Vec<Sys>,
    /// Weight and case function.
    pub cases: Vec<(&'static str, usize, Case)>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub profile: String,
    pub kind: String,
    pub name: String,
    pub index: usize,
    pub tape: Vec<u32>,
    pub seed: u64,
    pub logging: bool,
    pub message: String,
    pub history: Vec<String>,
}

pub struct Cfg {
    pub seed: u64,
    pub worker: usize,
    pub of: usize,
    pub budget: Duration,
    pub thorough: bool,
    pub out: String,
    pub profile: String,
    pub logging: bool,
    pub src: String,
}

struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // Formats the arguments, as a real logger would.
        let s = format!("{}", r.args());
        std::hint::black_box(s.len());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

pub fn set_logging(on: bool) {
    if on {
        let _ = log::set_logger(&SINK);
        log::set_max_level(log::LevelFilter::Trace);
    }
}

enum Outcome {
    Fine,
    Violation(String),
    Broken(String),
}

fn outcome(r: Result<Result<(), String>, crate::obs::Panic>) -> Outcome {
    match r {
        Ok(Ok(())) => Outcome::Fine,
        Ok(Err(m)) => Outcome::Violation(m),
        Err(p) if p.is_ours() => Outcome::Broken(p.show()),
        Err(p) => Outcome::Violation(p.show()),
    }
}

fn run_tape(
    f: Case,
    tape: &[u32],
    seed: u64,
    dict: &Rc<Dict>,
    o: &mut Obs,
) -> (Outcome, Vec<u32>) {
    let mut g = Gen::new(tape.to_vec(), seed, dict.clone());
    let r = catch(|| f(&mut g, o));
    (outcome(r), g.out)
}

/// The case that is running, for the supervisor in case this process dies.
struct Journal(Option<File>);

impl Journal {
    fn note(&self, kind: u32, which: u32, index: u64, seed: u64, tape: &[u32]) {
        if let Some(f) = &self.0 {
            let mut b = Vec::with_capacity(32 + tape.len() * 4);
            b.extend(kind.to_le_bytes());
            b.extend(which.to_le_bytes());
            b.extend(index.to_le_bytes());
            b.extend(seed.to_le_bytes());
            b.extend((tape.len() as u64).to_le_bytes());
            for t in tape {
                b.extend(t.to_le_bytes());
            }
            let _ = f.write_at(&b, 0);
        }
    }
}

pub fn read_journal(path: &str) -> Option<(u32, u32, u64, u64, Vec<u32>)> {
    let b = std::fs::read(path).ok()?;
    let u32_at = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    let u64_at = |i: usize| b.get(i..i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
    let n = u64_at(24)? as usize;
    let tape = (0..n).map_while(|i| u32_at(32 + i * 4)).collect();
    Some((u32_at(0)?, u32_at(4)?, u64_at(8)?, u64_at(16)?, tape))
}

fn mutate(r: &mut Rng, corpus: &[Vec<u32>]) -> Vec<u32> {
    // Short ones are quicker, so prefer them.
    let pick = (0..3).map(|_| r.below(corpus.len())).min_by_key(|i| corpus[*i].len());
    let mut t = corpus[pick.unwrap_or(0)].clone();
    let n = 1 + r.below(4);
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let l = t.len();
        match r.below(9) {
            0 | 1 => {
                let i = r.below(l);
                t[i] = (r.next() >> 32) as u32;
            }
            2 => {
                let i = r.below(l);
                t[i] = t[i].wrapping_add(1).wrapping_sub(2 * (r.below(2) as u32));
            }
            3 => {
                let i = r.below(l);
                t[i] = r.below(20) as u32;
            }
            4 => {
                // Drop a block.
                let i = r.below(l);
                let n = 1 + r.below((l - i).min(20));
                t.drain(i..i + n);
            }
            5 => {
                // Repeat a block.
                let i = r.below(l);
                let n = 1 + r.below((l - i).min(30));
                let b = t[i..i + n].to_vec();
                let at = r.below(l + 1);
                t.splice(at..at, b);
            }
            6 => {
                let o = &corpus[r.below(corpus.len())];
                let i = r.below(l + 1);
                let j = r.below(o.len() + 1);
                t.truncate(i);
                t.extend(&o[j..]);
            }
            7 => {
                // Continue with fresh choices.
                let i = r.below(l + 1);
                t.truncate(i);
            }
            _ => {
                let i = r.below(l);
                let j = r.below(l);
                t.swap(i, j);
            }
        }
    }
    t.truncate(MAX_TAPE);
    t
}

/// Makes a failing tape smaller while it still fails.
fn shrink(f: Case, tape: Vec<u32>, dict: &Rc<Dict>, limit: Duration) -> Vec<u32> {
    let end = Instant::now() + limit;
    let mut best = tape;
    let fails = |t: &[u32]| {
        let mut o = Obs::default();
        let (r, out) = run_tape(f, t, 7, dict, &mut o);
        match r {
            Outcome::Violation(_) => Some(out),
            _ => None,
        }
    };
    let mut block = best.len() / 2;
    while block >= 1 && Instant::now() < end {
        let mut i = 0;
        while i + block <= best.len() && Instant::now() < end {
            let mut t = best.clone();
            t.drain(i..i + block);
            match fails(&t) {
                Some(out) if out.len() <= t.len() => best = t,
                _ => {
                    let mut t = best.clone();
                    let mut changed = false;
                    for x in &mut t[i..i + block] {
                        changed |= *x != 0;
                        *x = 0;
                    }
                    if changed && fails(&t).is_some() {
                        best = t;
                    }
                    i += block;
                }
            }
        }
        block /= 2;
    }
    best
}

fn finish(
    p: &Prop,
    c: &Cfg,
    o: &Obs,
    status: &str,
    replay: Option<Replay>,
    extra: serde_json::Value,
) {
    let mut d: Vec<u8> = Vec::with_capacity(o.distinct.len() * 8);
    for x in &o.distinct {
        d.extend(x.to_le_bytes());
    }
    let _ = std::fs::write(format!("{}.distinct", c.out), d);
    let j = json!({
        "property": p.id,
        "status": status,
        "profile": c.profile,
        "logging": c.logging,
        "counters": o.counters,
        "maxima": o.maxima,
        "samples": o.samples,
        "known": o.known,
        "replay": replay,
        "extra": extra,
    });
    if let Err(e) = std::fs::write(&c.out, serde_json::to_vec(&j).unwrap()) {
        eprintln!("cannot write {}: {e}", c.out);
        std::process::exit(2);
    }
}

pub fn worker(p: &Prop, c: &Cfg) {
    let start = Instant::now();
    set_logging(c.logging);
    let dict = Rc::new(Dict::load(&c.src));
    let journal = Journal(File::create(format!("{}.journal", c.out)).ok());
    let mut o = Obs::default();
    let mut seen = cov::Seen::default();
    let mut evaluations = 0u64;
    let mut sys_report = vec![];

    let report = |seen: &cov::Seen, evaluations: u64, cases: u64, corpus: usize, sys: &[serde_json::Value]| {
        json!({
            "evaluations": evaluations,
            "random_cases": cases,
            "corpus": corpus,
            "edges": seen.edges(),
            "total_edges": cov::total_edges(),
            "compared_constants": cov::num_consts(),
            "dict_nums": dict.nums.len(),
            "dict_blobs": dict.blobs.len(),
            "systematic": sys,
            "seconds": start.elapsed().as_secs_f64(),
        })
    };

    macro_rules! fail {
        ($out:expr, $rp:expr, $cases:expr, $corpus:expr) => {{
            let mut rp: Replay = $rp;
            match $out {
                Outcome::Fine => unreachable!(),
                Outcome::Violation(m) => {
                    rp.message = m;
                    let mut t = Obs {
                        trace: Some(vec![]),
                        ..Obs::default()
                    };
                    if let Some(m) = rerun(p, &rp, &dict, &mut t) {
                        rp.message = m;
                    }
                    rp.history = t.trace.unwrap_or_default();
                    let e = report(&seen, evaluations, $cases, $corpus, &sys_report);
                    finish(p, c, &o, "violation", Some(rp), e);
                    return;
                }
                Outcome::Broken(m) => {
                    rp.message = m;
                    let e = report(&seen, evaluations, $cases, $corpus, &sys_report);
                    finish(p, c, &o, "error", Some(rp), e);
                    return;
                }
            }
        }};
    }
    let blank = |kind: &str, name: &str| Replay {
        property: p.id.into(),
        profile: c.profile.clone(),
        kind: kind.into(),
        name: name.into(),
        index: 0,
        tape: vec![],
        seed: 0,
        logging: c.logging,
        message: String::new(),
        history: vec![],
    };

    // Enumerated cases, shared out among the workers of the same profile.
    let hard_end = start + c.budget * 4;
    for (si, s) in p.sys.iter().enumerate() {
        let total = if c.thorough { s.thorough } else { s.quick };
        let mut done = 0usize;
        let mut i = c.worker;
        while i < total {
            if Instant::now() > hard_end {
                break;
            }
            journal.note(1, si as u32, i as u64, 0, &[]);
            let r = catch(|| (s.item)(i, &mut o));
            evaluations += 1;
            done += 1;
            match outcome(r) {
                Outcome::Fine => (),
                x => {
                    let mut rp = blank("systematic", s.name);
                    rp.index = i;
                    fail!(x, rp, 0, 0)
                }
            }
            i += c.of;
        }
        seen.update();
        sys_report.push(json!({"name": s.name, "total": total, "done": done}));
    }

    // Random cases.
    let end = Instant::now().max(start) + c.budget.saturating_sub(start.elapsed()).max(c.budget / 3);
    let mut r = Rng::new(mix(c.seed) ^ mix(1000 + c.worker as u64 * 7919 + (c.profile == "release") as u64 * 104729));
    let mut corpus: Vec<Vec<Vec<u32>>> = vec![vec![]; p.cases.len()];
    let weights: usize = p.cases.iter().map(|c| c.1).sum();
    let mut cases = 0u64;
    while weights > 0 && (Instant::now() < end || cases < 20) {
        let mut w = r.below(weights);
        let mut ci = 0;
        while w >= p.cases[ci].1 {
            w -= p.cases[ci].1;
            ci += 1;
        }
        let (name, _, f) = p.cases[ci];
        let tape = if !corpus[ci].is_empty() && r.below(2) == 0 {
            mutate(&mut r, &corpus[ci])
        } else {
            vec![]
        };
        let seed = r.next();
        journal.note(2, ci as u32, 0, seed, &tape);
        cov::reset();
        let (x, out) = run_tape(f, &tape, seed, &dict, &mut o);
        evaluations += 1;
        cases += 1;
        match x {
            Outcome::Fine => (),
            x => {
                let mut rp = blank("random", name);
                rp.seed = 7;
                rp.index = ci;
                rp.tape = out.clone();
                if let Outcome::Violation(_) = x {
                    // Make sure that it can be reproduced from the tape alone.
                    let (again, _) = run_tape(f, &rp.tape, 7, &dict, &mut Obs::default());
                    if let Outcome::Violation(_) = again {
                        rp.tape = shrink(f, rp.tape, &dict, Duration::from_secs(5));
                    }
                }
                let n = corpus.iter().map(|c| c.len()).sum();
                fail!(x, rp, cases, n)
            }
        }
        if seen.update() && out.len() < 20_000 {
            if corpus[ci].len() < 3000 {
                corpus[ci].push(out);
            } else {
                let i = r.below(3000);
                corpus[ci][i] = out;
            }
        }
    }
    if p.id == "C21" {
        crate::p_build::write_corpus(&format!("{}.corpus", c.out), &corpus[0]);
    }
    let n = corpus.iter().map(|c| c.len()).sum();
    let e = report(&seen, evaluations, cases, n, &sys_report);
    finish(p, c, &o, "ok", None, e);
}

/// Runs a recorded case again; returns what it violates.
pub fn rerun(p: &Prop, rp: &Replay, dict: &Rc<Dict>, o: &mut Obs) -> Option<String> {
    let out = match rp.kind.as_str() {
        "systematic" => {
            let s = p.sys.iter().find(|s| s.name == rp.name)?;
            outcome(catch(|| (s.item)(rp.index, o)))
        }
        _ => {
            let c = p.cases.iter().find(|c| c.0 == rp.name)?;
            run_tape(c.2, &rp.tape, rp.seed, dict, o).0
        }
    };
    match out {
        Outcome::Fine => None,
        Outcome::Violation(m) => Some(m),
        Outcome::Broken(m) => Some(format!("harness error: {m}")),
    }
}
