//! Runs the workers of one check, watches them and writes the evidence.

use std::{
    collections::{BTreeMap, HashSet},
    fs,
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::{
    engine::{read_journal, Prop, Replay},
    gen::Dict,
};

pub struct Args {
    pub id: String,
    pub root: PathBuf,
    pub seed: u64,
    pub seed_text: i64,
    pub thorough: bool,
    /// Profile and binary.
    pub bins: Vec<(String, String)>,
    pub src: String,
    pub commands: Vec<(String, String)>,
}

fn parse(a: &[String]) -> Args {
    let mut r = Args {
        id: a[0].clone(),
        root: PathBuf::from("/verif"),
        seed: 1,
        seed_text: 1,
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
        bins: vec![],
        src: "/repo/src".into(),
        commands: vec![],
    };
    if let Ok(s) = std::env::var("VERIF_SEED") {
        let s = s.trim();
        r.seed_text = s.parse::<i64>().unwrap_or_else(|_| {
            // Anything else is turned into a number.
            s.bytes()
                .fold(7i64, |h, b| h.wrapping_mul(31).wrapping_add(b as i64))
                & 0x7fff_ffff
        });
        r.seed = r.seed_text as u64;
    }
    for x in a[1..].chunks(2) {
        match x[0].as_str() {
            "--root" => r.root = PathBuf::from(&x[1]),
            "--src" => r.src = x[1].clone(),
            k => match k.strip_prefix("--cmd-") {
                Some(k) => r.commands.push((k.into(), x[1].clone())),
                None => r.bins.push((k.trim_start_matches('-').into(), x[1].clone())),
            },
        }
    }
    r
}

/// All threads of a process wait in the kernel for a lock, without a time
/// limit. Nobody else can wake them: they stay there forever.
struct Stuck {
    since: Option<Instant>,
    cpu: u64,
}

const STUCK_FOR: Duration = Duration::from_secs(8);

impl Stuck {
    fn new() -> Stuck {
        Stuck {
            since: None,
            cpu: 0,
        }
    }

    fn check(&mut self, pid: u32) -> bool {
        match blocked(pid) {
            Some(cpu) => {
                if self.since.is_none() || self.cpu != cpu {
                    self.since = Some(Instant::now());
                    self.cpu = cpu;
                }
                self.since.map_or(false, |s| s.elapsed() > STUCK_FOR)
            }
            None => {
                self.since = None;
                false
            }
        }
    }
}

/// The processor time used so far, if all threads wait for a lock.
fn blocked(pid: u32) -> Option<u64> {
    let mut cpu = 0;
    let mut n = 0;
    for t in fs::read_dir(format!("/proc/{pid}/task")).ok()? {
        let p = t.ok()?.path();
        let stat = fs::read_to_string(p.join("stat")).ok()?;
        let rest = stat.rsplit_once(')')?.1;
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f.first() != Some(&"S") {
            return None;
        }
        cpu += f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
        let sys = fs::read_to_string(p.join("syscall")).ok()?;
        let s: Vec<&str> = sys.split_whitespace().collect();
        // futex(address, operation, value, no time limit)
        if s.first() != Some(&"202") || s.get(4) != Some(&"0x0") {
            return None;
        }
        n += 1;
    }
    (n > 0).then_some(cpu)
}

struct Worker {
    child: Child,
    out: PathBuf,
    err: PathBuf,
    profile: String,
    logging: bool,
    started: Instant,
    stuck: Stuck,
    done: Option<Done>,
}

#[derive(Clone, Debug)]
enum Done {
    Exit(Option<i32>, Option<i32>),
    TimedOut,
    Deadlock,
}

fn tail(p: &Path) -> String {
    let s = fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&s);
    let start = s.len().saturating_sub(1500);
    let mut start = start;
    while !s.is_char_boundary(start) {
        start += 1;
    }
    s[start..].trim().to_string()
}

/// What is known after all processes have ended.
#[derive(Default)]
pub struct Verdict {
    pub violations: Vec<Value>,
    pub errors: Vec<String>,
    pub inconclusive: Vec<String>,
    pub known: BTreeMap<String, String>,
    /// What was left out, without consequence for the verdict.
    pub notes: Vec<String>,
}

pub fn known_ids(root: &Path, id: &str) -> Vec<(String, String)> {
    let s = fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        let Some(l) = l.strip_prefix("finding: ") else {
            continue;
        };
        let mut w = l.splitn(3, ' ');
        if w.next() == Some(&format!("property={id}")) {
            if let Some(k) = w.next().and_then(|k| k.strip_prefix("id=")) {
                v.push((k.to_string(), w.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

pub fn run(a: &[String]) -> i32 {
    let args = parse(a);
    let p = crate::prop(&args.id);
    let start = Instant::now();
    let work = args.root.join("work").join(format!("{}-{}", args.id, std::process::id()));
    let _ = fs::remove_dir_all(&work);
    if let Err(e) = fs::create_dir_all(&work) {
        eprintln!("cannot create {}: {e}", work.display());
        return 2;
    }
    let code = match supervise(&args, &p, &work, start) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("check {}: {e}", args.id);
            2
        }
    };
    let _ = fs::remove_dir_all(&work);
    code
}

fn supervise(args: &Args, p: &Prop, work: &Path, start: Instant) -> Result<i32, String> {
    let per = 3;
    let budget_ms: u64 = match std::env::var("VERIF_BUDGET_MS").ok().and_then(|s| s.parse().ok()) {
        Some(b) => b,
        None if args.thorough => 120_000,
        None => 18_000,
    };
    // Time for the second part of the check.
    let budget_ms = if args.id == "C21" { budget_ms / 2 } else { budget_ms };
    let mut ws: Vec<Worker> = vec![];
    for (profile, bin) in &args.bins {
        for w in 0..per {
            let out = work.join(format!("{profile}-{w}.json"));
            let err = work.join(format!("{profile}-{w}.err"));
            let logging = w == 1;
            let ef = fs::File::create(&err).map_err(|e| e.to_string())?;
            let child = Command::new(bin)
                .arg("worker")
                .arg(&args.id)
                .arg(args.seed.to_string())
                .arg(w.to_string())
                .arg(per.to_string())
                .arg(budget_ms.to_string())
                .arg(if args.thorough { "thorough" } else { "quick" })
                .arg(&out)
                .arg(profile)
                .arg(if logging { "1" } else { "0" })
                .arg(&args.src)
                .env("RUST_BACKTRACE", "0")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(ef)
                .spawn()
                .map_err(|e| format!("cannot start {bin}: {e}"))?;
            ws.push(Worker {
                child,
                out,
                err,
                profile: profile.clone(),
                logging,
                started: Instant::now(),
                stuck: Stuck::new(),
                done: None,
            });
        }
    }
    let limit = Duration::from_millis(budget_ms * 4) + Duration::from_secs(120);
    let mut early = false;
    loop {
        let mut open = 0;
        for w in ws.iter_mut().filter(|w| w.done.is_none()) {
            match w.child.try_wait() {
                Ok(Some(s)) => {
                    w.done = Some(Done::Exit(s.code(), s.signal()));
                    if s.signal().is_some() || says_violation(&w.out) {
                        early = true;
                    }
                }
                Ok(None) => {
                    if w.stuck.check(w.child.id()) {
                        w.done = Some(Done::Deadlock);
                        early = true;
                    } else if w.started.elapsed() > limit {
                        w.done = Some(Done::TimedOut);
                    } else {
                        open += 1;
                        continue;
                    }
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                }
                Err(e) => return Err(format!("cannot wait: {e}")),
            }
        }
        if open == 0 {
            break;
        }
        if early {
            // The verdict is clear, the others need not go on.
            std::thread::sleep(Duration::from_millis(300));
            for w in ws.iter_mut().filter(|w| w.done.is_none()) {
                if let Ok(Some(s)) = w.child.try_wait() {
                    w.done = Some(Done::Exit(s.code(), s.signal()));
                    continue;
                }
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = Some(Done::Exit(None, Some(-1)));
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(100));
    }

    let mut v = Verdict::default();
    let mut m = Merged::default();
    for w in &ws {
        collect(args, p, w, &mut v, &mut m);
    }
    if args.id == "C21" && v.violations.is_empty() {
        compare_builds(args, work, budget_ms, &mut v, &mut m)?;
    }
    if args.id == "C10" && v.violations.is_empty() {
        interpret(args, work, budget_ms, &mut v, &mut m)?;
    }
    conclude(args, p, v, m, start)
}

/// Runs small programs of several threads in the interpreter (Miri), which
/// chooses the schedule and reports data races and deadlocks.
fn interpret(args: &Args, work: &Path, budget_ms: u64, v: &mut Verdict, m: &mut Merged) -> Result<(), String> {
    let of = |n: &str| args.commands.iter().find(|c| c.0 == n).map(|c| c.1.clone());
    let (Some(dir), Some(native)) = (of("miri"), of("threads")) else {
        v.notes.push("the interpreter is not available: no schedules were explored with it".into());
        return Ok(());
    };
    let end = Instant::now() + Duration::from_millis(budget_ms * 5 / 3);
    let hard = end + Duration::from_secs(100);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let ok: Mutex<Vec<String>> = Mutex::new(vec![]);
    let other: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let base = args.seed.wrapping_mul(1_000_003) & 0xffff_ffff_ffff;
    let note = |s: String| *other.lock().unwrap().entry(s).or_insert(0) += 1;
    let slot = |n: usize| {
        while Instant::now() < end && !stop.load(Ordering::Relaxed) {
            let i = next.fetch_add(1, Ordering::Relaxed);
            // Four schedules of each program.
            let program = (base + i / 4).to_string();
            let Some(expected) = Command::new(&native)
                .arg(&program)
                .stderr(Stdio::null())
                .output()
                .ok()
                .filter(|o| o.status.success())
            else {
                note("a program does not run natively".into());
                continue;
            };
            let expected = String::from_utf8_lossy(&expected.stdout).to_string();
            let mut flags = format!(
                "-Zmiri-seed={} -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-preemption-rate={}",
                base + i,
                ["0.01", "0.05", "0.2"][(i % 3) as usize]
            );
            if i % 2 == 0 {
                flags += " -Zmiri-disable-validation";
            }
            let out = work.join(format!("miri-{n}"));
            let (Ok(f), Ok(f2)) = (
                fs::File::create(&out),
                fs::OpenOptions::new().append(true).open(&out),
            ) else {
                note("cannot write".into());
                return;
            };
            let args_of: Vec<&str> = expected.split_whitespace().collect();
            let child = Command::new("cargo")
                .args(["+nightly", "miri", "run", "--offline", "-q", "--", &program])
                .args(&args_of)
                .current_dir(&dir)
                .env("CARGO_TARGET_DIR", args.root.join("target/miri"))
                .env("MIRIFLAGS", &flags)
                .stdin(Stdio::null())
                .stdout(f2)
                .stderr(f)
                .process_group(0)
                .spawn();
            let Ok(mut child) = child else {
                note("cannot start the interpreter".into());
                return;
            };
            let status = loop {
                match child.try_wait() {
                    Ok(Some(s)) => break Some(s),
                    Ok(None) if Instant::now() < hard && !stop.load(Ordering::Relaxed) => {
                        std::thread::sleep(Duration::from_millis(50))
                    }
                    _ => {
                        let _ = Command::new("kill").args(["-9", "--", &format!("-{}", child.id())]).status();
                        let _ = child.wait();
                        break None;
                    }
                }
            };
            let text = fs::read_to_string(&out).unwrap_or_default();
            let Some(status) = status else {
                note("stopped at the time limit".into());
                continue;
            };
            let bad = text.lines().find(|l| {
                l.starts_with("OBSERVED-")
                    // How a dependency makes a system call says nothing about the trie.
                    || (l.contains("Undefined Behavior") && !l.contains("c-variadic"))
                    || l.contains("deadlocked")
                    || (l.starts_with("thread ") && l.contains("panicked at"))
            });
            if let Some(l) = bad.filter(|_| !status.success()) {
                stop.store(true, Ordering::Relaxed);
                let mut history = vec![format!(
                    "cd {dir} && CARGO_TARGET_DIR={}/target/miri MIRIFLAGS={flags:?} cargo +nightly miri run --offline -q -- {program} {}",
                    args.root.display(),
                    expected.trim()
                )];
                history.extend(text.lines().take(80).map(String::from));
                found.lock().unwrap().push(json!(Replay {
                    property: args.id.clone(),
                    profile: "interpreter".into(),
                    kind: "threads".into(),
                    name: program.clone(),
                    index: 0,
                    tape: vec![],
                    seed: base + i,
                    logging: false,
                    message: format!("in the interpreter: {l}"),
                    history,
                }));
            } else if let Some(l) = text.lines().find(|l| l.starts_with("RUN ")).filter(|_| status.success()) {
                ok.lock().unwrap().push(l.to_string());
            } else {
                let l = text.lines().find(|l| l.starts_with("error")).unwrap_or("no output");
                note(format!("not interpreted: {l}"));
            }
        }
    };
    std::thread::scope(|s| {
        for n in 0..8 {
            let slot = &slot;
            s.spawn(move || slot(n));
        }
    });
    let field = |l: &str, n: &str| -> String {
        l.split(' ')
            .find_map(|w| w.strip_prefix(n))
            .unwrap_or_default()
            .to_string()
    };
    let ok = ok.into_inner().unwrap();
    let programs: HashSet<_> = ok.iter().map(|l| field(l, "program=")).collect();
    let orders: HashSet<_> = ok.iter().map(|l| (field(l, "program="), field(l, "order="))).collect();
    let ops: u64 = ok.iter().map(|l| field(l, "operations=").parse::<u64>().unwrap_or(0)).sum();
    m.counters.insert("interpreted_runs".into(), ok.len() as u64);
    m.counters.insert("interpreted_programs".into(), programs.len() as u64);
    m.counters.insert("interpreted_distinct_orders_of_operations".into(), orders.len() as u64);
    m.counters.insert("interpreted_operations".into(), ops);
    for o in &orders {
        m.distinct.insert(crate::obs::fingerprint(o));
    }
    m.evaluations += ok.len() as u64;
    for (k, n) in other.into_inner().unwrap() {
        v.notes.push(format!("interpreter: {k} ({n} times)"));
    }
    v.violations.extend(found.into_inner().unwrap());
    Ok(())
}

struct Build {
    name: &'static str,
    bin: String,
    logging: bool,
    tools: bool,
    parts: usize,
}

/// Runs the same programs in all builds and compares what they observed.
fn compare_builds(args: &Args, work: &Path, budget_ms: u64, v: &mut Verdict, m: &mut Merged) -> Result<(), String> {
    let bin = |n: &str| -> Result<String, String> {
        args.bins
            .iter()
            .chain(&args.commands)
            .find(|b| b.0 == n)
            .map(|b| b.1.clone())
            .ok_or(format!("no build {n}"))
    };
    let b = |name, bin, logging, tools, parts| Build {
        name,
        bin,
        logging,
        tools,
        parts,
    };
    let builds = [
        b("release", bin("release")?, false, true, 1),
        b("release with trace logging", bin("release")?, true, true, 1),
        b("checked", bin("checked")?, false, true, 1),
        b("checked with trace logging", bin("checked")?, true, true, 1),
        b("release without debug tools", bin("nofeature")?, false, false, 1),
        b("unoptimized", bin("dev")?, false, true, 3),
    ];
    let mut running = vec![];
    for (bi, b) in builds.iter().enumerate() {
        for part in 0..b.parts {
            let out = work.join(format!("digest-{bi}-{part}"));
            let err = work.join(format!("digest-{bi}-{part}.err"));
            let ef = fs::File::create(&err).map_err(|e| e.to_string())?;
            let child = Command::new(&b.bin)
                .arg("digest")
                .arg(args.seed.to_string())
                .arg(part.to_string())
                .arg(b.parts.to_string())
                .arg(budget_ms.to_string())
                .arg(&out)
                .arg(if b.logging { "1" } else { "0" })
                .arg(&args.src)
                .arg(work)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(ef)
                .spawn()
                .map_err(|e| format!("cannot start {}: {e}", b.bin))?;
            running.push((bi, part, child, out, err));
        }
    }
    let end = Instant::now() + Duration::from_millis(budget_ms * 2) + Duration::from_secs(60);
    let mut seen: Vec<BTreeMap<usize, (String, String)>> = vec![BTreeMap::new(); builds.len()];
    let mut observations = 0u64;
    let mut died: Vec<(usize, usize, String)> = vec![];
    for (bi, part, mut child, out, err) in running {
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) if Instant::now() > end => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(50)),
                Err(e) => return Err(format!("cannot wait: {e}")),
            }
        };
        let mut next = part;
        for l in fs::read_to_string(&out).unwrap_or_default().lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if let (4, Ok(i)) = (w.len(), w[0].parse::<usize>()) {
                seen[bi].insert(i, (w[1].into(), w[2].into()));
                observations += w[3].parse::<u64>().unwrap_or(0);
                next = i + builds[bi].parts;
            }
        }
        let name = builds[bi].name;
        match status {
            None => v.inconclusive.push(format!("{name}: time limit reached")),
            Some(s) => match (s.code(), s.signal()) {
                (Some(0), _) => (),
                (_, Some(sig)) if sig != 9 && sig != 15 && !tail(&err).contains("memory allocation of") => {
                    died.push((bi, next, format!("{name}: died from signal {sig}: {}", tail(&err))))
                }
                x => v.errors.push(format!("{name}: ended as {x:?}: {}", tail(&err))),
            },
        }
    }
    m.counters.insert("observations_in_compared_builds".into(), observations);
    for (bi, b) in builds.iter().enumerate() {
        m.counters.insert(format!("programs_run_{}", b.name.replace(' ', "_")), seen[bi].len() as u64);
    }
    let mut blank = Replay {
        property: args.id.clone(),
        profile: String::new(),
        kind: "builds".into(),
        name: String::new(),
        index: 0,
        tape: vec![],
        seed: 7,
        logging: false,
        message: String::new(),
        history: vec![],
    };
    if let Some((bi, i, msg)) = died.into_iter().next() {
        blank.profile = builds[bi].name.into();
        blank.index = i;
        blank.message = msg;
        v.violations.push(json!(blank));
        return Ok(());
    }
    let mut compared = 0u64;
    let mut in_all = 0u64;
    let mut digests = HashSet::new();
    for (i, base) in &seen[0] {
        let mut all = true;
        for (bi, b) in builds.iter().enumerate().skip(1) {
            let Some(x) = seen[bi].get(i) else {
                all = false;
                continue;
            };
            compared += 1;
            if x.0 != base.0 || (b.tools && x.1 != base.1) {
                let one = traced(args, work, &builds[0], *i)?;
                let two = traced(args, work, b, *i)?;
                let (la, lb) = (lines_of(&one), lines_of(&two));
                // Without the debug tools their part is missing.
                let keep = |l: Vec<String>| -> Vec<String> {
                    l.into_iter().filter(|l| b.tools || !l.starts_with("tools: ")).collect()
                };
                let (la, lb) = (keep(la), keep(lb));
                let at = (0..la.len().max(lb.len())).find(|j| la.get(*j) != lb.get(*j));
                blank.profile = b.name.into();
                blank.index = *i;
                blank.tape = serde_json::from_value(one["tape"].clone()).unwrap_or_default();
                blank.message = match at {
                    Some(j) => format!(
                        "the builds {:?} and {:?} observe different results in program {i}, observation {j}: {:?} and {:?}",
                        builds[0].name,
                        b.name,
                        la.get(j),
                        lb.get(j)
                    ),
                    None => format!(
                        "the builds {:?} and {:?} observed different results in program {i}",
                        builds[0].name, b.name
                    ),
                };
                blank.history = la.into_iter().take(at.unwrap_or(0) + 1).collect();
                v.violations.push(json!(blank));
                return Ok(());
            }
        }
        if all {
            in_all += 1;
        }
        digests.insert(&base.0);
    }
    m.counters.insert("records_compared".into(), compared);
    m.counters.insert("programs_compared_in_all_builds".into(), in_all);
    m.counters.insert("distinct_records_compared".into(), digests.len() as u64);
    m.evaluations += seen.iter().map(|s| s.len() as u64).sum::<u64>();
    if in_all == 0 && v.inconclusive.is_empty() {
        v.inconclusive.push("no program was run in all builds".into());
    }
    Ok(())
}

fn traced(args: &Args, work: &Path, b: &Build, i: usize) -> Result<Value, String> {
    let out = work.join("trace.json");
    Command::new(&b.bin)
        .arg("digest-trace")
        .arg(args.seed.to_string())
        .arg(i.to_string())
        .arg(&out)
        .arg(if b.logging { "1" } else { "0" })
        .arg(&args.src)
        .arg(work)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    fs::read(&out)
        .map_err(|e| e.to_string())
        .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
}

fn lines_of(j: &Value) -> Vec<String> {
    serde_json::from_value(j["lines"].clone()).unwrap_or_default()
}

fn says_violation(out: &Path) -> bool {
    fs::read(out)
        .ok()
        .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        .map_or(false, |j| j["status"] == "violation")
}

#[derive(Default)]
pub struct Merged {
    counters: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    evaluations: u64,
    random: u64,
    corpus: u64,
    edges: u64,
    total_edges: u64,
    consts: u64,
    sys: BTreeMap<String, (u64, u64, u64)>,
    workers: Vec<Value>,
}

fn collect(args: &Args, p: &Prop, w: &Worker, v: &mut Verdict, m: &mut Merged) {
    let who = format!(
        "{} worker{}",
        w.profile,
        if w.logging { " with logging" } else { "" }
    );
    let journal = |msg: String| -> Value {
        let jf = format!("{}.journal", w.out.display());
        let mut rp = Replay {
            property: args.id.clone(),
            profile: w.profile.clone(),
            kind: "random".into(),
            name: String::new(),
            index: 0,
            tape: vec![],
            seed: 0,
            logging: w.logging,
            message: msg,
            history: vec![],
        };
        if let Some((kind, which, index, seed, tape)) = read_journal(&jf) {
            rp.index = index as usize;
            rp.seed = seed;
            rp.tape = tape;
            if kind == 1 {
                rp.kind = "systematic".into();
                rp.name = p.sys.get(which as usize).map_or("", |s| s.name).into();
            } else {
                rp.name = p.cases.get(which as usize).map_or("", |c| c.0).into();
            }
        }
        json!(rp)
    };
    match w.done.clone() {
        Some(Done::Deadlock) => {
            v.violations.push(journal(format!(
                "{who}: every thread waits for a lock forever (no processor time used for {} s)",
                STUCK_FOR.as_secs()
            )));
            return;
        }
        Some(Done::TimedOut) => {
            v.inconclusive.push(format!("{who}: time limit reached"));
            return;
        }
        Some(Done::Exit(_, Some(-1))) => return,
        Some(Done::Exit(_, Some(sig))) => {
            let e = tail(&w.err);
            if sig == 9 || sig == 15 || e.contains("memory allocation of") || e.contains("failed to allocate") {
                v.inconclusive.push(format!("{who}: ended by signal {sig}: {e}"));
            } else {
                v.violations.push(journal(format!("{who}: died from signal {sig}: {e}")));
            }
            return;
        }
        Some(Done::Exit(Some(0), _)) => (),
        x => {
            v.errors.push(format!("{who}: ended as {x:?}: {}", tail(&w.err)));
            return;
        }
    }
    let j: Value = match fs::read(&w.out).map_err(|e| e.to_string()).and_then(|b| {
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    }) {
        Ok(j) => j,
        Err(e) => {
            v.errors.push(format!("{who}: no result: {e}: {}", tail(&w.err)));
            return;
        }
    };
    match j["status"].as_str() {
        Some("ok") => (),
        Some("violation") => v.violations.push(j["replay"].clone()),
        _ => v.errors.push(format!("{who}: harness error: {}", j["replay"])),
    }
    if let Some(k) = j["known"].as_object() {
        for (k, x) in k {
            v.known.insert(k.clone(), x.as_str().unwrap_or("").into());
        }
    }
    merge(&j, &w.out, m);
}

pub fn merge(j: &Value, out: &Path, m: &mut Merged) {
    if let Some(c) = j["counters"].as_object() {
        for (k, x) in c {
            *m.counters.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
    }
    if let Some(c) = j["maxima"].as_object() {
        for (k, x) in c {
            let e = m.maxima.entry(k.clone()).or_default();
            *e = (*e).max(x.as_u64().unwrap_or(0));
        }
    }
    if let Ok(b) = fs::read(format!("{}.distinct", out.display())) {
        for c in b.chunks_exact(8) {
            m.distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    if let Some(s) = j["samples"].as_array() {
        m.samples.extend(s.iter().cloned());
    }
    let e = &j["extra"];
    let n = |k: &str| e[k].as_u64().unwrap_or(0);
    m.evaluations += n("evaluations");
    m.random += n("random_cases");
    m.corpus += n("corpus");
    m.edges = m.edges.max(n("edges"));
    m.total_edges = m.total_edges.max(n("total_edges"));
    m.consts = m.consts.max(n("compared_constants"));
    if let Some(s) = e["systematic"].as_array() {
        for s in s {
            let x = m
                .sys
                .entry(s["name"].as_str().unwrap_or("").to_string())
                .or_default();
            x.0 = s["total"].as_u64().unwrap_or(0);
            x.1 += s["done"].as_u64().unwrap_or(0);
            x.2 += 1;
        }
    }
    m.workers.push(json!({
        "profile": j["profile"],
        "trace_logging": j["logging"],
        "evaluations": e["evaluations"],
        "edges": e["edges"],
        "seconds": e["seconds"],
    }));
}

fn conclude(args: &Args, p: &Prop, v: Verdict, m: Merged, start: Instant) -> Result<i32, String> {
    let listed = known_ids(&args.root, &args.id);
    let mut violations = v.violations.clone();
    for (k, msg) in &v.known {
        match listed.iter().find(|l| l.0 == *k) {
            Some((_, text)) => println!("KNOWN-FINDING: property={} {text}", args.id),
            None => violations.push(json!({
                "property": args.id, "profile": "release", "kind": "systematic", "name": "recorded finding",
                "index": 0, "tape": [], "seed": 0, "logging": false, "history": [],
                "message": format!("{k}: {msg}"),
            })),
        }
    }

    let mut replay_path = None;
    if let Some(first) = violations.first() {
        let dir = args.root.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!(
            "{}-{}-{}.json",
            args.id,
            args.seed_text,
            if args.thorough { "thorough" } else { "quick" }
        ));
        fs::write(&path, serde_json::to_vec_pretty(first).unwrap()).map_err(|e| e.to_string())?;
        replay_path = Some(path);
    }

    let systematic: Vec<Value> = m
        .sys
        .iter()
        .filter(|(_, x)| x.0 > 0)
        .map(|(k, x)| {
            json!({"name": k, "items": x.0, "items_run_in_all_profiles": x.1,
                   "complete": x.1 >= x.0 * args.bins.len() as u64})
        })
        .collect();
    let mut samples = m.samples.clone();
    if samples.len() > 8 {
        let k = samples.len() / 8;
        samples = samples.into_iter().step_by(k.max(1)).take(8).collect();
    }
    let dict = Dict::load(&args.src);
    let evidence = json!({
        "property": args.id,
        "tier": if args.thorough { "thorough" } else { "quick" },
        "seed": args.seed_text,
        "level": "exploration",
        "coverage": {
            "evaluations": m.evaluations,
            "distinct_nontrivial": m.distinct.len(),
            "rule": p.rule,
            "samples": samples,
            "exhaustive": false,
            "random_cases": m.random,
            "cases_kept_for_new_coverage": m.corpus,
            "systematic": systematic,
            "events": m.counters,
            "maxima": m.maxima,
            "edges_covered": m.edges,
            "edges_instrumented": m.total_edges,
            "constants_compared_at_run_time": m.consts,
            "literals_taken_from_source": dict.nums.len() + dict.blobs.len(),
            "workers": m.workers,
            "inconclusive": v.inconclusive,
            "notes": v.notes,
        },
        "assumptions": p.assumptions,
        "violations": violations.len(),
        "wall_s": (start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    let dir = args.root.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(
        dir.join(format!("{}.json", args.id)),
        serde_json::to_vec_pretty(&evidence).unwrap(),
    )
    .map_err(|e| format!("cannot write the evidence: {e}"))?;

    if let Some(path) = replay_path {
        println!(
            "VIOLATION property={} replay={}",
            args.id,
            path.display()
        );
        let msg = violations[0]["message"].as_str().unwrap_or("");
        println!("{}", msg.chars().take(1500).collect::<String>());
        if let Some(h) = violations[0]["history"].as_array() {
            for l in h.iter().take(60) {
                println!("  {}", l.as_str().unwrap_or("").chars().take(300).collect::<String>());
            }
        }
        return Ok(1);
    }
    for e in &v.errors {
        eprintln!("error: {e}");
    }
    for e in &v.inconclusive {
        eprintln!("inconclusive: {e}");
    }
    if !v.errors.is_empty() {
        return Ok(2);
    }
    if !v.inconclusive.is_empty() {
        return Ok(3);
    }
    if m.evaluations == 0 {
        eprintln!("error: nothing was run");
        return Ok(2);
    }
    println!(
        "ok property={} evaluations={} distinct={} edges={}/{}",
        args.id,
        m.evaluations,
        m.distinct.len(),
        m.edges,
        m.total_edges
    );
    Ok(0)
}
