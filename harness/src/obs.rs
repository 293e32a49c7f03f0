//! What the monitors observed.

use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Mutex,
};

const MAX_DISTINCT: usize = 3_000_000;

#[derive(Default)]
pub struct Obs {
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub tick: u64,
    /// Defects that occurred in exactly the recorded form.
    pub known: BTreeMap<String, String>,
    /// The readable history of the current case, kept when replaying.
    pub trace: Option<Vec<String>>,
}

impl Obs {
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }

    pub fn max(&mut self, name: &str, v: u64) {
        let m = self.maxima.entry(name.to_string()).or_insert(0);
        *m = (*m).max(v);
    }

    /// A distinct non-trivial state.
    pub fn state(&mut self, v: &impl Hash) {
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(fingerprint(v));
        }
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 5000 {
                t.push(f());
            }
        }
    }

    /// Keeps a few cases, written out.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut end = 600;
                while !s.is_char_boundary(end) {
                    end -= 1;
                }
                s.truncate(end);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
}

pub fn fingerprint(v: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub msg: String,
    pub file: String,
    pub line: u32,
}

impl Panic {
    /// Whether the panic comes from the harness itself.
    pub fn is_ours(&self) -> bool {
        self.file.contains("/verif/harness/") || self.file.starts_with("src/") || self.file.starts_with("sut/src/")
    }
    pub fn show(&self) -> String {
        format!("panicked at {}:{}: {}", self.file, self.line, self.msg)
    }
}

thread_local! {
    static LAST: std::cell::RefCell<Option<Panic>> = const { std::cell::RefCell::new(None) };
}
static LOUD: Mutex<bool> = Mutex::new(false);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".into()
        };
        let mut msg = msg;
        if msg.len() > 2000 {
            let mut end = 2000;
            while !msg.is_char_boundary(end) {
                end -= 1;
            }
            msg.truncate(end);
        }
        let (file, line) = i
            .location()
            .map_or(("?".to_string(), 0), |l| (l.file().to_string(), l.line()));
        let p = Panic { msg, file, line };
        if LOUD.try_lock().map_or(false, |l| *l) {
            eprintln!("{}", p.show());
        }
        LAST.with(|l| *l.borrow_mut() = Some(p));
    }));
}

/// Runs `f`, turning a panic into an error.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST
            .with(|l| l.borrow_mut().take())
            .unwrap_or(Panic {
                msg: "unknown".into(),
                file: "?".into(),
                line: 0,
            })),
    }
}
