//! Receives the compiler's coverage callbacks of the instrumented crates: one
//! counter per edge, and the constants that values are compared with.

use std::{
    cell::Cell,
    sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed},
};

const MAX_REGIONS: usize = 256;
static REGIONS: [(AtomicUsize, AtomicUsize); MAX_REGIONS] =
    [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; MAX_REGIONS];
static NUM: AtomicUsize = AtomicUsize::new(0);

const TBL: usize = 1024;
static CONSTS: [AtomicU64; TBL] = [const { AtomicU64::new(0) }; TBL];
static CMPS: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
    let i = NUM.fetch_add(1, Relaxed);
    if i < MAX_REGIONS {
        REGIONS[i].0.store(a as usize, Relaxed);
        REGIONS[i].1.store(b as usize, Relaxed);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *mut u8, _b: *mut u8) {}

/// Not exact when several threads run the code under test.
#[inline]
fn step() {
    CMPS.store(CMPS.load(Relaxed).wrapping_add(1), Relaxed);
    let every = DELAYS.load(Relaxed);
    if every != 0 {
        delay(every);
    }
}

static DELAYS: AtomicU64 = AtomicU64::new(0);
static DELAYED: AtomicU64 = AtomicU64::new(0);
thread_local!(static DELAY_STATE: Cell<u64> = const { Cell::new(0) });

/// From now on one comparison in `every` pauses its thread; 0 for none. Other
/// threads then get between two steps that are usually taken in quick
/// succession.
pub fn set_delays(every: u64) {
    DELAYS.store(every, Relaxed);
}

/// Starts the sequence of pauses of this thread.
pub fn seed_delays(s: u64) {
    DELAY_STATE.with(|c| c.set(s | 1));
}

/// Number of pauses so far.
pub fn delays() -> u64 {
    DELAYED.load(Relaxed)
}

#[cold]
fn delay(every: u64) {
    DELAY_STATE.with(|c| {
        let mut s = c.get();
        if s == 0 {
            return;
        }
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        c.set(s);
        if (s >> 20) % every == 0 {
            DELAYED.fetch_add(1, Relaxed);
            if s >> 12 & 15 == 0 {
                std::thread::yield_now();
            }
            for _ in 0..1 << (s >> 8 & 7) {
                std::hint::spin_loop();
            }
        }
    })
}

/// Number of comparisons and switches the code under test has executed.
pub fn steps() -> u64 {
    CMPS.load(Relaxed)
}

#[inline]
fn constant(c: u64) {
    let slot = (c.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 54) as usize;
    CONSTS[slot].store(c, Relaxed);
}

macro_rules! cmp {
    ($($n:ident $t:ty),*) => {$(
        #[no_mangle]
        pub extern "C" fn $n(_a: $t, _b: $t) {
            step()
        }
    )*};
}
macro_rules! const_cmp {
    ($($n:ident $t:ty),*) => {$(
        #[no_mangle]
        pub extern "C" fn $n(a: $t, _b: $t) {
            step();
            constant(a as u64)
        }
    )*};
}
cmp!(__sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16,
     __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64);
const_cmp!(__sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16,
     __sanitizer_cov_trace_const_cmp4 u32, __sanitizer_cov_trace_const_cmp8 u64);

/// # Safety
/// Called by instrumented code with a valid case table.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, c: *const u64) {
    let n = *c;
    for i in 0..n.min(32) {
        constant(*c.add(2 + i as usize));
    }
    step();
}

/// A constant the code under test has compared something with.
pub fn observed_const(r: u32) -> Option<u64> {
    let v = CONSTS[r as usize % TBL].load(Relaxed);
    (v != 0).then_some(v)
}

pub fn num_consts() -> usize {
    CONSTS.iter().filter(|c| c.load(Relaxed) != 0).count()
}

fn regions() -> impl Iterator<Item = (*mut u8, usize)> {
    (0..NUM.load(Relaxed).min(MAX_REGIONS)).map(|i| {
        let a = REGIONS[i].0.load(Relaxed);
        let b = REGIONS[i].1.load(Relaxed);
        (a as *mut u8, b - a)
    })
}

pub fn total_edges() -> usize {
    regions().map(|r| r.1).sum()
}

pub fn reset() {
    for (p, n) in regions() {
        // SAFETY: the compiler announced this range of counters.
        unsafe { std::ptr::write_bytes(p, 0, n) }
    }
}

/// Everything that has been seen so far, per edge and magnitude of its count.
#[derive(Default)]
pub struct Seen {
    seen: Vec<u8>,
}

impl Seen {
    /// Adds the counters since the last reset; returns whether anything was new.
    pub fn update(&mut self) -> bool {
        if self.seen.is_empty() {
            self.seen = vec![0; total_edges()];
        }
        let mut new = false;
        let mut base = 0;
        for (p, n) in regions() {
            for i in 0..n {
                // SAFETY: as above.
                let c = unsafe { std::ptr::read_volatile(p.add(i)) };
                if c != 0 {
                    let bucket = match c {
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    };
                    if self.seen[base + i] & bucket == 0 {
                        self.seen[base + i] |= bucket;
                        new = true;
                    }
                }
            }
            base += n;
        }
        new
    }

    pub fn edges(&self) -> usize {
        self.seen.iter().filter(|s| **s != 0).count()
    }
}
