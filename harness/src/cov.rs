//! Edge coverage and logical steps of the instrumented crate under test.
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};

pub const N: usize = 1 << 16;
static MAP: [AtomicU8; N] = [const { AtomicU8::new(0) }; N];
static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static EDGES: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            let n = EDGES.fetch_add(1, Relaxed) + 1;
            *p = (n as u32) & (N as u32 - 1);
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let c = &MAP[(*guard as usize) & (N - 1)];
    c.store(c.load(Relaxed).wrapping_add(1).max(1), Relaxed);
    crate::interpose::edge(*guard);
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if s > LIMIT.load(Relaxed) {
        libc::_exit(crate::core::EXIT_STEPS);
    }
}

pub fn edges_total() -> usize {
    (EDGES.load(Relaxed) as usize).min(N - 1)
}

pub fn begin(limit: u64) {
    STEPS.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
}
pub fn end() -> u64 {
    LIMIT.store(u64::MAX, Relaxed);
    STEPS.load(Relaxed)
}

#[inline]
fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

pub struct Virgin {
    seen: Vec<u8>,
}
impl Virgin {
    pub fn new() -> Self {
        Self { seen: vec![0; edges_total() + 1] }
    }
    /// Folds the current map into the set of seen features and clears it; tells whether something new was seen.
    pub fn merge(&mut self) -> bool {
        let mut new = false;
        for (i, s) in self.seen.iter_mut().enumerate() {
            let c = MAP[i].load(Relaxed);
            if c != 0 {
                MAP[i].store(0, Relaxed);
                let b = bucket(c);
                if *s & b == 0 {
                    *s |= b;
                    new = true;
                }
            }
        }
        new
    }
    pub fn bits(&self) -> Vec<u8> {
        self.seen.clone()
    }
}
