//! Coverage of the crates of the repository, as counted by the instrumentation that `tools/rustc-cov` asks for.
//! Without it (or on another processor) there are no features and the search is purely random.
use std::sync::atomic::{AtomicUsize, Ordering};

const RANGES: usize = 64;
static COUNT: AtomicUsize = AtomicUsize::new(0);
static STARTS: [AtomicUsize; RANGES] = [const { AtomicUsize::new(0) }; RANGES];
static STOPS: [AtomicUsize; RANGES] = [const { AtomicUsize::new(0) }; RANGES];

/// Called by the constructor of each instrumented module.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let n = COUNT.load(Ordering::Relaxed);
    if start == stop || n == RANGES || (0..n).any(|i| STARTS[i].load(Ordering::Relaxed) == start as usize) {
        return;
    }
    STARTS[n].store(start as usize, Ordering::Relaxed);
    STOPS[n].store(stop as usize, Ordering::Relaxed);
    COUNT.store(n + 1, Ordering::Relaxed);
}

// Comparisons: which one (its return address) and how far apart the operands are.
const TABLE: usize = 1 << 16;
static mut SEEN: [u8; TABLE] = [0; TABLE];
static mut TOUCHED: [u32; TABLE] = [0; TABLE];
static mut TOUCHED_LEN: usize = 0;
/// Only one thread is observed.
static ON: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
extern "C" fn vh_cov_compare(a: u64, b: u64, at: u64) {
    if ON.load(Ordering::Relaxed) == 0 || a == b {
        return;
    }
    let far = 64 - a.abs_diff(b).leading_zeros() as u64;
    let x = (at.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ far.wrapping_mul(0xbf58_476d_1ce4_e5b9)) >> 48;
    unsafe {
        if SEEN[x as usize] == 0 && TOUCHED_LEN < TABLE {
            SEEN[x as usize] = 1;
            TOUCHED[TOUCHED_LEN] = x as u32;
            TOUCHED_LEN += 1;
        }
    }
}

#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".globl __sanitizer_cov_trace_cmp1, __sanitizer_cov_trace_const_cmp1",
    ".globl __sanitizer_cov_trace_cmp2, __sanitizer_cov_trace_const_cmp2",
    ".globl __sanitizer_cov_trace_cmp4, __sanitizer_cov_trace_const_cmp4",
    ".globl __sanitizer_cov_trace_cmp8, __sanitizer_cov_trace_const_cmp8",
    ".globl __sanitizer_cov_trace_switch",
    "__sanitizer_cov_trace_cmp1:",
    "__sanitizer_cov_trace_const_cmp1:",
    "movzx edi, dil",
    "movzx esi, sil",
    "mov rdx, [rsp]",
    "jmp {0}",
    "__sanitizer_cov_trace_cmp2:",
    "__sanitizer_cov_trace_const_cmp2:",
    "movzx edi, di",
    "movzx esi, si",
    "mov rdx, [rsp]",
    "jmp {0}",
    "__sanitizer_cov_trace_cmp4:",
    "__sanitizer_cov_trace_const_cmp4:",
    "mov edi, edi",
    "mov esi, esi",
    "mov rdx, [rsp]",
    "jmp {0}",
    "__sanitizer_cov_trace_cmp8:",
    "__sanitizer_cov_trace_const_cmp8:",
    "mov rdx, [rsp]",
    "jmp {0}",
    "__sanitizer_cov_trace_switch:",
    "ret",
    sym vh_cov_compare,
);

pub fn available() -> bool {
    COUNT.load(Ordering::Relaxed) > 0
}

fn each(mut f: impl FnMut(&mut [u8])) {
    for i in 0..COUNT.load(Ordering::Relaxed) {
        let (a, b) = (STARTS[i].load(Ordering::Relaxed), STOPS[i].load(Ordering::Relaxed));
        f(unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) });
    }
}

/// Forgets what was covered.
pub fn start() {
    each(|c| c.fill(0));
    #[allow(static_mut_refs)]
    unsafe {
        for x in &TOUCHED[..TOUCHED_LEN] {
            SEEN[*x as usize] = 0;
        }
        TOUCHED_LEN = 0;
    }
    ON.store(1, Ordering::Relaxed);
}

/// Number of features there can be.
pub fn size() -> usize {
    let mut n = 0;
    each(|c| n += c.len());
    n * 8 + TABLE
}

/// The features since `start`: how often (roughly) each place was passed, and the distances of comparisons.
pub fn features(out: &mut Vec<u32>) {
    ON.store(0, Ordering::Relaxed);
    out.clear();
    let mut base = 0u32;
    each(|c| {
        for (i, chunk) in c.chunks(8).enumerate() {
            if chunk.iter().all(|x| *x == 0) {
                continue;
            }
            for (k, x) in chunk.iter().enumerate() {
                let bucket = match x {
                    0 => continue,
                    1 => 0,
                    2 => 1,
                    3 => 2,
                    4..=7 => 3,
                    8..=15 => 4,
                    16..=31 => 5,
                    32..=127 => 6,
                    _ => 7,
                };
                out.push(base + ((i * 8 + k) as u32) * 8 + bucket);
            }
        }
        base += c.len() as u32 * 8;
    });
    #[allow(static_mut_refs)]
    unsafe {
        out.extend(TOUCHED[..TOUCHED_LEN].iter().map(|x| base + x));
    }
}
