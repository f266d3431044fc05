//! What the parser's code did during a case: the edges it took and how close its comparisons with
//! constants came. The compiler puts the calls in (rustc-cov.sh); only the parser has them.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub const EDGES: usize = 1 << 15;
const CMPS: usize = 1 << 14;
pub const SIZE: usize = EDGES + CMPS;

struct Map(UnsafeCell<[u8; SIZE]>);
thread_local! {
    static MAP: Map = const { Map(UnsafeCell::new([0; SIZE])) };
}
static GUARDS: AtomicU32 = AtomicU32::new(0);

pub fn edges() -> usize {
    GUARDS.load(Relaxed) as usize
}

#[inline(always)]
fn hit(i: usize) {
    let _ = MAP.try_with(|m| unsafe {
        let c = &mut (*m.0.get())[i];
        *c = c.saturating_add(1);
    });
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        while p < stop {
            if *p == 0 {
                *p = GUARDS.fetch_add(1, Relaxed) + 1;
            }
            p = p.add(1);
        }
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    hit(unsafe { *g } as usize % EDGES);
}

/// A comparison of `a`, a constant, with `b`: one place for each distance between them, by power of two.
#[inline(always)]
fn compare(a: u64, b: u64) {
    let far = 64 - a.wrapping_sub(b).min(b.wrapping_sub(a)).leading_zeros();
    if far < 12 {
        let h = (a.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) as usize ^ (far as usize) << 3 ^ (b < a) as usize;
        hit(EDGES + h % CMPS);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, b: u8) {
    let _ = (a, b);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) {
    compare(a as u64, b as u64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) {
    compare(a as u64, b as u64);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) {
    compare(a, b);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *mut u64) {}

pub fn reset() {
    MAP.with(|m| unsafe { (*m.0.get()).fill(0) });
}

/// Whether this thread's case reached a place, or reached it a number of times, that `seen` lacks.
pub fn merge(seen: &mut [u8]) -> bool {
    let mut new = false;
    MAP.with(|m| {
        let m = unsafe { &*m.0.get() };
        for i in 0..SIZE / 8 {
            let w = &m[i * 8..i * 8 + 8];
            if u64::from_ne_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]) == 0 {
                continue;
            }
            for j in i * 8..i * 8 + 8 {
                let b: u8 = if j >= EDGES {
                    (m[j] > 0) as u8
                } else {
                    match m[j] {
                        0 => 0,
                        1 => 1,
                        2 => 2,
                        3 => 4,
                        4..=7 => 8,
                        8..=15 => 16,
                        16..=31 => 32,
                        32..=127 => 64,
                        _ => 128,
                    }
                };
                if b & !seen[j] != 0 {
                    seen[j] |= b;
                    new = true;
                }
            }
        }
    });
    new
}
