//! Execution counters fed by LLVM SanitizerCoverage (trace-pc-guard), which
//! instruments every control-flow edge of the library.

use std::cell::UnsafeCell;

pub const MAX: usize = 1 << 16;

struct S(UnsafeCell<State>);
unsafe impl Sync for S {}

struct State {
    n: u32,
    steps: u64,
    limit: u64,
    total: [u8; MAX],
    cur: [u8; MAX],
}

static ST: S = S(UnsafeCell::new(State { n: 0, steps: 0, limit: u64::MAX, total: [0; MAX], cur: [0; MAX] }));

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let st = &mut *ST.0.get();
        let mut p = start;
        while p < stop {
            if *p == 0 {
                st.n += 1;
                *p = st.n.min(MAX as u32 - 1);
            }
            p = p.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    // Workers run the library on one thread only.
    unsafe {
        let st = ST.0.get();
        (*st).steps += 1;
        *(*st).cur.as_mut_ptr().add(*guard as usize) = 1;
        if (*st).steps > (*st).limit {
            (*st).limit = u64::MAX;
            crate::mon::step_limit_hit();
        }
    }
}

pub fn steps() -> u64 {
    unsafe { (*ST.0.get()).steps }
}
pub fn guards() -> u32 {
    unsafe { (*ST.0.get()).n }
}
/// Stop the process if more than `n` further edges execute.
pub fn set_limit(n: u64) {
    unsafe {
        let st = ST.0.get();
        (*st).limit = if n == u64::MAX { n } else { (*st).steps.saturating_add(n) };
    }
}
/// Fold this case's edges into the total; returns how many were new.
pub fn merge() -> u32 {
    unsafe {
        let st = &mut *ST.0.get();
        let mut new = 0;
        for i in 0..=(st.n as usize).min(MAX - 1) {
            if st.cur[i] != 0 {
                if st.total[i] == 0 {
                    st.total[i] = 1;
                    new += 1;
                }
                st.cur[i] = 0;
            }
        }
        new
    }
}
pub fn covered() -> Vec<u32> {
    unsafe {
        let st = &*ST.0.get();
        (0..=(st.n as usize).min(MAX - 1)).filter(|i| st.total[*i] != 0).map(|i| i as u32).collect()
    }
}
