//! std's clock and entropy, as seen by code running inside a simulated run, come from the simulator.

use std::cell::Cell;

thread_local! {
    static NOW_MS: Cell<u64> = const { Cell::new(u64::MAX) };
    static ENTROPY: Cell<u64> = const { Cell::new(0) };
}

const BASE_S: i64 = 1_700_000_000;

pub fn enter(seed: u64) {
    NOW_MS.with(|c| c.set(0));
    ENTROPY.with(|c| c.set(seed | 1));
}
pub fn leave() {
    NOW_MS.with(|c| c.set(u64::MAX));
    ENTROPY.with(|c| c.set(0));
}
pub fn now_ms() -> u64 {
    NOW_MS.with(|c| c.get())
}
pub fn set_now_ms(ms: u64) {
    NOW_MS.with(|c| {
        if c.get() != u64::MAX {
            c.set(ms)
        }
    });
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let ms = NOW_MS.try_with(|c| c.get()).unwrap_or(u64::MAX);
    if ms != u64::MAX && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_BOOTTIME) {
        (*ts).tv_sec = BASE_S + (ms / 1000) as i64;
        (*ts).tv_nsec = ((ms % 1000) * 1_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// # Safety
/// Same contract as libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    let e = ENTROPY.try_with(|c| c.get()).unwrap_or(0);
    if e != 0 {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        let mut x = e;
        for v in b.iter_mut() {
            x = crate::rng::mix(x.wrapping_add(0x9e3779b97f4a7c15));
            *v = x as u8;
        }
        ENTROPY.with(|c| c.set(x | 1));
        return len as libc::ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
}
