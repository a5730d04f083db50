//! Clock and randomness seams: libc symbols interposed in the harness binary.
//!
//! While a simulation is active (`enter`), `clock_gettime` reads the simulated clock and `getrandom`
//! is a pure function of the run's seed, the simulated thread's index and a per-thread counter.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

static ACTIVE: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);
static NOW_NS: AtomicU64 = AtomicU64::new(1_000_000_000);
/// Nanoseconds the clock advances at each reading (models code running for some time).
static READ_STEP: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static RANDOM_READS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static THREAD: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

pub fn enter(seed: u64) {
    SEED.store(seed, Ordering::SeqCst);
    NOW_NS.store(1_000_000_000, Ordering::SeqCst);
    READ_STEP.store(0, Ordering::SeqCst);
    CLOCK_READS.store(0, Ordering::SeqCst);
    RANDOM_READS.store(0, Ordering::SeqCst);
    set_thread(0);
    ACTIVE.store(true, Ordering::SeqCst);
}
pub fn leave() { ACTIVE.store(false, Ordering::SeqCst); }
pub fn set_thread(index: u64) { THREAD.with(|t| t.set(index)); COUNT.with(|c| c.set(0)); }
pub fn advance(ns: u64) { NOW_NS.fetch_add(ns, Ordering::SeqCst); }
pub fn set_read_step(ns: u64) { READ_STEP.store(ns, Ordering::SeqCst); }
pub fn now_ns() -> u64 { NOW_NS.load(Ordering::SeqCst) }

pub fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// # Safety
/// Called by libc users with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ACTIVE.load(Ordering::Relaxed) && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_REALTIME) {
        let step = READ_STEP.load(Ordering::Relaxed);
        CLOCK_READS.fetch_add(1, Ordering::Relaxed);
        let now = NOW_NS.fetch_add(step, Ordering::Relaxed);
        (*ts).tv_sec = (now / 1_000_000_000) as _;
        (*ts).tv_nsec = (now % 1_000_000_000) as _;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
    }
}

/// # Safety
/// Called by libc users with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if ACTIVE.load(Ordering::Relaxed) {
        RANDOM_READS.fetch_add(1, Ordering::Relaxed);
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        let t = THREAD.try_with(|t| t.get()).unwrap_or(99);
        for chunk in out.chunks_mut(8) {
            let c = COUNT.try_with(|c| { let v = c.get(); c.set(v + 1); v }).unwrap_or(0);
            let v = splitmix(SEED.load(Ordering::Relaxed) ^ splitmix(t.wrapping_mul(0x1234_5678_9ABC_DEF1) ^ splitmix(c)));
            chunk.copy_from_slice(&v.to_le_bytes()[..chunk.len()]);
        }
        len as libc::ssize_t
    } else {
        libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t
    }
}

/// Real (not simulated) monotonic time in nanoseconds.
pub fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts as *mut libc::timespec); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
