//! Virtual clock. The harness binary defines `clock_gettime`, so that every clock read in this process (std's
//! SystemTime::now included) comes through here: CLOCK_REALTIME can be frozen at any instant and advanced by hand;
//! monotonic clocks keep running and are advanced along with it.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, SystemTime};

static FROZEN: AtomicBool = AtomicBool::new(false);
static SECS: AtomicI64 = AtomicI64::new(0);
static NANOS: AtomicI64 = AtomicI64::new(0);
static SEQ: AtomicI64 = AtomicI64::new(0); // odd while the frozen instant is being changed
static TICK_NS: AtomicI64 = AtomicI64::new(0); // added after every reading
static MONO_NS: AtomicI64 = AtomicI64::new(0);
static LOCK: Mutex<()> = Mutex::new(());

fn raw(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int }
}

#[cfg(not(feature = "real_clock"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME && FROZEN.load(SeqCst) {
        let tick = TICK_NS.load(SeqCst);
        if tick != 0 {
            let _g = LOCK.lock().unwrap();
            let n = NANOS.load(SeqCst);
            (*ts).tv_sec = SECS.load(SeqCst);
            (*ts).tv_nsec = n;
            let n = n + tick;
            SECS.fetch_add(n.div_euclid(1_000_000_000), SeqCst);
            NANOS.store(n.rem_euclid(1_000_000_000), SeqCst);
            return 0;
        }
        loop {
            let q = SEQ.load(SeqCst);
            let (s, n) = (SECS.load(SeqCst), NANOS.load(SeqCst));
            if q % 2 == 0 && SEQ.load(SeqCst) == q {
                (*ts).tv_sec = s;
                (*ts).tv_nsec = n;
                return 0;
            }
            std::hint::spin_loop();
        }
    }
    let r = raw(clk, ts);
    let off = MONO_NS.load(SeqCst);
    if off != 0 && (clk == libc::CLOCK_MONOTONIC || clk == libc::CLOCK_BOOTTIME) {
        let n = (*ts).tv_nsec + off % 1_000_000_000;
        (*ts).tv_sec += off / 1_000_000_000 + n / 1_000_000_000;
        (*ts).tv_nsec = n % 1_000_000_000;
    }
    r
}

/// Freezes the real-time clock at the given instant (seconds since 1970, nanoseconds).
pub fn freeze(secs: i64, nanos: u32) {
    let _g = LOCK.lock().unwrap();
    SEQ.fetch_add(1, SeqCst);
    SECS.store(secs, SeqCst);
    NANOS.store(i64::from(nanos), SeqCst);
    SEQ.fetch_add(1, SeqCst);
    FROZEN.store(true, SeqCst);
}

/// Makes every reading of the frozen clock move it on by `ns` (0: stand still). For single-threaded phases only.
pub fn set_tick(ns: i64) {
    TICK_NS.store(ns, SeqCst);
}

/// Moves the frozen clock and the monotonic clocks forward.
pub fn advance(d: Duration) {
    let _g = LOCK.lock().unwrap();
    let n = NANOS.load(SeqCst) + i64::from(d.subsec_nanos());
    SEQ.fetch_add(1, SeqCst);
    SECS.store(SECS.load(SeqCst) + d.as_secs() as i64 + n / 1_000_000_000, SeqCst);
    NANOS.store(n % 1_000_000_000, SeqCst);
    SEQ.fetch_add(1, SeqCst);
    MONO_NS.fetch_add(d.as_nanos() as i64, SeqCst);
}

/// The frozen instant as nanoseconds since 1970.
pub fn now_ns() -> i128 {
    let _g = LOCK.lock().unwrap();
    i128::from(SECS.load(SeqCst)) * 1_000_000_000 + i128::from(NANOS.load(SeqCst))
}

/// Seconds on the real monotonic clock, unaffected by the virtual time.
pub fn real_mono() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    raw(libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

/// SystemTime at (seconds since 1970, nanoseconds), before 1970 included.
pub fn system_time(secs: i64, nanos: u32) -> SystemTime {
    if secs >= 0 {
        SystemTime::UNIX_EPOCH + Duration::new(secs as u64, nanos)
    } else {
        SystemTime::UNIX_EPOCH - Duration::from_secs(secs.unsigned_abs()) + Duration::new(0, nanos)
    }
}
