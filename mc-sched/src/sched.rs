//! A scheduler that owns every thread of one execution.
//!
//! The crates under test are compiled with a callback at each basic block and each load and store.
//! Threads under control hand a token to each other: exactly one runs, and it may only be taken
//! off the processor inside a callback, at a blocking futex call, or when it ends. A plan says at
//! which of these steps another thread takes over. Waiting on a futex is modelled, so that a state
//! in which nobody can run is seen as the deadlock it is.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

pub const MAX_THREADS: usize = 8;
const NOBODY: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Runnable,
    /// where, and whether with a time limit
    Blocked(usize, bool),
    Done,
}

pub struct State {
    pub step: u64,
    pub limit: u64,
    n: usize,
    status: [Status; MAX_THREADS],
    /// threads in the order in which they are preferred when the running one cannot go on
    order: [usize; MAX_THREADS],
    plan: [(u64, usize, usize); 8],
    plan_len: usize,
    plan_at: usize,
    pub steps_of: [u64; MAX_THREADS],
    pub blocks: u64,
    pub switches: u64,
    pub yields: u64,
    log: *mut Entry,
    log_len: usize,
    pub log_at: usize,
    stack: [(usize, usize); MAX_THREADS],
    /// (step, thread) whenever a thread takes over
    pub segs: [(u64, usize); SEGS],
    pub seg_n: usize,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C)]
pub struct Entry {
    pub addr: u64,
    pub step: u32,
    pub thread: u8,
    pub write: u8,
    pub stat: u8,
    pub pad: u8,
}

static mut S: State = State {
    step: 0,
    limit: 0,
    n: 0,
    status: [Status::Done; MAX_THREADS],
    order: [0; MAX_THREADS],
    plan: [(0, 0, 0); 8],
    plan_len: 0,
    plan_at: 0,
    steps_of: [0; MAX_THREADS],
    blocks: 0,
    switches: 0,
    yields: 0,
    log: std::ptr::null_mut(),
    log_len: 0,
    log_at: 0,
    stack: [(0, 0); MAX_THREADS],
    segs: [(0, 0); SEGS],
    seg_n: 0,
};
static CURRENT: AtomicU32 = AtomicU32::new(NOBODY);
static READY: AtomicU32 = AtomicU32::new(0);
static ON: AtomicBool = AtomicBool::new(false);
/// edges executed while counting
pub static mut WORK: u64 = 0;
pub static mut WORK_LIMIT: u64 = u64::MAX;
static COUNTING: AtomicBool = AtomicBool::new(false);

thread_local! {
    static ID: Cell<u32> = const { Cell::new(NOBODY) };
}

pub const EXIT_DEADLOCK: i32 = 97;
pub const EXIT_LIVELOCK: i32 = 98;
pub const EXIT_WORK: i32 = 96;
pub const EXIT_PLAN: i32 = 95;
pub const EXIT_DIVERGED: i32 = 94;
pub const SEGS: usize = 64;

#[allow(static_mut_refs)]
pub fn state() -> &'static mut State {
    unsafe { &mut S }
}

fn raw_syscall(nr: i64, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

fn real_wait(v: u32) {
    raw_syscall(libc::SYS_futex, [CURRENT.as_ptr() as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0]);
}

fn real_wake() {
    raw_syscall(libc::SYS_futex, [CURRENT.as_ptr() as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, i32::MAX as usize, 0, 0, 0]);
}

fn wait_for_turn(me: u32) {
    loop {
        let c = CURRENT.load(SeqCst);
        if c == me {
            return;
        }
        real_wait(c);
    }
}

fn hand_over(to: usize) {
    let s = state();
    s.switches += 1;
    if s.seg_n < SEGS {
        s.segs[s.seg_n] = (s.step, to);
        s.seg_n += 1;
    }
    CURRENT.store(to as u32, SeqCst);
    real_wake();
}

pub struct Log {
    pub at: *mut Entry,
    pub len: usize,
}

/// prepare an execution of n threads; call before they are spawned
pub fn setup(n: usize, order: &[usize], plan: &[(u64, usize, usize)], limit: u64, log: Option<Log>) {
    let s = state();
    READY.store(0, SeqCst);
    s.step = 0;
    s.limit = limit;
    s.n = n;
    for i in 0..n {
        s.status[i] = Status::Runnable;
        s.order[i] = order[i];
    }
    s.plan_len = plan.len();
    s.plan[..plan.len()].copy_from_slice(plan);
    s.plan_at = 0;
    match log {
        Some(l) => (s.log, s.log_len) = (l.at, l.len),
        None => s.log = std::ptr::null_mut(),
    }
    s.log_at = 0;
}

/// begin, once all of them are waiting for their turn
pub fn start() {
    while READY.load(SeqCst) < state().n as u32 {
        raw_syscall(libc::SYS_sched_yield, [0; 6]);
    }
    ON.store(true, SeqCst);
    hand_over(state().order[0]);
}

/// first thing a thread under control does
pub fn enter(me: usize) {
    let here = &me as *const usize as usize;
    state().stack[me] = (here.saturating_sub(8 << 20), here + (64 << 10));
    READY.fetch_add(1, SeqCst);
    wait_for_turn(me as u32);
    ID.with(|i| i.set(me as u32));
}

/// last thing a thread under control does
pub fn leave(me: usize) {
    ID.with(|i| i.set(NOBODY));
    let s = state();
    s.status[me] = Status::Done;
    match next(me) {
        Some(t) => {
            hand_over(t);
            // what it does on its way out must not mix with what the others do
            // (whose turn it is must be read before ON, or the last change could be missed)
            loop {
                let c = CURRENT.load(SeqCst);
                if !ON.load(SeqCst) {
                    break;
                }
                real_wait(c);
            }
        }
        None if (0..s.n).all(|i| s.status[i] == Status::Done) => {
            ON.store(false, SeqCst);
            CURRENT.store(NOBODY, SeqCst);
            real_wake();
        }
        None => unsafe { libc::_exit(EXIT_DEADLOCK) },
    }
}

fn next(me: usize) -> Option<usize> {
    let s = state();
    let order = &s.order[..s.n];
    order.iter().copied().find(|&t| t != me && s.status[t] == Status::Runnable).or_else(|| {
        // with nobody else to run, time limits run out
        order.iter().copied().find(|&t| t != me && matches!(s.status[t], Status::Blocked(_, true)))
    })
}

fn switch(me: usize, to: usize) {
    hand_over(to);
    wait_for_turn(me as u32);
}

#[inline]
fn me() -> Option<usize> {
    if !ON.load(SeqCst) {
        return None;
    }
    match ID.with(|i| i.get()) {
        NOBODY => None,
        i => Some(i as usize),
    }
}

fn point() {
    let Some(me) = me() else { return };
    let s = state();
    s.step += 1;
    s.steps_of[me] += 1;
    if s.step > s.limit {
        unsafe { libc::_exit(EXIT_LIVELOCK) };
    }
    if s.plan_at < s.plan_len && s.plan[s.plan_at].0 == s.step {
        let (_, from, to) = s.plan[s.plan_at];
        s.plan_at += 1;
        if from != me {
            // what was recorded does not repeat
            unsafe { libc::_exit(EXIT_DIVERGED) };
        }
        if s.status[to] != Status::Runnable {
            // not a preemption that can happen
            unsafe { libc::_exit(EXIT_PLAN) };
        }
        switch(me, to);
    } else if s.steps_of[me] % 100_000 == 0 {
        // it may be waiting for another thread without blocking
        if let Some(t) = next(me) {
            s.yields += 1;
            switch(me, t);
        }
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

fn access(addr: usize, write: bool) {
    let Some(me) = me() else { return };
    let s = state();
    if s.log.is_null() || s.log_at >= s.log_len {
        return;
    }
    if (s.stack[me].0..s.stack[me].1).contains(&addr) {
        return;
    }
    let stat = unsafe { (&raw const __data_start as usize..&raw const _end as usize).contains(&addr) };
    unsafe {
        *s.log.add(s.log_at) = Entry { addr: addr as u64, step: s.step as u32, thread: me as u8, write: write as u8, stat: stat as u8, pad: 0 };
    }
    s.log_at += 1;
}

// ---- callbacks; functions of these names are not themselves instrumented ----

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_start: *mut u32, _stop: *mut u32) {}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_guard: *mut u32) {
    if COUNTING.load(std::sync::atomic::Ordering::Relaxed) {
        unsafe {
            WORK += 1;
            if WORK > WORK_LIMIT {
                libc::_exit(EXIT_WORK);
            }
        }
        return;
    }
    point();
}

macro_rules! accesses {
    ($($l:ident $s:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $l(a: *const u8) {
            access(a as usize, false);
        }
        #[no_mangle]
        pub extern "C" fn $s(a: *const u8) {
            access(a as usize, true);
        }
    )* };
}
accesses! { __sanitizer_cov_load1 __sanitizer_cov_store1 __sanitizer_cov_load2 __sanitizer_cov_store2 __sanitizer_cov_load4 __sanitizer_cov_store4
    __sanitizer_cov_load8 __sanitizer_cov_store8 __sanitizer_cov_load16 __sanitizer_cov_store16 }

/// the C library's entry to system calls, through which the standard library waits and wakes
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let fail = |e: i32| {
        *libc::__errno_location() = e;
        -1i64
    };
    if nr == libc::SYS_futex {
        if let Some(me) = me() {
            let s = state();
            let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let word = &*(a as *const AtomicU32);
                if word.load(SeqCst) != c as u32 {
                    return fail(libc::EAGAIN);
                }
                s.blocks += 1;
                match next(me) {
                    Some(t) => {
                        s.status[me] = Status::Blocked(a, d != 0);
                        switch(me, t);
                        if s.status[me] != Status::Runnable {
                            s.status[me] = Status::Runnable;
                            return fail(libc::ETIMEDOUT);
                        }
                        return 0;
                    }
                    None if d != 0 => return fail(libc::ETIMEDOUT),
                    None => libc::_exit(EXIT_DEADLOCK),
                }
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                let mut k = 0;
                for i in 0..s.n {
                    let t = s.order[i];
                    if k < c as i64 && matches!(s.status[t], Status::Blocked(w, _) if w == a) {
                        s.status[t] = Status::Runnable;
                        k += 1;
                    }
                }
                return k;
            }
        }
    }
    if nr == libc::SYS_getrandom {
        return getrandom(a as *mut u8, b, 0) as i64;
    }
    let r = raw_syscall(nr, [a, b, c, d, e, f]);
    if r < 0 && r > -4096 {
        return fail(-r as i32);
    }
    r as i64
}

/// the seeds of hash tables, which would make executions differ, are always the same
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        *buf.add(i) = (i as u8).wrapping_mul(97).wrapping_add(13);
    }
    len as isize
}

fn pause_point() -> bool {
    let Some(me) = me() else { return false };
    state().yields += 1;
    if let Some(t) = next(me) {
        switch(me, t);
    }
    true
}

/// giving up the processor, or sleeping, lets the others go on
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !pause_point() {
        raw_syscall(libc::SYS_sched_yield, [0; 6]);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if pause_point() {
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep, [clock as usize, flags as usize, t as usize, rem as usize, 0, 0]) as i32)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if pause_point() {
        return 0;
    }
    raw_syscall(libc::SYS_nanosleep, [t as usize, rem as usize, 0, 0, 0, 0]) as i32
}

/// count the basic blocks executed by f
pub fn count<T>(limit: u64, f: impl FnOnce() -> T) -> (T, u64) {
    unsafe {
        WORK = 0;
        WORK_LIMIT = limit;
    }
    COUNTING.store(true, SeqCst);
    let r = f();
    COUNTING.store(false, SeqCst);
    (r, unsafe { WORK })
}
