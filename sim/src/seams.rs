//! The seams between the code under test and the machine: memory, randomness, clocks and
//! the scheduler. All of them are interposed at the boundary of the process (allocator,
//! `getrandom`, `clock_gettime`, `nanosleep`, `syscall(SYS_futex)`), so the code under test is
//! unmodified and no source of nondeterminism can be forgotten by not being wrapped.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};

use crate::rng::{mix, Rng};

// ---------------------------------------------------------------- raw system calls

#[cfg(target_arch = "x86_64")]
unsafe fn raw_syscall(n: i64, a: [i64; 6]) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn with_errno(ret: i64) -> i64 {
    if (-4095..0).contains(&ret) {
        *libc::__errno_location() = (-ret) as i32;
        -1
    } else {
        ret
    }
}

fn futex_wait(word: &AtomicU32, value: u32) {
    unsafe {
        raw_syscall(
            libc::SYS_futex,
            [word.as_ptr() as i64, 128, value as i64, 0, 0, 0],
        );
    }
}

fn futex_wake(word: &AtomicU32) {
    unsafe {
        raw_syscall(libc::SYS_futex, [word.as_ptr() as i64, 129, 1, 0, 0, 0]);
    }
}

// ---------------------------------------------------------------- per-thread state

thread_local! {
    static TASK: Cell<i32> = const { Cell::new(-1) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static IN_SCHED: Cell<bool> = const { Cell::new(false) };
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    static HASH_DRAWS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static MOVED: Cell<u64> = const { Cell::new(0) };
    static CLOCK_NS: Cell<i64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static STEP_LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Memory a single call may hold before the simulated machine says no.
pub const HARD_CAP: i64 = 768 << 20;

// ---------------------------------------------------------------- memory

pub struct Accounting;

impl Accounting {
    #[inline]
    fn charge(bytes: i64) -> bool {
        IN_SUT.with(|s| {
            if !s.get() {
                return true;
            }
            let live = LIVE.get() + bytes;
            if live > HARD_CAP {
                return false;
            }
            LIVE.set(live);
            if live > PEAK.get() {
                PEAK.set(live);
            }
            if bytes > 0 {
                ALLOCS.set(ALLOCS.get() + 1);
                MOVED.set(MOVED.get() + bytes as u64);
                if TASK.get() >= 0 && !IN_SCHED.get() {
                    yield_point(0);
                }
            }
            true
        })
    }
}

unsafe impl GlobalAlloc for Accounting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if !Self::charge(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if !Self::charge(layout.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        Self::charge(-(layout.size() as i64));
        System.dealloc(ptr, layout)
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        // the old and the new block may both be live while it moves
        if !Self::charge(new_size as i64) {
            return std::ptr::null_mut();
        }
        let p = System.realloc(ptr, layout, new_size);
        Self::charge(-(layout.size() as i64));
        p
    }
}

/// Moving what is in a list takes no edge of the code under test, but time.
///
/// # Safety
/// As the function of that name in the C library, which this is instead of.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn memmove(dest: *mut u8, src: *const u8, n: usize) -> *mut u8 {
    if n >= 64 && IN_SUT.get() {
        MOVED.set(MOVED.get() + n as u64);
    }
    if (dest as usize).wrapping_sub(src as usize) >= n {
        std::arch::asm!(
            "rep movsb",
            inout("rcx") n => _, inout("rdi") dest => _, inout("rsi") src => _,
            options(nostack, preserves_flags)
        );
    } else {
        std::arch::asm!(
            "std", "rep movsb", "cld",
            inout("rcx") n => _,
            inout("rdi") dest.wrapping_add(n).wrapping_sub(1) => _,
            inout("rsi") src.wrapping_add(n).wrapping_sub(1) => _,
            options(nostack)
        );
    }
    dest
}

pub struct Usage {
    pub peak: i64,
    pub allocs: u64,
    /// Edges of the code under test that were taken.
    pub steps: u64,
    /// Bytes that were allocated, to be filled, or moved to another place.
    pub moved: u64,
    /// What is still held at the end; less than zero if something of before was let go.
    pub kept: i64,
}

/// Runs `f` as code under test: its allocations are counted and, inside a task, are the
/// points where the scheduler may switch to another task.
pub fn sut<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_SUT.set(false);
        }
    }
    LIVE.set(0);
    PEAK.set(0);
    ALLOCS.set(0);
    MOVED.set(0);
    STEPS.set(0);
    let r = {
        let _reset = Reset;
        IN_SUT.set(true);
        f()
    };
    (
        r,
        Usage {
            peak: PEAK.get(),
            allocs: ALLOCS.get(),
            steps: STEPS.get(),
            moved: MOVED.get(),
            kept: LIVE.get(),
        },
    )
}

/// Leaves the code under test for the time of `f` (used by the panic hook).
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = IN_SUT.replace(false);
    let r = f();
    IN_SUT.set(was);
    r
}

// ---------------------------------------------------------------- steps and edges
//
// The code under test is compiled with edge instrumentation (see rustc-seam.sh): every edge
// it takes calls in here. That is where the scheduler may switch tasks, what time is measured
// in, and where an endless loop is noticed at the same step in every replay.

pub const MAX_EDGES: usize = 1 << 16;
pub const EXIT_STUCK: i32 = 98;

/// What parent and children share: where a child is, and which edges have been seen.
#[repr(C)]
pub struct Board {
    pub run: AtomicU64,
    pub note_len: AtomicU32,
    pub note: UnsafeCell<[u8; 120]>,
    pub edges: [std::sync::atomic::AtomicU8; MAX_EDGES],
}

unsafe impl Sync for Board {}

static BOARD: std::sync::atomic::AtomicPtr<Board> =
    std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static EDGES: AtomicU32 = AtomicU32::new(0);

/// A page that survives `fork` shared.
pub fn new_board() -> &'static Board {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Board>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        &*(p as *const Board)
    }
}

pub fn use_board(b: &'static Board) {
    BOARD.store(b as *const Board as *mut Board, SeqCst);
}

fn board() -> Option<&'static Board> {
    let p = BOARD.load(std::sync::atomic::Ordering::Relaxed);
    unsafe { p.as_ref() }
}

/// Says what is being done, for the case that it is never finished.
pub fn set_progress(what: &str) {
    if let Some(b) = board() {
        let n = what.len().min(120);
        b.note_len.store(0, SeqCst);
        unsafe { (&mut (*b.note.get()))[..n].copy_from_slice(&what.as_bytes()[..n]) };
        b.note_len.store(n as u32, SeqCst);
    }
}

pub fn progress(b: &Board) -> String {
    let n = b.note_len.load(SeqCst) as usize;
    let bytes = unsafe { &(&(*b.note.get()))[..n.min(120)] };
    String::from_utf8_lossy(bytes).into_owned()
}

pub fn edges_instrumented() -> u32 {
    EDGES.load(SeqCst)
}

/// Limits the next calls: beyond this many edges in one call the process gives up.
pub fn allow_steps(n: u64) {
    STEP_LIMIT.set(n);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = EDGES.fetch_add(1, SeqCst) + 1;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !IN_SUT.get() {
        return;
    }
    let n = STEPS.get() + 1;
    STEPS.set(n);
    if let Some(b) = board() {
        let e = &b.edges[*guard as usize & (MAX_EDGES - 1)];
        if e.load(std::sync::atomic::Ordering::Relaxed) == 0 {
            e.store(1, std::sync::atomic::Ordering::Relaxed);
        }
    }
    if n > STEP_LIMIT.get() {
        libc::_exit(EXIT_STUCK);
    }
    if TASK.get() >= 0 && !IN_SCHED.get() {
        yield_point(*guard);
    }
}

// ---------------------------------------------------------------- atomics

/// Place in the code of an atomic operation, wherever it is.
const ATOMIC: u32 = 1;

fn atomic_point() {
    if IN_SUT.get() && TASK.get() >= 0 && !IN_SCHED.get() {
        yield_point(ATOMIC);
    }
}

// Every atomic operation in the code under test comes here (see rustc-seam.sh): between any two
// of them another task may run. Tasks run one at a time, so all are sequentially consistent.
macro_rules! atomics {
    ($t:ty, $a:ty, $load:ident, $store:ident, $swap:ident, $add:ident, $sub:ident, $and:ident,
     $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, _: i32) -> $t {
            atomic_point();
            <$a>::from_ptr(p).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            atomic_point();
            <$a>::from_ptr(p).store(v, SeqCst)
        }
        atomics!($t, $a, $swap swap);
        atomics!($t, $a, $add fetch_add);
        atomics!($t, $a, $sub fetch_sub);
        atomics!($t, $a, $and fetch_and);
        atomics!($t, $a, $or fetch_or);
        atomics!($t, $a, $xor fetch_xor);
        atomics!($t, $a, $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            atomic_point();
            match <$a>::from_ptr(p).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(v) | Err(v) => v,
            }
        }
    };
    ($t:ty, $a:ty, $name:ident $op:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut $t, v: $t, _: i32) -> $t {
            atomic_point();
            <$a>::from_ptr(p).$op(v, SeqCst)
        }
    };
}

atomics!(
    u8, std::sync::atomic::AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store,
    __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub,
    __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor,
    __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val
);
atomics!(
    u16, std::sync::atomic::AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store,
    __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub,
    __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor,
    __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val
);
atomics!(
    u32, std::sync::atomic::AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store,
    __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub,
    __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor,
    __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val
);
atomics!(
    u64, std::sync::atomic::AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store,
    __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub,
    __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor,
    __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val
);

#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    atomic_point();
}

#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

// ---------------------------------------------------------------- randomness and clocks

/// Sets what this (fresh) thread will see as randomness and time.
pub fn enter_world(hash_seed: u64, clock_ns: i64) {
    HASH_SEED.set(hash_seed);
    HASH_DRAWS.set(0);
    CLOCK_NS.set(clock_ns);
}

static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);
static CLOCK_CALLS: AtomicU64 = AtomicU64::new(0);

pub fn random_calls() -> u64 {
    RANDOM_CALLS.load(SeqCst)
}

pub fn clock_calls() -> u64 {
    CLOCK_CALLS.load(SeqCst)
}

unsafe fn fill_random(buf: *mut u8, len: usize) {
    RANDOM_CALLS.fetch_add(1, SeqCst);
    let n = HASH_DRAWS.get();
    HASH_DRAWS.set(n + 1);
    let mut rng = Rng::new(mix(HASH_SEED.get(), n));
    for i in 0..len {
        *buf.add(i) = rng.byte();
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill_random(buf, len);
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut libc::timespec) -> i32 {
    if IN_SUT.get() {
        // every reading moves the simulated clock, and never to a round number
        CLOCK_CALLS.fetch_add(1, SeqCst);
        let now = CLOCK_NS.get() + 1_000_003;
        CLOCK_NS.set(now);
        (*ts).tv_sec = now.div_euclid(1_000_000_000);
        (*ts).tv_nsec = now.rem_euclid(1_000_000_000);
        return 0;
    }
    with_errno(raw_syscall(
        libc::SYS_clock_gettime,
        [clock as i64, ts as i64, 0, 0, 0, 0],
    )) as i32
}

unsafe fn sim_sleep(ts: *const libc::timespec) {
    let d = (*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec;
    CLOCK_NS.set(CLOCK_NS.get().saturating_add(d));
    if TASK.get() >= 0 && !IN_SCHED.get() {
        blocked_point();
    }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if IN_SUT.get() {
        sim_sleep(ts);
        return 0;
    }
    with_errno(raw_syscall(
        libc::SYS_nanosleep,
        [ts as i64, rem as i64, 0, 0, 0, 0],
    )) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: i32,
    flags: i32,
    ts: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if IN_SUT.get() {
        if flags & 1 != 0 {
            CLOCK_NS.set((*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec);
            if TASK.get() >= 0 && !IN_SCHED.get() {
                blocked_point();
            }
        } else {
            sim_sleep(ts);
        }
        return 0;
    }
    let r = raw_syscall(
        libc::SYS_clock_nanosleep,
        [clock as i64, flags as i64, ts as i64, rem as i64, 0, 0],
    );
    -r as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if TASK.get() >= 0 && !IN_SCHED.get() {
        blocked_point();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, [0; 6]) as i32
}

/// std reaches futexes (mutexes, once cells, parking, channels) and, as a fallback, randomness
/// through this function.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom {
        fill_random(a as *mut u8, b as usize);
        return b;
    }
    if n == libc::SYS_futex && TASK.get() >= 0 && IN_SUT.get() && !IN_SCHED.get() {
        match b & 0x7f {
            0 | 9 => {
                // a blocked task is one that cannot make progress: let the others run
                blocked_point();
                return 0;
            }
            _ => yield_point(0),
        }
    }
    with_errno(raw_syscall(n, [a, b, c, d, e, f]))
}

// ---------------------------------------------------------------- scheduler

pub const MAX_TASKS: usize = 6;

#[derive(Clone, Default)]
pub struct Schedule {
    /// Switch to task `.1` at yield point number `.0`.
    pub switches: Vec<(u64, u8)>,
}

pub enum Policy {
    /// At every yield point switch with probability 1/n to a random other task.
    Random { rng: Rng, one_in: u32 },
    /// The same, but the less likely the more often the place in the code was passed, so that
    /// what happens once per call counts as much as what happens per byte; and the other task
    /// often keeps running until its call is over.
    Rare {
        rng: Rng,
        one_in: u32,
        passed: Vec<u32>,
        /// No switch before this step, or the end of a call.
        until: u64,
    },
    /// Exactly these switches.
    Fixed(Schedule),
}

struct State {
    n: usize,
    policy: Policy,
    next_fixed: usize,
    step: u64,
    taken: Vec<(u64, u8)>,
    blocked_run: u32,
    cur: usize,
}

struct Shared {
    state: UnsafeCell<Option<State>>,
    run: [AtomicU32; MAX_TASKS],
    done: [AtomicBool; MAX_TASKS],
    ready: AtomicU32,
    ended: AtomicU32,
}

// SAFETY: `state` is only touched by the one task that holds the baton, and by the main thread
// before the first task is released and after the last one is joined.
unsafe impl Sync for Shared {}

static SHARED: Shared = Shared {
    state: UnsafeCell::new(None),
    run: [const { AtomicU32::new(0) }; MAX_TASKS],
    done: [const { AtomicBool::new(false) }; MAX_TASKS],
    ready: AtomicU32::new(0),
    ended: AtomicU32::new(0),
};

pub const EXIT_DEADLOCK: i32 = 97;

fn pass_baton(me: usize, to: usize, wait: bool) {
    SHARED.run[me].store(0, SeqCst);
    SHARED.run[to].store(1, SeqCst);
    futex_wake(&SHARED.run[to]);
    if wait {
        while SHARED.run[me].load(SeqCst) == 0 {
            futex_wait(&SHARED.run[me], 0);
        }
    }
}

fn others(me: usize, n: usize) -> impl Iterator<Item = usize> {
    (1..n)
        .map(move |k| (me + k) % n)
        .filter(|i| !SHARED.done[*i].load(SeqCst))
}

fn yield_point(place: u32) {
    IN_SCHED.set(true);
    let me = TASK.get() as usize;
    // SAFETY: this task holds the baton
    let st = unsafe { (*SHARED.state.get()).as_mut().unwrap() };
    st.step += 1;
    st.blocked_run = 0;
    let step = st.step;
    let to = match &mut st.policy {
        Policy::Random { rng, one_in } => {
            // dense for a while, sparse afterwards
            let one_in = match place {
                _ if st.taken.len() >= 2_000 => 20_000,
                ATOMIC => (*one_in).min(8) as usize,
                _ => *one_in as usize,
            };
            if rng.below(one_in) == 0 {
                let k = others(me, st.n).count();
                if k > 0 {
                    others(me, st.n).nth(rng.below(k))
                } else {
                    None
                }
            } else {
                None
            }
        }
        Policy::Rare {
            rng,
            one_in,
            passed,
            until,
        } => {
            let n = &mut passed[place as usize & (MAX_EDGES - 1)];
            *n = n.saturating_add(1);
            let dense = if place == ATOMIC { (*one_in).min(8) } else { *one_in };
            let one_in = (*n / 8).max(dense).min(5_000) as usize;
            if step < *until || rng.below(one_in) != 0 {
                None
            } else {
                let k = others(me, st.n).count();
                // not for ever: the task may be waiting for this one
                *until = if rng.p(0.5) { step + 30_000 } else { 0 };
                (k > 0).then(|| rng.below(k)).and_then(|k| others(me, st.n).nth(k))
            }
        }
        Policy::Fixed(s) => {
            let mut to = None;
            while st.next_fixed < s.switches.len() && s.switches[st.next_fixed].0 <= step {
                if s.switches[st.next_fixed].0 == step {
                    let t = s.switches[st.next_fixed].1 as usize;
                    if t != me && t < st.n && !SHARED.done[t].load(SeqCst) {
                        to = Some(t);
                    }
                }
                st.next_fixed += 1;
            }
            to
        }
    };
    if let Some(to) = to {
        if st.taken.len() < 100_000 {
            st.taken.push((step, to as u8));
        }
        st.cur = to;
        pass_baton(me, to, true);
    }
    IN_SCHED.set(false);
}

/// The task is about to make its next call.
pub fn next_call() {
    if TASK.get() >= 0 {
        // SAFETY: this task holds the baton
        let st = unsafe { (*SHARED.state.get()).as_mut().unwrap() };
        if let Policy::Rare { until, .. } = &mut st.policy {
            *until = 0;
        }
    }
}

fn blocked_point() {
    IN_SCHED.set(true);
    let me = TASK.get() as usize;
    let st = unsafe { (*SHARED.state.get()).as_mut().unwrap() };
    st.blocked_run += 1;
    if st.blocked_run > 1_000 {
        // nobody got anywhere for a thousand rounds; allow for threads the code under test
        // may have started itself before calling it a deadlock
        if st.blocked_run > 4_000 {
            unsafe { libc::_exit(EXIT_DEADLOCK) };
        }
        let ts = [0i64, 1_000_000];
        unsafe { raw_syscall(libc::SYS_nanosleep, [ts.as_ptr() as i64, 0, 0, 0, 0, 0]) };
    }
    if let Some(to) = others(me, st.n).next() {
        st.cur = to;
        pass_baton(me, to, true)
    }
    IN_SCHED.set(false);
}

fn finish_task() {
    IN_SCHED.set(true);
    let me = TASK.get() as usize;
    TASK.set(-1);
    let st = unsafe { (*SHARED.state.get()).as_mut().unwrap() };
    SHARED.done[me].store(true, SeqCst);
    st.step += 1;
    let step = st.step;
    let alive: Vec<usize> = others(me, st.n).collect();
    if alive.is_empty() {
        return;
    }
    let to = match &mut st.policy {
        Policy::Random { rng, .. } | Policy::Rare { rng, .. } => {
            let to = alive[rng.below(alive.len())];
            st.taken.push((step, to as u8));
            to
        }
        Policy::Fixed(s) => {
            let mut to = alive[0];
            while st.next_fixed < s.switches.len() && s.switches[st.next_fixed].0 <= step {
                if s.switches[st.next_fixed].0 == step {
                    let t = s.switches[st.next_fixed].1 as usize;
                    if alive.contains(&t) {
                        to = t;
                    }
                }
                st.next_fixed += 1;
            }
            to
        }
    };
    st.cur = to;
    pass_baton(me, to, false);
}

pub struct Ran<T> {
    pub results: Vec<T>,
    pub steps: u64,
    pub taken: Vec<(u64, u8)>,
}

/// Runs the tasks on real threads of which exactly one runs at any time; who runs next is
/// decided by the policy at every allocation, futex operation, sleep and task end.
pub fn run_tasks<T: Send>(
    policy: Policy,
    seeds: &[u64],
    clock_ns: i64,
    tasks: Vec<Box<dyn FnOnce() -> T + Send + '_>>,
) -> Ran<T> {
    let n = tasks.len();
    assert!(n >= 1 && n <= MAX_TASKS);
    for i in 0..MAX_TASKS {
        SHARED.run[i].store(0, SeqCst);
        SHARED.done[i].store(false, SeqCst);
    }
    SHARED.ready.store(0, SeqCst);
    SHARED.ended.store(0, SeqCst);
    unsafe {
        *SHARED.state.get() = Some(State {
            n,
            policy,
            next_fixed: 0,
            step: 0,
            taken: Vec::with_capacity(1024),
            blocked_run: 0,
            cur: 0,
        });
    }
    let mut results: Vec<Option<T>> = (0..n).map(|_| None).collect();
    std::thread::scope(|scope| {
        for ((i, task), slot) in tasks.into_iter().enumerate().zip(results.iter_mut()) {
            let seed = seeds[i];
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(scope, move || {
                    enter_world(seed, clock_ns);
                    SHARED.ready.fetch_add(1, SeqCst);
                    while SHARED.run[i].load(SeqCst) == 0 {
                        futex_wait(&SHARED.run[i], 0);
                    }
                    TASK.set(i as i32);
                    *slot = Some(task());
                    finish_task();
                    // nobody takes down its thread while another task still runs
                    if SHARED.ended.fetch_add(1, SeqCst) as usize + 1 == n {
                        for t in 0..n {
                            SHARED.run[t].store(2, SeqCst);
                            futex_wake(&SHARED.run[t]);
                        }
                    } else {
                        loop {
                            let v = SHARED.run[i].load(SeqCst);
                            if v == 2 {
                                break;
                            }
                            futex_wait(&SHARED.run[i], v);
                        }
                    }
                })
                .expect("spawn task");
            // one after the other, so that memory is laid out the same way every time
            while (SHARED.ready.load(SeqCst) as usize) <= i {
                std::thread::yield_now();
            }
        }
        SHARED.run[0].store(1, SeqCst);
        futex_wake(&SHARED.run[0]);
    });
    let st = unsafe { (*SHARED.state.get()).take().unwrap() };
    Ran {
        results: results.into_iter().map(|r| r.expect("task result")).collect(),
        steps: st.step,
        taken: st.taken,
    }
}

/// Runs `f` on a fresh thread with its own randomness and clock.
pub fn fresh_thread<T: Send>(hash_seed: u64, clock_ns: i64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                enter_world(hash_seed, clock_ns);
                f()
            })
            .expect("spawn")
            .join()
            .expect("harness thread")
    })
}

pub fn drop_board(b: &'static Board) {
    if std::ptr::eq(BOARD.load(SeqCst), b) {
        BOARD.store(std::ptr::null_mut(), SeqCst);
    }
    unsafe {
        libc::munmap(b as *const Board as *mut libc::c_void, std::mem::size_of::<Board>());
    }
}
