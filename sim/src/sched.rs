//! The simulated thread scheduler. Client threads are real threads, but only
//! the one that holds the baton runs. The baton can change hands at every basic
//! block of the library (which is built with a call in each, see `wrap.sh`),
//! heap allocation, callback and lock operation; where it does is decided by the
//! plan's list of switches, so that a plan is one exact interleaving.

use crate::sys::{EXIT_DEADLOCK, TID, exit_now, raw_syscall};
use std::sync::atomic::{
    AtomicBool, AtomicPtr, AtomicU8, AtomicU32, AtomicU64, AtomicUsize,
    Ordering::{Relaxed, SeqCst},
};

const MAX: usize = 8;
const RUN: u8 = 0;
const WAIT: u8 = 1;
const DONE: u8 = 2;

static ON: AtomicBool = AtomicBool::new(false);
static N: AtomicUsize = AtomicUsize::new(0);
static CUR: AtomicU32 = AtomicU32::new(u32::MAX);
static STATE: [AtomicU8; MAX] = [const { AtomicU8::new(DONE) }; MAX];
static ADDR: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static STEP: AtomicU64 = AtomicU64::new(0);
static STEPS: [AtomicU64; MAX] = [const { AtomicU64::new(0) }; MAX];
static LAST: AtomicU64 = AtomicU64::new(0);
static NEXT_AT: [AtomicU64; MAX] = [const { AtomicU64::new(u64::MAX) }; MAX];
static NEXT_IX: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static LIST: [AtomicPtr<(u64, u64)>; MAX] = [const { AtomicPtr::new(std::ptr::null_mut()) }; MAX];
static LIST_LEN: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
/// Steps of one thread after which another one runs if none is due before.
const TURN: u64 = 2_000_000;
pub static TAKEN: AtomicU64 = AtomicU64::new(0);
pub static BLOCKED: AtomicU64 = AtomicU64::new(0);
/// Hash of the sequence of (step, thread) at which the baton changed hands.
pub static PATH: AtomicU64 = AtomicU64::new(0);

/// A switch after that many steps of a thread.
pub fn at(thread: usize, step: u64) -> u64 {
    (thread as u64) << 48 | step
}

pub fn start(n: usize, switches: &[(u64, u64)]) {
    for i in 0..MAX {
        let mut v: Vec<(u64, u64)> =
            switches.iter().filter(|x| x.0 >> 48 == i as u64).map(|x| (x.0 & ((1 << 48) - 1), x.1)).collect();
        v.sort();
        let l: &'static mut [(u64, u64)] = Box::leak(v.into_boxed_slice());
        LIST_LEN[i].store(l.len(), SeqCst);
        NEXT_AT[i].store(l.first().map_or(u64::MAX, |x| x.0), SeqCst);
        LIST[i].store(l.as_mut_ptr(), SeqCst);
        NEXT_IX[i].store(0, SeqCst);
        STEPS[i].store(0, SeqCst);
    }
    STEP.store(0, SeqCst);
    LAST.store(0, SeqCst);
    N.store(n, SeqCst);
    for s in STATE.iter().take(n) {
        s.store(RUN, SeqCst);
    }
    ON.store(true, SeqCst);
}

/// Hands the baton to the first thread. Called once all threads are waiting.
pub fn go() {
    pass(0);
}

pub fn steps() -> u64 {
    STEP.load(SeqCst)
}

fn pass(to: u32) {
    CUR.store(to, SeqCst);
    unsafe { raw_syscall(202, [CUR.as_ptr() as usize, 1, i32::MAX as usize, 0, 0, 0]) };
}

fn wait_turn(me: u32) {
    loop {
        let c = CUR.load(SeqCst);
        if c == me {
            return;
        }
        unsafe { raw_syscall(202, [CUR.as_ptr() as usize, 0, c as usize, 0, 0, 0]) };
    }
}

/// Called by a client thread before anything else.
pub fn enter(me: i32) {
    TID.with(|t| t.set(me));
    wait_turn(me as u32);
}

/// Called by a client thread when it is finished.
pub fn leave(me: i32) {
    TID.with(|t| t.set(-1));
    STATE[me as usize].store(DONE, SeqCst);
    match choose(me as usize, 0) {
        Some(t) => pass(t as u32),
        None => {
            if (0..N.load(SeqCst)).any(|i| STATE[i].load(SeqCst) == WAIT) {
                exit_now(EXIT_DEADLOCK);
            }
        }
    }
}

/// The choice-th runnable thread after `me`, other than `me`.
fn choose(me: usize, choice: u64) -> Option<usize> {
    let n = N.load(SeqCst);
    let mut c = [0usize; MAX];
    let mut k = 0;
    for d in 1..n {
        let i = (me + d) % n;
        if STATE[i].load(SeqCst) == RUN {
            c[k] = i;
            k += 1;
        }
    }
    if k == 0 { None } else { Some(c[choice as usize % k]) }
}

fn switch_to(me: usize, t: usize) {
    TAKEN.fetch_add(1, SeqCst);
    let p = PATH.load(SeqCst);
    PATH.store(crate::rng::mix(p ^ STEP.load(SeqCst) ^ ((t as u64) << 56)), SeqCst);
    LAST.store(STEP.load(SeqCst), SeqCst);
    pass(t as u32);
    wait_turn(me as u32);
}

fn point(force: bool) {
    let me = TID.with(|t| t.get());
    if me < 0 {
        return;
    }
    let me = me as usize;
    // (Only the thread with the baton gets here.)
    let g = STEP.load(Relaxed) + 1;
    STEP.store(g, Relaxed);
    let s = STEPS[me].load(Relaxed) + 1;
    STEPS[me].store(s, Relaxed);
    if s >= NEXT_AT[me].load(Relaxed) {
        let i = NEXT_IX[me].load(Relaxed);
        let l = LIST[me].load(Relaxed);
        let choice = unsafe { (*l.add(i)).1 };
        NEXT_IX[me].store(i + 1, Relaxed);
        let at = if i + 1 < LIST_LEN[me].load(Relaxed) { unsafe { (*l.add(i + 1)).0 } } else { u64::MAX };
        NEXT_AT[me].store(at, Relaxed);
        if let Some(t) = choose(me, choice) {
            switch_to(me, t);
        }
    } else if (force || g - LAST.load(Relaxed) > TURN)
        && let Some(t) = choose(me, 0)
    {
        switch_to(me, t);
    }
}

// ---------------------------------------------------------------- basic blocks

#[derive(Clone, Copy, Default)]
struct Slot {
    count: u64,
    first: u64,
    some: u64,
}

impl Slot {
    fn note(&mut self, k: usize, me: usize) {
        let now = at(me, STEPS[me].load(Relaxed) + 1);
        self.count += 1;
        if self.count == 1 {
            self.first = now;
        }
        if crate::rng::mix(self.count ^ (k as u64) << 32) % self.count == 0 {
            self.some = now;
        }
    }
}

/// Basic blocks of the library run so far (meaningful while one thread runs).
pub static WORK: AtomicU64 = AtomicU64::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
/// The block that runs (while it is recorded).
static BLOCK: AtomicUsize = AtomicUsize::new(0);
static PROFILE: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());

/// Numbers the library's basic blocks. Called when the program starts.
///
/// # Safety
/// As the instrumentation calls it.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let n = stop.offset_from(start) as usize;
        let k = BLOCKS.fetch_add(n, SeqCst);
        for i in 0..n {
            *start.add(i) = (k + i) as u32 + 1;
        }
    }
}

/// Called in every basic block of the library.
///
/// # Safety
/// As the instrumentation calls it.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    WORK.store(WORK.load(Relaxed).wrapping_add(1), Relaxed);
    if ON.load(Relaxed) {
        let p = PROFILE.load(Relaxed);
        let me = TID.with(|t| t.get());
        if !p.is_null() && me >= 0 {
            let k = unsafe { *guard } as usize;
            BLOCK.store(k, Relaxed);
            unsafe { (*p.add(2 * k)).note(2 * k, me as usize) };
        }
        point(false);
    }
}

/// After an atomic operation of the library.
pub fn sync_point() {
    if ON.load(Relaxed) {
        let p = PROFILE.load(Relaxed);
        let me = TID.with(|t| t.get());
        if !p.is_null() && me >= 0 {
            let k = 2 * BLOCK.load(Relaxed) + 1;
            unsafe { (*p.add(k)).note(k, me as usize) };
        }
        point(false);
    }
}

pub fn instrumented() -> bool {
    BLOCKS.load(SeqCst) > 1000
}

/// From now on, records where the basic blocks are run.
pub fn profile() {
    let v = vec![Slot::default(); 2 * BLOCKS.load(SeqCst) + 2];
    PROFILE.store(Box::leak(v.into_boxed_slice()).as_mut_ptr(), SeqCst);
}

/// The steps of each thread, positions in different basic blocks, and positions
/// right after different atomic operations.
pub fn profiled(seed: u64, max: usize) -> (Vec<u64>, Vec<u64>, Vec<u64>) {
    let lens = (0..N.load(SeqCst)).map(|i| STEPS[i].load(SeqCst)).collect();
    let p = PROFILE.load(SeqCst);
    let mut v: [Vec<(u64, u64)>; 2] = [vec![], vec![]];
    if !p.is_null() {
        for k in 2..2 * BLOCKS.load(SeqCst) + 2 {
            let s = unsafe { *p.add(k) };
            if s.count > 0 {
                let h = crate::rng::mix(seed ^ k as u64);
                v[k & 1].push((h, if h & 1 == 0 { s.first } else { s.some }));
            }
        }
    }
    let [a, b] = v.map(|mut v| {
        v.sort();
        v.truncate(max);
        v.into_iter().map(|x| x.1).collect()
    });
    (lens, a, b)
}

#[inline]
pub fn alloc_point() {
    if ON.load(Relaxed) {
        point(false);
    }
}

/// A callback stalls: another thread runs first.
pub fn stall() {
    if ON.load(Relaxed) {
        point(true);
    }
}

/// Futex operations of threads under the scheduler. `None`: not ours.
pub fn futex(addr: usize, op: usize, val: usize, timeout: usize) -> Option<isize> {
    let me = TID.with(|t| t.get());
    if me < 0 {
        return None;
    }
    let me = me as usize;
    if !ON.load(Relaxed) {
        // A single thread under simulation: waiting means waiting forever.
        if matches!(op & 0x7f, 0 | 9) {
            let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur == val as u32 && timeout == 0 {
                exit_now(EXIT_DEADLOCK);
            }
        }
        return None;
    }
    match op & 0x7f {
        0 | 9 => {
            let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur != val as u32 {
                return Some(-11); // EAGAIN
            }
            BLOCKED.fetch_add(1, SeqCst);
            STATE[me].store(WAIT, SeqCst);
            ADDR[me].store(addr, SeqCst);
            match choose(me, 0) {
                Some(t) => {
                    switch_to(me, t);
                    Some(0)
                }
                None => {
                    STATE[me].store(RUN, SeqCst);
                    if timeout != 0 {
                        return Some(-110); // ETIMEDOUT
                    }
                    exit_now(EXIT_DEADLOCK)
                }
            }
        }
        1 | 10 => {
            let mut k = 0;
            for i in 0..N.load(SeqCst) {
                if k < val && STATE[i].load(SeqCst) == WAIT && ADDR[i].load(SeqCst) == addr {
                    STATE[i].store(RUN, SeqCst);
                    k += 1;
                }
            }
            point(false);
            Some(k as isize)
        }
        _ => None,
    }
}
