//! Everything the operating system would decide: hash seeds, wall clock, heap
//! layout, process isolation and limits. The C functions that the Rust standard
//! library calls for them are defined here, so that the executable's own
//! definitions are used in place of the C library's.

use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

#[allow(suspicious_runtime_symbol_definitions)]
unsafe extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn malloc(n: usize) -> *mut u8;
    fn free(p: *mut u8);
    fn calloc(n: usize, m: usize) -> *mut u8;
    fn realloc(p: *mut u8, n: usize) -> *mut u8;
    fn aligned_alloc(a: usize, n: usize) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn __errno_location() -> *mut i32;
}

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}

// ---------------------------------------------------------------- raw syscalls

pub unsafe fn raw_syscall(n: usize, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r,
            in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5],
            lateout("rcx") _, lateout("r11") _);
    }
    r
}

fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}

/// Stand-in for the C library's `syscall`, which the standard library uses for
/// futexes. Threads under the simulated scheduler never block in the kernel.
///
/// # Safety
/// As the C function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(
    n: usize,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> isize {
    if n == 202
        && let Some(r) = crate::sched::futex(a, b, c, d)
    {
        if r < 0 {
            set_errno(-r as i32);
            return -1;
        }
        return r;
    }
    let r = unsafe { raw_syscall(n, [a, b, c, d, e, f]) };
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        return -1;
    }
    r
}

// ---------------------------------------------------------------- randomness

pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);
pub static RANDOM_CALLS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static DRAWS: Cell<u64> = const { Cell::new(0) };
    pub static TID: Cell<i32> = const { Cell::new(-1) };
}

/// Stand-in for the C library's `getrandom`, the source of hash map seeds.
///
/// # Safety
/// As the C function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    RANDOM_CALLS.fetch_add(1, Relaxed);
    let tid = TID.with(|t| t.get()) as u64;
    let n = DRAWS.with(|d| {
        d.set(d.get() + 1);
        d.get()
    });
    let mut r = crate::rng::Rng::new(HASH_SEED.load(Relaxed) ^ (tid << 48) ^ (n << 32));
    for i in 0..len {
        unsafe { *buf.add(i) = r.next() as u8 }
    }
    len as isize
}

// ---------------------------------------------------------------- wall clock

pub static CLOCK_ON: AtomicBool = AtomicBool::new(false);
pub static CLOCK: AtomicU64 = AtomicU64::new(0);

/// Stand-in for the C library's `clock_gettime`: while a run is simulated,
/// every reading advances the simulated clock by a millisecond.
///
/// # Safety
/// As the C function.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if CLOCK_ON.load(Relaxed) {
        let ms = CLOCK.fetch_add(1, Relaxed);
        unsafe { *ts = [(ms / 1000) as i64, (ms % 1000) as i64 * 1_000_000] };
        return 0;
    }
    unsafe { raw_syscall(228, [id as usize, ts as usize, 0, 0, 0, 0]) as i32 }
}

// ---------------------------------------------------------------- heap

pub struct Heap;

pub static HEAP_SEED: AtomicU64 = AtomicU64::new(0);
static HEAP_STEP: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

pub const EXIT_DEADLOCK: i32 = 77;
pub const EXIT_MEMORY: i32 = 78;

/// Bytes allocated so far.
pub static BYTES: AtomicU64 = AtomicU64::new(0);

#[inline]
fn account(n: usize) {
    BYTES.store(BYTES.load(Relaxed) + n as u64, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if live > LIMIT.load(Relaxed) && live < usize::MAX / 2 {
        unsafe { _exit(EXIT_MEMORY) }
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::sched::alloc_point();
        account(l.size());
        let hs = HEAP_SEED.load(Relaxed);
        if l.align() > 16 {
            return unsafe { aligned_alloc(l.align(), l.size().next_multiple_of(l.align())) };
        }
        if hs == 0 {
            return unsafe { malloc(l.size()) };
        }
        let r = crate::rng::mix(hs ^ HEAP_STEP.fetch_add(1, Relaxed));
        let pad = if r % 7 == 0 { (r >> 8) as usize % 4096 } else { (r >> 8) as usize % 48 };
        let p = unsafe { malloc(l.size() + pad) };
        if !p.is_null() {
            unsafe { p.write_bytes((r >> 24) as u8, l.size().min(1 << 16)) };
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        if HEAP_SEED.load(Relaxed) != 0 {
            unsafe { p.write_bytes(0xDD, l.size()) };
        }
        unsafe { free(p) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            let p = unsafe { self.alloc(l) };
            if !p.is_null() {
                unsafe { p.write_bytes(0, l.size()) };
            }
            return p;
        }
        crate::sched::alloc_point();
        account(l.size());
        unsafe { calloc(1, l.size().max(1)) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.align() > 16 || HEAP_SEED.load(Relaxed) != 0 {
            let nl = unsafe { Layout::from_size_align_unchecked(n, l.align()) };
            let q = unsafe { self.alloc(nl) };
            if !q.is_null() {
                unsafe {
                    q.copy_from_nonoverlapping(p, l.size().min(n));
                    self.dealloc(p, l);
                }
            }
            return q;
        }
        crate::sched::alloc_point();
        LIVE.fetch_sub(l.size(), Relaxed);
        account(n);
        unsafe { realloc(p, n) }
    }
}

// ---------------------------------------------------------------- processes

#[derive(Clone, Debug, PartialEq)]
pub enum Death {
    /// Used more processor time than the limit.
    CpuLimit,
    /// No thread could run any more.
    Deadlock,
    Memory,
    /// Stack overflow or another fatal signal.
    Signal(i32),
    Exit(i32),
    /// Neither ended nor used processor time.
    Stalled,
}

impl Death {
    pub fn describe(&self) -> String {
        match self {
            Death::CpuLimit => "did not return within the processor time limit".into(),
            Death::Deadlock => "every thread is blocked forever".into(),
            Death::Memory => "exceeded the memory limit".into(),
            Death::Signal(11) | Death::Signal(7) => {
                "fatal memory fault (stack exhausted or invalid access)".into()
            }
            Death::Signal(6) => "process aborted".into(),
            Death::Signal(s) => format!("killed by signal {s}"),
            Death::Exit(c) => format!("process ended with status {c}"),
            Death::Stalled => "stopped making progress".into(),
        }
    }
}

pub struct Limits {
    pub cpu_ms: u64,
    pub wall_ms: u64,
    pub mem: usize,
}

/// Most documents take milliseconds, the largest some tenths of a second.
pub const LIMITS: Limits = Limits { cpu_ms: 10_000, wall_ms: 120_000, mem: 1 << 30 };

/// Runs `f` in a forked child process and returns the bytes it produced.
pub fn in_child<F: FnOnce() -> Vec<u8>>(lim: &Limits, f: F) -> Result<Vec<u8>, Death> {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe failed");
        }
        let pid = fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            close(fds[0]);
            prctl(1, 9, 0, 0, 0); // PR_SET_PDEATHSIG, SIGKILL
            limit_self(lim);
            let out = f();
            CLOCK_ON.store(false, Relaxed);
            let mut off = 0;
            let len = (out.len() as u64).to_le_bytes();
            let mut msg = len.to_vec();
            msg.extend_from_slice(&out);
            while off < msg.len() {
                let n = write(fds[1], msg.as_ptr().add(off), msg.len() - off);
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut buf: Vec<u8> = Vec::with_capacity(1 << 14);
        let mut killed = false;
        let start = now_ms();
        loop {
            let mut p = PollFd { fd: fds[0], events: 1, revents: 0 };
            let left = (start + lim.wall_ms).saturating_sub(now_ms());
            let r = poll(&mut p, 1, left.min(1_000_000) as i32);
            if r == 0 && now_ms() >= start + lim.wall_ms {
                killed = true;
                kill(pid, 9);
                break;
            }
            if r <= 0 {
                continue;
            }
            if buf.capacity() - buf.len() < 1 << 14 {
                buf.reserve(buf.len().max(1 << 14));
            }
            let n = read(fds[0], buf.as_mut_ptr().add(buf.len()), buf.capacity() - buf.len());
            if n <= 0 {
                break;
            }
            buf.set_len(buf.len() + n as usize);
        }
        close(fds[0]);
        let mut st = 0i32;
        while waitpid(pid, &mut st, 0) < 0 {}
        if killed {
            return Err(Death::Stalled);
        }
        if let Some(d) = death(st, buf.len().saturating_sub(7)) {
            return Err(d);
        }
        let n = u64::from_le_bytes(buf[..8].try_into().unwrap()) as usize;
        if buf.len() != n + 8 {
            return Err(Death::Exit(0));
        }
        buf.drain(..8);
        Ok(buf)
    }
}

/// Processor time and memory limits of this process.
pub fn limit_self(lim: &Limits) {
    // (For experiments.)
    let ms = std::env::var("ADSIM_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(lim.cpu_ms);
    let it = [0, 0, (ms / 1000) as i64, (ms % 1000) as i64 * 1000];
    unsafe { setitimer(2, &it, std::ptr::null_mut()) }; // ITIMER_PROF
    LIMIT.store(LIVE.load(Relaxed).wrapping_add(lim.mem), Relaxed);
}

fn death(st: i32, len: usize) -> Option<Death> {
    let sig = st & 0x7f;
    let code = (st >> 8) & 0xff;
    match (sig, code) {
        (27, _) => Some(Death::CpuLimit),
        (s, _) if s != 0 => Some(Death::Signal(s)),
        (_, EXIT_DEADLOCK) => Some(Death::Deadlock),
        (_, EXIT_MEMORY) => Some(Death::Memory),
        (_, 0) if len > 0 => None,
        (_, c) => Some(Death::Exit(c)),
    }
}

/// Runs a plan in a newly started process of this program.
pub fn in_new_process(input: &str) -> Result<Vec<u8>, Death> {
    use std::io::{Read, Write};
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().unwrap_or_else(|_| "/proc/self/exe".into());
    let mut c = Command::new(exe)
        .arg("exec-plan")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|_| Death::Exit(9))?;
    let mut i = c.stdin.take().unwrap();
    let _ = i.write_all(input.as_bytes());
    drop(i);
    let mut out = vec![];
    let _ = c.stdout.take().unwrap().read_to_end(&mut out);
    let st = c.wait().map_err(|_| Death::Exit(9))?;
    match death(st.into_raw(), out.len()) {
        Some(d) => Err(d),
        None => Ok(out),
    }
}

/// Turns off address space randomisation for this program by starting it again
/// (if the system allows it).
pub fn fixed_addresses() {
    use std::os::unix::process::CommandExt;
    if std::env::var_os("ADSIM_FIXED").is_some() {
        return;
    }
    let old = unsafe { raw_syscall(135, [0xffff_ffff, 0, 0, 0, 0, 0]) };
    if old < 0 || old & 0x0040_0000 != 0 {
        return;
    }
    if unsafe { raw_syscall(135, [old as usize | 0x0040_0000, 0, 0, 0, 0, 0]) } < 0 {
        return;
    }
    let exe = std::env::current_exe().unwrap_or_else(|_| "/proc/self/exe".into());
    let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("ADSIM_FIXED", "1").exec();
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

pub fn now_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { raw_syscall(228, [1, &mut ts as *mut _ as usize, 0, 0, 0, 0]) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

/// A child process that streams records to its parent.
pub struct Worker {
    pub pid: i32,
    fd: i32,
    buf: Vec<u8>,
    pub done: bool,
}

pub struct Sink {
    fd: i32,
}

impl Sink {
    pub fn send(&mut self, rec: &str) {
        let mut msg = (rec.len() as u64).to_le_bytes().to_vec();
        msg.extend_from_slice(rec.as_bytes());
        let mut off = 0;
        while off < msg.len() {
            let n = unsafe { write(self.fd, msg.as_ptr().add(off), msg.len() - off) };
            if n <= 0 {
                exit_now(9);
            }
            off += n as usize;
        }
    }
}

pub fn spawn_worker<F: FnOnce(&mut Sink)>(f: F) -> Worker {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe failed");
        }
        let pid = fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            close(fds[0]);
            prctl(1, 9, 0, 0, 0);
            let mut s = Sink { fd: fds[1] };
            f(&mut s);
            _exit(0);
        }
        close(fds[1]);
        Worker { pid, fd: fds[0], buf: vec![], done: false }
    }
}

/// Waits for records of any worker; calls `f` for each one.
pub fn pump<F: FnMut(usize, String)>(ws: &mut [Worker], timeout_ms: i32, mut f: F) {
    unsafe {
        let live: Vec<usize> = (0..ws.len()).filter(|i| !ws[*i].done).collect();
        let mut p: Vec<PollFd> =
            live.iter().map(|i| PollFd { fd: ws[*i].fd, events: 1, revents: 0 }).collect();
        if poll(p.as_mut_ptr(), p.len() as u64, timeout_ms) <= 0 {
            return;
        }
        for (k, i) in live.iter().enumerate() {
            if p[k].revents == 0 {
                continue;
            }
            let w = &mut ws[*i];
            let mut tmp = vec![0u8; 1 << 16];
            let n = read(w.fd, tmp.as_mut_ptr(), tmp.len());
            if n <= 0 {
                w.done = true;
                close(w.fd);
                let mut st = 0;
                waitpid(w.pid, &mut st, 0);
                continue;
            }
            w.buf.extend_from_slice(&tmp[..n as usize]);
            while w.buf.len() >= 8 {
                let n = u64::from_le_bytes(w.buf[..8].try_into().unwrap()) as usize;
                if w.buf.len() < 8 + n {
                    break;
                }
                let rec = String::from_utf8_lossy(&w.buf[8..8 + n]).into_owned();
                w.buf.drain(..8 + n);
                f(*i, rec);
            }
        }
    }
}

pub fn kill_worker(w: &mut Worker) {
    if !w.done {
        unsafe {
            kill(w.pid, 9);
            close(w.fd);
            let mut st = 0;
            waitpid(w.pid, &mut st, 0);
        }
        w.done = true;
    }
}
