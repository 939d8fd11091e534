//! Everything nondeterministic the code under test can reach, owned by the
//! simulator: entropy, clocks, thread scheduling, and the point at which a
//! process dies. Entropy enters through the patched `rand` crate and through
//! the interposed libc symbols; scheduling and crash points come from the edge
//! instrumentation of the code under test (see rustc-wrap.sh).
use crate::prng::{mix, mix_bytes, Prng};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering};

// ---------------------------------------------------------------- raw syscalls
#[inline(always)]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn raw(n: i64, a: [i64; 6]) -> i64 {
    raw6(n, a[0], a[1], a[2], a[3], a[4], a[5])
}

pub fn in_node() -> bool {
    IN_NODE.load(Ordering::Relaxed)
}

pub fn real_now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { raw6(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

// ---------------------------------------------------------------- entropy
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultKind {
    Zero,
    Ones,
    /// every draw in the range returns the bytes of the first one (cycled)
    Stuck,
    /// an 8-byte period
    Period,
    /// most bits zero
    Sparse,
    /// most bits one
    Dense,
    /// the draw fails
    Fail,
    /// the source cannot be opened (index counts opens, not draws)
    OpenFail,
    /// draw `at` differs in byte `len - 1`, or in every byte if `len` is 0
    Flip,
}

pub const FAULT_KINDS: [(FaultKind, &str); 9] = [
    (FaultKind::Zero, "zero"),
    (FaultKind::Ones, "ones"),
    (FaultKind::Stuck, "stuck"),
    (FaultKind::Period, "period"),
    (FaultKind::Sparse, "sparse"),
    (FaultKind::Dense, "dense"),
    (FaultKind::Fail, "fail"),
    (FaultKind::OpenFail, "openfail"),
    (FaultKind::Flip, "flip"),
];

#[derive(Clone, Debug)]
pub struct Fault {
    pub kind: FaultKind,
    pub at: u64,
    pub len: u64,
}

pub fn fault_name(k: FaultKind) -> &'static str {
    FAULT_KINDS.iter().find(|x| x.0 == k).unwrap().1
}

/// `seed[,buf][,kind@at+len]*`
#[derive(Clone, Debug)]
pub struct EntropySpec {
    pub seed: u64,
    /// `thread_rng` hands out what it keeps in its block before it asks again
    pub buf: bool,
    pub faults: Vec<Fault>,
}

impl EntropySpec {
    pub fn plain(seed: u64) -> Self {
        EntropySpec { seed, buf: false, faults: vec![] }
    }
    pub fn fmt(&self) -> String {
        let mut s = format!("{:x}{}", self.seed, if self.buf { ",buf" } else { "" });
        for f in &self.faults {
            s += &format!(",{}@{}+{}", fault_name(f.kind), f.at, f.len);
        }
        s
    }
    pub fn parse(s: &str) -> Option<Self> {
        let mut it = s.split(',');
        let seed = u64::from_str_radix(it.next()?, 16).ok()?;
        let mut faults = vec![];
        let mut buf = false;
        for f in it {
            if f == "buf" {
                buf = true;
                continue;
            }
            let (k, r) = f.split_once('@')?;
            let (a, l) = r.split_once('+')?;
            let kind = FAULT_KINDS.iter().find(|x| x.1 == k)?.0;
            faults.push(Fault { kind, at: a.parse().ok()?, len: l.parse().ok()? });
        }
        Some(EntropySpec { seed, buf, faults })
    }
}

#[derive(Clone, Default, Debug)]
pub struct EntropyStats {
    pub draws: u64,
    pub opens: u64,
    pub bytes: u64,
    pub os_bytes: u64,
    pub faults: [u64; 9],
    /// lengths of the first draws
    pub lens: Vec<u32>,
    pub hash: u64,
    /// the first draws themselves
    pub drawn: Vec<Vec<u8>>,
    /// most memory held during the operation
    pub peak: i64,
}

struct Entropy {
    rng: Prng,
    spec: EntropySpec,
    stuck: Vec<u8>,
    st: EntropyStats,
}

thread_local! {
    static ENT: RefCell<Option<Entropy>> = const { RefCell::new(None) };
}
static FOREIGN: AtomicU64 = AtomicU64::new(0);

pub fn set_entropy(spec: &EntropySpec) {
    ENT.with(|e| {
        *e.borrow_mut() = Some(Entropy {
            rng: Prng::new(spec.seed ^ 0xE47),
            spec: spec.clone(),
            stuck: vec![],
            st: EntropyStats::default(),
        })
    });
}

pub fn take_entropy() -> EntropyStats {
    ENT.with(|e| e.borrow_mut().take().map(|x| x.st).unwrap_or_default())
}

/// the entropy of the operation under way, set aside for nested ones
pub struct Outer(Option<Entropy>);
pub fn suspend_entropy() -> Outer {
    Outer(ENT.with(|e| e.borrow_mut().take()))
}
pub fn resume_entropy(o: Outer) {
    ENT.with(|e| *e.borrow_mut() = o.0);
}

fn ent_fill(dest: &mut [u8], os: bool) -> bool {
    // probes whether the source is there
    if dest.is_empty() {
        return true;
    }
    ENT.with(|e| {
        let mut e = e.borrow_mut();
        let e = match e.as_mut() {
            Some(e) => e,
            None => {
                // a thread the simulator did not start: still deterministic
                let n = FOREIGN.fetch_add(1, Ordering::Relaxed);
                Prng::new(0xF0E1 ^ n).fill(dest);
                return true;
            }
        };
        let before = dest.to_vec();
        e.rng.fill(dest);
        let i = e.st.draws;
        e.st.draws += 1;
        if e.st.lens.len() < 300 {
            e.st.lens.push(dest.len() as u32);
        }
        if os {
            e.st.os_bytes += dest.len() as u64;
        } else {
            e.st.bytes += dest.len() as u64;
        }
        let mut ok = true;
        for f in &e.spec.faults {
            if f.kind == FaultKind::Flip && i == f.at {
                for (j, b) in dest.iter_mut().enumerate() {
                    if f.len == 0 || f.len - 1 == j as u64 {
                        *b ^= 0x55;
                    }
                }
                e.st.faults[f.kind as usize] += 1;
                continue;
            }
            if matches!(f.kind, FaultKind::OpenFail | FaultKind::Flip) || i < f.at || i - f.at >= f.len {
                continue;
            }
            e.st.faults[f.kind as usize] += 1;
            match f.kind {
                FaultKind::Zero => dest.fill(0),
                FaultKind::Ones => dest.fill(0xFF),
                FaultKind::Stuck => {
                    if i == f.at || e.stuck.is_empty() {
                        e.stuck = dest.to_vec();
                    } else {
                        let n = e.stuck.len();
                        for (j, b) in dest.iter_mut().enumerate() {
                            *b = e.stuck[j % n];
                        }
                    }
                }
                FaultKind::Period => {
                    let mut p = [0u8; 8];
                    p.copy_from_slice(&mix(e.spec.seed, f.at).to_le_bytes());
                    for (j, b) in dest.iter_mut().enumerate() {
                        *b = p[j % 8];
                    }
                }
                FaultKind::Sparse | FaultKind::Dense => {
                    let mut m = vec![0u8; dest.len()];
                    for _ in 0..4 {
                        e.rng.fill(&mut m);
                        for (b, x) in dest.iter_mut().zip(&m) {
                            *b = if f.kind == FaultKind::Sparse { *b & *x } else { *b | *x };
                        }
                    }
                }
                FaultKind::Fail => ok = false,
                FaultKind::OpenFail | FaultKind::Flip => {}
            }
            break;
        }
        e.st.hash = mix_bytes(e.st.hash, dest);
        if dest.len() >= 8 && e.st.drawn.len() < 40 {
            e.st.drawn.push(dest.to_vec());
        }
        if !ok {
            // a failing call delivers nothing
            dest.copy_from_slice(&before);
        }
        ok
    })
}

#[no_mangle]
fn __festa_sim_rng_fill(dest: *mut u8, len: usize) -> bool {
    let d = unsafe { std::slice::from_raw_parts_mut(dest, len) };
    let ok = if ENT.with(|e| e.borrow().as_ref().is_some_and(|e| e.spec.buf)) {
        block_fill(d)
    } else {
        ent_fill(d, false)
    };
    sched_point();
    ok
}

/// bytes rand's thread-local generator makes at a time. It keeps those it has not
/// handed out yet, across operations and also across a fork: a fork is noticed
/// when the next block is made.
const BLOCK: usize = 256;
thread_local! {
    static UNUSED: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
}

fn block_fill(mut d: &mut [u8]) -> bool {
    UNUSED.with(|l| {
        let mut l = l.borrow_mut();
        while !d.is_empty() {
            if l.is_empty() {
                let mut b = vec![0u8; BLOCK];
                if !ent_fill(&mut b, false) {
                    return false;
                }
                *l = b;
            }
            let n = d.len().min(l.len());
            let (x, y) = std::mem::take(&mut d).split_at_mut(n);
            x.copy_from_slice(&l[..n]);
            // whole words are used up
            let m = n.next_multiple_of(4).min(l.len());
            l.drain(..m);
            d = y;
        }
        true
    })
}

#[no_mangle]
fn __festa_sim_rng_open() {
    let fail = ENT.with(|e| {
        let mut e = e.borrow_mut();
        let Some(e) = e.as_mut() else { return false };
        let i = e.st.opens;
        e.st.opens += 1;
        for f in &e.spec.faults {
            if f.kind == FaultKind::OpenFail && i >= f.at && i - f.at < f.len {
                e.st.faults[FaultKind::OpenFail as usize] += 1;
                return true;
            }
        }
        false
    });
    if fail {
        panic!("could not initialize thread_rng: simulated entropy failure");
    }
    sched_point();
}

// ---------------------------------------------------------------- libc seam
static IN_NODE: AtomicBool = AtomicBool::new(false);
static CLOCK_NS: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);

pub fn enter_node() {
    IN_NODE.store(true, Ordering::SeqCst);
}
pub fn set_clock(ns: u64) {
    CLOCK_NS.store(ns, Ordering::SeqCst);
    CLOCK_AT.store(work(), Ordering::SeqCst);
}

/// How time passes inside an operation. 0: hardly. 1: a slow or starved process,
/// 10 us for each edge executed. 2: an hour at every third reading. 3: half of
/// the readings of the real-time clock are a minute back.
static PACE: AtomicU32 = AtomicU32::new(0);
static CLOCK_AT: AtomicU64 = AtomicU64::new(0);
pub fn set_pace(p: u32) {
    PACE.store(p, Ordering::SeqCst);
}
fn read_clock(clk: i32) -> u64 {
    let n = CLOCK_READS.fetch_add(1, Ordering::Relaxed);
    match PACE.load(Ordering::Relaxed) {
        2 if n % 3 == 2 => CLOCK_NS.fetch_add(3_600_000_000_000, Ordering::Relaxed),
        3 if n % 2 == 1 && clk == libc::CLOCK_REALTIME => {
            CLOCK_NS.fetch_add(1000, Ordering::Relaxed).saturating_sub(60_000_000_000)
        }
        1 => {
            let w = work().saturating_sub(CLOCK_AT.load(Ordering::Relaxed));
            CLOCK_NS.fetch_add(1000, Ordering::Relaxed) + w * 10_000
        }
        _ => CLOCK_NS.fetch_add(1000, Ordering::Relaxed),
    }
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if IN_NODE.load(Ordering::Relaxed) && len > 0 {
        let d = unsafe { std::slice::from_raw_parts_mut(buf, len) };
        if ent_fill(d, true) {
            return len as isize;
        }
        unsafe { *libc::__errno_location() = libc::EIO };
        return -1;
    }
    let r = unsafe { raw6(318, buf as i64, len as i64, flags as i64, 0, 0, 0) };
    if r < 0 {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    r as isize
}

/// the process id the code under test sees
static PID: AtomicU32 = AtomicU32::new(1);

pub fn set_identity(id: u32) {
    PID.store(id, Ordering::SeqCst);
}

#[no_mangle]
pub extern "C" fn getpid() -> i32 {
    if IN_NODE.load(Ordering::Relaxed) {
        return PID.load(Ordering::Relaxed) as i32;
    }
    (unsafe { raw6(39, 0, 0, 0, 0, 0, 0) }) as i32
}

#[no_mangle]
pub extern "C" fn getppid() -> i32 {
    if IN_NODE.load(Ordering::Relaxed) {
        return 1;
    }
    (unsafe { raw6(110, 0, 0, 0, 0, 0, 0) }) as i32
}

/// fork() whose child is a sibling: clone(CLONE_PARENT | SIGCHLD)
pub unsafe fn fork_sibling() -> i32 {
    raw6(56, 0x8000 | 17, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    if IN_NODE.load(Ordering::Relaxed) {
        let t = read_clock(clk);
        unsafe { *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64] };
        return 0;
    }
    let r = unsafe { raw6(228, clk as i64, ts as i64, 0, 0, 0, 0) };
    if r < 0 {
        return -1;
    }
    0
}

#[no_mangle]
pub extern "C" fn gettimeofday(tv: *mut [i64; 2], _: i64) -> i32 {
    let mut ts = [0i64; 2];
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        unsafe { *tv = [ts[0], ts[1] / 1000] };
    }
    r
}

#[no_mangle]
pub extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        unsafe { *t = ts[0] };
    }
    ts[0]
}

/// The processor's cycle counter reads as simulated time, too: the instruction
/// traps and is emulated here.
pub fn trap_tsc() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::ucontext_t) as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        if libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut()) == 0 {
            libc::prctl(libc::PR_SET_TSC, libc::PR_TSC_SIGSEGV, 0, 0, 0);
        }
    }
}

extern "C" fn on_segv(_: i32, _: *mut libc::siginfo_t, c: *mut libc::ucontext_t) {
    unsafe {
        let g = &mut (*c).uc_mcontext.gregs;
        let rip = g[libc::REG_RIP as usize];
        let n = std::ptr::read_unaligned(rip as *const [u8; 3]);
        let len = match n {
            [0x0f, 0x31, _] => 2,
            [0x0f, 0x01, 0xf9] => 3,
            _ => {
                // a genuine fault: let it happen
                libc::signal(libc::SIGSEGV, libc::SIG_DFL);
                return;
            }
        };
        let t = read_clock(libc::CLOCK_MONOTONIC).wrapping_mul(3);
        g[libc::REG_RAX as usize] = (t & 0xffff_ffff) as i64;
        g[libc::REG_RDX as usize] = (t >> 32) as i64;
        if len == 3 {
            g[libc::REG_RCX as usize] = 0;
        }
        g[libc::REG_RIP as usize] = rip + len;
    }
}

#[no_mangle]
pub extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if IN_NODE.load(Ordering::Relaxed) {
        let d = unsafe { *req };
        CLOCK_NS.fetch_add(d[0] as u64 * 1_000_000_000 + d[1] as u64, Ordering::Relaxed);
        sched_point();
        return 0;
    }
    unsafe { raw6(35, req as i64, rem as i64, 0, 0, 0, 0) as i32 }
}

#[no_mangle]
pub extern "C" fn clock_nanosleep(clk: i32, fl: i32, req: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if IN_NODE.load(Ordering::Relaxed) {
        return nanosleep(req, rem);
    }
    (-unsafe { raw6(230, clk as i64, fl as i64, req as i64, rem as i64, 0, 0) }) as i32
}

/// libc's variadic syscall(): Rust's std reaches futex and getrandom through it.
/// A simulated thread that would block in a futex yields to the scheduler
/// instead (a spurious wake-up, which every futex user must tolerate).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if IN_NODE.load(Ordering::Relaxed) {
        if n == libc::SYS_getpid {
            return getpid() as i64;
        }
        if n == libc::SYS_gettid {
            // a thread's id follows from its place in the schedule
            let me = ME.with(|m| m.get());
            return getpid() as i64 + if me == usize::MAX { 0 } else { 1 + me as i64 };
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut u8, b as usize, c as u32) as i64;
        }
        if n == libc::SYS_futex && ME.with(|m| m.get()) != usize::MAX {
            let op = (b & 0x7f) as i32;
            if op == 0 || op == 9 {
                if *(a as *const u32) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                // FUTEX_WAIT / FUTEX_WAIT_BITSET; a timeout is simulated time
                let timed = d != 0;
                if timed {
                    CLOCK_NS.fetch_add(1_000_000, Ordering::Relaxed);
                }
                sched_block();
                return 0;
            }
        }
    }
    let r = raw6(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- edges
static mut LEFT: u64 = u64::MAX;
static mut BASE: u64 = 0; // edges executed up to the last re-arm
static mut ARMED: u64 = u64::MAX; // LEFT at the last re-arm
static mut CRASH_AT: u64 = u64::MAX;
static mut BUDGET_AT: u64 = u64::MAX;
static mut SWITCH_AT: u64 = u64::MAX;
static mut RARE: u8 = 0;
static mut NEXT_ID: u32 = 1;
const MAXG: usize = 1 << 15;
static mut HITS: [u8; MAXG] = [0; MAXG];
static mut SEEN: [u8; MAXG] = [0; MAXG];

pub const EXIT_CRASH: i32 = 77;
pub const EXIT_HANG: i32 = 78;
pub const EXIT_DEADLOCK: i32 = 79;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        *a = NEXT_ID.min(MAXG as u32 - 1);
        NEXT_ID += 1;
        a = a.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    LEFT -= 1;
    let id = *g as usize;
    SEEN[id] = 1;
    if RARE != 0 && HITS[id] < RARE {
        HITS[id] += 1;
        rare_point(id as u32);
    }
    if LEFT == 0 {
        stop_point(id as u32);
    }
}

pub fn work() -> u64 {
    unsafe { BASE + (ARMED - LEFT) }
}

pub fn edges_total() -> u32 {
    unsafe { NEXT_ID - 1 }
}

pub fn edges_seen() -> Vec<u32> {
    let n = edges_total() as usize;
    #[allow(static_mut_refs)]
    unsafe {
        SEEN[..(n + 1).min(MAXG)]
            .iter()
            .enumerate()
            .filter(|x| *x.1 != 0)
            .map(|x| x.0 as u32)
            .collect()
    }
}

unsafe fn rearm() {
    let now = work();
    let stop = CRASH_AT.min(BUDGET_AT).min(SWITCH_AT);
    BASE = now;
    ARMED = if stop == u64::MAX { u64::MAX } else { stop.saturating_sub(now).max(1) };
    LEFT = ARMED;
}

/// Arm the crash point and the work budget, both relative to now
pub fn arm(crash_in: Option<u64>, budget: Option<u64>) {
    unsafe {
        let now = work();
        CRASH_AT = crash_in.map_or(u64::MAX, |c| now + c.max(1));
        BUDGET_AT = budget.map_or(u64::MAX, |c| now + c.max(1));
        SWITCH_AT = u64::MAX;
        rearm();
    }
}

#[cold]
#[inline(never)]
unsafe fn stop_point(id: u32) {
    let now = work();
    if now >= CRASH_AT {
        libc::_exit(EXIT_CRASH);
    }
    if now >= BUDGET_AT {
        libc::_exit(EXIT_HANG);
    }
    if now >= SWITCH_AT {
        sched_switch(id, now);
    }
    rearm();
}

#[cold]
#[inline(never)]
unsafe fn rare_point(id: u32) {
    sched_rare(id);
}

// ---------------------------------------------------------------- scheduler
/// How a `par` section is scheduled
#[derive(Clone, Debug)]
pub enum Policy {
    /// random preemption: mean gap in edges, per-edge rarity threshold, seed
    Random { gap: u64, rare: u8, seed: u64 },
    /// an explicit list of (edge count since section start, thread to run)
    Explicit(Vec<(u64, usize)>),
}

struct Sched {
    rng: Prng,
    gap: u64,
    live: Vec<bool>,
    started: u64,
    explicit: Option<Vec<(u64, usize)>>,
    pos: usize,
    switches: Vec<(u64, usize)>,
    hash: u64,
    blocked_rounds: u64,
    blocked_work: u64,
}

static mut SCHED: Option<Sched> = None;
static TOKEN: AtomicU32 = AtomicU32::new(u32::MAX);

thread_local! {
    static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

fn futex_wait(v: u32) {
    unsafe { raw6(202, TOKEN.as_ptr() as i64, 128, v as i64, 0, 0, 0) };
}
fn futex_wake_all() {
    unsafe { raw6(202, TOKEN.as_ptr() as i64, 1 | 128, i32::MAX as i64, 0, 0, 0) };
}

fn give(to: usize) {
    TOKEN.store(to as u32, Ordering::SeqCst);
    futex_wake_all();
}

fn await_turn(me: usize) {
    loop {
        let v = TOKEN.load(Ordering::SeqCst);
        if v == me as u32 {
            return;
        }
        futex_wait(v);
    }
}

#[allow(static_mut_refs)]
fn sched() -> Option<&'static mut Sched> {
    unsafe { SCHED.as_mut() }
}

impl Sched {
    fn others(&self, me: usize) -> Vec<usize> {
        (0..self.live.len()).filter(|&i| i != me && self.live[i]).collect()
    }
    fn arm_next(&mut self) {
        unsafe {
            SWITCH_AT = match &self.explicit {
                Some(v) => v.get(self.pos).map_or(u64::MAX, |x| self.started + x.0.max(1)),
                None => {
                    if self.gap == 0 {
                        u64::MAX
                    } else {
                        work() + 1 + self.rng.below(2 * self.gap)
                    }
                }
            };
        }
    }
    /// hand the processor to `to` and wait for it to come back
    fn handoff(&mut self, me: usize, to: usize, id: u32) {
        let at = work() - self.started;
        self.switches.push((at, to));
        self.hash = mix(mix(self.hash, (me * 31 + to) as u64), id as u64);
        self.arm_next();
        unsafe { rearm() };
        give(to);
        await_turn(me);
    }
}

unsafe fn sched_switch(id: u32, _now: u64) {
    let Some(s) = sched() else {
        SWITCH_AT = u64::MAX;
        return;
    };
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        SWITCH_AT = u64::MAX;
        return;
    }
    let to = match &s.explicit {
        Some(v) => {
            let t = v.get(s.pos).map_or(me, |x| x.1);
            s.pos += 1;
            t
        }
        None => {
            let o = s.others(me);
            if o.is_empty() {
                me
            } else {
                o[s.rng.below(o.len() as u64) as usize]
            }
        }
    };
    if to != me && s.live.get(to) == Some(&true) {
        s.handoff(me, to, id);
    } else {
        s.arm_next();
        rearm();
    }
}

unsafe fn sched_rare(id: u32) {
    let Some(s) = sched() else { return };
    let me = ME.with(|m| m.get());
    if me == usize::MAX || s.explicit.is_some() {
        return;
    }
    if s.rng.chance(1, 4) {
        let o = s.others(me);
        if !o.is_empty() {
            let to = o[s.rng.below(o.len() as u64) as usize];
            s.handoff(me, to, id);
        }
    }
}

/// a library-level yield point (an entropy draw, a sleep)
fn sched_point() {
    let Some(s) = sched() else { return };
    let me = ME.with(|m| m.get());
    if me == usize::MAX || s.explicit.is_some() {
        return;
    }
    if s.rng.chance(1, 8) {
        let o = s.others(me);
        if !o.is_empty() {
            let to = o[s.rng.below(o.len() as u64) as usize];
            s.handoff(me, to, 0);
        }
    }
}

/// the running thread would block: somebody else has to run
fn sched_block() {
    let Some(s) = sched() else { return };
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let w = work();
    if w > s.blocked_work + 200 {
        s.blocked_rounds = 0;
    }
    s.blocked_work = w;
    s.blocked_rounds += 1;
    let o = s.others(me);
    if s.blocked_rounds > 20_000 || (o.is_empty() && s.blocked_rounds > 1000) {
        unsafe { libc::_exit(EXIT_DEADLOCK) };
    }
    if !o.is_empty() {
        let to = o[(s.blocked_rounds as usize) % o.len()];
        // not part of the explicit schedule: blocking always yields
        s.hash = mix(mix(s.hash, (me * 31 + to) as u64), 0xB10C);
        s.arm_next();
        unsafe { rearm() };
        give(to);
        await_turn(me);
    }
}

pub struct ParResult<T> {
    pub out: Vec<Option<T>>,
    pub switches: Vec<(u64, usize)>,
    pub hash: u64,
}

/// Run one closure per thread under the scheduler, one running at a time
pub fn run_par<T: Send>(policy: &Policy, jobs: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> ParResult<T> {
    let n = jobs.len();
    let (gap, rare, seed, explicit) = match policy {
        Policy::Random { gap, rare, seed } => (*gap, *rare, *seed, None),
        Policy::Explicit(v) => (0, 0, 0, Some(v.clone())),
    };
    let mut rng = Prng::new(seed ^ 0x5C4ED);
    let first = match &explicit {
        Some(v) if !v.is_empty() && v[0].0 == 0 => v[0].1.min(n - 1),
        Some(_) => 0,
        None => rng.below(n as u64) as usize,
    };
    unsafe {
        #[allow(static_mut_refs)]
        HITS.fill(0);
        SCHED = Some(Sched {
            rng,
            gap,
            live: vec![true; n],
            started: work(),
            pos: matches!(&explicit, Some(v) if !v.is_empty() && v[0].0 == 0) as usize,
            explicit,
            switches: vec![(0, first)],
            hash: 0,
            blocked_rounds: 0,
            blocked_work: 0,
        });
        RARE = rare;
    }
    TOKEN.store(u32::MAX - 1, Ordering::SeqCst);
    let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, j) in jobs.into_iter().enumerate() {
            hs.push(sc.spawn(move || {
                await_turn(i);
                ME.with(|m| m.set(i));
                let r = j();
                ME.with(|m| m.set(usize::MAX));
                let s = sched().unwrap();
                s.live[i] = false;
                let o = s.others(i);
                if let Some(&first) = o.first() {
                    let to = match &s.explicit {
                        Some(_) => first,
                        None => o[s.rng.below(o.len() as u64) as usize],
                    };
                    s.hash = mix(s.hash, (i * 31 + to) as u64);
                    s.arm_next();
                    unsafe { rearm() };
                    give(to);
                }
                r
            }));
        }
        let s = sched().unwrap();
        s.arm_next();
        unsafe { rearm() };
        give(first);
        for (i, h) in hs.into_iter().enumerate() {
            out[i] = h.join().ok();
        }
    });
    unsafe {
        RARE = 0;
        SWITCH_AT = u64::MAX;
        rearm();
        #[allow(static_mut_refs)]
        let s = SCHED.take().unwrap();
        ParResult { out, switches: s.switches, hash: s.hash }
    }
}
