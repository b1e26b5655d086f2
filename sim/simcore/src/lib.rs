//! The simulator's core: the seams between the library under test and the
//! world, and the state they need.  Nothing in this crate is instrumented.
//!
//! * `tick` is the simulated clock and the preemption point: the compiler
//!   inserts a call to it at every edge of the library's control flow.
//! * `SimAlloc` is the memory the library gets.
//! * `Ctx` is one caller (a real OS thread); exactly one of them runs at any
//!   time and `switch_to` hands the baton over.
//!
//! Everything here runs in a freshly forked, otherwise single-threaded
//! process, so plain statics are shared by callers under the baton.
#![allow(static_mut_refs, clippy::missing_safety_doc)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering};

pub mod rng;
pub use rng::Rng;

// ---------------------------------------------------------------- libc

pub mod c {
    use core::ffi::c_void;
    extern "C" {
        pub fn mmap(a: *mut c_void, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut c_void;
        pub fn mprotect(a: *mut c_void, l: usize, p: i32) -> i32;
        pub fn fork() -> i32;
        pub fn wait4(pid: i32, st: *mut i32, opt: i32, used: *mut [i64; 18]) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn getpid() -> i32;
        pub fn personality(p: u64) -> i32;
        pub fn prctl(op: i32, ...) -> i32;
        pub fn _exit(code: i32) -> !;
        pub fn syscall(n: i64, ...) -> i64;
        pub fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
        pub fn alarm(s: u32) -> u32;
        pub fn signal(n: i32, h: usize) -> usize;
        pub fn siginterrupt(n: i32, f: i32) -> i32;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn open(p: *const i8, fl: i32, ...) -> i32;
        pub fn close(fd: i32) -> i32;
        pub static __data_start: u8;
        pub static _end: u8;
    }
}

/// Maps `len` zeroed bytes; `shared` mappings survive a fork as one object.
pub fn map(len: usize, shared: bool) -> *mut u8 {
    let flags = 0x20 | 0x4000 | if shared { 1 } else { 2 }; // ANON|NORESERVE
    let p = unsafe { c::mmap(core::ptr::null_mut(), len, 3, flags, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p.cast()
}

// ------------------------------------------------- child -> parent region

pub const SHM_LEN: usize = 96 << 20;
pub const EDGES: usize = 1 << 19;

/// Why a run stopped early.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Stop {
    Running = 0,
    Done = 1,
    Fatal = 2,
}

#[repr(C)]
pub struct Shm {
    pub stop: u32,
    pub msg_len: u32,
    pub msg: [u8; 1024],
    pub cur_task: u32,
    pub cur_op: u32,
    pub n_switch: u32,
    pub rec_len: u64,
    pub ticks: u64,
    pub shared_loads: u64,
    pub shared_stores: u64,
    pub callbacks: u64,
    pub preemptions: u64,
    pub kills: u64,
    pub cb_panics: u64,
    pub cb_reenters: u64,
    pub sink_faults: u64,
    pub alloc_requests: u64,
    pub alloc_refused: u64,
    pub grow: u64,
    pub switches: [Switch; 4096],
    /// Blocks executed, and blocks at which a caller was suspended, over all
    /// runs of the worker.
    pub edges: [u8; EDGES],
    pub suspended_at: [u8; EDGES],
}

/// One decision of the scheduler: `task`, in operation `op`, after `tick`
/// yield points of that operation, hands over to `to`.
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Switch {
    pub task: u32,
    pub op: u32,
    pub tick: u64,
    pub to: u32,
    pub kill: u32,
}

static mut SHM: *mut Shm = core::ptr::null_mut();
const REC_OFF: usize = 2 << 20;

pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

/// Called once per worker process, before any fork.
pub fn init_worker() {
    assert!(core::mem::size_of::<Shm>() < REC_OFF);
    unsafe {
        if SHM.is_null() {
            SHM = map(SHM_LEN, true).cast();
            ARENA = map(ARENA_LEN, false);
            POOL = map(POOL_LEN, false);
        }
    }
}

pub fn rec_push(b: &[u8]) {
    let s = shm();
    let n = s.rec_len as usize;
    if REC_OFF + n + b.len() > SHM_LEN {
        fatal("harness: transcript too large");
    }
    unsafe {
        core::ptr::copy_nonoverlapping(b.as_ptr(), SHM.cast::<u8>().add(REC_OFF + n), b.len());
    }
    s.rec_len += b.len() as u64;
}

pub fn recs() -> &'static [u8] {
    unsafe { core::slice::from_raw_parts(SHM.cast::<u8>().add(REC_OFF), shm().rec_len as usize) }
}

/// Reset before each run (parent side).
pub fn shm_reset() {
    // The decisions and the coverage stay: the former are counted, the latter
    // accumulates.
    unsafe { core::ptr::write_bytes(SHM.cast::<u8>(), 0, core::mem::offset_of!(Shm, switches)) };
}

/// Ends the run at once, reporting `msg`.
pub fn fatal(msg: &str) -> ! {
    unsafe {
        (*CUR).in_sut = false;
        let s = shm();
        if s.stop == 0 {
            let n = msg.len().min(1024);
            s.msg[..n].copy_from_slice(&msg.as_bytes()[..n]);
            s.msg_len = n as u32;
            s.stop = Stop::Fatal as u32;
        }
        c::_exit(0)
    }
}

// ---------------------------------------------------------------- callers

pub const MAX_TASK: usize = 8;
pub const OP_START: u64 = 0;
/// The `op` of the pseudo switch taken when a task has no operation left.
pub const OP_END: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Refuse {
    None,
    All,
    /// Bit k set: refuse the k-th request of the operation (63: and later).
    Mask(u64),
    /// Refuse a request that would take the live bytes of the operation over.
    Budget(u64),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CbFault {
    None,
    /// Panic at the k-th (from 0) callback of the operation.
    Panic(u32),
    /// Make a nested call at the k-th callback.
    Reenter(u32),
    /// Make the shared collection longer at the k-th callback.
    Grow(u32),
}

/// The payload of an injected panic.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SimPanic(pub u32);

#[derive(Clone, Copy)]
pub struct Frame {
    pub op: u32,
    pub ticks: u64,
    pub cbs: u32,
    pub fault: CbFault,
    pub refuse: Refuse,
    pub reqs: u64,
    pub refused: u64,
    pub obtained: u64,
    pub live: i64,
    pub peak: i64,
    /// Bytes copied from one place to another (a block that grows may grow in
    /// place and isn't counted).
    pub moved: u64,
    /// Ticks at the first refused request after which nothing was granted.
    pub refused_at: u64,
    /// Requests refused since then.
    pub refused_since: u64,
    pub in_sut: bool,
    pub cur_len: [usize; 9],
}

pub const FRAME0: Frame = Frame {
    op: OP_END,
    ticks: 0,
    cbs: 0,
    fault: CbFault::None,
    refuse: Refuse::None,
    reqs: 0,
    refused: 0,
    obtained: 0,
    live: 0,
    peak: 0,
    moved: 0,
    refused_at: 0,
    refused_since: 0,
    in_sut: false,
    cur_len: [usize::MAX; 9],
};

pub struct Ctx {
    pub in_sut: bool,
    pub next: u64,
    pub f: Frame,
    pub task: u32,
    pub ledger: bool,
    pub unwinding: bool,
    pub mid_call: bool,
    pub done: bool,
    pub dead: bool,
    pub forced_at: u64,
    pub go: AtomicU32,
}

const CTX0: Ctx = Ctx {
    in_sut: false,
    next: u64::MAX,
    f: FRAME0,
    task: 0,
    ledger: false,
    unwinding: false,
    mid_call: false,
    done: true,
    dead: false,
    forced_at: 0,
    go: AtomicU32::new(0),
};

static mut IDLE: Ctx = CTX0;
pub static mut TASKS: [Ctx; MAX_TASK] = [CTX0; MAX_TASK];
static mut CUR: *mut Ctx = &raw mut IDLE;
static mut N_TASKS: usize = 0;

pub fn cur() -> &'static mut Ctx {
    unsafe { &mut *CUR }
}

// ---------------------------------------------------------------- schedule

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Hand over only between operations.
    Boundary,
    /// After every `1..=2^k` ticks.
    Quantum(u32),
    /// In a few chosen operations: at one tick, run others (whole operations)
    /// before coming back. `(probability that an operation is chosen) /256`.
    Target(u32),
    /// At accesses to memory all callers share, with probability n/256.
    Shared(u32),
}

pub struct Sched {
    pub rng: Rng,
    pub strategy: Strategy,
    pub explicit: Option<Vec<Switch>>,
    /// Kill the task when it is preempted: probability/256.
    pub kill_p: u32,
    pub kills_left: u32,
    /// Ticks an operation may take before others get a turn anyway.
    pub fair: u64,
    /// Ticks an operation may take at all.
    pub limit: u64,
    /// When set, after the targeted switch return to this task.
    pub resume: Option<(u32, u32)>,
    /// Bitmask of tasks that may be killed.
    pub killable: u32,
}

static mut SCHED: Option<Sched> = None;

fn sched() -> &'static mut Sched {
    unsafe { SCHED.as_mut().unwrap() }
}

pub fn total_ticks() -> u64 {
    shm().ticks
}

/// The deterministic sequence number of the run: ticks so far.
fn runnable(t: usize) -> bool {
    unsafe { t < N_TASKS && !TASKS[t].done && !TASKS[t].dead }
}

fn others(me: usize) -> Vec<u32> {
    unsafe { (0..N_TASKS).filter(|&t| t != me && runnable(t)).map(|t| t as u32).collect() }
}

fn harness<R>(f: impl FnOnce() -> R) -> R {
    let c = cur();
    let (a, b) = (c.in_sut, c.ledger);
    c.in_sut = false;
    c.ledger = false;
    let r = f();
    let c = cur();
    c.in_sut = a;
    c.ledger = b;
    r
}

/// When there is no room left to log decisions, no more are made: from there
/// on the run follows the rules of an exhausted explicit schedule.
fn log_full() -> bool {
    shm().n_switch as usize >= LOG_MAX
}

const LOG_MAX: usize = 4000;

fn find(task: u32, op: u32, tick: u64) -> Option<Switch> {
    sched()
        .explicit
        .as_ref()?
        .iter()
        .find(|w| w.task == task && w.op == op && w.tick == tick)
        .copied()
}

fn log_switch(s: Switch) {
    let h = shm();
    let n = h.n_switch as usize;
    if n >= h.switches.len() {
        return;
    }
    h.switches[n] = s;
    h.n_switch += 1;
}

fn futex(a: &AtomicU32, op: i32, v: u32) {
    unsafe {
        c::syscall(202, a as *const AtomicU32, op | 128, v, core::ptr::null::<u8>());
    }
}

fn wait_baton(c: &Ctx) {
    while c.go.load(Ordering::Acquire) == 0 {
        futex(&c.go, 0, 0);
    }
    c.go.store(0, Ordering::Relaxed);
}

fn pass_baton(to: usize) {
    unsafe {
        let t = &mut TASKS[to];
        CUR = t;
        shm().cur_task = to as u32;
        shm().cur_op = t.f.op;
        t.go.store(1, Ordering::Release);
        futex(&t.go, 1, 1);
    }
}

/// The end of a caller's thread.  It must not run any further code (the end of
/// a thread releases memory) while another caller has the baton.
fn park() -> ! {
    static NEVER: AtomicU32 = AtomicU32::new(0);
    loop {
        futex(&NEVER, 0, 0);
    }
}

/// Suspends the current caller and runs `to`.
fn switch_to(to: usize, kill: bool) {
    unsafe {
        let me = cur();
        me.dead |= kill;
        if me.mid_call {
            shm().preemptions += 1;
            shm().suspended_at[AT as usize & (EDGES - 1)] = 1;
        }
        if kill {
            shm().kills += 1;
        }
        pass_baton(to);
        loop {
            wait_baton(me);
            if !me.dead {
                break;
            }
        }
        debug_assert!(CUR == me as *mut Ctx);
    }
}

/// Sets the tick of the current operation at which the scheduler wants to be
/// asked next.
fn plan_next() {
    let c = cur();
    let s = sched();
    let cap = c.forced_at.saturating_add(s.fair).min(s.limit);
    let want = if let Some(x) = &s.explicit {
        x.iter()
            .filter(|w| w.task == c.task && w.op == c.f.op && w.tick > c.f.ticks)
            .map(|w| w.tick)
            .min()
            .unwrap_or(u64::MAX)
    } else if unsafe { N_TASKS } < 2 || log_full() {
        u64::MAX
    } else {
        match s.strategy {
            Strategy::Boundary | Strategy::Shared(_) => u64::MAX,
            Strategy::Quantum(k) => {
                let k = s.rng.below(u64::from(k) + 1) as u32;
                c.f.ticks + 1 + s.rng.below(1 << k)
            }
            Strategy::Target(p) => {
                if c.f.ticks == 0 && s.rng.below(256) < u64::from(p) {
                    let k = 1 + s.rng.below(10);
                    1 + s.rng.below(1 << k)
                } else {
                    u64::MAX
                }
            }
        }
    };
    c.next = want.min(cap).max(c.f.ticks + 1);
}

/// The yield point itself.
#[cold]
#[inline(never)]
fn yield_point() {
    cur().mid_call = true;
    harness(yield_inner);
    cur().mid_call = false;
}

fn yield_inner() {
    let c = cur();
    let s = sched();
    let t = c.f.ticks;
    if t >= s.limit {
        fatal("limit: a call took too many steps");
    }
    if c.unwinding {
        c.next = t + 64;
        return;
    }
    if s.explicit.is_some() || log_full() {
        match find(c.task, c.f.op, t) {
            Some(w) => {
                let to = w.to as usize;
                log_switch(w);
                c.forced_at = t;
                if runnable(to) && to != c.task as usize {
                    switch_to(to, w.kill != 0);
                }
            }
            None => forced(t),
        }
        plan_next();
        return;
    }
    let me = c.task as usize;
    let o = others(me);
    if !o.is_empty() {
        let to = o[s.rng.below(o.len() as u64) as usize];
        let kill = s.kills_left > 0
            && s.killable >> me & 1 == 1
            && s.rng.below(256) < u64::from(s.kill_p)
            && !o.is_empty();
        if kill {
            s.kills_left -= 1;
        } else if matches!(s.strategy, Strategy::Target(_)) {
            let whole = 1 + s.rng.below(4) as u32;
            s.resume = Some((me as u32, if s.rng.below(3) == 0 { 9999 } else { whole }));
        }
        c.forced_at = t;
        log_switch(Switch { task: c.task, op: c.f.op, tick: t, to, kill: kill as u32 });
        switch_to(to as usize, kill);
    }
    c.forced_at = t;
    plan_next();
}

/// An operation has been running for long: let the next caller go on, in case
/// this one waits for it.
fn forced(t: u64) {
    let c = cur();
    if t >= c.forced_at.saturating_add(sched().fair) {
        c.forced_at = t;
        let o = others(c.task as usize);
        if !o.is_empty() {
            let to = o.iter().copied().find(|&x| x > c.task).unwrap_or(o[0]);
            switch_to(to as usize, false);
        }
    }
}

/// Called between operations and at the end of a task (`op == OP_END`, never
/// returns to that task then unless nothing else can run).
pub fn boundary() {
    let c = cur();
    let s = sched();
    let me = c.task as usize;
    let ended = c.done;
    let o = others(me);
    if o.is_empty() {
        return;
    }
    let (op, tick) = (c.f.op, u64::MAX);
    let to;
    if s.explicit.is_some() || log_full() {
        match find(c.task, op, tick) {
            Some(w) if runnable(w.to as usize) && w.to != c.task => {
                to = w.to as usize;
                log_switch(w);
            }
            _ => {
                if !ended {
                    return;
                }
                to = o[0] as usize;
            }
        }
    } else {
        if let Some((t, n)) = s.resume {
            if n > 1 && !ended {
                s.resume = Some((t, n - 1));
                return;
            }
            s.resume = None;
            if runnable(t as usize) && t as usize != me {
                to = t as usize;
            } else {
                to = o[s.rng.below(o.len() as u64) as usize] as usize;
            }
        } else if !ended && s.rng.below(2) == 0 {
            return;
        } else {
            to = o[s.rng.below(o.len() as u64) as usize] as usize;
        }
        log_switch(Switch { task: c.task, op, tick, to: to as u32, kill: 0 });
    }
    switch_or_exit(to, ended);
}

fn switch_or_exit(to: usize, ended: bool) {
    if ended {
        pass_baton(to);
        park();
    } else {
        switch_to(to, false);
    }
}

/// Runs `bodies` as callers under the scheduler, one real thread each (or on
/// this thread when there is only one). Returns when all are done or dead.
pub fn run_tasks(s: Sched, mut bodies: Vec<Box<dyn FnOnce() + Send>>) {
    unsafe {
        let n = bodies.len();
        assert!(n <= MAX_TASK);
        SCHED = Some(s);
        N_TASKS = n;
        for (i, t) in TASKS.iter_mut().enumerate() {
            *t = CTX0;
            t.task = i as u32;
            t.done = i >= n;
        }
        if n == 1 {
            CUR = &mut TASKS[0];
            let b = bodies.pop().unwrap();
            b();
            TASKS[0].done = true;
            CUR = &raw mut IDLE;
            return;
        }
        static FINISHED: AtomicU32 = AtomicU32::new(0);
        static READY: AtomicU32 = AtomicU32::new(0);
        FINISHED.store(0, Ordering::SeqCst);
        for (i, b) in bodies.into_iter().enumerate() {
            // The start of a thread needs memory: one after the other, and all
            // of them before the first caller runs.
            READY.store(0, Ordering::SeqCst);
            core::mem::forget(
                std::thread::Builder::new()
                    .stack_size(512 << 10)
                    .spawn(move || {
                        let me = &mut TASKS[i];
                        READY.store(1, Ordering::Release);
                        futex(&READY, 1, 1);
                        wait_baton(me);
                        b();
                        let me = cur();
                        me.in_sut = false;
                        me.done = true;
                        me.f.op = OP_END;
                        let left = !others(me.task as usize).is_empty();
                        if left {
                            boundary();
                        } else {
                            CUR = &raw mut IDLE;
                            FINISHED.store(1, Ordering::Release);
                            futex(&FINISHED, 1, 1);
                        }
                        park();
                    })
                    .unwrap(),
            );
            while READY.load(Ordering::Acquire) == 0 {
                futex(&READY, 0, 0);
            }
        }
        let first = match &sched().explicit {
            Some(_) => find(OP_END, OP_END, 0).map_or(0, |w| w.to as usize).min(n - 1),
            None => {
                let s = sched();
                s.rng.below(n as u64) as usize
            }
        };
        log_switch(Switch { task: OP_END, op: OP_END, tick: 0, to: first as u32, kill: 0 });
        pass_baton(first);
        while FINISHED.load(Ordering::Acquire) == 0 {
            futex(&FINISHED, 0, 0);
        }
        // Callers stay suspended for ever; the process exits under them.
    }
}

// ------------------------------------------------------ entering the library

/// Starts operation `op` of the current caller.
pub fn begin_op(op: u32, refuse: Refuse, fault: CbFault) {
    let c = cur();
    c.f = FRAME0;
    c.f.op = op;
    c.f.refuse = refuse;
    c.f.fault = fault;
    c.forced_at = 0;
    shm().cur_op = op;
    shm().cur_task = c.task;
    plan_next();
}

/// Runs library code: counted, preemptible, its memory accounted for.
/// A panic leaves with the flags as the panic hook set them; call `left()`.
#[inline(never)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let c = cur();
    c.ledger = true;
    c.in_sut = true;
    let r = f();
    let c = cur();
    c.in_sut = false;
    c.ledger = false;
    r
}

/// `lib`, catching a panic.
pub fn lib_catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(f)));
    let c = cur();
    c.in_sut = false;
    c.ledger = false;
    c.unwinding = false;
    r
}

/// Obtains memory from the accounted heap on behalf of the caller, which hands
/// the blocks over to the library (never refused, not a library request).
pub fn on_ledger<R>(f: impl FnOnce() -> R) -> R {
    let c = cur();
    c.ledger = true;
    let r = f();
    cur().ledger = false;
    r
}

/// Harness code called back from within the library.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let c = cur();
    let (a, b) = (c.in_sut, c.ledger);
    c.in_sut = false;
    c.ledger = false;
    let r = f();
    let c = cur();
    c.in_sut = a;
    c.ledger = b;
    r
}

pub static mut REENTER: Option<fn()> = None;
pub static mut GROW: Option<fn()> = None;
static mut LAST_PANIC: [u8; 256] = [0; 256];
static mut LAST_PANIC_LEN: usize = 0;

pub fn last_panic() -> String {
    unsafe { String::from_utf8_lossy(&LAST_PANIC[..LAST_PANIC_LEN]).into_owned() }
}

/// A yield point placed by the harness at a call out of the library.
pub fn call_out() {
    let c = cur();
    if !c.in_sut {
        return;
    }
    shm().callbacks += 1;
    let k = c.f.cbs;
    c.f.cbs += 1;
    tick();
    match c.f.fault {
        CbFault::Panic(n) if n == k && !c.unwinding => {
            shm().cb_panics += 1;
            let op = c.f.op;
            std::panic::panic_any(SimPanic(op));
        }
        CbFault::Reenter(n) if n == k => {
            shm().cb_reenters += 1;
            let saved = c.f;
            let (next, forced) = (c.next, c.forced_at);
            outside(|| unsafe { REENTER.expect("no reenter hook")() });
            let c = cur();
            c.f = saved;
            c.next = next;
            c.forced_at = forced;
        }
        CbFault::Grow(n) if n == k => {
            shm().grow += 1;
            outside(|| unsafe { GROW.expect("no grow hook")() });
        }
        _ => {}
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let c = cur();
        if std::env::var_os("NOMSIM_DEBUG").is_some() {
            c.in_sut = false;
            c.ledger = false;
            eprintln!("PANIC task {} op {}: {info}\n{}", c.task, c.f.op, std::backtrace::Backtrace::force_capture());
        }
        // What runs from here to the catch is the unwinder and destructors.
        c.in_sut = false;
        c.ledger = false;
        c.unwinding = true;
        unsafe {
            struct W;
            impl core::fmt::Write for W {
                fn write_str(&mut self, s: &str) -> core::fmt::Result {
                    unsafe {
                        for &b in s.as_bytes() {
                            if LAST_PANIC_LEN < 256 {
                                LAST_PANIC[LAST_PANIC_LEN] = b;
                                LAST_PANIC_LEN += 1;
                            }
                        }
                    }
                    Ok(())
                }
            }
            LAST_PANIC_LEN = 0;
            let p = info.payload();
            if let Some(s) = p.downcast_ref::<&str>() {
                let _ = core::fmt::Write::write_str(&mut W, s);
            } else if let Some(s) = p.downcast_ref::<String>() {
                let _ = core::fmt::Write::write_str(&mut W, s);
            }
            if let Some(l) = info.location() {
                let _ = core::fmt::Write::write_fmt(
                    &mut W,
                    format_args!(" at {}:{}", l.file(), l.line()),
                );
            }
        }
    }));
}

// ------------------------------------------------- compiler-inserted callbacks

#[inline]
pub fn tick() {
    unsafe {
        let c = &mut *CUR;
        if !c.in_sut {
            return;
        }
        c.f.ticks += 1;
        (*SHM).ticks += 1;
        if c.f.ticks >= c.next {
            yield_point();
        }
    }
}

static mut N_GUARDS: u32 = 0;
/// The block executed last.
static mut AT: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        N_GUARDS += 1;
        *a = N_GUARDS;
        a = a.add(1);
    }
}

pub fn n_guards() -> u32 {
    unsafe { N_GUARDS }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let c = &mut *CUR;
    if !c.in_sut {
        return;
    }
    c.f.ticks += 1;
    let s = &mut *SHM;
    s.ticks += 1;
    s.edges[*g as usize & (EDGES - 1)] = 1;
    if c.f.ticks >= c.next {
        AT = *g;
        yield_point();
    }
}

/// Memory that outlives the calls and that every caller can reach: the
/// program's writable statics, and the objects the callers share.
#[inline]
fn is_shared(a: usize) -> bool {
    unsafe {
        let lo = &raw const c::__data_start as usize;
        let hi = &raw const c::_end as usize;
        (a >= lo && a < hi) || (a >= POOL as usize && a < POOL as usize + POOL_LEN)
    }
}

#[inline]
unsafe fn access(a: usize, store: bool) {
    let c = &mut *CUR;
    if !c.in_sut || !is_shared(a) {
        return;
    }
    let s = &mut *SHM;
    if store {
        s.shared_stores += 1;
    } else {
        s.shared_loads += 1;
    }
    c.f.ticks += 1;
    s.ticks += 1;
    if c.f.ticks >= c.next {
        yield_point();
    } else if let Some(sc) = (*(&raw mut SCHED)).as_mut() {
        if sc.explicit.is_none() && N_TASKS > 1 {
            if let Strategy::Shared(p) = sc.strategy {
                if sc.rng.below(256) < u64::from(p) {
                    yield_point();
                }
            }
        }
    }
}

macro_rules! accesses {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $l(a: *const u8) { access(a as usize, false) }
        #[no_mangle]
        pub unsafe extern "C" fn $s(a: *const u8) { access(a as usize, true) }
    )*};
}
accesses!(
    __sanitizer_cov_load1 __sanitizer_cov_store1,
    __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4,
    __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

// ---------------------------------------------------------------- memory

/// Blocks of the library live in an arena that never reuses an address, each
/// between canaries; a freed block is poisoned and stays so.
const ARENA_LEN: usize = 1 << 30;
const POOL_LEN: usize = 1 << 22;
static mut ARENA: *mut u8 = core::ptr::null_mut();
static mut ARENA_TOP: usize = 0;
static mut POOL: *mut u8 = core::ptr::null_mut();
static mut POOL_TOP: usize = 0;
static mut IN_POOL: bool = false;
static mut LIVE_BLOCKS: i64 = 0;
static mut LIVE_BYTES: i64 = 0;
/// The most the library may hold at once.
pub static mut CEILING: i64 = 256 << 10;

const MAGIC: u64 = 0x5afe_b10c_0dd5_eed5;
const FREED: u64 = 0xdead_b10c_0dd5_eed5;
const CANARY: u8 = 0xA5;
const PAD: usize = 32;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    op: u32,
    task: u32,
}

/// Objects built by `f` are shared between callers.
pub fn in_pool<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        IN_POOL = true;
        let r = f();
        IN_POOL = false;
        r
    }
}

pub struct SimAlloc;

#[inline]
unsafe fn in_arena(p: *mut u8) -> bool {
    !ARENA.is_null() && p >= ARENA && p < ARENA.add(ARENA_LEN)
}

unsafe fn arena_take(l: Layout) -> *mut u8 {
    let align = l.align().max(16);
    if ARENA_TOP > 64 << 20 && LIVE_BLOCKS == 0 {
        ARENA_TOP = 0;
        N_BLOCKS = 0;
    }
    let at = (ARENA_TOP + PAD + core::mem::size_of::<Head>() + align - 1) & !(align - 1);
    let end = at + l.size() + PAD;
    if end > ARENA_LEN {
        fatal("harness: arena exhausted");
    }
    ARENA_TOP = end;
    let p = ARENA.add(at);
    let h = p.sub(PAD + core::mem::size_of::<Head>()).cast::<Head>();
    h.write_unaligned(Head {
        magic: MAGIC,
        size: l.size(),
        align: l.align(),
        op: (*CUR).f.op,
        task: (*CUR).task,
    });
    core::ptr::write_bytes(p.sub(PAD), CANARY, PAD);
    core::ptr::write_bytes(p, 0xCD, l.size());
    core::ptr::write_bytes(p.add(l.size()), CANARY, PAD);
    LIVE_BLOCKS += 1;
    LIVE_BYTES += l.size() as i64;
    p
}

unsafe fn check_pad(p: *mut u8, size: usize) -> bool {
    let a = core::slice::from_raw_parts(p.sub(PAD), PAD);
    let b = core::slice::from_raw_parts(p.add(size), PAD);
    a.iter().chain(b).all(|&x| x == CANARY)
}

unsafe fn arena_give(p: *mut u8, l: Layout) {
    let hp = p.sub(PAD + core::mem::size_of::<Head>()).cast::<Head>();
    let h = hp.read_unaligned();
    if h.magic == FREED {
        fatal("ledger: a block was released twice");
    }
    if h.magic != MAGIC {
        fatal("ledger: something that is not a block was released");
    }
    if h.size != l.size() || h.align != l.align() {
        fatal(&format!(
            "ledger: a block of {} bytes (align {}) was released as {} bytes (align {})",
            h.size,
            h.align,
            l.size(),
            l.align()
        ));
    }
    if !check_pad(p, l.size()) {
        fatal("ledger: bytes around a block were overwritten");
    }
    (*hp).magic = FREED;
    core::ptr::write_bytes(p, 0xDD, l.size());
    LIVE_BLOCKS -= 1;
    LIVE_BYTES -= l.size() as i64;
}

/// Walks all blocks: (live blocks, live bytes, first corruption found).
pub fn audit() -> (i64, i64, Option<&'static str>) {
    (unsafe { LIVE_BLOCKS }, unsafe { LIVE_BYTES }, None)
}

/// Checks that released blocks were not written to and live ones are intact.
pub fn audit_deep() -> Option<&'static str> {
    unsafe {
        for &(p, size) in BLOCKS[..N_BLOCKS].iter() {
            let p = p as *mut u8;
            let h = p.sub(PAD + core::mem::size_of::<Head>()).cast::<Head>().read_unaligned();
            if !check_pad(p, size) {
                return Some("ledger: bytes around a block were overwritten");
            }
            if h.magic == FREED
                && core::slice::from_raw_parts(p, size).iter().any(|&b| b != 0xDD)
            {
                return Some("ledger: a released block was written to");
            }
        }
        None
    }
}

const MAX_BLOCKS: usize = 4096;
static mut BLOCKS: [(usize, usize); MAX_BLOCKS] = [(0, 0); MAX_BLOCKS];
static mut N_BLOCKS: usize = 0;

unsafe fn refuse(c: &mut Ctx, size: usize, old: usize) -> bool {
    let f = &mut c.f;
    let k = f.reqs;
    f.reqs += 1;
    (*SHM).alloc_requests += 1;
    let no = match f.refuse {
        Refuse::None => false,
        Refuse::All => true,
        Refuse::Mask(m) => m >> k.min(63) & 1 == 1,
        Refuse::Budget(b) => f.live + size as i64 - old as i64 > b as i64,
    } || f.live + (size as i64) - (old as i64) > CEILING;
    if no {
        if f.refused == 0 || f.refused_at == 0 {
            f.refused_at = f.ticks;
            f.refused_since = 0;
        }
        f.refused_since += 1;
        f.refused += 1;
        (*SHM).alloc_refused += 1;
    } else {
        f.refused_at = 0;
        f.refused_since = 0;
        f.obtained += size as u64;
    }
    no
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = &mut *CUR;
        if IN_POOL {
            let at = (POOL_TOP + l.align() - 1) & !(l.align() - 1);
            POOL_TOP = at + l.size();
            assert!(POOL_TOP <= POOL_LEN);
            return POOL.add(at);
        }
        if !c.ledger {
            return System.alloc(l);
        }
        if c.in_sut {
            if refuse(c, l.size(), 0) {
                return core::ptr::null_mut();
            }
            c.f.live += l.size() as i64;
            c.f.peak = c.f.peak.max(c.f.live);
        }
        let p = arena_take(l);
        if N_BLOCKS < MAX_BLOCKS {
            BLOCKS[N_BLOCKS] = (p as usize, l.size());
            N_BLOCKS += 1;
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            let c = &mut *CUR;
            if c.in_sut {
                c.f.live -= l.size() as i64;
            }
            arena_give(p, l);
        } else if p >= POOL && p < POOL.add(POOL_LEN) {
        } else {
            System.dealloc(p, l);
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !in_arena(p) {
            if p >= POOL && p < POOL.add(POOL_LEN) {
                let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
                core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                return q;
            }
            return System.realloc(p, l, new);
        }
        let c = &mut *CUR;
        if c.in_sut {
            if refuse(c, new, l.size()) {
                return core::ptr::null_mut();
            }
            c.f.live += new as i64 - l.size() as i64;
            c.f.peak = c.f.peak.max(c.f.live);
        }
        let q = arena_take(Layout::from_size_align_unchecked(new, l.align()));
        if N_BLOCKS < MAX_BLOCKS {
            BLOCKS[N_BLOCKS] = (q as usize, new);
            N_BLOCKS += 1;
        }
        let moved = c.f.moved;
        core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        c.f.moved = moved;
        arena_give(p, l);
        q
    }
}

// ------------------------------------------------------------ copying

extern "C" {
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
}

/// Every call of `memmove` in the program, by order of the linker (`--wrap`):
/// what the library moves is work, too.
#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    let c = CUR;
    if (*c).in_sut {
        (*c).f.moved += n as u64;
    }
    __real_memmove(d, s, n)
}

#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    let c = CUR;
    if (*c).in_sut {
        (*c).f.moved += n as u64;
    }
    __real_memcpy(d, s, n)
}
