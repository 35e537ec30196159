//! The simulator: seeded cooperative execution of real threads.
//!
//! Every task is a real thread (so thread-locals, panics and unwinding are the real ones), but
//! exactly one of them runs at a time.  Control is handed over only here, and only by a decision
//! of the seeded scheduler, at: every basic-block edge, load and store of the crates under test
//! (compiler instrumentation), every allocation and release they make, every futex operation
//! (so every Mutex/Once/RwLock/Condvar/park of std), sleeps, yields, and the call-outs of the
//! library into caller code.  Heap, futexes, clock, sleeping and randomness are simulated.
#![allow(static_mut_refs)]
use crate::rng::{hash2, mix, Rng};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 16;
pub const NONE: usize = usize::MAX;
pub const LOGCAP: usize = 60_000;
pub const SWITCHCAP: usize = 15_000;
pub const OUTCAP: usize = 48 << 20;
pub const NSITES: usize = 1 << 17;

// ------------------------------------------------------------------ configuration
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct SchedSpec {
    pub seed: u64,
    /// 0 run to completion, 1 random intervals, 2 priorities with change points,
    /// 3 hot program points, 4 allocation points, 5 conflicting memory accesses, 6 given schedule,
    /// 7 priorities with change points among accesses to shared written memory
    pub strat: u8,
    pub mean: u64,
    pub depth: u32,
    pub est: u64,
    #[serde(default)]
    pub hot: Vec<u32>,
    #[serde(default)]
    pub forced: Vec<(u8, u64, u8)>,
    pub lifo: bool,
    /// one futex wait in `spurious` returns without being woken (0: never)
    pub spurious: u64,
    pub budget: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct MemSpec {
    /// 0 LIFO re-use, 1 FIFO re-use, 2 never re-use
    pub reuse: u8,
    /// offsets the heap (address-dependence)
    pub skew: u64,
    pub entropy: u64,
    pub clock_base: u64,
    pub clock_jumps: u8,
    /// nonzero: the parts of documents are allocated in an order of their own
    #[serde(default)]
    pub scatter: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct LogEnt {
    pub task: u8,
    pub target: u8,
    pub forced: u8,
    pub from_unstarted: u8,
    pub site: u32,
    pub rsite: u32,
    pub _pad: u32,
    pub local: u64,
}

pub const ST_NOTRUN: u32 = 0;
pub const ST_RUNNING: u32 = 1;
pub const ST_DONE: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub const ST_BUDGET: u32 = 4;
pub const ST_SEGV: u32 = 5;
pub const ST_FOREIGN: u32 = 6;
pub const ST_NOMEM: u32 = 7;

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub cur_task: u32,
    pub nlog: u32,
    pub log_lost: u32,
    pub cur_op: [u32; MAXT],
    pub total: u64,
    pub logh: u64,
    pub fault_addr: u64,
    pub fault_pc: u64,
    pub blocked_by_stall: u32,
    pub nspurious: u32,
    pub nblocks: u32,
    pub noom: u32,
    pub nstall: u32,
    pub njump: u32,
    pub nworker: u32,
    pub nsleep: u32,
    pub nforced: u32,
    pub nconflict: u32,
    pub nrandom: u32,
    pub nclock: u32,
    pub simns: u64,
    pub diag: [u8; 512],
    pub outlen: u64,
    pub log: [LogEnt; LOGCAP],
    pub cov: [u8; NSITES],
    /// program points at which a thread was preempted while another one came to wait
    pub crit: [u8; NSITES],
    pub out: [u8; OUTCAP],
}
pub static mut SH: *mut Shared = std::ptr::null_mut();

pub unsafe fn map_shared() -> *mut Shared {
    let p = libc::mmap(
        std::ptr::null_mut(),
        std::mem::size_of::<Shared>(),
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    );
    assert!(p != libc::MAP_FAILED);
    p as *mut Shared
}

// ------------------------------------------------------------------ raw system calls
#[inline(always)]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn fwait(a: &AtomicU32) {
    while a.load(Ordering::SeqCst) == 0 {
        raw6(202, a as *const _ as i64, 128, 0, 0, 0, 0);
    }
    a.store(0, Ordering::SeqCst);
}
unsafe fn fwake(a: &AtomicU32) {
    a.store(1, Ordering::SeqCst);
    raw6(202, a as *const _ as i64, 129, 1, 0, 0, 0);
}

// ------------------------------------------------------------------ state
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Unborn,
    Runnable,
    Blocked,
    Sleeping,
    Stalled,
    Exiting,
    Finished,
    Absent,
}
pub struct Task {
    pub st: St,
    baton: AtomicU32,
    pub local: u64,
    next_at: u64,
    pub lib: bool,
    pub ret_lib: bool,
    pub after: u32,
    prio: i64,
    faddr: usize,
    fseq: u64,
    deadline: u64,
    has_deadline: bool,
    timedout: bool,
    stall_until: u64,
    tid: libc::pthread_t,
    pub stack_hi: usize,
    pub stack_len: usize,
    pub last_site: u32,
    pub started: bool,
    fpos: usize,
    // allocation accounting of the current operation
    pub allocs: u64,
    pub oom: [(u64, u64); 4],
    pub noom: usize,
    pub oom_fired: u32,
    rnd: u64,
    /// simulated time spent sleeping or in waits that timed out, and the part of it while another thread was suspended
    slept: u64,
    waited: u64,
    pub ops_done: u64,
}
const T0: Task = Task {
    st: St::Absent,
    baton: AtomicU32::new(0),
    local: 0,
    next_at: u64::MAX,
    lib: false,
    ret_lib: false,
    after: 0,
    prio: 0,
    faddr: 0,
    fseq: 0,
    deadline: 0,
    has_deadline: false,
    timedout: false,
    stall_until: 0,
    tid: 0,
    stack_hi: 0,
    stack_len: 0,
    last_site: 0,
    started: false,
    fpos: 0,
    allocs: 0,
    oom: [(0, 0); 4],
    noom: 0,
    oom_fired: 0,
    rnd: 0,
    slept: 0,
    waited: 0,
    ops_done: 0,
};
pub static mut TASKS: [Task; MAXT] = [T0; MAXT];
pub static mut NT: usize = 0;
pub static mut ACTIVE: bool = false;
static mut NOPREEMPT: bool = false;
pub static mut CUR: usize = NONE;
pub static mut TOTAL: u64 = 0;
static mut LOGH: u64 = 0;
static mut CTRL: AtomicU32 = AtomicU32::new(0);
static mut MODE: u8 = 0;
static mut MEAN: u64 = 100;
static mut BUDGET: u64 = 50_000_000;
static mut RNG: Rng = Rng::zero();
static mut FORCED: Vec<Vec<(u64, u8)>> = Vec::new();
static mut CPTS: Vec<u64> = Vec::new();
static mut CPI: usize = 0;
static mut LOWPRIO: i64 = 0;
static mut HOT: [bool; NSITES] = [false; NSITES];
static mut LIFO: bool = false;
static mut SPUR: u64 = 0;
static mut SPURSEED: u64 = 0;
static mut FSEQ: u64 = 0;
static mut MEM: MemSpec = MemSpec { reuse: 0, skew: 0, entropy: 0, clock_base: 0, clock_jumps: 0, scatter: 0 };
static mut EXTRA_NS: i64 = 0;
static mut CLOCKCTR: u64 = 0;
pub static mut SIM_STACK_BASE: usize = 0x3000_0000_0000;
const STACK_STRIDE: usize = 0x1000_0000;

static mut WINDOW: u32 = 1;
// shared-address table for strategy 5
#[derive(Clone, Copy)]
struct Acc {
    key: usize,
    task: u8,
    wrote: bool,
}
const SEVERAL: u8 = 0xFE;
static mut WOKE: bool = false;
static mut CAND: u64 = 0;
/// the task (plus one) which allocated a block, per 16 bytes of the library's heap
static mut OWNERS: *mut u8 = std::ptr::null_mut();
const OWNER_BYTES: usize = (3usize << 30) / 16;
unsafe fn owner(a: usize) -> u8 {
    if a < ARENA_BASE || a >= ARENA_BASE + (3usize << 30) || OWNERS.is_null() {
        return 0;
    }
    *OWNERS.add((a - ARENA_BASE) >> 4)
}
use std::sync::atomic::Ordering::SeqCst;
const NACC: usize = 1 << 14;
static mut ACC: [Acc; NACC] = [Acc { key: 0, task: 0, wrote: false }; NACC];

pub fn sim_ns() -> u64 {
    unsafe {
        (MEM.clock_base as i64)
            .wrapping_add((TOTAL * 25) as i64)
            .wrapping_add(EXTRA_NS) as u64
    }
}

// ------------------------------------------------------------------ events
pub const K_EDGE: u8 = 0;
pub const K_LOAD: u8 = 1;
pub const K_STORE: u8 = 2;
pub const K_ALLOC: u8 = 3;
pub const K_FREE: u8 = 4;
pub const K_CALL: u8 = 5;
pub const K_FUTEX: u8 = 6;
/// an atomic operation of the code under test
pub const K_SYNC: u8 = 7;

#[inline(always)]
unsafe fn event(kind: u8, site: u32, addr: usize) {
    let t = &mut TASKS[CUR];
    t.local += 1;
    TOTAL += 1;
    LOGH = (LOGH.rotate_left(7) ^ (site as u64) ^ ((kind as u64) << 32) ^ ((CUR as u64) << 40))
        .wrapping_mul(0x9E3779B97F4A7C15);
    if t.local >= t.next_at || MODE >= 3 {
        decide(kind, site, addr);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE || CUR == NONE || !TASKS[CUR].lib || NOPREEMPT {
        return;
    }
    let s = *g;
    (*SH).cov[(s as usize) & (NSITES - 1)] = 1;
    TASKS[CUR].last_site = s;
    event(K_EDGE, s, 0);
}
static mut NGUARD: u32 = 0;
pub static mut PCTAB: Vec<(usize, usize)> = Vec::new();
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    if s == e || *s != 0 {
        return;
    }
    while s < e {
        NGUARD += 1;
        *s = NGUARD;
        s = s.add(1);
    }
}
pub fn nguards() -> u32 {
    unsafe { NGUARD }
}
static mut PCS: [(usize, usize); 64] = [(0, 0); 64];
static mut NPCS: usize = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(s: usize, e: usize) {
    for i in 0..NPCS {
        if PCS[i].0 == s {
            return;
        }
    }
    if NPCS < 64 {
        PCS[NPCS] = (s, e);
        NPCS += 1;
    }
}
/// program counter of a guard (guards and pc table are laid out in the same order)
pub fn site_pc(site: u32) -> usize {
    unsafe {
        let mut i = site as usize;
        if i == 0 {
            return 0;
        }
        i -= 1;
        for k in 0..NPCS {
            let n = (PCS[k].1 - PCS[k].0) / 16;
            if i < n {
                return *((PCS[k].0 + i * 16) as *const usize);
            }
            i -= n;
        }
        0
    }
}
#[inline(always)]
unsafe fn memev(kind: u8, p: usize) {
    if !ACTIVE || CUR == NONE || !TASKS[CUR].lib || NOPREEMPT {
        return;
    }
    let s = TASKS[CUR].last_site;
    event(kind, s, p);
}
/// atomic operations of the code under test arrive here (the thread sanitizer's instrumentation,
/// restricted to atomics; its run-time library is not linked)
macro_rules! atomics { ($($t:ty, $at:ident, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $load(p: *const $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).load(SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).store(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).swap(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).fetch_add(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).fetch_sub(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).fetch_and(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).fetch_or(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).fetch_xor(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, _: i32) -> $t { memev(K_SYNC, p as usize); (*(p as *const std::sync::atomic::$at)).fetch_nand(v, SeqCst) }
    #[no_mangle] pub unsafe extern "C" fn $cas(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
        memev(K_SYNC, p as usize);
        match (*(p as *const std::sync::atomic::$at)).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
    }
)* } }
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    std::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
macro_rules! memhooks { ($($l:ident $s:ident),*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $l(p: usize) { memev(K_LOAD, p) }
    #[no_mangle] pub unsafe extern "C" fn $s(p: usize) { memev(K_STORE, p) }
)* } }
memhooks!(__sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16);

/// An explicit scheduling point in caller code (call-outs, pauses).
pub fn yield_point(tag: u32) {
    unsafe {
        if ACTIVE && CUR != NONE && !NOPREEMPT {
            event(K_CALL, 0xFFFF_0000 | tag, 0);
        }
    }
}

unsafe fn diag(s: &str) {
    let d = &mut (*SH).diag;
    let n = s.len().min(d.len() - 1);
    d[..n].copy_from_slice(&s.as_bytes()[..n]);
    d[n] = 0;
}
unsafe fn publish(status: u32) {
    let sh = &mut *SH;
    sh.total = TOTAL;
    sh.logh = LOGH;
    sh.cur_task = CUR as u32;
    sh.simns = sim_ns().wrapping_sub(MEM.clock_base);
    sh.status = status;
}
unsafe fn die(status: u32, why: &str) -> ! {
    diag(why);
    publish(status);
    libc::_exit(0);
}

#[inline(never)]
unsafe fn decide(kind: u8, site: u32, addr: usize) {
    let due = TASKS[CUR].local >= TASKS[CUR].next_at;
    let mut want = due;
    match MODE {
        3 => {
            if kind == K_EDGE && HOT[(site as usize) & (NSITES - 1)] && RNG.below(MEAN as usize) == 0 {
                want = true;
            }
        }
        8 => {
            // at a point inside of a critical section, or a little after it
            if kind == K_EDGE && HOT[(site as usize) & (NSITES - 1)] && RNG.below(MEAN as usize) == 0 {
                if RNG.below(2) == 0 {
                    want = true;
                } else {
                    TASKS[CUR].next_at = TASKS[CUR].local + 1 + RNG.below(WINDOW as usize) as u64;
                }
            }
        }
        4 => {
            if kind >= K_ALLOC && RNG.below(MEAN as usize) == 0 {
                want = true;
            }
        }
        5 => {
            if (kind == K_LOAD || kind == K_STORE || kind == K_SYNC) && shared_key(addr) != 0 {
                let key = shared_key(addr) >> 3;
                let a = &mut ACC[(mix(key as u64) as usize) & (NACC - 1)];
                if a.key == key {
                    if a.task != CUR as u8 && (a.wrote || kind != K_LOAD) {
                        (*SH).nconflict += 1;
                        if RNG.below(MEAN as usize) == 0 {
                            want = true;
                        }
                    }
                    a.wrote |= kind != K_LOAD;
                    a.task = CUR as u8;
                } else {
                    *a = Acc { key, task: CUR as u8, wrote: kind != K_LOAD };
                }
            }
        }
        7 => {
            let k = if kind == K_LOAD || kind == K_STORE || kind == K_SYNC { shared_key(addr) } else { 0 };
            if k != 0 && CUR != 0 {
                let key = k >> 3;
                let a = &mut ACC[(mix(key as u64) as usize) & (NACC - 1)];
                if a.key != key {
                    *a = Acc { key, task: CUR as u8, wrote: false };
                }
                if a.task != CUR as u8 {
                    a.task = SEVERAL;
                }
                a.wrote |= kind != K_LOAD;
                if a.wrote && (a.task == SEVERAL || owner(addr) != CUR as u8 + 1) && mix(SPURSEED ^ site as u64) % MEAN == 0 {
                    CAND += 1;
                    (*SH).nconflict += 1;
                    if CPI < CPTS.len() && CAND >= CPTS[CPI] {
                        CPI += 1;
                        // at the access, or a little after it: the lock and unlock around an access
                        // are not accesses the instrumentation reports
                        if RNG.below(2) == 0 {
                            want = true;
                        } else {
                            TASKS[CUR].next_at = TASKS[CUR].local + 1 + RNG.below(24) as u64;
                        }
                    }
                }
            }
        }
        9 | 10 => {
            // atomic operations on what more than one thread has used
            let k = if kind == K_SYNC { shared_key(addr) } else { 0 };
            if k != 0 && CUR != 0 || k != 0 && MODE == 9 {
                let key = k >> 2;
                let a = &mut ACC[(mix(key as u64) as usize) & (NACC - 1)];
                if a.key != key {
                    *a = Acc { key, task: CUR as u8, wrote: true };
                }
                if a.task != CUR as u8 {
                    a.task = SEVERAL;
                }
                if a.task == SEVERAL || owner(addr) != CUR as u8 + 1 {
                    (*SH).nconflict += 1;
                    if MODE == 9 {
                        want |= RNG.below(MEAN as usize) == 0;
                    } else {
                        CAND += 1;
                        if CPI < CPTS.len() && CAND >= CPTS[CPI] {
                            CPI += 1;
                            want = true;
                        }
                    }
                }
            }
        }
        _ => {}
    }
    if !want {
        return;
    }
    if TOTAL > BUDGET {
        die(ST_BUDGET, "event budget exhausted");
    }
    wake_due();
    let me = CUR;
    if MODE == 6 {
        let t = &mut TASKS[me];
        let f = &FORCED[me];
        while t.fpos < f.len() && f[t.fpos].0 < t.local {
            t.fpos += 1;
        }
        let mut target = me;
        if t.fpos < f.len() && f[t.fpos].0 == t.local {
            target = f[t.fpos].1 as usize;
            t.fpos += 1;
        }
        set_next(me);
        if target != me && target < NT && runnable(target) {
            switch(me, target, false);
        }
        return;
    }
    if WOKE {
        // the running task has just made another one runnable
        WOKE = false;
        let target = match MODE {
            0 => me,
            2 | 7 | 10 => best_prio().unwrap_or(me),
            _ => random_runnable(me),
        };
        set_next(me);
        if target != me {
            switch(me, target, false);
        }
        return;
    }
    if MODE == 2 || MODE == 7 || MODE == 10 {
        // a change point (or the fairness bound): demote the running task
        if MODE == 2 && CPI < CPTS.len() && TOTAL >= CPTS[CPI] {
            CPI += 1;
        }
        LOWPRIO -= 1;
        TASKS[me].prio = LOWPRIO;
        let target = best_prio().unwrap_or(me);
        set_next(me);
        if target != me {
            switch(me, target, false);
        }
        return;
    }
    let target = random_runnable(me);
    set_next(me);
    if target != me {
        switch(me, target, false);
    }
}

extern "C" {
    static __executable_start: u8;
    static _end: u8;
}
/// heap and static data, named independently of where the image was loaded; 0: not shared
unsafe fn shared_key(a: usize) -> usize {
    if a >= ARENA_BASE && a < ARENA_BASE + 2 * ARENA_SIZE {
        return a;
    }
    let lo = &__executable_start as *const u8 as usize;
    if a >= lo && a < &_end as *const u8 as usize {
        return a - lo + 8;
    }
    0
}

unsafe fn runnable(i: usize) -> bool {
    match TASKS[i].st {
        St::Runnable => true,
        St::Unborn => deps_done(i),
        _ => false,
    }
}
unsafe fn deps_done(i: usize) -> bool {
    let m = TASKS[i].after;
    for j in 0..NT {
        if m & (1 << j) != 0 && TASKS[j].st != St::Finished {
            return false;
        }
    }
    true
}
unsafe fn wake_due() {
    let now = sim_ns();
    for i in 0..NT {
        let t = &mut TASKS[i];
        match t.st {
            St::Sleeping if t.deadline <= now => t.st = St::Runnable,
            St::Blocked if t.has_deadline && t.deadline <= now => {
                t.timedout = true;
                t.st = St::Runnable
            }
            St::Stalled if t.stall_until <= TOTAL => t.st = St::Runnable,
            _ => {}
        }
    }
}
unsafe fn random_runnable(me: usize) -> usize {
    let mut c = [0usize; MAXT];
    let mut n = 0;
    for i in 0..NT {
        if i != me && runnable(i) {
            c[n] = i;
            n += 1;
        }
    }
    if n == 0 {
        return me;
    }
    c[RNG.below(n)]
}
unsafe fn best_prio() -> Option<usize> {
    let mut b: Option<usize> = None;
    for i in 0..NT {
        if runnable(i) && b.map_or(true, |x| TASKS[i].prio > TASKS[x].prio) {
            b = Some(i);
        }
    }
    b
}
const FAIR: u64 = 400_000;
unsafe fn set_next(i: usize) {
    let t = &mut TASKS[i];
    let d = match MODE {
        0 | 7 | 9 | 10 => FAIR,
        1 => RNG.interval(MEAN),
        2 => {
            if CPI < CPTS.len() {
                (CPTS[CPI].saturating_sub(TOTAL)).max(1).min(FAIR)
            } else {
                FAIR
            }
        }
        6 => {
            let f = &FORCED[i];
            let mut p = t.fpos;
            while p < f.len() && f[p].0 <= t.local {
                p += 1;
            }
            t.fpos = p;
            if p < f.len() {
                (f[p].0 - t.local).min(FAIR)
            } else {
                FAIR
            }
        }
        _ => RNG.interval(20_000),
    };
    t.next_at = t.local + d;
}

unsafe fn log(me: usize, target: usize, forced: bool) {
    let sh = &mut *SH;
    let n = sh.nlog as usize;
    if n >= SWITCHCAP && MODE != 6 && MODE != 0 {
        // enough preemptions for one execution: only forced and fairness switches from here on
        MODE = 0;
    }
    if n >= LOGCAP {
        sh.log_lost = 1;
        return;
    }
    let (site, local) = if me < MAXT { (TASKS[me].last_site, TASKS[me].local) } else { (0, 0) };
    sh.log[n] = LogEnt {
        task: me as u8,
        target: target as u8,
        forced: forced as u8,
        from_unstarted: !TASKS[target].started as u8,
        site,
        rsite: TASKS[target].last_site,
        _pad: 0,
        local,
    };
    sh.nlog = n as u32 + 1;
    if forced {
        sh.nforced += 1;
    }
}

unsafe fn hand_to(target: usize) {
    let t = &mut TASKS[target];
    t.started = true;
    if t.st == St::Unborn {
        t.st = St::Runnable;
    }
    CUR = target;
    (*SH).cur_task = target as u32;
    set_next(target);
    fwake(&TASKS[target].baton);
}
unsafe fn switch(me: usize, target: usize, forced: bool) {
    log(me, target, forced);
    hand_to(target);
    fwait(&TASKS[me].baton);
}

/// the running task cannot continue: choose another (may return `me` itself if it became runnable)
unsafe fn pick_forced(me: usize) -> usize {
    loop {
        wake_due();
        if MODE == 6 {
            {
                let (k, local) = if me < NT { (me, TASKS[me].local) } else { (MAXT, 0) };
                let f = &FORCED[k];
                let mut p = 0;
                while p < f.len() && f[p].0 < local {
                    p += 1;
                }
                if p < f.len() && f[p].0 == local {
                    let x = f[p].1 as usize;
                    if x < NT && runnable(x) {
                        return x;
                    }
                }
            }
            for i in 0..NT {
                if runnable(i) {
                    return i;
                }
            }
        } else if MODE == 2 || MODE == 7 || MODE == 10 {
            if let Some(x) = best_prio() {
                return x;
            }
        } else {
            let x = random_runnable(NONE);
            if x != NONE {
                return x;
            }
        }
        // nobody can run now: let time pass
        let mut dl = u64::MAX;
        for i in 0..NT {
            let t = &TASKS[i];
            if t.st == St::Sleeping || (t.st == St::Blocked && t.has_deadline) {
                dl = dl.min(t.deadline);
            }
        }
        let mut stalled = None;
        let mut blocked = false;
        for i in 0..NT {
            match TASKS[i].st {
                St::Stalled => {
                    if stalled.map_or(true, |s: usize| TASKS[i].stall_until < TASKS[s].stall_until) {
                        stalled = Some(i)
                    }
                }
                St::Blocked if !TASKS[i].has_deadline => blocked = true,
                _ => {}
            }
        }
        if dl != u64::MAX {
            let now = sim_ns();
            EXTRA_NS += dl.wrapping_sub(now) as i64;
            continue;
        }
        if let Some(s) = stalled {
            if blocked && (*SH).blocked_by_stall == 0 {
                let mut m = String::new();
                for i in 0..NT {
                    if TASKS[i].st == St::Blocked {
                        m += &format!("task {} waits (site {}) while task {} is suspended; ", i, TASKS[i].last_site, s);
                    }
                }
                diag(&m);
                (*SH).blocked_by_stall = 1;
            }
            TASKS[s].st = St::Runnable;
            continue;
        }
        let mut m = String::from("no task can run: ");
        for i in 0..NT {
            m += &format!("task {} {:?} at site {}; ", i, TASKS[i].st, TASKS[i].last_site);
        }
        die(ST_DEADLOCK, &m);
    }
}

/// Suspend the running task: until `n` more events have happened, or (n = u64::MAX) until no
/// other task can make progress.
pub fn stall(n: u64) {
    unsafe {
        let me = CUR;
        (*SH).nstall += 1;
        TASKS[me].local += 1;
        TASKS[me].st = St::Stalled;
        TASKS[me].stall_until = if n == u64::MAX { n } else { TOTAL + n };
        let x = pick_forced(me);
        if x != me {
            switch(me, x, true);
        } else {
            TASKS[me].st = St::Runnable;
        }
    }
}

unsafe fn note_wait(me: usize, ns: u64) {
    TASKS[me].slept = TASKS[me].slept.saturating_add(ns);
    if (0..NT).any(|i| i != me && TASKS[i].st == St::Stalled && TASKS[i].stall_until == u64::MAX) {
        TASKS[me].waited = TASKS[me].waited.saturating_add(ns);
    }
}
unsafe fn sleep_ns(ns: u64) {
    let me = CUR;
    (*SH).nsleep += 1;
    note_wait(me, ns);
    TASKS[me].local += 1;
    TOTAL += 20;
    if TOTAL > BUDGET {
        die(ST_BUDGET, "event budget exhausted (waiting by sleeping or yielding)");
    }
    TASKS[me].st = St::Sleeping;
    TASKS[me].deadline = sim_ns().wrapping_add(ns);
    let x = pick_forced(me);
    if x != me {
        switch(me, x, true);
    } else {
        TASKS[me].st = St::Runnable;
    }
}

// ------------------------------------------------------------------ futexes
const FUTEX_WAIT: i64 = 0;
const FUTEX_WAKE: i64 = 1;
const FUTEX_WAIT_BITSET: i64 = 9;
const FUTEX_WAKE_BITSET: i64 = 10;

unsafe fn sim_futex(addr: usize, op: i64, val: u32, timeout: *const libc::timespec) -> i64 {
    let cmd = op & 0x7f;
    let me = CUR;
    let t = &mut TASKS[me];
    if !NOPREEMPT {
        event(K_FUTEX, 0xFFFE_0000 | cmd as u32, 0);
        if TOTAL > BUDGET {
            die(ST_BUDGET, "event budget exhausted");
        }
    }
    match cmd {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            let cur = (*(addr as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != val {
                return -(libc::EAGAIN as i64);
            }
            if SPUR != 0 && hash2(SPURSEED ^ me as u64, t.local) % SPUR == 0 {
                (*SH).nspurious += 1;
                return if hash2(SPURSEED, t.local) & 1 == 0 { 0 } else { -(libc::EINTR as i64) };
            }
            (*SH).nblocks += 1;
            for i in 0..NT {
                if i != me && TASKS[i].st == St::Runnable && TASKS[i].local > 0 {
                    (*SH).crit[(TASKS[i].last_site as usize) & (NSITES - 1)] = 1;
                }
            }
            t.faddr = addr;
            FSEQ += 1;
            t.fseq = FSEQ;
            t.timedout = false;
            t.has_deadline = !timeout.is_null();
            if t.has_deadline {
                let ts = &*timeout;
                let ns = ts.tv_sec as i128 * 1_000_000_000 + ts.tv_nsec as i128;
                // FUTEX_WAIT: relative; FUTEX_WAIT_BITSET: absolute on CLOCK_MONOTONIC
                t.deadline = if cmd == FUTEX_WAIT { sim_ns() + ns as u64 } else { ns as u64 };
            }
            t.st = St::Blocked;
            t.local += 1;
            let since = sim_ns();
            let x = pick_forced(me);
            if x != me {
                switch(me, x, true);
            }
            let t = &mut TASKS[me];
            t.st = St::Runnable;
            t.has_deadline = false;
            if t.timedout {
                t.timedout = false;
                note_wait(me, sim_ns().saturating_sub(since));
                return -(libc::ETIMEDOUT as i64);
            }
            0
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let mut n = 0i64;
            let want = if val > i32::MAX as u32 { i32::MAX as i64 } else { val as i64 };
            while n < want {
                let mut b: Option<usize> = None;
                for i in 0..NT {
                    if TASKS[i].st == St::Blocked && TASKS[i].faddr == addr {
                        b = match b {
                            None => Some(i),
                            Some(j) => {
                                let newer = TASKS[i].fseq > TASKS[j].fseq;
                                if newer == LIFO {
                                    Some(i)
                                } else {
                                    Some(j)
                                }
                            }
                        };
                    }
                }
                match b {
                    Some(i) => {
                        TASKS[i].st = St::Runnable;
                        n += 1;
                    }
                    None => break,
                }
            }
            if n > 0 && !NOPREEMPT {
                if MODE != 6 && MODE != 0 && (MODE == 2 || MODE == 7 || MODE == 10 || RNG.below(3) == 0) {
                    WOKE = true;
                    let t = &mut TASKS[me];
                    t.next_at = t.local;
                }
                event(K_CALL, 0xFFFE_0100, 0);
                WOKE = false;
            }
            n
        }
        _ => die(ST_FOREIGN, "unsupported futex operation"),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if ACTIVE && CUR != NONE {
        match n {
            202 => return ret(sim_futex(a as usize, b, c as u32, d as *const libc::timespec)),
            318 => return getrandom(a as *mut u8, b as usize, c as u32) as i64,
            _ => {}
        }
    }
    ret(raw6(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ randomness and time
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if !ACTIVE || CUR == NONE {
        return ret(raw6(318, p as i64, n as i64, fl as i64, 0, 0, 0)) as isize;
    }
    (*SH).nrandom += 1;
    let t = &mut TASKS[CUR];
    for i in 0..n {
        if i % 8 == 0 {
            t.rnd += 1;
        }
        *p.add(i) = (hash2(MEM.entropy ^ ((CUR as u64) << 32), t.rnd) >> ((i % 8) * 8)) as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if !ACTIVE || CUR == NONE {
        return ret(raw6(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32;
    }
    (*SH).nclock += 1;
    CLOCKCTR += 1;
    if MEM.clock_jumps != 0 && hash2(MEM.entropy ^ 0xC10C, CLOCKCTR) % 3 == 0 {
        (*SH).njump += 1;
        let mag = [1_000i64, 1_000_000, 5_000_000_000, 86_400_000_000_000][(hash2(MEM.entropy, CLOCKCTR) % 4) as usize];
        // the monotonic clock only jumps forward; wall clocks also backward
        EXTRA_NS = EXTRA_NS.wrapping_add(mag);
    }
    let mut now = sim_ns();
    if id == libc::CLOCK_REALTIME {
        now = now.wrapping_add(1_700_000_000_000_000_000);
        if MEM.clock_jumps != 0 && hash2(MEM.entropy ^ 0xBAC, CLOCKCTR) % 3 == 0 {
            now = now.wrapping_sub(3_600_000_000_000);
        }
    }
    (*ts).tv_sec = (now / 1_000_000_000) as i64;
    (*ts).tv_nsec = (now % 1_000_000_000) as i64;
    0
}
unsafe fn ts_ns(ts: *const libc::timespec) -> u64 {
    (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if !ACTIVE || CUR == NONE {
        return ret(raw6(35, ts as i64, rem as i64, 0, 0, 0, 0)) as i32;
    }
    sleep_ns(ts_ns(ts));
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: i32, ts: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if !ACTIVE || CUR == NONE {
        return -(raw6(230, id as i64, fl as i64, ts as i64, rem as i64, 0, 0) as i32);
    }
    let ns = ts_ns(ts);
    if fl & libc::TIMER_ABSTIME != 0 {
        sleep_ns(ns.saturating_sub(sim_ns()));
    } else {
        sleep_ns(ns);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if !ACTIVE || CUR == NONE {
        return ret(raw6(24, 0, 0, 0, 0, 0, 0)) as i32;
    }
    sleep_ns(1_000);
    0
}

// ------------------------------------------------------------------ heap
const ARENA_BASE: usize = 0x2000_0000_0000;
const ARENA_SIZE: usize = 0x10_0000_0000; // 64 GB of address space each
const NCLS: usize = 64 + 40;
#[derive(Clone, Copy)]
struct Arena {
    base: usize,
    cur: usize,
    end: usize,
    head: [usize; NCLS],
    tail: [usize; NCLS],
    live_bytes: i64,
    live_blocks: i64,
    allocs: u64,
    frees: u64,
    limit: usize,
}
const A0: Arena = Arena { base: 0, cur: 0, end: 0, head: [0; NCLS], tail: [0; NCLS], live_bytes: 0, live_blocks: 0, allocs: 0, frees: 0, limit: 0 };
static mut AR: [Arena; 2] = [A0; 2]; // 0 library, 1 harness
pub struct SimAlloc;
fn class(sz: usize) -> (usize, usize) {
    let sz = sz.max(16);
    if sz <= 1024 {
        let c = (sz + 15) / 16;
        (c - 1, c * 16)
    } else {
        let p = sz.next_power_of_two();
        (64 + p.trailing_zeros() as usize - 11, p)
    }
}
impl Arena {
    unsafe fn alloc(&mut self, l: Layout) -> *mut u8 {
        let (c, sz) = class(l.size());
        self.live_bytes += l.size() as i64;
        self.live_blocks += 1;
        self.allocs += 1;
        if MEM.reuse != 2 && l.align() <= 16 && self.head[c] != 0 {
            let p = self.head[c];
            self.head[c] = *(p as *const usize);
            if self.head[c] == 0 {
                self.tail[c] = 0;
            }
            std::ptr::write_bytes(p as *mut u8, 0xCD, l.size().min(256));
            return p as *mut u8;
        }
        let al = l.align().max(16);
        let p = (self.cur + al - 1) & !(al - 1);
        if p + sz > self.limit {
            die(ST_NOMEM, "simulated heap exhausted");
        }
        self.cur = p + sz;
        p as *mut u8
    }
    unsafe fn free(&mut self, p: *mut u8, l: Layout) {
        let (c, _) = class(l.size());
        self.live_bytes -= l.size() as i64;
        self.live_blocks -= 1;
        self.frees += 1;
        std::ptr::write_bytes(p, 0xDD, l.size().min(256));
        if MEM.reuse == 2 || l.align() > 16 {
            return;
        }
        let a = p as usize;
        if MEM.reuse == 0 {
            *(a as *mut usize) = self.head[c];
            self.head[c] = a;
            if self.tail[c] == 0 {
                self.tail[c] = a;
            }
        } else {
            *(a as *mut usize) = 0;
            if self.tail[c] != 0 {
                *(self.tail[c] as *mut usize) = a;
            } else {
                self.head[c] = a;
            }
            self.tail[c] = a;
        }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ACTIVE || CUR == NONE {
            return System.alloc(l);
        }
        let t = &mut TASKS[CUR];
        if t.lib {
            if !NOPREEMPT {
                event(K_ALLOC, t.last_site, 0);
            }
            t.allocs += 1;
            if t.noom > 0 {
                for i in 0..t.noom {
                    let (k, n) = t.oom[i];
                    if t.allocs >= k && t.allocs < k.saturating_add(n) && !std::thread::panicking() {
                        t.oom_fired += 1;
                        (*SH).noom += 1;
                        return std::ptr::null_mut();
                    }
                }
            }
            let p = AR[0].alloc(l);
            if !OWNERS.is_null() {
                std::ptr::write_bytes(OWNERS.add((p as usize - ARENA_BASE) >> 4), CUR as u8 + 1, (l.size() + 15) >> 4);
            }
            return p;
        }
        AR[if t.ret_lib { 0 } else { 1 }].alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if a >= ARENA_BASE && a < ARENA_BASE + 2 * ARENA_SIZE {
            if ACTIVE && CUR != NONE && TASKS[CUR].lib && !NOPREEMPT {
                event(K_FREE, TASKS[CUR].last_site, 0);
            }
            let k = if a < ARENA_BASE + ARENA_SIZE { 0 } else { 1 };
            AR[k].free(p, l);
        } else {
            System.dealloc(p, l)
        }
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Live {
    pub bytes: i64,
    pub blocks: i64,
}
pub fn live_lib() -> Live {
    unsafe { Live { bytes: AR[0].live_bytes, blocks: AR[0].live_blocks } }
}
unsafe fn init_arenas(m: &MemSpec) {
    let p = libc::mmap(
        ARENA_BASE as *mut _,
        2 * ARENA_SIZE,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as usize != ARENA_BASE {
        diag("cannot map the simulated heap");
        libc::_exit(9);
    }
    OWNERS = std::ptr::null_mut();
    if MODE == 7 || MODE >= 9 {
        let p = libc::mmap(
            std::ptr::null_mut(),
            OWNER_BYTES,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p != libc::MAP_FAILED {
            OWNERS = p as *mut u8;
        }
    }
    for k in 0..2 {
        let base = ARENA_BASE + k * ARENA_SIZE;
        AR[k] = A0;
        AR[k].base = base;
        AR[k].cur = base + 4096 + (m.skew as usize % 4096) * 16;
        AR[k].end = base + ARENA_SIZE;
        AR[k].limit = base + (3usize << 30);
    }
}

// ------------------------------------------------------------------ modes of the running task
pub struct Mode(usize, bool, bool);
impl Mode {
    pub fn lib() -> Mode {
        Mode::set(true, false)
    }
    pub fn harness() -> Mode {
        Mode::set(false, false)
    }
    /// harness code whose allocations are handed to the library
    pub fn ret() -> Mode {
        Mode::set(false, true)
    }
    fn set(lib: bool, ret_lib: bool) -> Mode {
        unsafe {
            if !ACTIVE || CUR == NONE {
                return Mode(NONE, false, false);
            }
            let t = &mut TASKS[CUR];
            let m = Mode(CUR, t.lib, t.ret_lib);
            t.lib = lib;
            t.ret_lib = ret_lib;
            m
        }
    }
}
impl Drop for Mode {
    fn drop(&mut self) {
        unsafe {
            if self.0 != NONE {
                let t = &mut TASKS[self.0];
                t.lib = self.1;
                t.ret_lib = self.2;
            }
        }
    }
}
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _m = Mode::lib();
    f()
}
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _m = Mode::harness();
    f()
}
pub fn ret_lib<R>(f: impl FnOnce() -> R) -> R {
    let _m = Mode::ret();
    f()
}
pub fn cur() -> usize {
    unsafe { CUR }
}
/// true if the calling thread really is the simulated task that holds the baton
pub fn on_task_stack() -> bool {
    let x = 0u8;
    let a = &x as *const u8 as usize;
    unsafe {
        if CUR == NONE {
            return false;
        }
        let t = &TASKS[CUR];
        a < t.stack_hi && a >= t.stack_hi - t.stack_len
    }
}
pub fn set_op(task: usize, op: u32) {
    unsafe {
        (*SH).cur_op[task] = op;
    }
}
pub fn set_oom(v: &[(u64, u64)]) {
    unsafe {
        let t = &mut TASKS[CUR];
        t.allocs = 0;
        t.oom_fired = 0;
        t.noom = v.len().min(4);
        for i in 0..t.noom {
            t.oom[i] = v[i];
        }
    }
}
pub fn op_counters() -> (u64, u64, u32) {
    unsafe {
        let t = &TASKS[CUR];
        (t.local, t.allocs, t.oom_fired)
    }
}
/// (simulated time waited, the part of it while another thread was suspended)
pub fn waits() -> (u64, u64) {
    unsafe { (TASKS[CUR].slept, TASKS[CUR].waited) }
}
pub fn total() -> u64 {
    unsafe { TOTAL }
}
pub fn task_site(i: usize) -> u32 {
    unsafe { TASKS[i].last_site }
}
pub fn my_state_others_running() -> bool {
    unsafe {
        for i in 0..NT {
            if i != CUR && !matches!(TASKS[i].st, St::Finished | St::Absent | St::Unborn | St::Stalled) {
                return true;
            }
        }
        false
    }
}

// ------------------------------------------------------------------ running
static mut TASK_MAIN: Option<fn(usize)> = None;
static mut ALTSTACKS: [[u8; 16384]; MAXT] = [[0; 16384]; MAXT];

extern "C" fn trampoline(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let i = arg as usize;
        let mut ss: libc::stack_t = std::mem::zeroed();
        ss.ss_sp = ALTSTACKS[i].as_mut_ptr() as *mut _;
        ss.ss_size = 16384;
        libc::sigaltstack(&ss, std::ptr::null_mut());
        fwait(&TASKS[i].baton);
        (TASK_MAIN.unwrap())(i);
        // thread-local destructors run next, for real, as part of this task
        NOPREEMPT = true;
        TASKS[i].st = St::Exiting;
        TASKS[i].lib = true;
        fwake(&*std::ptr::addr_of!(CTRL));
    }
    std::ptr::null_mut()
}
// A worker: a short-lived thread on which a simulated task performs one operation.  The task waits
// for it, so the worker *is* the task for the scheduler; what the library keeps per thread is fresh
// in the worker and torn down when it ends.
static mut WSTACK: [usize; MAXT] = [0; MAXT];
static mut WBUSY: [bool; MAXT] = [false; MAXT];
static mut WARG: [Option<*mut dyn FnMut()>; MAXT] = [None; MAXT];
static mut WALTSTACKS: [[u8; 16384]; MAXT] = [[0; 16384]; MAXT];
extern "C" fn worker_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let i = arg as usize;
        let mut ss: libc::stack_t = std::mem::zeroed();
        ss.ss_sp = WALTSTACKS[i].as_mut_ptr() as *mut _;
        ss.ss_size = 16384;
        libc::sigaltstack(&ss, std::ptr::null_mut());
        (*WARG[i].take().unwrap())();
        // thread-local destructors run next, for real, as part of this task
        NOPREEMPT = true;
        TASKS[i].lib = true;
        TASKS[i].ret_lib = false;
    }
    std::ptr::null_mut()
}
/// Runs `f` on a fresh thread of the current task; false (and nothing is run) if it is on one.
/// `f` must not unwind.
pub fn on_worker(f: &mut dyn FnMut()) -> bool {
    unsafe {
        if !ACTIVE || CUR == NONE || WBUSY[CUR] || NOPREEMPT {
            return false;
        }
        let i = CUR;
        let save = (TASKS[i].stack_hi, TASKS[i].stack_len, TASKS[i].lib, TASKS[i].ret_lib);
        let len = TASKS[i].stack_len.min(STACK_STRIDE / 4);
        // in the lower half of the task's share of addresses; nothing is mapped below
        let hi = SIM_STACK_BASE + i * STACK_STRIDE + STACK_STRIDE / 2;
        if WSTACK[i] == 0 {
            let p = libc::mmap(
                (hi - len) as *mut _,
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            if p as usize != hi - len {
                diag("cannot map the stack of a worker");
                libc::_exit(9);
            }
            WSTACK[i] = hi - len;
        }
        WBUSY[i] = true;
        (*SH).nworker += 1;
        TASKS[i].stack_hi = hi;
        TASKS[i].stack_len = len;
        TASKS[i].lib = false;
        TASKS[i].ret_lib = false;
        WARG[i] = Some(std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(f));
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut at);
        pthread_attr_setstack(&mut at, WSTACK[i] as *mut _, len);
        let mut tid: libc::pthread_t = 0;
        if libc::pthread_create(&mut tid, &at, worker_main, i as *mut _) != 0 {
            diag("cannot create a thread");
            libc::_exit(9);
        }
        libc::pthread_join(tid, std::ptr::null_mut());
        libc::pthread_attr_destroy(&mut at);
        NOPREEMPT = false;
        let t = &mut TASKS[i];
        (t.stack_hi, t.stack_len, t.lib, t.ret_lib) = save;
        WBUSY[i] = false;
        true
    }
}
extern "C" fn on_segv(_sig: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        (*SH).fault_addr = (*info).si_addr() as u64;
        let uc = uc as *const libc::ucontext_t;
        (*SH).fault_pc = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        publish(ST_SEGV);
        libc::_exit(0);
    }
}

extern "C" {
    fn pthread_attr_setstack(a: *mut libc::pthread_attr_t, p: *mut libc::c_void, n: usize) -> i32;
}
pub struct TaskCfg {
    pub after: u32,
    pub stack: usize,
}

/// Runs the tasks to completion in this (forked) process.  `start` is called on each task's thread.
pub unsafe fn run(tasks: &[TaskCfg], s: &SchedSpec, m: &MemSpec, start: fn(usize)) {
    let sh = &mut *SH;
    NT = tasks.len();
    assert!(NT <= MAXT);
    TASK_MAIN = Some(start);
    MEM = m.clone();
    MODE = s.strat;
    WINDOW = s.depth.max(1);
    init_arenas(m);
    MEAN = s.mean.max(1);
    BUDGET = s.budget;
    RNG = Rng::new(s.seed);
    LIFO = s.lifo;
    SPUR = s.spurious;
    SPURSEED = mix(s.seed ^ 0x5517);
    for h in &s.hot {
        HOT[*h as usize & (NSITES - 1)] = true;
    }
    FORCED = vec![Vec::new(); MAXT + 1];
    for (t, l, g) in &s.forced {
        if (*t as usize) <= MAXT {
            FORCED[*t as usize].push((*l, *g));
        }
    }
    for f in FORCED.iter_mut() {
        f.sort();
    }
    CPTS = (0..s.depth).map(|_| 1 + RNG.next() % s.est.max(2)).collect();
    CPTS.sort();
    let mut pr: Vec<i64> = (0..NT as i64).map(|i| i + 1).collect();
    RNG.shuffle(&mut pr);
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_segv as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
    for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL] {
        libc::sigaction(sig, &sa, std::ptr::null_mut());
    }
    for i in 0..NT {
        let t = &mut TASKS[i];
        t.st = St::Unborn;
        t.after = tasks[i].after;
        t.prio = pr[i];
        let hi = SIM_STACK_BASE + (i + 1) * STACK_STRIDE;
        let len = (tasks[i].stack + 4095) & !4095;
        let p = libc::mmap(
            (hi - len) as *mut _,
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != hi - len {
            diag("cannot map a simulated stack");
            libc::_exit(9);
        }
        // guard: nothing is mapped below
        t.stack_hi = hi;
        t.stack_len = len;
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut at);
        pthread_attr_setstack(&mut at, p, len);
        let r = libc::pthread_create(&mut t.tid, &at, trampoline, i as *mut _);
        if r != 0 {
            diag("cannot create a thread");
            libc::_exit(9);
        }
    }
    sh.status = ST_RUNNING;
    ACTIVE = true;
    let mut left = NT;
    let mut prev = NONE;
    while left > 0 {
        let x = pick_forced(prev);
        log(if prev == NONE { MAXT } else { prev }, x, true);
        hand_to(x);
        fwait(&*std::ptr::addr_of!(CTRL));
        let done = CUR;
        libc::pthread_join(TASKS[done].tid, std::ptr::null_mut());
        TASKS[done].st = St::Finished;
        TASKS[done].lib = false;
        TASKS[done].local += 1;
        NOPREEMPT = false;
        CUR = NONE;
        prev = done;
        left -= 1;
    }
    ACTIVE = false;
    CUR = NONE;
    publish(ST_RUNNING);
}
pub unsafe fn finish_ok() {
    (*SH).status = ST_DONE;
}
/// bytes of stack task i ever touched
pub unsafe fn stack_used(i: usize) -> usize {
    let t = &TASKS[i];
    let lo = t.stack_hi - t.stack_len;
    let mut a = lo;
    while a < t.stack_hi {
        if *(a as *const u64) != 0 {
            break;
        }
        a += 8;
    }
    t.stack_hi - a
}
