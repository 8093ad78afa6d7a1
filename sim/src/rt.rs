//! Bindings to the C runtime (rt/rt.c).
use serde::{Deserialize, Serialize};

pub const MAXDEC: usize = 20000;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Dec {
    pub tid: i32,
    pub cls: i32,
    pub count: u64,
    pub target: i32,
    #[serde(default, skip_serializing)]
    pub pad: i32,
}

/// Everything the simulated world does to the process in one run.
#[repr(C)]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
#[serde(default)]
pub struct Env {
    pub sched_seed: u64,
    pub strategy: u32,
    pub p_sync: u32,
    pub gap_plain: u32,
    pub victim: u32,
    pub stall_len: u32,
    pub p_spurious: u32,
    #[serde(skip)]
    pub pad2: u32,
    pub explicit_mode: u32,
    pub clock0: u64,
    pub clock_tick: u64,
    pub jump_at: u32,
    /// extra memory taken before the run, which moves every later address
    pub heap_shift: u32,
    pub jump_by: i64,
    pub entropy_seed: u64,
    pub ent_eintr: u32,
    pub ent_short: u32,
    pub ent_enosys: u32,
    pub ent_nodev: u32,
    pub ent_hard_after: u32,
    pub ent_hard_errno: u32,
    pub sync_cap: u64,
    pub fake_pid: u32,
    pub ent_hard_len: u32,
}

#[repr(C)]
pub struct Region {
    pub env: Env,
    pub stats: [u64; 64],
    pub hash: u64,
    pub sched_hash: u64,
    pub now: u64,
    pub ndec: u32,
    pub ndec_in: u32,
    pub end_code: i32,
    pub cur_tid: i32,
    pub end_msg: [u8; 512],
    pub dec: [Dec; MAXDEC],
    pub dec_in: [Dec; MAXDEC],
}

pub const STAT: [&str; 29] = [
    "context_switches", "preemptions_at_memory_access", "preemptions_at_sync_point", "forced_switches",
    "memory_accesses", "sync_points", "atomic_operations", "futex_waits", "futex_wakes", "spurious_wakeups",
    "yields", "clock_readings", "clock_jumps", "sleeps", "entropy_calls", "entropy_bytes", "entropy_interrupted",
    "entropy_short_read", "entropy_call_absent", "entropy_unavailable", "entropy_device_reads", "allocations_in_calls",
    "allocation_failures", "threads", "stalled_thread_choices", "fairness_switches", "caller_code_points", "timeouts",
    "pthread_mutex_locks",
];
pub const K_SWITCH: usize = 0;
pub const K_ENT_BYTES: usize = 15;
pub const K_ENT_HARD: usize = 19;
pub const K_ALLOC_FAIL: usize = 22;

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct OpState {
    pub in_op: i64,
    pub fail_in: i64,
    pub net: i64,
    pub allocs: u64,
}

extern "C" {
    pub static mut R: *mut Region;
    fn rt_begin();
    fn rt_end();
    fn rt_quiet(q: i32);
    fn rt_tid() -> i32;
    fn rt_log(v: u64);
    fn rt_seam();
    fn rt_stall();
    fn rt_forked(k: u32);
    fn rt_release(t: i32);
    fn rt_op_swap(new: *const OpState, old: *mut OpState);
    fn rt_heap_add(n: i64);
    fn rt_heap_all() -> i64;
    fn rt_work() -> u64;
    fn rt_alloc_point(size: u64, unwinding: i32) -> i32;
    fn rt_no_aslr() -> i32;
}

pub fn begin() { unsafe { rt_begin() } }
pub fn end() { unsafe { rt_end() } }
pub fn quiet(q: bool) { unsafe { rt_quiet(q as i32) } }
pub fn tid() -> i32 { unsafe { rt_tid() } }
/// bytes allocated by anyone
pub fn heap_all() -> i64 { unsafe { rt_heap_all() } }
/// memory accesses and synchronisation of this thread so far
pub fn work() -> u64 { unsafe { rt_work() } }
pub fn log(v: u64) { unsafe { rt_log(v) } }
pub fn text_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn log_str(s: &str) { log(text_hash(s)) }
pub fn seam() { unsafe { rt_seam() } }
/// this process is the `k`-th child of another
pub fn forked(k: u32) { unsafe { rt_forked(k) } }
pub fn stall() { unsafe { rt_stall() } }
pub fn release(t: i32) { unsafe { rt_release(t) } }
pub fn no_aslr() -> bool { unsafe { rt_no_aslr() == 1 } }
pub fn region() -> &'static mut Region { unsafe { &mut *R } }
pub fn stat(k: usize) -> u64 { region().stats[k] }

/// Enter a library call on this thread; allocations count, and the `fail`-th fails.
pub fn op_enter(fail: u32) -> OpState {
    let mut old = OpState::default();
    unsafe { rt_op_swap(&OpState { in_op: 1, fail_in: fail as i64, net: 0, allocs: 0 }, &mut old) };
    old
}
/// Leave it: returns (net heap bytes taken, allocations made).
pub fn op_leave(old: OpState) -> (i64, u64) {
    let mut st = OpState::default();
    unsafe { rt_op_swap(&old, &mut st) };
    (st.net, st.allocs)
}
/// Step out into caller code.
pub fn op_suspend() -> OpState {
    let mut old = OpState::default();
    unsafe { rt_op_swap(&OpState::default(), &mut old) };
    old
}
pub fn op_resume(st: OpState) {
    let mut x = OpState::default();
    unsafe { rt_op_swap(&st, &mut x) };
}

// ------------------------------------------------------------ allocation seam
pub struct SimAlloc;
use std::alloc::{GlobalAlloc, Layout, System};
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if rt_alloc_point(l.size() as u64, std::thread::panicking() as i32) != 0 {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        rt_heap_add(l.size() as i64);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if rt_alloc_point(l.size() as u64, std::thread::panicking() as i32) != 0 {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        rt_heap_add(l.size() as i64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt_heap_add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if rt_alloc_point(n as u64, std::thread::panicking() as i32) != 0 {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        rt_heap_add(n as i64 - l.size() as i64);
        q
    }
}
