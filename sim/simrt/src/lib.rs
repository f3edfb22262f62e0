//! Rust face of the simulation runtime (c/simrt.c), plus the harness-side
//! utilities that must stay outside the instrumented crates: PRNG, event log,
//! configuration vector.

pub mod model;

use std::alloc::{GlobalAlloc, Layout};
use std::cell::UnsafeCell;
use std::ffi::CString;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Plan {
    pub seed: u64,
    pub max_steps: u64,
    pub crash_at: u64,
    pub fair_slice: u64,
    pub replay: u32,
    pub policy: u32,
    pub p_sync: u32,
    pub p_alloc: u32,
    pub p_conf: u32,
    pub mem_mean: u32,
    pub p_spur: u32,
    pub pct_mean: u32,
    pub tick: u64,
    pub skew: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Dev {
    pub tid: u32,
    pub kind: u32,
    pub lstep: u64,
    pub val: i64,
}

pub const NFAULT: usize = 22;
pub const FAULT_NAMES: [&str; NFAULT] = [
    "write_error", "short_write", "write_eintr", "disk_full", "open_error", "open_eintr", "spawn_failure", "stderr_unwritable",
    "sync_error", "alloc_failure", "getrandom_eintr", "crash", "spurious_wakeup", "write_zero", "stall", "rename_error", "getrandom_error",
    "stderr_eintr", "stderr_short_write", "wall_clock_jump", "slow_io", "random_short_read",
];
pub const F_WRITE_ERR: u32 = 0;
pub const F_WRITE_SHORT: u32 = 1;
pub const F_WRITE_EINTR: u32 = 2;
pub const F_DISK_CAP: u32 = 3;
pub const F_OPEN_ERR: u32 = 4;
pub const F_OPEN_EINTR: u32 = 5;
pub const F_SPAWN: u32 = 6;
pub const F_STDERR: u32 = 7;
pub const F_SYNC_ERR: u32 = 8;
pub const F_ALLOC: u32 = 9;
pub const F_RANDOM_ERR: u32 = 16;
pub const F_RENAME_ERR: u32 = 15;
pub const F_RANDOM_EINTR: u32 = 10;
pub const F_CRASH: u32 = 11;
pub const F_SPURIOUS: u32 = 12;
pub const F_WRITE_ZERO: u32 = 13;
pub const F_STALL: u32 = 14;
pub const F_STDERR_EINTR: u32 = 17;
pub const F_STDERR_SHORT: u32 = 18;
pub const F_SLOW_IO: u32 = 20;
pub const F_RANDOM_SHORT: u32 = 21;

pub const K_DEADLOCK: i32 = 1;
pub const K_BUDGET: i32 = 2;
pub const K_CRASH: i32 = 3;
pub const K_ABORT: i32 = 4;
pub const K_HARNESS: i32 = 5;
pub const K_EXIT: i32 = 6;

mod ffi {
    use super::*;
    extern "C" {
        pub fn simrt_prepare(p: *const Plan, d: *const Dev, n: u32, fatal: extern "C" fn(i32));
        pub fn simrt_fault(kind: u32, at: u64, arg: i64);
        pub fn simrt_faults_clear();
        pub fn simrt_fired(kind: u32) -> u64;
        pub fn simrt_ops(kind: u32) -> u64;
        pub fn simrt_begin();
        pub fn simrt_drain();
        pub fn simrt_end();
        pub fn simrt_tid() -> i32;
        pub fn simrt_now() -> u64;
        pub fn simrt_live() -> i32;
        pub fn simrt_stat(k: i32) -> u64;
        pub fn simrt_point();
        pub fn simrt_peak_reset();
        pub fn simrt_own(o: i32);
        pub fn simrt_owner() -> i32;
        pub fn simrt_mix(v: u64);
        pub fn simrt_stall(ns: u64);
        pub fn simrt_stall_quiesce();
        pub fn simrt_on_quiesce(f: Option<extern "C" fn()>);
        pub fn simrt_no_preempt(d: i32);
        pub fn simrt_mask() -> i32;
        pub fn simrt_unmask(s: i32);
        pub fn simrt_devs(p: *mut *const Dev) -> u32;
        pub fn simrt_vfs_put(path: *const i8, d: *const u8, n: u64);
        pub fn simrt_vfs_get(path: *const i8, d: *mut *const u8) -> i64;
        pub fn simrt_vfs_mutated(path: *const i8) -> i32;
        pub fn simrt_vfs_count() -> i32;
        pub fn simrt_vfs_name(k: i32) -> *const i8;
        pub fn simrt_vfs_crash_image(path: *const i8, out: *mut *mut u8) -> i64;
        pub fn simrt_stderr(p: *mut *const u8) -> u64;
        pub fn sim_alloc(size: u64, align: u64) -> *mut u8;
        pub fn sim_free(p: *mut u8, size: u64, align: u64);
    }
}

/// Every allocation of the process goes through the simulator (plain malloc
/// outside a simulation), so addresses are reproducible and allocation is a
/// scheduling point.
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { ffi::sim_alloc(l.size() as u64, l.align() as u64) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { ffi::sim_free(p, l.size() as u64, l.align() as u64) }
}

pub fn prepare(p: &Plan, devs: &[Dev], fatal: extern "C" fn(i32)) {
    unsafe { ffi::simrt_prepare(p, devs.as_ptr(), devs.len() as u32, fatal) }
}
pub fn fault(kind: u32, at: u64, arg: i64) { unsafe { ffi::simrt_fault(kind, at, arg) } }
pub fn faults_clear() { unsafe { ffi::simrt_faults_clear() } }
pub fn fired(kind: u32) -> u64 { unsafe { ffi::simrt_fired(kind) } }
pub fn ops(kind: u32) -> u64 { unsafe { ffi::simrt_ops(kind) } }
pub fn begin() { unsafe { ffi::simrt_begin() } }
pub fn drain() { unsafe { ffi::simrt_drain() } }
pub fn end() { unsafe { ffi::simrt_end() } }
pub fn tid() -> i32 { unsafe { ffi::simrt_tid() } }
pub fn now() -> u64 { unsafe { ffi::simrt_now() } }
pub fn live() -> i32 { unsafe { ffi::simrt_live() } }
pub fn stat(k: i32) -> u64 { unsafe { ffi::simrt_stat(k) } }
/// Marks the calling thread and all those it and they will start.
pub fn own(o: i32) { unsafe { ffi::simrt_own(o) } }
pub fn owner() -> i32 { unsafe { ffi::simrt_owner() } }
pub fn peak_reset() { unsafe { ffi::simrt_peak_reset() } }
pub fn point() { unsafe { ffi::simrt_point() } }
pub fn mix(v: u64) { unsafe { ffi::simrt_mix(v) } }
pub fn stall(ns: u64) { unsafe { ffi::simrt_stall(ns) } }
pub fn stall_quiesce() { unsafe { ffi::simrt_stall_quiesce() } }
pub fn on_quiesce(f: Option<extern "C" fn()>) { unsafe { ffi::simrt_on_quiesce(f) } }
pub fn no_preempt(d: i32) { unsafe { ffi::simrt_no_preempt(d) } }

/// Run harness code invisibly to the simulation.
pub fn masked<R>(f: impl FnOnce() -> R) -> R {
    struct G(i32);
    impl Drop for G { fn drop(&mut self) { unsafe { ffi::simrt_unmask(self.0) } } }
    let _g = G(unsafe { ffi::simrt_mask() });
    f()
}
/// As `masked`, also passing the id of the simulated thread that asked.
pub fn masked_tid<R>(f: impl FnOnce(i32) -> R) -> R {
    let t = tid();
    masked(|| f(t))
}

pub fn devs() -> &'static [Dev] {
    unsafe {
        let mut p = std::ptr::null();
        let n = ffi::simrt_devs(&mut p);
        if p.is_null() { &[] } else { std::slice::from_raw_parts(p, n as usize) }
    }
}
fn c(path: &str) -> CString { CString::new(path).unwrap() }
pub fn vfs_put(path: &str, d: &[u8]) { unsafe { ffi::simrt_vfs_put(c(path).as_ptr(), d.as_ptr(), d.len() as u64) } }
pub fn vfs_get(path: &str) -> Option<Vec<u8>> {
    unsafe {
        let mut p = std::ptr::null();
        let n = ffi::simrt_vfs_get(c(path).as_ptr(), &mut p);
        if n < 0 { return None; }
        if n == 0 { return Some(Vec::new()); }
        Some(std::slice::from_raw_parts(p, n as usize).to_vec())
    }
}
pub fn vfs_mutated(path: &str) -> bool { unsafe { ffi::simrt_vfs_mutated(c(path).as_ptr()) != 0 } }
pub fn vfs_names() -> Vec<String> {
    unsafe {
        (0..ffi::simrt_vfs_count()).map(|k| std::ffi::CStr::from_ptr(ffi::simrt_vfs_name(k)).to_string_lossy().into_owned()).collect()
    }
}
pub fn vfs_crash_image(path: &str) -> Option<Vec<u8>> {
    unsafe {
        let mut p = std::ptr::null_mut();
        let n = ffi::simrt_vfs_crash_image(c(path).as_ptr(), &mut p);
        if n < 0 { return None; }
        Some(std::slice::from_raw_parts(p, n as usize).to_vec())
    }
}
pub fn stderr_text() -> Vec<u8> {
    unsafe {
        let mut p = std::ptr::null();
        let n = ffi::simrt_stderr(&mut p);
        if n == 0 { return Vec::new(); }
        std::slice::from_raw_parts(p, n as usize).to_vec()
    }
}

// ------------------------------------------------------------------ PRNG

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn hash64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash2(a: u64, b: u64) -> u64 { hash64(hash64(a.wrapping_add(0x9e3779b97f4a7c15)) ^ b.wrapping_mul(0xff51afd7ed558ccd).wrapping_add(0x632be59bd9b4e019)) }
pub fn hash_bytes(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, &x| hash64(h ^ x as u64)) }
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        hash64(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T { xs[self.below(xs.len() as u64) as usize] }
}

// --------------------------------------------------------- configuration

/// Named integers that describe one workload; each has a floor the minimiser
/// may shrink it to.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cfg(pub Vec<(String, i64, i64)>);
impl Cfg {
    pub fn set(&mut self, k: &str, v: i64, min: i64) {
        if let Some(e) = self.0.iter_mut().find(|e| e.0 == k) { e.1 = v; e.2 = min; return; }
        self.0.push((k.to_string(), v, min));
    }
    /// A value the minimiser must leave alone.
    pub fn fix(&mut self, k: &str, v: i64) { self.set(k, v, v) }
    pub fn get(&self, k: &str) -> i64 {
        match self.0.iter().find(|e| e.0 == k) { Some(e) => e.1, None => panic!("no configuration value {}", k) }
    }
    pub fn opt(&self, k: &str, d: i64) -> i64 { self.0.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(d) }
}

// ------------------------------------------------------------- event log

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev { pub seq: u64, pub tid: i32, pub kind: u32, pub a: i64, pub b: i64, pub c: i64 }

pub struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
impl<T> Global<T> {
    pub const fn new(t: T) -> Self { Global(UnsafeCell::new(t)) }
    /// Only one simulated thread runs at a time and `masked` code is never
    /// preempted, so access is exclusive by construction.
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T { unsafe { &mut *self.0.get() } }
}

static LOG: Global<Vec<Ev>> = Global::new(Vec::new());
/// Record an event of the history (and fold it into the trace hash).
pub fn log(kind: u32, a: i64, b: i64, c: i64) {
    let seq = now();
    mix(hash2(kind as u64, hash2(a as u64, hash2(b as u64, c as u64))));
    masked_tid(|tid| LOG.get().push(Ev { seq, tid, kind, a, b, c }));
}
pub fn events() -> &'static mut Vec<Ev> { LOG.get() }
