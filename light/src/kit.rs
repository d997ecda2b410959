//! Shared pieces of the light checks.

use sparsey::entity::Version;
use sparsey::Entity;
use std::alloc::{GlobalAlloc, Layout, System};
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};
use vcommon::{guard, Panicked, Viol};

pub struct Found {
    pub v: Viol,
    pub case: String,
    pub replay: String,
}

pub type Out = Result<(), Found>;

pub fn found<T>(oracle: &'static str, msg: impl Into<String>, case: impl Into<String>, replay: impl Into<String>) -> Result<T, Found> {
    Err(Found { v: Viol { oracle, msg: msg.into() }, case: case.into(), replay: replay.into() })
}

pub fn ent(i: u32, v: u32) -> Entity {
    Entity::new(i, Version(NonZeroU32::new(v.max(1)).unwrap()))
}
pub fn key(e: Entity) -> u64 {
    (u64::from(e.version.0.get()) << 32) | u64::from(e.index)
}
pub fn show(e: Entity) -> String {
    format!("e{}v{}", e.index, e.version.0)
}

/// Like `guard`, but a panic of harness code ends the process without a verdict.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    let r = guard(f);
    if let Err(p) = &r {
        if p.in_harness() && !p.injected {
            eprintln!("HARNESS PANIC at {}: {}", p.loc, p.msg);
            std::process::exit(3);
        }
    }
    r
}

/// Counts the bytes and blocks the program holds.
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);

fn count(n: i64) {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        BLOCKS.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn live_bytes() -> i64 {
    LIVE.load(Relaxed)
}
pub fn live_blocks() -> i64 {
    BLOCKS.load(Relaxed)
}
/// The most bytes held since the last call.
pub fn take_peak() -> i64 {
    let p = PEAK.load(Relaxed);
    PEAK.store(LIVE.load(Relaxed), Relaxed);
    p
}
