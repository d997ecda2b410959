//! Instrumented component types: unique ids, canaries and a destructor ledger.

use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::*};
use std::sync::Mutex;

/// Number of component types of the main universe.
pub const NT: usize = 8;
/// Id reported by the zero-sized type.
pub const ZID: u32 = u32::MAX - 1;
/// Id reported when a value turned out to be garbage.
pub const BAD: u32 = u32::MAX;

pub const CAP: usize = if cfg!(miri) { 1 << 14 } else { 1 << 22 };

const UNBORN: u8 = 0;
const ALIVE: u8 = 1;
const DROPPED: u8 = 2;

static STATE: [AtomicU8; CAP] = [const { AtomicU8::new(UNBORN) }; CAP];
static KIND: [AtomicU8; CAP] = [const { AtomicU8::new(0xff) }; CAP];
static NEXT: AtomicU32 = AtomicU32::new(1);
static Z_MADE: AtomicU64 = AtomicU64::new(0);
static Z_DROPPED: AtomicU64 = AtomicU64::new(0);
static TRACKED: AtomicI64 = AtomicI64::new(0);
static DROPS: AtomicU64 = AtomicU64::new(0);
/// Digest of the order in which values died.
static ORDER: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static FAULT: AtomicBool = AtomicBool::new(false);
static FAULTS: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// When >= 0: the destructor call that counts it down to zero panics.
static ARM: AtomicI64 = AtomicI64::new(-1);
static FIRED: AtomicBool = AtomicBool::new(false);
/// When >= 0: the read that counts it down to zero panics.
static READ_ARM: AtomicI64 = AtomicI64::new(-1);

pub fn fault(s: String) {
    FAULT.store(true, Relaxed);
    let mut g = FAULTS.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() < 20 {
        g.push(s);
    }
}

/// Destructor- or canary-related misbehaviour seen since the last reset.
pub fn take_faults() -> Option<String> {
    if !FAULT.swap(false, Relaxed) {
        return None;
    }
    let mut g = FAULTS.lock().unwrap_or_else(|e| e.into_inner());
    let s = g.join("; ");
    g.clear();
    Some(s)
}

pub fn ledger_reset() {
    let n = NEXT.load(Relaxed) as usize;
    for i in 0..n.min(CAP) {
        STATE[i].store(UNBORN, Relaxed);
        KIND[i].store(0xff, Relaxed);
    }
    NEXT.store(1, Relaxed);
    ORDER.store(0, Relaxed);
    Z_MADE.store(0, Relaxed);
    Z_DROPPED.store(0, Relaxed);
    TRACKED.store(0, Relaxed);
    ARM.store(-1, Relaxed);
    READ_ARM.store(-1, Relaxed);
    FIRED.store(false, Relaxed);
    let _ = take_faults();
}

/// Continues a cleared ledger at id `n`.
pub fn ledger_start(n: u32) {
    ledger_reset();
    NEXT.store(n, Relaxed);
}

pub fn arm(n: i64) {
    FIRED.store(false, Relaxed);
    ARM.store(n, Relaxed);
}
pub fn arm_read(n: i64) {
    READ_ARM.store(n, Relaxed);
}
pub fn disarm() -> bool {
    ARM.store(-1, Relaxed);
    READ_ARM.store(-1, Relaxed);
    FIRED.swap(false, Relaxed)
}

fn note_death(id: u32) {
    let x = (ORDER.load(Relaxed).rotate_left(7) ^ u64::from(id)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    ORDER.store(x, Relaxed);
}
/// Depends on which values died since the last reset and in what order.
pub fn death_order() -> u64 {
    ORDER.load(Relaxed)
}
pub fn drops() -> u64 {
    DROPS.load(Relaxed)
}
pub fn reads() -> u64 {
    READS.load(Relaxed)
}
pub fn next_id_peek() -> u32 {
    NEXT.load(Relaxed)
}
pub fn z_alive() -> i64 {
    Z_MADE.load(Relaxed) as i64 - Z_DROPPED.load(Relaxed) as i64
}
pub fn is_alive(id: u32) -> bool {
    (id as usize) < CAP && STATE[id as usize].load(Relaxed) == ALIVE
}
pub fn kind_of(id: u32) -> usize {
    if (id as usize) < CAP {
        KIND[id as usize].load(Relaxed) as usize
    } else {
        0xff
    }
}
/// Whether values of type `k` have a destructor and an id (the ledger tracks their fate).
pub fn tracked(k: usize) -> bool {
    matches!(k, 1 | 3 | 4 | 5 | 7)
}

/// Fresh unique id for a value of type `k`.
pub fn fresh(k: usize) -> u32 {
    if k == 2 {
        return ZID;
    }
    let id = NEXT.fetch_add(1, Relaxed);
    assert!((id as usize) < CAP, "harness: id space exhausted");
    KIND[id as usize].store(k as u8, Relaxed);
    id
}

fn born(id: u32, k: usize) {
    let i = id as usize;
    if KIND[i].load(Relaxed) != k as u8 {
        fault(format!("harness misuse: id {id} built as type {k}"));
    }
    STATE[i].store(ALIVE, Relaxed);
    if tracked(k) {
        TRACKED.fetch_add(1, Relaxed);
    }
}

/// Values of the tracked types that were built and not yet dropped.
pub fn tracked_alive() -> i64 {
    TRACKED.load(Relaxed)
}

fn died(id: u32, k: usize, canary_ok: bool) {
    note_death(id);
    DROPS.fetch_add(1, Relaxed);
    let i = id as usize;
    if !canary_ok || i == 0 || i >= CAP || KIND[i].load(Relaxed) != k as u8 {
        fault(format!("destructor of type T{k} ran on garbage (id field {id:#x})"));
        return;
    }
    match STATE[i].swap(DROPPED, Relaxed) {
        ALIVE => {
            TRACKED.fetch_sub(1, Relaxed);
        }
        DROPPED => fault(format!("value #{id} of type T{k} dropped twice")),
        _ => fault(format!("value #{id} of type T{k} dropped but never built")),
    }
    maybe_panic();
}

fn maybe_panic() {
    if ARM.load(Relaxed) >= 0 && !std::thread::panicking() && ARM.fetch_sub(1, Relaxed) == 0 {
        FIRED.store(true, Relaxed);
        std::panic::panic_any(vcommon::Injected);
    }
}

fn read_panic() {
    if READ_ARM.load(Relaxed) >= 0 && !std::thread::panicking() && READ_ARM.fetch_sub(1, Relaxed) == 0 {
        std::panic::panic_any(vcommon::Injected);
    }
}

fn check_read(p: usize, align: usize, id: u32, k: usize, canary_ok: bool) -> u32 {
    READS.fetch_add(1, Relaxed);
    if std::hint::black_box(p) % align != 0 {
        fault(format!("misaligned reference to T{k}: {p:#x}"));
        return BAD;
    }
    let i = id as usize;
    if !canary_ok || i == 0 || i >= CAP || KIND[i].load(Relaxed) != k as u8 {
        fault(format!("read of garbage through a reference to T{k} (id field {id:#x})"));
        return BAD;
    }
    if tracked(k) && STATE[i].load(Relaxed) != ALIVE {
        fault(format!("reference to T{k} value #{id} which was already dropped"));
        return BAD;
    }
    read_panic();
    id
}

/// A component type of the main universe.
pub trait Tr: sparsey::component::Component + Sized {
    const IX: usize;
    fn mk(id: u32) -> Self;
    fn rd(&self) -> u32;
}

fn can(id: u32, k: u32) -> u32 {
    (id ^ 0x5bd1_e995).wrapping_mul(0x9E37_79B1).rotate_left(k) ^ k
}

/// T0: 4 bytes, no destructor.
#[derive(Clone, Copy)]
pub struct T0(u32);
impl Tr for T0 {
    const IX: usize = 0;
    fn mk(id: u32) -> Self {
        born(id, 0);
        T0(id)
    }
    fn rd(&self) -> u32 {
        check_read(self as *const _ as usize, align_of::<Self>(), self.0, 0, true)
    }
}

/// T1: owns heap memory.
pub struct T1(Box<(u32, u32)>);
impl Tr for T1 {
    const IX: usize = 1;
    fn mk(id: u32) -> Self {
        born(id, 1);
        T1(Box::new((id, can(id, 1))))
    }
    fn rd(&self) -> u32 {
        check_read(self as *const _ as usize, align_of::<Self>(), self.0 .0, 1, self.0 .1 == can(self.0 .0, 1))
    }
}
impl Drop for T1 {
    fn drop(&mut self) {
        died(self.0 .0, 1, self.0 .1 == can(self.0 .0, 1));
    }
}

/// T2: zero-sized with a destructor.
pub struct T2(());
impl Tr for T2 {
    const IX: usize = 2;
    fn mk(_id: u32) -> Self {
        Z_MADE.fetch_add(1, Relaxed);
        T2(())
    }
    fn rd(&self) -> u32 {
        READS.fetch_add(1, Relaxed);
        read_panic();
        ZID
    }
}
impl Drop for T2 {
    fn drop(&mut self) {
        DROPS.fetch_add(1, Relaxed);
        Z_DROPPED.fetch_add(1, Relaxed);
        note_death(ZID);
        maybe_panic();
    }
}

/// T3: over-aligned, tracked.
#[repr(align(64))]
pub struct T3(u32, u32);
impl Tr for T3 {
    const IX: usize = 3;
    fn mk(id: u32) -> Self {
        born(id, 3);
        T3(id, can(id, 3))
    }
    fn rd(&self) -> u32 {
        check_read(self as *const _ as usize, align_of::<Self>(), self.0, 3, self.1 == can(self.0, 3))
    }
}
impl Drop for T3 {
    fn drop(&mut self) {
        died(self.0, 3, self.1 == can(self.0, 3));
    }
}

/// T4: large, canaries at both ends, tracked.
pub struct T4 {
    a: u32,
    ca: u32,
    pad: [u64; 30],
    b: u32,
    cb: u32,
}
impl T4 {
    fn ok(&self) -> bool {
        self.a == self.b
            && self.ca == can(self.a, 4)
            && self.cb == can(self.a, 4)
            && self.pad.iter().all(|&p| p == u64::from(self.ca))
    }
}
impl Tr for T4 {
    const IX: usize = 4;
    fn mk(id: u32) -> Self {
        born(id, 4);
        let c = can(id, 4);
        T4 { a: id, ca: c, pad: [u64::from(c); 30], b: id, cb: c }
    }
    fn rd(&self) -> u32 {
        check_read(self as *const _ as usize, align_of::<Self>(), self.a, 4, self.ok())
    }
}
impl Drop for T4 {
    fn drop(&mut self) {
        died(self.a, 4, self.ok());
    }
}

/// T5: owns a string and keeps its id beside it, tracked.
pub struct T5(String, u32);
impl T5 {
    fn ok(&self) -> bool {
        self.0.len() == (self.1 % 40) as usize + 1 && self.0.as_bytes()[0] == b'a' + (self.1 % 26) as u8
    }
}
impl Tr for T5 {
    const IX: usize = 5;
    fn mk(id: u32) -> Self {
        born(id, 5);
        let c = (b'a' + (id % 26) as u8) as char;
        T5(std::iter::repeat_n(c, (id % 40) as usize + 1).collect(), id)
    }
    fn rd(&self) -> u32 {
        check_read(self as *const _ as usize, align_of::<Self>(), self.1, 5, self.ok())
    }
}
impl Drop for T5 {
    fn drop(&mut self) {
        died(self.1, 5, self.ok());
    }
}

/// T6: 27 bytes, alignment 1, no destructor; every byte depends on the id.
#[derive(Clone, Copy)]
pub struct T6([u8; 27]);
impl T6 {
    fn bytes(id: u32) -> [u8; 27] {
        let mut b = [0u8; 27];
        b[..4].copy_from_slice(&id.to_le_bytes());
        let mut x = u64::from(can(id, 6)) << 20 | 0x5_a5a5;
        for c in &mut b[4..] {
            x = x.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
            *c = (x >> 56) as u8;
        }
        b
    }
}
impl Tr for T6 {
    const IX: usize = 6;
    fn mk(id: u32) -> Self {
        born(id, 6);
        T6(Self::bytes(id))
    }
    fn rd(&self) -> u32 {
        let id = u32::from_le_bytes([self.0[0], self.0[1], self.0[2], self.0[3]]);
        check_read(self as *const _ as usize, align_of::<Self>(), id, 6, self.0 == Self::bytes(id))
    }
}

/// T7: shared ownership plus a vector, tracked.
pub struct T7 {
    v: Vec<u32>,
    s: std::sync::Arc<u32>,
}
impl T7 {
    fn ok(&self) -> bool {
        self.v.len() == 3 && self.v[0] == *self.s && self.v[1] == can(*self.s, 7) && self.v[2] == 7
    }
}
impl Tr for T7 {
    const IX: usize = 7;
    fn mk(id: u32) -> Self {
        born(id, 7);
        T7 { v: vec![id, can(id, 7), 7], s: std::sync::Arc::new(id) }
    }
    fn rd(&self) -> u32 {
        check_read(self as *const _ as usize, align_of::<Self>(), *self.s, 7, self.ok())
    }
}
impl Drop for T7 {
    fn drop(&mut self) {
        died(*self.s, 7, self.ok());
    }
}

/// Small Copy types for arity and group-count tests.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct G<const N: usize>(pub u32);
