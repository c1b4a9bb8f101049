//! puruspe behind a C interface, in a shared object of its own: its writable memory (statics and
//! heap) is then apart from the explorer's, which makes every access to it a scheduling point.
#[path = "../src/calls.rs"]
#[allow(dead_code)]
mod calls;
use puruspe::*;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering::*};

/// One arena per thread ordinal, so that private allocations have addresses of their own and the
/// allocator itself shares nothing.
struct Arena;
thread_local! {
    static WHO: Cell<usize> = const { Cell::new(0) };
    static TOP: Cell<usize> = const { Cell::new(0) };
}
const PART: usize = 4 << 20;
static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
thread_local!(static MYBASE: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) });
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mut base = MYBASE.with(|b| b.get());
        if base.is_null() {
            base = BASE.load(Relaxed);
            MYBASE.with(|b| b.set(base));
        }
        let top = TOP.with(|t| t.get());
        let at = (top + l.align() - 1) & !(l.align() - 1);
        if at + l.size() > PART {
            return std::ptr::null_mut();
        }
        TOP.with(|t| t.set(at + l.size()));
        base.add(WHO.with(|w| w.get()) * PART + at)
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static A: Arena = Arena;

/// `base`: a mapping of 3 * PART bytes that holds zeros.
#[no_mangle]
pub extern "C" fn pvso_init(base: *mut u8) {
    BASE.store(base, Relaxed);
    std::panic::set_hook(Box::new(|_| {}));
}
#[no_mangle]
pub extern "C" fn pvso_part() -> usize {
    PART
}
/// Called first on each controlled thread (ordinal 1 or 2), before memory is protected.
#[no_mangle]
pub extern "C" fn pvso_thread(who: usize) {
    WHO.with(|w| w.set(who));
    TOP.with(|t| t.set(0));
    MYBASE.with(|b| b.set(BASE.load(Relaxed)));
}
// Caches shared between the threads by reference
static JY: AtomicPtr<CachedBesselJY> = AtomicPtr::new(std::ptr::null_mut());
static IK: AtomicPtr<CachedBesselIK> = AtomicPtr::new(std::ptr::null_mut());
static JNU: AtomicPtr<CachedJnuYnu> = AtomicPtr::new(std::ptr::null_mut());
static INU: AtomicPtr<CachedInuKnu> = AtomicPtr::new(std::ptr::null_mut());
const KEYS: [(f64, f64); 3] = [(0.5, 1.5), (1.5, 0.5), (2.5, 4.0)];
#[no_mangle]
pub extern "C" fn pvso_shared() {
    macro_rules! fill {
        ($s:ident, $t:ty, $m:ident) => {{
            let mut c = <$t>::new();
            for k in KEYS {
                c.$m(k.0, k.1);
            }
            $s.store(Box::into_raw(Box::new(c)), SeqCst);
        }};
    }
    fill!(JY, CachedBesselJY, besseljy);
    fill!(IK, CachedBesselIK, besselik);
    fill!(JNU, CachedJnuYnu, Jnu_Ynu);
    fill!(INU, CachedInuKnu, Inu_Knu);
}
// A deliberately torn two-word memo: the explorer must find its race on every run.
static MEMO_KEY: AtomicU64 = AtomicU64::new(0);
static MEMO_VAL: AtomicU64 = AtomicU64::new(0);
fn torn(x: f64) -> f64 {
    if MEMO_KEY.load(SeqCst) == x.to_bits() {
        return f64::from_bits(MEMO_VAL.load(SeqCst));
    }
    let v = x * x;
    MEMO_KEY.store(x.to_bits(), SeqCst);
    MEMO_VAL.store(v.to_bits(), SeqCst);
    v
}
// The same memo behind a lock: the explorer must be silent about it.
static SAFE: std::sync::Mutex<(u64, f64)> = std::sync::Mutex::new((0, 0.0));
fn locked(x: f64) -> f64 {
    let mut g = SAFE.lock().unwrap();
    if g.0 != x.to_bits() {
        *g = (x.to_bits(), x * x);
    }
    g.1
}
fn f4(v: [f64; 4]) -> calls::Bits {
    v.map(|x| if x.is_nan() { 1 } else { x.to_bits() })
}
/// Calls 100..: operations by shared reference on the shared caches; 200, 201: the memos above.
fn extra(c: &calls::Call) -> calls::Bits {
    let op = c[0] as usize;
    let (nu, x) = (c[1], c[2]);
    macro_rules! ops {
        ($s:ident, $tup:expr) => {{
            let r = unsafe { &*$s.load(SeqCst) };
            match op % 10 {
                0 => r.get(nu, x).map_or([7; 4], $tup),
                1 => [r.contains(nu, x) as u64, r.len() as u64, r.is_empty() as u64, 0],
                2 => {
                    let d = r.clone();
                    d.get(nu, x).map_or([7; 4], $tup)
                }
                _ => [(*r == r.clone()) as u64, 0, 0, 0],
            }
        }};
    }
    match op {
        200 => f4([torn(nu), 0.0, 0.0, 0.0]),
        201 => f4([locked(nu), 0.0, 0.0, 0.0]),
        100..=109 => ops!(JY, |v| f4([v.0, v.1, v.2, v.3])),
        110..=119 => ops!(IK, |v| f4([v.0, v.1, v.2, v.3])),
        120..=129 => ops!(JNU, |v| f4([v.0, v.1, 0.0, 0.0])),
        _ => ops!(INU, |v| f4([v.0, v.1, 0.0, 0.0])),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pvso_run(c: *const calls::Call, out: *mut calls::Bits) {
    let c = &*c;
    *out = if c[0] >= 100.0 {
        std::panic::catch_unwind(|| extra(c)).unwrap_or(calls::PANIC)
    } else {
        calls::eval(c)
    };
}
