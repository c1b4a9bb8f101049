//! P31 a stored result is not calculated again, P32 the memory of the caches, P33 memory and stack of calls.
use crate::c_cache::{bits, digits, same, Cache, BAD, K, V};
use crate::calls;
use crate::eng::*;
use crate::Check;
use puruspe::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::hint::black_box;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P31", kinds: &["seq", "key"], case: c31, run: r31, space: "all sequences of operations up to a depth over {query k1..k3, clear, three retains, clone and continue on either side, shrink, reserve, a query that panics} from each constructor of each of the four caches, on arguments whose results take thousands of steps; after every operation every stored pair is queried again and the processor time compared with that of a calculation; and every pair of a product of orders and arguments, all in one cache that grows, against the time of a control pair" },
        Check { id: "P32", kinds: &["seq", "fill"], case: c32, run: r32, space: "all sequences of operations up to a depth over {a new query, all observers and a repeated query, a query that panics, clear, retain all/half/none, shrink, reserve 1/40, clone and continue on either side, fill to the promised capacity} from caches made with every capacity of a list, for each of the four caches; the bytes held by the thread are counted by the allocator around every operation; and fills to every capacity of a list" },
        Check { id: "P33", kinds: &["mem", "stack"], case: c33, run: r33, space: "every call of the alphabet of all functions (base points of every branch, near-collisions, special values, calls that panic) repeated, with the bytes it leaves allocated, on a thread with a small stack; long runs of calls with ever new arguments; and the product of orders up to a million and arguments for the functions whose work grows with the order, and of shapes up to 1e12" },
    ]
}
// ---------------------------------------------------------------- counting allocator
pub struct Counting;
thread_local!(static LIVE: Cell<i64> = const { Cell::new(0) });
fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get().wrapping_add(n)));
}
/// Bytes allocated minus bytes freed on this thread.
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}
macro_rules! on {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i {
            0 => $f::<CachedBesselJY>($($a),*),
            1 => $f::<CachedBesselIK>($($a),*),
            2 => $f::<CachedJnuYnu>($($a),*),
            _ => $f::<CachedInuKnu>($($a),*),
        }
    };
}
fn make<C: Cache>(ctor: usize) -> C {
    match ctor {
        0 => C::new(),
        1 => C::default(),
        2 => C::cap(0),
        _ => C::cap(500),
    }
}
// ---------------------------------------------------------------- P31
extern "C" {
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
}
/// Processor time of this thread in seconds.
fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(3, &mut ts) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}
/// A pair is expensive if its calculation takes at least this many seconds.
const DEAR: f64 = 4e-6;
const HITS: usize = 4;
/// The shortest of several calculations.
fn cost<C: Cache>(k: K) -> f64 {
    (0..7)
        .map(|_| {
            let t = cpu();
            black_box(C::direct(black_box(k)));
            cpu() - t
        })
        .fold(f64::INFINITY, f64::min)
}
/// Query a stored pair again, and compare the time with that of a calculation.
fn hit<C: Cache>(l: &mut L, c: &mut C, k: K, v: V, direct: f64, at: impl Fn() -> String) {
    let mut best = f64::INFINITY;
    for _ in 0..40 {
        let t = cpu();
        for _ in 0..HITS {
            let w = c.q(black_box(k));
            if !same(w, v) {
                return l.fail(format!("{}: the stored result at {k:?} is {w:?}, the function gives {v:?}", at()));
            }
        }
        best = best.min((cpu() - t) / HITS as f64);
        l.evals += HITS as u64;
        if best < direct / 4.0 {
            return;
        }
    }
    // a machine that has become faster in between would show here
    if best < cost::<C>(k) / 2.0 {
        return;
    }
    l.fail(format!("{}: a query of the stored pair {k:?} takes {best:.2e} s, its calculation {direct:.2e} s: it is calculated again", at()))
}
fn dear(cache: usize) -> [K; 3] {
    match cache % 2 {
        0 => [(0.3, 5000.0), (3000.5, 2.5), (2.0, 4000.0)],
        _ => [(3000.25, 2.5), (6000.0, 40.0), (5000.5, 600.0)],
    }
}
/// ops 0..3 query, 3 clear, 4 retain all, 5 retain all but k1, 6 retain k2 only, 7/8 clone, 9 shrink, 10 reserve, 11 a query that panics
const NOPS31: usize = 12;
fn seq31<C: Cache>(l: &mut L, ctor: usize, ops: &[usize], keys: &[K; 3], vals: &[V; 3], costs: &[f64; 3]) {
    let mut c: C = make(ctor);
    let mut has = [false; 3];
    for (step, &op) in ops.iter().enumerate() {
        match op {
            0..=2 => {
                c.q(keys[op]);
                has[op] = true;
            }
            3 => {
                c.wipe();
                has = [false; 3];
            }
            4 => c.keep(|_, _| true),
            5 => {
                c.keep(|k, _| bits(k) != bits(keys[0]));
                has[0] = false;
            }
            6 => {
                c.keep(|k, _| bits(k) == bits(keys[1]));
                has = [false, has[1], false];
            }
            7 => c = c.clone(),
            8 => drop(c.clone()),
            9 => c.shrink(),
            10 => c.room(100),
            _ => {
                l.ev(|| c.q(BAD[0]));
            }
        }
        for i in 0..3 {
            // pairs that were just stored, or that have lived through the operation
            if has[i] && c.has(keys[i]) && costs[i] >= DEAR {
                hit(l, &mut c, keys[i], vals[i], costs[i], || format!("after {:?}", &ops[..=step]));
            }
        }
    }
}
struct Dear {
    keys: [K; 3],
    vals: [V; 3],
    costs: [f64; 3],
}
fn prepare<C: Cache>(cache: usize) -> Dear {
    let keys = dear(cache);
    Dear { keys, vals: keys.map(C::direct), costs: keys.map(cost::<C>) }
}
/// seq: cache, constructor, ops...; key: cache, part
fn c31(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let cache = v[0] as usize;
    if kind == "key" {
        return on!(cache, keys31, l, cache, v[1] as usize);
    }
    let ops: Vec<usize> = v[2..].iter().map(|x| *x as usize).collect();
    let d = on!(cache, prepare, cache);
    on!(cache, seq31, l, v[1] as usize, &ops, &d.keys, &d.vals, &d.costs);
}
const BATCH: usize = 200;
/// The shortest time of a repeated query, of several batches; stops early below `enough`.
fn fast<C: Cache>(c: &mut C, k: K, enough: f64, most: usize) -> f64 {
    let mut best = f64::INFINITY;
    for _ in 0..most {
        let t = cpu();
        for _ in 0..BATCH {
            black_box(c.q(black_box(k)));
        }
        best = best.min((cpu() - t) / BATCH as f64);
        if best < enough {
            break;
        }
    }
    best
}
/// Likewise for the calculation, a batch of which takes some microseconds at least.
fn slow<C: Cache>(k: K) -> f64 {
    let t = cpu();
    black_box(C::direct(black_box(k)));
    let n = (1e-5 / (cpu() - t).max(1e-8)).clamp(1.0, 50.0) as usize;
    (0..5)
        .map(|_| {
            let t = cpu();
            for _ in 0..n {
                black_box(C::direct(black_box(k)));
            }
            (cpu() - t) / n as f64
        })
        .fold(f64::INFINITY, f64::min)
}
/// Pairs whose calculation takes less are not judged.
const CHEAP: f64 = 100e-9;
/// Every pair of a product, all in one cache, each queried again at once and at the end: the time of a repeated
/// query must not differ from that of a control pair by half a calculation; part `part` of 4 of the orders.
fn keys31<C: Cache>(l: &mut L, cache: usize, part: usize) {
    let mut c = C::new();
    let mut kept = vec![];
    let control = dear(cache)[0];
    let dear = cost::<C>(control);
    let vdear = C::direct(control);
    c.q(control);
    let mut base = fast(&mut c, control, 0.0, 20);
    let mut judge = |l: &mut L, c: &mut C, k: K, t: f64, n: usize| {
        let mut best = f64::INFINITY;
        for _ in 0..20 {
            best = best.min(fast(c, k, base + 0.5 * t, 10));
            if best < base + 0.5 * t {
                return;
            }
            // the machine may have become slower, or faster
            base = fast(c, control, 0.0, 10);
            if slow::<C>(k) < 0.8 * t {
                return;
            }
        }
        l.fail(format!("{n} entries: a query of the stored pair {k:?} takes {best:.2e} s, of {control:?} {base:.2e} s, the calculation {t:.2e} s: it is calculated again"));
    };
    let mut nus: Vec<f64> = vec![-0.0, 0.0, 1e-10, 1e-3, 0.25, 0.3, 0.5, 0.75, 1.0, 1.3, 1.5, 2.0, 2.5, 3.0, 4.5, 5.0, 7.0, 10.0, 10.25, 20.0, 33.5, 50.0, 75.1, 100.0, 100.5, 250.3, 500.0, 640.0, 1000.0, 1500.5, 2000.0, 2999.9, 4000.0, 5000.5];
    nus = nus.into_iter().skip(part).step_by(4).collect();
    let mut xs = vec![1e-300, 1e-100, 1e-50, 1e-20, 1e-10, 1e-5, 1e-3, 0.01, 0.1, 0.25, 0.5, 0.75, 1.0, 1.3, 1.5, 1.999, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 10.0, 20.0, 33.5, 50.0, 75.1, 100.0, 200.0, 250.3, 500.0, 640.0, 699.0, 720.0, 1000.0, 1500.5, 2500.0, 4000.0, 6000.0, 9000.0];
    xs.extend(nus.iter().filter(|n| **n > 0.0).flat_map(|n| [*n, ulps(*n, 1), 2.0 * n]));
    for &nu in &nus {
        for &x in &xs {
            l.begin("key", &[cache as f64, part as f64]);
            let k = (nu, x);
            if c.has(k) || l.ev(|| C::direct(k)).is_none() {
                continue;
            }
            let t = slow::<C>(k);
            if l.val("cached query", || c.q(k)).is_none() {
                continue;
            }
            kept.push((k, t));
            l.states += 1;
            if t < CHEAP {
                l.skipped += 1;
                continue;
            }
            judge(l, &mut c, k, t, kept.len() + 1);
            if dear >= DEAR {
                hit(l, &mut c, control, vdear, dear, || format!("{} entries", kept.len() + 1));
            }
        }
    }
    let n = kept.len() + 1;
    for (k, t) in &kept {
        if *t >= CHEAP {
            l.begin("key", &[cache as f64, part as f64]);
            judge(l, &mut c, *k, *t, n);
            l.trans += 1;
        }
    }
    // a cache that goes on growing
    if part == 0 && dear >= DEAR {
        for i in 0..20_000 {
            l.begin("key", &[cache as f64, part as f64]);
            let k = (i as f64 / 4096.0, 0.75);
            if l.val("cached query", || c.q(k)).is_none() {
                break;
            }
            hit(l, &mut c, control, vdear, dear, || format!("more than {} entries", n + i));
            l.states += 1;
        }
    }
    l.traces += 1;
}
fn r31(c: &Ctx, t: &mut L) {
    let depth = c.pick(4, 5);
    let d: Vec<Dear> = (0..4).map(|i| on!(i, prepare, i)).collect();
    t.sample(|| format!("pairs and the time of one calculation: {:?}", (0..4).map(|i| (d[i].keys, d[i].costs)).collect::<Vec<_>>()));
    t.sample(|| format!("all {NOPS31}^{depth} operation sequences x 4 constructors x 4 caches"));
    c.par(t, 4 * 4 * NOPS31 * NOPS31, |l, i| {
        let (cache, ctor, first) = (i % 4, i / 4 % 4, i / 16);
        let mut args = vec![0.0; 2 + depth];
        (args[0], args[1]) = (cache as f64, ctor as f64);
        // the other constructors to a smaller depth
        let n = if ctor == 0 { depth } else { depth - 1 };
        for j in 0..NOPS31.pow(n as u32 - 2) {
            let mut ops = digits(first, NOPS31, 2);
            ops.extend(digits(j, NOPS31, n - 2));
            args.truncate(2);
            args.extend(ops.iter().map(|o| *o as f64));
            l.begin("seq", &args);
            on!(cache, seq31, l, ctor, &ops, &d[cache].keys, &d[cache].vals, &d[cache].costs);
            l.states += n as u64;
            l.trans += n as u64;
            l.traces += 1;
        }
    });
    c.par(t, 16, |l, i| c31(l, "key", &[(i % 4) as f64, (i / 4) as f64]));
}
// ---------------------------------------------------------------- P32
const CAPS: [usize; 16] = [0, 1, 2, 3, 4, 5, 7, 8, 14, 15, 28, 29, 57, 100, 448, 1000];
/// 0 a new query, 1 all observers and a repeated query, 2 a query that panics, 3 clear, 4 retain all,
/// 5 retain half, 6 retain none, 7 shrink, 8 reserve 1, 9 reserve 40, 10 go on with a clone, 11 go on with
/// the original after using a clone, 12 new queries up to the promised capacity, 13 reserve 0
const NOPS32: usize = 14;
fn key32(i: usize) -> K {
    ((i % 13) as f64 / 8.0, 0.5 + (i / 13) as f64 / 16.0)
}
/// Bytes held by an empty cache with room for n.
fn held<C: Cache>(n: usize) -> i64 {
    let b = live();
    let c = C::cap(n);
    let h = live() - b;
    drop(black_box(c));
    h
}
struct Mem<C: Cache> {
    c: C,
    next: usize,
    len: usize,
    /// number of entries the cache has promised to hold without allocating
    cap: usize,
    /// the largest number of entries ever held or asked for
    most: usize,
}
impl<C: Cache> Mem<C> {
    fn fresh(&mut self) {
        let k = key32(self.next);
        self.next += 1;
        self.c.q(k);
        self.len += 1;
        self.most = self.most.max(self.len);
    }
}
/// One operation; returns a complaint.
fn step32<C: Cache>(m: &mut Mem<C>, op: usize) -> Option<&'static str> {
    let before = live();
    let mut still = true; // whether the operation must not change the memory held
    let mut why = "";
    match op {
        0 => {
            still = m.len < m.cap;
            why = "a query allocated although the promised capacity is not used up";
            m.fresh();
        }
        1 => {
            why = "looking at the cache or querying a stored pair changed the memory held";
            let k = key32(m.next.saturating_sub(1));
            if m.c.has(k) {
                black_box((m.c.look(k), m.c.q(k)));
            }
            black_box((m.c.look(key32(m.next + 5)), m.c.has(key32(m.next + 6)), m.c.size(), m.c.none(), m.c == m.c));
        }
        2 => {
            why = "a query that panicked changed the memory held";
            let c = &mut m.c;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.q(BAD[0])));
            drop(r);
            // room for the entry that was not stored may be allocated, if none was promised
            still = m.len < m.cap;
        }
        3 => {
            why = "clear() changed the memory held, which it is documented to keep";
            m.c.wipe();
            m.len = 0;
        }
        4..=6 => {
            why = "retain allocated";
            let mut i = 0;
            m.c.keep(|_, _| {
                i += 1;
                op == 4 || op == 5 && i % 2 == 0
            });
            m.len = match op {
                4 => m.len,
                5 => m.len / 2,
                _ => 0,
            };
            // a table may be marked by its former entries: nothing is promised until the next reserve
            m.cap = 0;
            still = false;
            if live() > before {
                return Some(why);
            }
        }
        7 => {
            m.c.shrink();
            m.cap = 0;
            m.most = m.len;
            still = false;
            if live() > before {
                return Some("shrink_to_fit allocated");
            }
        }
        8 | 9 | 13 => {
            let n = [1, 40, 0][[8, 9, 13].iter().position(|o| *o == op).unwrap()];
            why = "reserve changed the memory held although the promised capacity is sufficient";
            still = m.len + n <= m.cap;
            m.c.room(n);
            m.cap = m.cap.max(m.len + n);
            m.most = m.most.max(m.cap);
            if live() < before {
                return Some("reserve gave memory back");
            }
        }
        10 => {
            m.c = m.c.clone();
            m.cap = 0;
            still = false;
        }
        11 => {
            why = "a clone that was dropped left memory behind";
            let mut d = m.c.clone();
            for i in 0..3 {
                d.q(key32(m.next + i));
            }
            d.keep(|k, _| k.0 != 0.5);
            drop(d);
        }
        _ => {
            why = "a query allocated although the promised capacity is not used up";
            while m.len < m.cap {
                m.fresh();
                if live() != before {
                    return Some(why);
                }
            }
        }
    }
    (still && live() != before).then_some(why)
}
fn seq32<C: Cache>(l: &mut L, cap: usize, ops: &[usize], held: &[i64]) {
    // whatever the process sets up once and for all
    for i in 0..2 {
        black_box(C::direct(key32(i)));
    }
    let (mut bad, base) = (None, live());
    let c = if cap == usize::MAX { C::new() } else { C::cap(cap) };
    if cap == 0 && live() != base {
        bad = Some((0, "with_capacity(0) allocated".to_string()));
    }
    let cap = if cap == usize::MAX { 0 } else { cap };
    let mut m = Mem { c, next: 0, len: 0, cap, most: cap };
    for (i, &op) in ops.iter().enumerate() {
        let b = live();
        if let Some(w) = step32(&mut m, op) {
            bad = Some((i, format!("{w} ({} bytes before, {} after)", b - base, live() - base)));
            break;
        }
        if m.c.size() != m.len {
            bad = Some((i, format!("len() is {} with {} entries", m.c.size(), m.len)));
            break;
        }
        // the table may be twice what is needed, and may double that when it grows
        let most = 4 * held[(m.most + 3).min(held.len() - 1)];
        if live() - base > most {
            bad = Some((i, format!("{} bytes are held for at most {} entries, for which a new cache takes {}", live() - base, m.most, held[m.most])));
            break;
        }
    }
    drop(m);
    let left = live() - base;
    if let Some((i, w)) = bad {
        return l.fail(format!("with_capacity({cap}), then {:?}: {w}", &ops[..(i + 1).min(ops.len())]));
    }
    if left != 0 {
        l.fail(format!("with_capacity({cap}), then {ops:?}: {left} bytes are left after the cache was dropped"));
    }
}
/// Fill to the promised capacity, after with_capacity (0), reserve on an empty cache (1), reserve on a filled one (2),
/// clear of a full one (3), reserve after removals (4).
fn fill32<C: Cache>(l: &mut L, how: usize, n: usize) {
    for i in 0..2 {
        black_box(C::direct(key32(i)));
    }
    let base = live();
    let mut m = Mem { c: if how == 0 || how == 3 { C::cap(n) } else { C::new() }, next: 0, len: 0, cap: n, most: n };
    match how {
        1 => m.c.room(n),
        2 => {
            for _ in 0..n / 3 + 1 {
                m.fresh();
            }
            m.c.room(n);
            m.cap = m.len + n;
        }
        3 => {
            for _ in 0..n {
                m.fresh();
            }
            m.c.wipe();
            m.len = 0;
        }
        4 => {
            for _ in 0..n {
                m.fresh();
            }
            let mut i = 0;
            m.c.keep(|_, _| {
                i += 1;
                i % 3 == 0
            });
            m.len = n / 3;
            m.c.room(n);
            m.cap = m.len + n;
        }
        _ => {}
    }
    let full = live();
    let r = step32(&mut m, 12);
    let after = live();
    // as small as a new cache for the same entries
    m.c.shrink();
    let small = live() - base;
    let want = 2 * held::<C>(m.len);
    m.c.wipe();
    m.c.shrink();
    let none = live() - base;
    let room = held::<C>(0);
    drop(m);
    let left = live() - base;
    if let Some(w) = r {
        l.fail(format!("{w} ({} bytes before, {} after)", full - base, after - base));
    }
    l.check(small <= want, || format!("shrink_to_fit leaves {small} bytes, twice those of a new cache for as many entries are {want}"));
    l.check(none <= room.max(64), || format!("shrink_to_fit on an empty cache leaves {none} bytes"));
    l.check(left == 0, || format!("{left} bytes are left after the cache was dropped"));
    l.evals += 2 * n as u64;
}
/// seq: cache, capacity (-1 for new()), ops...; fill: cache, how, n
fn c32(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let cache = v[0] as usize;
    if kind == "fill" {
        return on!(cache, fill32, l, v[1] as usize, v[2] as usize);
    }
    let ops: Vec<usize> = v[2..].iter().map(|x| *x as usize).collect();
    let cap = if v[1] < 0.0 { usize::MAX } else { v[1] as usize };
    let h = on!(cache, table32, 2100);
    on!(cache, seq32, l, cap, &ops, &h);
}
fn table32<C: Cache>(n: usize) -> Vec<i64> {
    // a new cache for n entries, however it is made: the most of any smaller one
    let mut most = 0;
    (0..n)
        .map(|i| {
            most = held::<C>(i).max(most).max(64);
            most
        })
        .collect()
}
fn r32(c: &Ctx, t: &mut L) {
    let depth = c.pick(4, 5);
    let h: Vec<Vec<i64>> = (0..4).map(|i| on!(i, table32, 2100)).collect();
    t.sample(|| format!("all {NOPS32}^{depth} operation sequences x 4 caches with room for {CAPS:?} or made by new(), the larger ones to a smaller depth"));
    c.par(t, 4 * 17 * NOPS32 * NOPS32, |l, i| {
        let (cache, ci, first) = (i % 4, i / 4 % 17, i / 68);
        let cap = if ci == 16 { usize::MAX } else { CAPS[ci] };
        let d = if cap <= 8 || cap == usize::MAX { depth } else { depth - 1 };
        let mut args = vec![cache as f64, if ci == 16 { -1.0 } else { cap as f64 }];
        for j in 0..NOPS32.pow(d as u32 - 2) {
            let mut ops = digits(first, NOPS32, 2);
            ops.extend(digits(j, NOPS32, d - 2));
            args.truncate(2);
            args.extend(ops.iter().map(|o| *o as f64));
            l.begin("seq", &args);
            on!(cache, seq32, l, cap, &ops, &h[cache]);
            l.states += d as u64;
            l.trans += d as u64;
            l.evals += d as u64;
            l.traces += 1;
        }
    });
    let most = c.pick(600, 3000);
    t.sample(|| format!("fills to every capacity 1..={most} and 5000, 20000 after with_capacity, reserve, clear, retain x 4 caches"));
    c.par(t, 4 * 5 * (most + 2), |l, i| {
        let n = i / 20;
        let n = if n < most { n + 1 } else { [5000, 20_000][n - most] };
        c32(l, "fill", &[(i % 4) as f64, (i / 4 % 5) as f64, n as f64]);
        l.states += n as u64;
        l.trans += n as u64;
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P33
const STACK: usize = 256 << 10;
/// Run on a thread with a small stack; an overflow ends the process, with this case in the journal.
fn small<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap())
}
/// Bytes left allocated by a repetition of the call; and the third repetition, for good measure.
fn leaves(c: &calls::Call) -> i64 {
    calls::eval(c);
    let b = live();
    calls::eval(c);
    calls::eval(c);
    live() - b
}
/// mem: one call, or function -n arguments with n < 0 in the second place; stack: one call
fn c33(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    if kind == "mem" && v.len() == 2 {
        let (f, n) = (v[0] as usize, v[1] as usize);
        let got = small(|| run33(f, n));
        l.evals += n as u64;
        return l.check(got <= 1 << 16, || format!("{n} calls of {} with different arguments leave {got} bytes allocated", calls::NAMES[f]));
    }
    let c = [v[0], v[1], v[2], v[3]];
    let got = small(|| leaves(&c));
    l.evals += 3;
    l.check(got == 0, || format!("{} leaves {got} bytes allocated each time", calls::show(&c)));
}
/// Many different arguments, after as many others.
fn run33(f: usize, n: usize) -> i64 {
    let base: Vec<calls::Call> = calls::large().into_iter().filter(|c| c[0] as usize == f).collect();
    let nth = |i: usize| {
        let mut c = base[i % base.len()];
        let s = 1.0 + (i as f64 + 1.0) * 1e-7;
        let k = (i / base.len()) % 3;
        // keep integers and the argument of lambert_w's branch
        let whole = matches!(f, 15..=18 | 31);
        let k = if whole && k == 0 { 1 } else { k };
        if !(f == 23 || f == 25 && k == 1) {
            c[1 + k] *= s;
        }
        c
    };
    let b = {
        for i in 0..n / 4 {
            calls::eval(&nth(i));
        }
        live()
    };
    for i in n / 4..n {
        calls::eval(&nth(i));
    }
    live() - b
}
fn deep() -> Vec<calls::Call> {
    let mut v = vec![];
    for n in [50.0, 300.0, 1500.0, 7000.0, 30_000.0, 150_000.0, 1_000_000.0] {
        for x in [1e-3, 0.5, 2.5, 30.0, 500.0, 1400.0, 9000.0] {
            for f in 15..=18 {
                v.push([f as f64, n, x, 0.0]);
            }
            for f in 19..=22 {
                v.push([f as f64, n + 0.3, x, 0.0]);
            }
            for f in 2..=7 {
                v.push([f as f64, n, n * 1.01, 0.0]);
                v.push([f as f64, 0.3, n, n + x]);
                v.push([f as f64, n, n + x, 0.49]);
            }
        }
    }
    for e in 1..=12 {
        let a = 10f64.powi(e);
        v.extend([[0.0, -a - 0.5, 0.0, 0.0], [1.0, a, 0.0, 0.0], [2.0, a, a, 0.0], [3.0, a, a, 0.0], [4.0, 0.3, a, 0.0], [5.0, a, a, 0.0], [6.0, a, a, 0.5], [7.0, 0.3, a, a], [7.0, 0.3, a, 0.5], [12.0, a, 0.0, 0.0], [12.0, -a, 0.0, 0.0], [13.0, a, 0.0, 0.0], [13.0, -a, 0.0, 0.0]]);
        v.extend([[14.0, a, a, 0.0], [14.0, a, -a, 0.0], [14.0, a, 1.0 / a, 0.0], [23.0, a, 0.0, 0.0], [24.0, 1.0 / a, 0.0, 0.0], [27.0, a, 0.0, 0.0], [28.0, -1.0 / a, 0.0, 0.0], [31.0, a.min(1e6), 0.5, 1.0], [25.0, 1.0, a.min(2e9), 0.0]]);
    }
    v
}
fn r33(c: &Ctx, t: &mut L) {
    let all = calls::large();
    t.sample(|| format!("{} calls of {} functions, each repeated on a thread with {STACK} bytes of stack", all.len(), calls::NFUN));
    c.walk(t, &all, 64, |l, cs| {
        for x in cs {
            c33(l, "mem", x);
            l.states += 1;
            l.trans += 1;
        }
        l.traces += 1;
    });
    let deep = deep();
    t.sample(|| format!("{} calls with large orders and shapes on such a thread", deep.len()));
    c.walk(t, &deep, 4, |l, cs| {
        for x in cs {
            c33(l, "stack", x);
            l.states += 1;
            l.trans += 1;
        }
        l.traces += 1;
    });
    let n = c.pick(100_000, 2_000_000);
    t.sample(|| format!("{n} calls with different arguments of every function"));
    c.par(t, calls::NFUN, |l, f| {
        c33(l, "mem", &[f as f64, n as f64]);
        l.states += n as u64;
        l.trans += n as u64;
        l.traces += 1;
    });
}
