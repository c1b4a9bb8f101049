//! P22 cached results equal direct ones, P23 the caches are exact maps, P24 a panicking query changes nothing.
use crate::eng::*;
use crate::Check;
use puruspe::*;
use std::collections::BTreeMap;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P22", kinds: &["seq", "fill", "product"], case: c22, run: r22, space: "all ordered pairs of a universe of argument pairs built to collide under lossy keys (swapped, ulp neighbours, equal as f32, equal sum/product/xor, halves of the bits), queried a,b,a,b on one cache; all triples of a smaller universe; all operation sequences over query/clear/retain/clone; the product of all ulp steps, single-bit flips and scalings of both arguments of six pairs, all in one cache; long fills (67 600 entries) re-read in several orders; for each of the four caches" },
        Check { id: "P23", kinds: &["seq", "bulk"], case: c23, run: r23, space: "all sequences of operations up to a depth over {query k1..k4, clear, three retains, clone and continue on either side, shrink, reserve} from each constructor, for each of the four caches, with every observer compared to the model map after every step; and all sequences of 3 (thorough: 4) operations (also a retain whose predicate panics, a reserve that must fail and a very large one) on caches filled to every size around a growth step of the table, observing every key; every operation 70000 times in a row" },
        Check { id: "P24", kinds: &["seq", "bulk"], case: c24, run: r24, space: "all sequences up to a depth over {valid queries, queries that panic for each documented reason, clear, clone}, with every observer compared to the model map after every step; and all pairs of such operations on caches filled to every size around a growth step of the table" },
    ]
}
pub type K = (f64, f64);
pub type V = [f64; 4];
pub trait Cache: Clone + PartialEq + Default + std::fmt::Debug {
    fn new() -> Self;
    fn cap(n: usize) -> Self;
    fn q(&mut self, k: K) -> V;
    fn direct(k: K) -> V;
    fn has(&self, k: K) -> bool;
    fn look(&self, k: K) -> Option<V>;
    fn size(&self) -> usize;
    fn none(&self) -> bool;
    fn wipe(&mut self);
    fn shrink(&mut self);
    fn room(&mut self, n: usize);
    fn keep(&mut self, f: impl FnMut(K, V) -> bool);
}
macro_rules! cache {
    ($t:ty, $m:ident, $($i:tt),*) => {
        impl Cache for $t {
            fn new() -> Self { <$t>::new() }
            fn cap(n: usize) -> Self { <$t>::with_capacity(n) }
            fn q(&mut self, k: K) -> V { let r = self.$m(k.0, k.1); let mut v = [0.0; 4]; $(v[$i] = r.$i;)* v }
            fn direct(k: K) -> V { let r = $m(k.0, k.1); let mut v = [0.0; 4]; $(v[$i] = r.$i;)* v }
            fn has(&self, k: K) -> bool { self.contains(k.0, k.1) }
            fn look(&self, k: K) -> Option<V> { self.get(k.0, k.1).map(|r| { let mut v = [0.0; 4]; $(v[$i] = r.$i;)* v }) }
            fn size(&self) -> usize { self.len() }
            fn none(&self) -> bool { self.is_empty() }
            fn wipe(&mut self) { self.clear() }
            fn shrink(&mut self) { self.shrink_to_fit() }
            fn room(&mut self, n: usize) { self.reserve(n) }
            fn keep(&mut self, mut f: impl FnMut(K, V) -> bool) {
                self.retain(|k, r| { let mut v = [0.0; 4]; $(v[$i] = r.$i;)* f(k, v) })
            }
        }
    };
}
cache!(CachedBesselJY, besseljy, 0, 1, 2, 3);
cache!(CachedBesselIK, besselik, 0, 1, 2, 3);
cache!(CachedJnuYnu, Jnu_Ynu, 0, 1);
cache!(CachedInuKnu, Inu_Knu, 0, 1);

pub fn bits(k: K) -> (u64, u64) {
    (k.0.to_bits(), k.1.to_bits())
}
fn vbits(v: V) -> [u64; 4] {
    v.map(|x| if x.is_nan() { 1 } else { x.to_bits() })
}
pub fn same(a: V, b: V) -> bool {
    vbits(a) == vbits(b)
}
type Model = BTreeMap<(u64, u64), [u64; 4]>;

/// Universe of argument pairs that a lossy key would confuse.
fn universe() -> Vec<K> {
    let mut v: Vec<K> = vec![];
    let base = [(0.5, 1.5), (1.0, 2.0), (2.0, 1.0), (0.25, 3.0), (3.0, 0.25), (1.5, 2.5), (0.1, 0.2), (7.0, 7.5), (10.0, 1.25), (0.0, 4.0), (2.5, 2.5), (1.0, 1.0)];
    for (a, b) in base {
        v.push((a, b));
        if a > 0.0 {
            v.push((b, a));
        }
        for k in [-1i64, 1, 2] {
            if a > 0.0 {
                v.push((ulps(a, k), b));
            }
            v.push((a, ulps(b, k)));
            if a > 0.0 {
                v.push((ulps(a, k), ulps(b, -k)));
                v.push((ulps(a, k), ulps(b, k)));
            }
        }
        // equal as f32, equal when rounded to a few decimals, equal truncated
        v.push((a, b + 1e-9));
        v.push((a + 1e-9, b));
        v.push((a, b + 1e-13));
        v.push((a + 0.125, b));
        v.push((a, b + 0.125));
        // equal sum, equal product
        v.push((a + 0.0625, b - 0.0625));
        v.push((a * 2.0, b / 2.0));
        // same low halves / same high halves of the bits
        v.push((a, f64::from_bits(b.to_bits() ^ (1 << 31))));
        v.push((a, f64::from_bits(b.to_bits() ^ (1 << 33))));
        v.push((a, b * 2.0));
        v.push((a, b * 16.0));
    }
    v.extend([(0.0, 1e-3), (0.0, 2.0), (50.0, 60.0), (60.0, 50.0), (3.0, 1e-8), (3.0, 2e-8), (0.7, 1e-50), (100.0, 1e-3), (0.5, 500.0), (0.5, 500.25), (f64::from_bits(1), 1.5), (f64::from_bits(2), 1.5), (-0.0, 1.25), (-0.0, 9.0)]);
    v.retain(|k| k.0 >= 0.0 && k.1 > 0.0);
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|k| seen.insert(bits(*k)));
    v
}
/// Small alphabets for the operation sequences.
fn alphabet(i: usize) -> [K; 4] {
    match i {
        0 => [(0.5, 1.5), (1.5, 0.5), (0.5, 0.5), (1.5, 1.5)],
        1 => [(1.0, 2.0), (ulps(1.0, 1), 2.0), (1.0, ulps(2.0, 1)), (2.0, 1.0)],
        2 => [(0.0, 3.0), (0.25, 3.0), (0.25, 3.0 + 1e-9), (0.5, 2.75)],
        // an order of -0.0 is an order >= 0 like any other (no pair with +0.0 here)
        4 => [(-0.0, 1.5), (-0.0, 2.5), (1.5, 2.5), (0.25, 1.5)],
        _ => [(10.0, 1.0), (100.0, 1e-3), (0.3, 1e-40), (2.5, 40.0)],
    }
}
pub const BAD: [K; 7] = [(-1.0, 1.0), (1.0, 0.0), (1.0, -2.0), (0.5, 1e9), (-0.25, -0.25), (f64::NAN, 1.0), (f64::NEG_INFINITY, 2.0)];

/// One run of the real cache next to the model.
struct Run<C: Cache> {
    c: C,
    m: Model,
    keys: [K; 4],
    val: [V; 4],
    first_call: bool,
}
impl<C: Cache> Run<C> {
    fn new(ctor: usize, keys: [K; 4], val: [V; 4]) -> Self {
        let c = match ctor {
            0 => C::new(),
            1 => C::default(),
            2 => C::cap(0),
            _ => C::cap(500),
        };
        Run { c, m: Model::new(), keys, val, first_call: true }
    }
    fn observe(&self, l: &mut L, step: usize) {
        let n = self.m.len();
        l.check(self.c.size() == n, || format!("step {step}: len() is {} where {n} argument pairs are cached", self.c.size()));
        l.check(self.c.none() == (n == 0), || format!("step {step}: is_empty() is {} with {n} cached pairs", self.c.none()));
        for k in self.keys {
            let want = self.m.get(&bits(k));
            l.check(self.c.has(k) == want.is_some(), || format!("step {step}: contains{k:?} is {}, model says {}", self.c.has(k), want.is_some()));
            let got = self.c.look(k).map(vbits);
            l.check(got.as_ref() == want, || format!("step {step}: get{k:?} is {:?}, model says {want:x?}", self.c.look(k)));
        }
    }
    fn query(&mut self, l: &mut L, i: usize, step: usize) {
        let k = self.keys[i];
        let Some(v) = l.val("cached query", || self.c.q(k)) else { return };
        l.check(same(v, self.val[i]), || format!("step {step}: cached value at {k:?} is {v:?}, the function gives {:?}", self.val[i]));
        self.m.insert(bits(k), vbits(self.val[i]));
        self.first_call = false;
    }
    fn retain(&mut self, l: &mut L, step: usize, f: impl Fn(K, V) -> bool) {
        let mut seen = Model::new();
        let ok = l.val("retain", || {
            self.c.keep(|k, v| {
                seen.insert(bits(k), vbits(v));
                f(k, v)
            })
        });
        if ok.is_some() {
            l.check(seen == self.m, || format!("step {step}: retain showed {} pairs with their values, model has {}", seen.len(), self.m.len()));
        }
        let un = |b: &[u64; 4]| b.map(|x| if x == 1 { f64::NAN } else { f64::from_bits(x) });
        self.m.retain(|k, v| f((f64::from_bits(k.0), f64::from_bits(k.1)), un(v)));
    }
    /// ops 0..4 query, 4 clear, 5..8 retain, 8/9 clone, 10 shrink, 11 reserve
    fn step(&mut self, l: &mut L, op: usize, step: usize) {
        match op {
            0..=3 => self.query(l, op, step),
            4 => {
                self.c.wipe();
                self.m.clear();
            }
            5 => {
                let b = self.keys[0].0;
                self.retain(l, step, |k, _| k.0 != b)
            }
            6 => {
                let x = self.keys[2].1;
                self.retain(l, step, |k, _| k.1 == x)
            }
            7 => {
                let t = self.val[1][0];
                self.retain(l, step, |_, v| v[0] <= t)
            }
            8 => {
                // go on with the clone; what happens to the original must not show
                let n = self.c.clone();
                l.check(n == self.c, || format!("step {step}: a clone differs from its original"));
                let mut old = std::mem::replace(&mut self.c, n);
                old.wipe();
                for k in self.keys {
                    old.q(k);
                }
            }
            9 => {
                // go on with the original; what happens to the clone must not show
                let mut n = self.c.clone();
                for k in self.keys {
                    n.q(k);
                }
                n.keep(|k, _| bits(k) == bits(self.keys[3]));
                let had = self.m.contains_key(&bits(self.keys[3]));
                l.check((n == self.c) == (had && self.m.len() == 1), || format!("step {step}: a changed clone compares wrongly with its original"));
            }
            10 => self.c.shrink(),
            _ => self.c.room(64),
        }
    }
    fn finish(&self, l: &mut L) {
        // equality does not depend on the order of insertion
        let mut o = C::cap(3);
        let ks: Vec<usize> = (0..4).rev().filter(|i| self.m.contains_key(&bits(self.keys[*i]))).collect();
        for i in ks {
            o.q(self.keys[i]);
        }
        let nan = self.m.values().any(|v| v.contains(&1));
        l.check(nan || o == self.c && self.c == o, || "a cache with the same contents, filled in another order, compares unequal".into());
        if let Some(k) = self.keys.iter().find(|k| !self.m.contains_key(&bits(**k))) {
            o.q(*k);
            l.check(o != self.c && self.c != o, || format!("caches that differ in {k:?} compare equal"));
        }
        l.check(!format!("{:?}", self.c).is_empty(), || "Debug prints nothing".into());
    }
}
fn direct4<C: Cache>(keys: [K; 4]) -> [V; 4] {
    keys.map(C::direct)
}
fn seq<C: Cache>(l: &mut L, a: usize, ctor: usize, ops: &[usize], vals: &[V; 4]) {
    let mut r = Run::<C>::new(ctor, alphabet(a), *vals);
    r.observe(l, 0);
    for (i, &op) in ops.iter().enumerate() {
        r.step(l, op, i + 1);
        r.observe(l, i + 1);
    }
    r.finish(l);
}
fn vals(cache: usize, a: usize) -> [V; 4] {
    let k = alphabet(a);
    match cache {
        0 => direct4::<CachedBesselJY>(k),
        1 => direct4::<CachedBesselIK>(k),
        2 => direct4::<CachedJnuYnu>(k),
        _ => direct4::<CachedInuKnu>(k),
    }
}
macro_rules! on {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i {
            0 => $f::<CachedBesselJY>($($a),*),
            1 => $f::<CachedBesselIK>($($a),*),
            2 => $f::<CachedJnuYnu>($($a),*),
            _ => $f::<CachedInuKnu>($($a),*),
        }
    };
}
pub fn digits(mut i: usize, base: usize, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = i % base;
            i /= base;
            d
        })
        .collect()
}
// ---------------------------------------------------------------- P23
/// args: cache, alphabet, constructor, ops...
fn c23(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    if kind == "bulk" {
        return bulk_case(l, v);
    }
    if v[1] == -2.0 {
        return on!(v[0] as usize, again, l, v);
    }
    if v[1] < 0.0 {
        return on!(v[0] as usize, long, l, v[2] as usize);
    }
    let (c, a) = (v[0] as usize, v[1] as usize);
    let ops: Vec<usize> = v[3..].iter().map(|x| *x as usize).collect();
    on!(c, seq, l, a, v[2] as usize, &ops, &vals(c, a));
}
// ---------------------------------------------------------------- large caches
const SIZES: [usize; 22] = [0, 1, 2, 3, 4, 5, 7, 8, 13, 14, 15, 16, 17, 28, 29, 33, 56, 57, 112, 113, 224, 449];
const BULK: usize = 15;
fn bulk_key(i: usize) -> K {
    (((i % 13) as f64) / 8.0, 0.5 + ((i / 13) as f64) / 16.0)
}
fn bulk_vals<C: Cache>(n: usize) -> Vec<V> {
    (0..n).map(|i| C::direct(bulk_key(i))).collect()
}
/// Operations on a cache filled with n entries: 0 query the next new key, 1 query a stored key again,
/// 2 clear, 3 retain every third, 4 retain none, 5 retain all, 6 go on with a clone, 7 go on with the
/// original after changing a clone, 8 shrink, 9 reserve 0, 10 reserve 1000, 11 as many new keys as there
/// are, 12 retain with a predicate that panics half-way, 13 reserve more than there can be (which may panic), 14 reserve
/// for a very large table; from 20: a query that panics
fn bulk<C: Cache>(l: &mut L, n: usize, ops: &[usize], val: &[V]) {
    let mut c = C::new();
    let mut has: Vec<bool> = vec![];
    let mut next = 0;
    let add = |l: &mut L, c: &mut C, has: &mut Vec<bool>, next: &mut usize| {
        let i = *next;
        *next += 1;
        has.push(true);
        if let Some(v) = l.val("cached query", || c.q(bulk_key(i))) {
            l.check(same(v, val[i]), || format!("{n} entries, then {ops:?}: cached value at {:?} is {v:?}, the function gives {:?}", bulk_key(i), val[i]));
        }
    };
    for _ in 0..n {
        add(l, &mut c, &mut has, &mut next);
    }
    for (step, &op) in ops.iter().enumerate() {
        let live = has.iter().filter(|h| **h).count();
        let at = |w: String| format!("{n} entries, then {:?}: {w}", &ops[..=step]);
        match op {
            0 => add(l, &mut c, &mut has, &mut next),
            1 => {
                if let Some(i) = has.iter().rposition(|h| *h) {
                    let v = c.q(bulk_key(i));
                    l.check(same(v, val[i]), || at(format!("cached value at {:?} is {v:?}, the function gives {:?}", bulk_key(i), val[i])));
                }
            }
            2 => {
                c.wipe();
                has.fill(false);
            }
            3 => {
                let mut shown = 0;
                let keep: std::collections::BTreeSet<_> = (0..has.len()).step_by(3).map(|i| bits(bulk_key(i))).collect();
                c.keep(|k, _| {
                    shown += 1;
                    keep.contains(&bits(k))
                });
                l.check(shown == live, || at(format!("retain showed {shown} of {live} pairs")));
                has.iter_mut().enumerate().for_each(|(i, h)| *h &= i % 3 == 0);
            }
            4 => {
                c.keep(|_, _| false);
                has.fill(false);
            }
            5 => c.keep(|_, _| true),
            6 => {
                let d = c.clone();
                l.check(d == c, || at("a clone differs from its original".into()));
                let mut old = std::mem::replace(&mut c, d);
                old.wipe();
                old.q((9.0, 9.0));
            }
            7 => {
                let mut d = c.clone();
                d.q((9.0, 9.0));
                d.keep(|k, _| k.0 == 9.0);
                l.check(d != c, || at("a changed clone equals its original".into()));
            }
            8 => c.shrink(),
            9 => c.room(0),
            10 => c.room(1000),
            11 => {
                for _ in 0..live.max(1) {
                    add(l, &mut c, &mut has, &mut next);
                }
            }
            12 => {
                let keep: std::collections::BTreeSet<_> = (0..has.len()).step_by(3).map(|i| bits(bulk_key(i))).collect();
                let (mut shown, mut gone) = (0, std::collections::BTreeSet::new());
                let end = l.ev(|| {
                    c.keep(|k, _| {
                        shown += 1;
                        assert!(2 * shown <= live, "the predicate gives up");
                        let stay = keep.contains(&bits(k));
                        if !stay {
                            gone.insert(bits(k));
                        }
                        stay
                    })
                });
                l.check(end.is_none() == (live > 0), || at(format!("retain showed {shown} of {live} pairs and swallowed the panic of its predicate")));
                has.iter_mut().enumerate().for_each(|(i, h)| *h &= !gone.contains(&bits(bulk_key(i))));
            }
            13 => {
                l.ev(|| c.room(usize::MAX));
            }
            14 => c.room(300_000),
            _ => {
                let k = BAD[op - 20];
                if l.ev(|| C::direct(k)).is_some() {
                    continue;
                }
                let got = l.ev(|| c.q(k));
                l.check(got.is_none(), || at(format!("query{k:?} answered {got:?} instead of panicking like the function")));
                l.check(!c.has(k), || at(format!("the failed query{k:?} left an entry")));
            }
        }
        let live = has.iter().filter(|h| **h).count();
        l.check(c.size() == live && c.none() == (live == 0), || at(format!("len() is {}, is_empty() {}, with {live} cached pairs", c.size(), c.none())));
        for (i, h) in has.iter().enumerate() {
            let k = bulk_key(i);
            let got = c.look(k);
            l.check(c.has(k) == *h && got.is_some() == *h && got.map_or(true, |v| same(v, val[i])), || at(format!("contains{k:?} is {}, get {got:?}; expected present: {h}", c.has(k))));
        }
    }
}
fn bulk_all(c: &Ctx, t: &mut L, alphabet: &[usize], depth: usize) {
    let vals: Vec<Vec<V>> = (0..4).map(|i| on!(i, bulk_vals, 500 * (1 << depth))).collect();
    let nops = alphabet.len();
    c.par(t, 4 * SIZES.len() * nops, |l, i| {
        let (cache, n, first) = (i % 4, SIZES[i / 4 % SIZES.len()], i / 4 / SIZES.len());
        for j in 0..nops.pow(depth as u32 - 1) {
            let mut ops = vec![first];
            ops.extend(digits(j, nops, depth - 1));
            ops.iter_mut().for_each(|o| *o = alphabet[*o]);
            let mut args = vec![cache as f64, n as f64];
            args.extend(ops.iter().map(|o| *o as f64));
            l.begin("bulk", &args);
            l.evals += (n + depth) as u64;
            on!(cache, bulk, l, n, &ops, &vals[cache]);
            l.states += depth as u64;
            l.trans += depth as u64;
            l.traces += 1;
        }
    });
    t.sample(|| format!("all {nops}^{depth} operation sequences x 4 caches holding n entries, n in {SIZES:?}"));
}
fn bulk_case(l: &mut L, v: &[f64]) {
    let ops: Vec<usize> = v[2..].iter().map(|x| *x as usize).collect();
    let vals = on!(v[0] as usize, bulk_vals, 500 * (1 << ops.len()));
    on!(v[0] as usize, bulk, l, v[1] as usize, &ops, &vals);
}
fn enumerate(c: &Ctx, t: &mut L, alphabets: usize, ctors: usize, nops: usize, depth: usize) {
    // one job per (cache, alphabet, constructor, first two operations)
    let head = nops * nops;
    c.par(t, 4 * alphabets * ctors * head, |l, i| {
        let (cache, rest) = (i % 4, i / 4);
        let (a, rest) = (rest % alphabets, rest / alphabets);
        let (ctor, first) = (rest % ctors, rest / ctors);
        let vals = vals(cache, a);
        let mut args = vec![0.0; 3 + depth];
        (args[0], args[1], args[2]) = (cache as f64, a as f64, ctor as f64);
        for j in 0..nops.pow(depth as u32 - 2) {
            let mut ops = digits(first, nops, 2);
            ops.extend(digits(j, nops, depth - 2));
            for (d, o) in ops.iter().enumerate() {
                args[3 + d] = *o as f64;
            }
            l.begin("seq", &args);
            l.evals += depth as u64;
            on!(cache, seq, l, a, ctor, &ops, &vals);
            l.states += depth as u64;
            l.trans += depth as u64;
            l.traces += 1;
        }
    });
    t.sample(|| format!("all {nops}^{depth} operation sequences x {alphabets} key alphabets x {ctors} constructors x 4 caches"));
}
fn r23(c: &Ctx, t: &mut L) {
    // every constructor with all operations, and deeper with the first
    enumerate(c, t, 5, 4, 12, 3);
    enumerate(c, t, c.pick(2, 4), 1, 12, 5);
    if c.thorough {
        enumerate(c, t, 1, 1, 12, 6);
    }
    bulk_all(c, t, &(0..BULK).collect::<Vec<_>>(), c.pick(3, 4));
    // long histories: fill far beyond any growth step, watching the size, then empty by halves
    c.par(t, 4 * 3, |l, i| {
        let n = [10.0, 100.0, c.pick(260.0, 400.0)][i / 4];
        c23(l, "seq", &[(i % 4) as f64, -1.0, n]);
        l.states += (n * n) as u64;
        l.trans += (n * n) as u64;
        l.traces += 1;
    });
    // one operation many times
    c.par(t, 4, |l, i| {
        let n = c.pick(70_000, 300_000);
        c23(l, "seq", &[i as f64, -2.0, n as f64]);
        l.states += 7 * n as u64;
        l.trans += 7 * n as u64;
        l.traces += 7;
    });
}
/// One operation again and again on a cache of three entries.
fn again<C: Cache>(l: &mut L, args: &[f64]) {
    let n = args[2] as usize;
    let keys = [(0.3, 1.7), (2.5, 0.9), (1.0, 4.0)];
    let vals: Vec<V> = keys.iter().map(|k| C::direct(*k)).collect();
    let whole = |l: &mut L, c: &C, what: &str, i: usize| {
        if i % 1024 == 0 {
            // for the watchdog
            l.begin("seq", args);
        }
        l.check(c.size() == 3 && !c.none(), || format!("len() is {} instead of 3 after {what} for the {i}th time", c.size()));
        for (k, v) in keys.iter().zip(&vals) {
            l.check(c.has(*k) && c.look(*k).is_some_and(|w| same(w, *v)), || format!("{k:?} is gone or changed after {what} for the {i}th time"));
        }
    };
    let full = || {
        let mut c = C::new();
        for k in keys {
            c.q(k);
        }
        c
    };
    let mut c = full();
    for i in 0..n {
        let v = c.q(keys[0]);
        l.check(same(v, vals[0]), || format!("the {i}th query of {:?} returns {v:?}, the function {:?}", keys[0], vals[0]));
        whole(l, &c, "the query of an entry", i);
    }
    let mut c = full();
    for i in 0..n {
        whole(l, &c, "contains and get", i);
    }
    for i in 0..n {
        c.keep(|_, _| true);
        whole(l, &c, "a retain of everything", i);
    }
    for i in 0..n {
        c.room(1);
        c.shrink();
        whole(l, &c, "reserve and shrink_to_fit", i);
    }
    for i in 0..n {
        let d = c.clone();
        l.check(d == c, || format!("the {i}th clone differs"));
        if i % 2 == 0 {
            c = d;
        }
        whole(l, &c, "clone", i);
    }
    for i in 0..n {
        c.keep(|k, _| k.0 != keys[1].0);
        l.check(c.size() == 2 && !c.has(keys[1]), || format!("the {i}th retain did not remove {:?}", keys[1]));
        let v = c.q(keys[1]);
        l.check(same(v, vals[1]), || format!("the {i}th computation of {:?} returns {v:?}, the function {:?}", keys[1], vals[1]));
        whole(l, &c, "removal and a new query", i);
    }
    for i in 0..n {
        c.wipe();
        l.check(c.none() && c.size() == 0, || format!("the {i}th clear left {} entries", c.size()));
        for (k, v) in keys.iter().zip(&vals) {
            let w = c.q(*k);
            l.check(same(w, *v), || format!("after the {i}th clear the query of {k:?} returns {w:?}, the function {v:?}"));
        }
        whole(l, &c, "clear and new queries", i);
    }
    l.evals += 7 * n as u64;
}
/// Long history on an n x n grid of keys.
fn long<C: Cache>(l: &mut L, n: usize) {
    // tenths: keys with all kinds of last bits
    let key = |i: usize| (((i / n) as f64 + 0.1) / 16.0, 0.5 + ((i % n) as f64 + 0.1) / 32.0);
    let mut c = C::new();
    for i in 0..n * n {
        l.check(!c.has(key(i)), || format!("contains{:?} before it was queried", key(i)));
        if l.val("cached query", || c.q(key(i))).is_none() {
            return;
        }
        l.check(c.size() == i + 1, || format!("len() is {} after {} different queries", c.size(), i + 1));
        l.check(c.has(key(i)), || format!("contains{:?} is false right after the query", key(i)));
    }
    l.evals += (n * n) as u64;
    for i in 0..n * n {
        l.check(c.has(key(i)) && c.look(key(i)).is_some(), || format!("{:?} was dropped from the cache", key(i)));
    }
    let d = c.clone();
    c.keep(|k, _| (k.0 * 16.0) as usize % 2 == 0);
    let left = (0..n * n).filter(|i| (i / n) % 2 == 0).count();
    l.check(c.size() == left, || format!("retain kept {} of {} pairs, expected {left}", c.size(), n * n));
    for i in 0..n * n {
        l.check(c.has(key(i)) == ((i / n) % 2 == 0), || format!("after retain contains{:?} = {}", key(i), c.has(key(i))));
    }
    c.shrink();
    l.check(c.size() == left, || format!("shrink_to_fit changed the size to {}", c.size()));
    l.check(d.size() == n * n, || "retain on the original changed its clone".to_string());
    c.wipe();
    l.check(c.none() && c.size() == 0 && d.size() == n * n, || "clear".to_string());
}
// ---------------------------------------------------------------- P22
/// seq: cache, n, then index list into the universe (queries on one cache); fill: cache, n
fn c22(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let c = v[0] as usize;
    if kind == "product" {
        return on!(c, product, l, v[1] as usize, v[2] as i64);
    }
    if kind == "fill" {
        return on!(c, fill, l, v[1] as usize);
    }
    let u = universe();
    let idx: Vec<usize> = v[1..].iter().map(|x| *x as usize).collect();
    on!(c, queries, l, &u, &[], &idx);
}
fn queries<C: Cache>(l: &mut L, u: &[K], d: &[V], idx: &[usize]) {
    let mut c = C::new();
    for &i in idx {
        let k = u[i];
        let want = d.get(i).copied().unwrap_or_else(|| C::direct(k));
        let Some(v) = l.val("cached query", || c.q(k)) else { return };
        l.check(same(v, want), || format!("cached value at {k:?} after {:?} is {v:?}, the function gives {want:?}", idx.iter().map(|i| u[*i]).collect::<Vec<_>>()));
    }
}
fn tables<C: Cache>(u: &[K]) -> Vec<V> {
    u.iter().map(|k| C::direct(*k)).collect()
}
/// Values near a that a lossy key may identify: ulp steps, single-bit flips, powers of two, decimals.
fn near(a: f64, n: i64) -> Vec<f64> {
    let mut v = vec![];
    for k in -n..=n {
        v.push(ulps(a, k));
    }
    for k in [257i64, 1_000_003, 16_777_619, 0x100_0000_01b3] {
        v.extend([ulps(a, k), ulps(a, -k)]);
    }
    for i in 0..52 {
        v.push(f64::from_bits(a.to_bits() ^ (1 << i)));
    }
    for i in 1..=16 {
        v.extend([a + 10f64.powi(-i), a + 5.0 * 10f64.powi(-i)]);
        v.push(a + i as f64 / 16.0);
    }
    for i in 1..=6 {
        v.extend([a + i as f64, a * f64::powi(2.0, i), a * f64::powi(2.0, -i), a * f64::powi(10.0, -i), a / i as f64, a * i as f64]);
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| *x > 0.0 && seen.insert(x.to_bits()));
    v
}
const CENTRES: [K; 6] = [(0.5, 1.5), (1.0, 2.0), (2.5, 2.5), (0.3, 7.1), (3.0, 0.7), (1.5, 0.5)];
/// The whole product of the values near a and near b (and the swapped pairs) in one cache: every pair
/// of them that shares an entry shows as a wrong answer or a wrong number of entries.
fn product<C: Cache>(l: &mut L, i: usize, n: i64) {
    let (a, b) = CENTRES[i];
    let (va, vb) = (near(a, n), near(b, n));
    let mut keys: Vec<K> = va.iter().flat_map(|x| vb.iter().map(move |y| (*x, *y))).collect();
    let swapped: Vec<K> = keys.iter().step_by(7).map(|k| (k.1, k.0)).collect();
    keys.extend(swapped);
    let mut seen = std::collections::BTreeSet::new();
    keys.retain(|k| seen.insert(bits(*k)));
    let want: Vec<V> = keys.iter().map(|k| C::direct(*k)).collect();
    let mut c = C::new();
    for round in 0..2 {
        for j in 0..keys.len() {
            let j = if round == 1 { keys.len() - 1 - j } else { j };
            let Some(v) = l.val("cached query", || c.q(keys[j])) else { return };
            if !same(v, want[j]) || (round == 0 && c.size() != j + 1) {
                l.check(same(v, want[j]), || format!("cached value at {:?} is {v:?}, the function gives {:?}", keys[j], want[j]));
                l.check(round != 0 || c.size() == j + 1, || format!("{} entries after {} different queries, the last being {:?}", c.size(), j + 1, keys[j]));
                return;
            }
        }
    }
    l.states += 2 * keys.len() as u64;
    l.trans += 2 * keys.len() as u64;
    l.evals += 2 * keys.len() as u64;
    l.traces += 1;
}
/// Fill n x n keys, re-read them in three orders, with a clear or a retain in between.
fn fill<C: Cache>(l: &mut L, n: usize) {
    let key = |i: usize| (((i / n) as f64) / 10.0, 0.1 + ((i % n) as f64) / 10.0);
    let m = n * n;
    let want: Vec<V> = (0..m).map(|i| C::direct(key(i))).collect();
    let mut c = C::new();
    for round in 0..5 {
        for j in 0..m {
            let i = match round {
                0 => j,
                1 => m - 1 - j,
                2 => (j % n) * n + j / n,
                _ => (j * 7919) % m,
            };
            let Some(v) = l.val("cached query", || c.q(key(i))) else { return };
            l.check(same(v, want[i]), || format!("round {round}: cached value at {:?} is {v:?}, the function gives {:?}", key(i), want[i]));
        }
        match round {
            2 => c.keep(|k, _| k.1 > 2.0),
            3 => c.wipe(),
            _ => (),
        }
    }
    l.evals += 5 * m as u64;
}
fn r22(c: &Ctx, t: &mut L) {
    let u = universe();
    let d: Vec<Vec<V>> = (0..4).map(|i| on!(i, tables, &u)).collect();
    t.sample(|| format!("all ordered pairs of {} argument pairs", u.len()));
    c.par(t, 4 * u.len(), |l, i| {
        let (cache, a) = (i % 4, i / 4);
        for b in 0..u.len() {
            l.begin("seq", &[cache as f64, a as f64, b as f64, a as f64, b as f64]);
            on!(cache, queries, l, &u, &d[cache], &[a, b, a, b]);
            l.states += 4;
            l.trans += 4;
        }
        l.traces += u.len() as u64;
    });
    // all triples of every 5th member (thorough: every 2nd)
    let s: Vec<usize> = (0..u.len()).step_by(c.pick(5, 2)).collect();
    t.sample(|| format!("all ordered triples of {} argument pairs", s.len()));
    c.par(t, 4 * s.len(), |l, i| {
        let (cache, a) = (i % 4, s[i / 4]);
        for &b in &s {
            for &e in &s {
                l.begin("seq", &[cache as f64, a as f64, b as f64, e as f64, a as f64, b as f64, e as f64]);
                on!(cache, queries, l, &u, &d[cache], &[a, b, e, a, b, e]);
                l.states += 6;
                l.trans += 6;
                l.traces += 1;
            }
        }
    });
    // the whole universe as one history, from every rotation
    c.par(t, 4 * u.len(), |l, i| {
        let (cache, r) = (i % 4, i / 4);
        let idx: Vec<usize> = (0..2 * u.len()).map(|j| (j + r) % u.len()).collect();
        let args: Vec<f64> = std::iter::once(cache as f64).chain(idx.iter().map(|x| *x as f64)).collect();
        l.begin("seq", &args);
        on!(cache, queries, l, &u, &d[cache], &idx);
        l.states += idx.len() as u64;
        l.trans += idx.len() as u64;
        l.traces += 1;
    });
    c.par(t, 4 * CENTRES.len(), |l, i| {
        c22(l, "product", &[(i % 4) as f64, (i / 4) as f64, c.pick(130.0, 400.0)]);
    });
    c.par(t, 4, |l, i| {
        let n = c.pick(260, 400);
        c22(l, "fill", &[i as f64, n as f64]);
        l.states += 5 * (n * n) as u64;
        l.trans += 5 * (n * n) as u64;
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P24
/// args: cache, alphabet, ops...; ops 0..3 good queries, 3.. bad queries, then clear, clone
fn c24(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    if kind == "bulk" {
        return bulk_case(l, v);
    }
    if v[1] < 0.0 {
        return on!(v[0] as usize, long24, l, v[2] as usize);
    }
    let (c, a) = (v[0] as usize, v[1] as usize);
    let ops: Vec<usize> = v[2..].iter().map(|x| *x as usize).collect();
    on!(c, seq24, l, a, &ops, &vals(c, a));
}
fn seq24<C: Cache>(l: &mut L, a: usize, ops: &[usize], vals: &[V; 4]) {
    let mut r = Run::<C>::new(0, alphabet(a), *vals);
    for (i, &op) in ops.iter().enumerate() {
        if (3..3 + BAD.len()).contains(&op) {
            let k = BAD[op - 3];
            if l.ev(|| C::direct(k)).is_some() {
                continue; // the function itself answers here
            }
            let got = l.ev(|| r.c.q(k));
            l.check(got.is_none(), || format!("step {}: query{k:?} answered {got:?} instead of panicking like the function", i + 1));
            l.check(!r.c.has(k) && r.c.look(k).is_none(), || format!("step {}: the failed query{k:?} left an entry", i + 1));
        } else {
            match op {
                0..=2 => r.query(l, op, i + 1),
                10 => r.step(l, 4, i + 1),
                _ => r.step(l, 8, i + 1),
            }
        }
        r.observe(l, i + 1);
    }
    // still usable
    for i in 0..4 {
        r.query(l, i, 100 + i);
        r.observe(l, 100 + i);
    }
}
/// Queries that panic all along the way from an empty to a large cache.
fn long24<C: Cache>(l: &mut L, m: usize) {
    let key = |i: usize| (((i / 256) as f64) / 16.0, 0.5 + ((i % 256) as f64) / 32.0);
    let mut c = C::new();
    let bad: Vec<K> = BAD.into_iter().filter(|k| l.ev(|| C::direct(*k)).is_none()).collect();
    for i in 0..m {
        if i % 61 == 0 || i.is_power_of_two() {
            let k = bad[i / 61 % bad.len()];
            let before = (i > 0).then(|| c.look(key(i / 2)).map(vbits));
            let got = l.ev(|| c.q(k));
            l.check(got.is_none() && !c.has(k) && c.size() == i, || format!("{i} entries, then query{k:?}: answer {got:?}, stored: {}, len() {}", c.has(k), c.size()));
            l.check(before.is_none_or(|b| b.is_some() && c.look(key(i / 2)).map(vbits) == b), || format!("{i} entries, then query{k:?}: changed {:?}", key(i / 2)));
        }
        let Some(v) = l.val("cached query", || c.q(key(i))) else { return };
        if i % 61 <= 1 {
            let w = C::direct(key(i));
            l.check(same(v, w), || format!("{i} entries: cached value at {:?} is {v:?}, the function gives {w:?}", key(i)));
        }
        l.check(c.size() == i + 1, || format!("len() is {} after {} different queries", c.size(), i + 1));
    }
    for i in 0..m {
        l.check(c.has(key(i)), || format!("{:?} was dropped from the cache", key(i)));
    }
}
fn r24(c: &Ctx, t: &mut L) {
    let nops = 12usize;
    let depth = c.pick(4, 5);
    let al = c.pick(2, 5);
    t.sample(|| format!("all {nops}^{depth} sequences x {al} alphabets x 4 caches; arguments that panic: {BAD:?}"));
    c.par(t, 4 * al * nops * nops, |l, i| {
        let (cache, a, first) = (i % 4, i / 4 % al, i / 4 / al);
        let vals = vals(cache, a);
        let mut args = vec![0.0; 2 + depth];
        (args[0], args[1]) = (cache as f64, a as f64);
        for j in 0..nops.pow(depth as u32 - 2) {
            let mut ops = digits(first, nops, 2);
            ops.extend(digits(j, nops, depth - 2));
            for (d, o) in ops.iter().enumerate() {
                args[2 + d] = *o as f64;
            }
            l.begin("seq", &args);
            on!(cache, seq24, l, a, &ops, &vals);
            l.states += depth as u64 + 4;
            l.trans += depth as u64 + 4;
            l.traces += 1;
        }
    });
    c.par(t, 4, |l, i| {
        let n = c.pick(10_000, 70_000);
        c24(l, "seq", &[i as f64, -1.0, n as f64]);
        l.states += n as u64;
        l.trans += n as u64;
        l.traces += 1;
    });
    let ops: Vec<usize> = [0, 1, 2, 6, 11].into_iter().chain(20..20 + BAD.len()).collect();
    bulk_all(c, t, &ops, c.pick(2, 3));
}
