//! Exploration engine: guarded evaluation of the real code, journalling, parallel exhaustive
//! enumeration, evidence, replay files, crash and hang attribution.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub const WORKERS: usize = 8;
const SLOTS: usize = 64;
const MAXA: usize = 60;
/// One journal slot (512 bytes), in a file mapped by the worker process and read by its parent.
#[repr(C)]
pub struct Slot {
    seq: AtomicU64, // odd while a case is in flight
    kind: AtomicU64,
    nargs: AtomicU64,
    args: [AtomicU64; MAXA],
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn setrlimit(r: i32, lim: *const [u64; 2]) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    fn clock_gettime(c: i32, ts: *mut [i64; 2]) -> i32;
}
static JOURNAL: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());
static CLOCKS: [AtomicU64; SLOTS] = [const { AtomicU64::new(u64::MAX) }; SLOTS];
thread_local!(static MY: Cell<usize> = const { Cell::new(usize::MAX) });

pub fn open_journal(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("journal");
    assert!(std::mem::size_of::<Slot>() <= 512);
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 512, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    JOURNAL.store(p as *mut Slot, Release);
}
fn slot(i: usize) -> Option<&'static Slot> {
    let p = JOURNAL.load(Acquire);
    if p.is_null() || i >= SLOTS {
        None
    } else {
        unsafe { Some(&*((p as *mut u8).add(i * 512) as *const Slot)) }
    }
}
/// Cases in flight in a journal file left by a dead worker: (kind index, args).
pub fn read_journal(path: &str) -> Vec<(usize, Vec<f64>)> {
    let b = std::fs::read(path).unwrap_or_default();
    let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    let mut v = vec![];
    for s in 0..SLOTS {
        let o = s * 512;
        if o + 512 > b.len() {
            break;
        }
        if u(o) % 2 == 1 {
            let n = (u(o + 16) as usize).min(MAXA);
            v.push((u(o + 8) as usize, (0..n).map(|i| f64::from_bits(u(o + 24 + 8 * i))).collect()));
        }
    }
    v
}
pub fn register_thread(i: usize) {
    MY.with(|m| m.set(i));
    let mut c = 0i32;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    CLOCKS[i].store(c as u32 as u64, Relaxed);
}
fn unregister_thread() {
    let i = MY.with(|m| m.get());
    if i < SLOTS {
        CLOCKS[i].store(u64::MAX, Relaxed);
    }
}
pub fn limit_memory(bytes: u64) {
    unsafe { setrlimit(9, &[bytes, bytes]) };
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: &'static str,
    pub args: Vec<f64>,
    pub what: String,
}
#[derive(Default, Clone)]
pub struct Worst {
    ratio: f64,
    text: String,
    n: u64,
}
/// Per-worker log, merged at the end.
#[derive(Default)]
pub struct L {
    pub evals: u64,
    pub states: u64,
    pub trans: u64,
    pub traces: u64,
    pub skipped: u64,
    pub samples: Vec<String>,
    pub worst: BTreeMap<&'static str, Worst>,
    pub fails: Vec<(u64, Fail)>,
    pub extra: BTreeMap<String, u64>,
    pub job: u64,
    kind: &'static str,
    args: Vec<f64>,
    kinds: &'static [&'static str],
}
impl L {
    pub fn new(kinds: &'static [&'static str]) -> L {
        L { kinds, ..Default::default() }
    }
    /// Enter one case: everything that follows until `end` is attributed to it.
    #[inline]
    pub fn begin(&mut self, kind: &'static str, args: &[f64]) {
        self.kind = kind;
        self.args.clear();
        self.args.extend_from_slice(args);
        if let Some(s) = slot(MY.with(|m| m.get())) {
            let ki = self.kinds.iter().position(|k| *k == kind).expect("undeclared kind");
            s.kind.store(ki as u64, Relaxed);
            let n = args.len().min(MAXA);
            s.nargs.store(n as u64, Relaxed);
            for (a, v) in s.args.iter().zip(args) {
                a.store(v.to_bits(), Relaxed);
            }
            let q = s.seq.load(Relaxed);
            s.seq.store((q + 1) | 1, Release);
        }
    }
    #[inline]
    pub fn end(&mut self) {
        if let Some(s) = slot(MY.with(|m| m.get())) {
            let q = s.seq.load(Relaxed);
            s.seq.store((q + 1) & !1, Release);
        }
    }
    /// Evaluate the code under test; a panic is reported as `None`.
    #[inline]
    pub fn ev<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        self.evals += 1;
        catch_unwind(AssertUnwindSafe(f)).ok()
    }
    /// Evaluate; a panic is a violation.
    #[inline]
    pub fn val<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        let r = self.ev(f);
        if r.is_none() {
            self.fail(format!("{name} panicked on an argument inside its domain"));
        }
        r
    }
    #[cold]
    pub fn fail(&mut self, what: String) {
        if self.fails.len() < 400 {
            let f = Fail { kind: self.kind, args: self.args.clone(), what };
            self.fails.push((self.job, f));
        }
        FAILS.fetch_add(1, Relaxed);
    }
    #[inline]
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            self.fail(what());
        }
    }
    /// err must be <= tol (NaN fails). Keeps the worst ratio per key for the evidence.
    #[inline]
    pub fn tol(&mut self, key: &'static str, got: f64, want: f64, err: f64, tol: f64) {
        let ratio = if err == 0.0 { 0.0 } else { err / tol };
        let w = self.worst.entry(key).or_default();
        w.n += 1;
        if !(ratio <= w.ratio) {
            w.ratio = if ratio.is_nan() { f64::INFINITY } else { ratio };
            w.text = format!("{:?} {:?} got {:e} want {:e} err {:.2e} tol {:.2e}", self.kind, self.args, got, want, err, tol);
        }
        if !(err <= tol) {
            self.fail(format!("{key}: got {got:e}, reference {want:e}, error {err:.3e} exceeds {tol:.3e}"));
        }
    }
    /// Real value against the reference with a tolerance scaled by `scale`.
    #[inline]
    pub fn close(&mut self, key: &'static str, got: f64, want: crate::refm::R, tol: f64) {
        let err = if got == want.hi && got.is_infinite() { 0.0 } else { want.err(got).abs() };
        self.tol(key, got, want.hi, err, tol);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let t = s();
            self.samples.push(t);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_default() += n;
    }
    pub fn merge(&mut self, o: L) {
        self.evals += o.evals;
        self.states += o.states;
        self.trans += o.trans;
        self.traces += o.traces;
        self.skipped += o.skipped;
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        for (k, w) in o.worst {
            let e = self.worst.entry(k).or_default();
            e.n += w.n;
            if w.ratio > e.ratio || e.text.is_empty() {
                e.ratio = w.ratio;
                e.text = w.text;
            }
        }
        for (k, n) in o.extra {
            *self.extra.entry(k).or_default() += n;
        }
        self.fails.extend(o.fails);
    }
    pub fn worst_lines(&self) -> Vec<String> {
        self.worst.iter().map(|(k, w)| format!("{k}: n={} worst {:.3} of tolerance at {}", w.n, w.ratio, w.text)).collect()
    }
}
static FAILS: AtomicU64 = AtomicU64::new(0);

pub type Case = fn(&mut L, &'static str, &[f64]);
pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub kinds: &'static [&'static str],
    pub case: Case,
}
impl Ctx {
    /// q in the quick tier, t in the thorough one
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }
    /// Run `n` independent jobs on all cores; jobs are numbered for a deterministic order of failures.
    pub fn par(&self, total: &mut L, n: usize, f: impl Fn(&mut L, usize) + Sync) {
        let next = AtomicUsize::new(0);
        let out = Mutex::new(vec![]);
        let base = total.job;
        std::thread::scope(|s| {
            for w in 0..WORKERS {
                let (next, out, f) = (&next, &out, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        register_thread(w + 1);
                        let mut l = L::new(self.kinds);
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || FAILS.load(Relaxed) > 200 {
                                break;
                            }
                            l.job = base + i as u64;
                            f(&mut l, i);
                            l.end();
                        }
                        unregister_thread();
                        out.lock().unwrap().push(l);
                    })
                    .unwrap();
            }
        });
        total.job = base + n as u64;
        for l in out.into_inner().unwrap() {
            total.merge(l);
        }
    }
    /// Cut a list of points into jobs that walk consecutive points.
    pub fn walk<T: Sync>(&self, total: &mut L, pts: &[T], chunk: usize, f: impl Fn(&mut L, &[T]) + Sync) {
        let n = pts.len().div_ceil(chunk);
        self.par(total, n, |l, i| f(l, &pts[i * chunk..((i + 1) * chunk).min(pts.len())]));
    }
    /// All `n` points k*alpha mod 1 (k = 0..n) of a rank-1 lattice in the cube [0,1)^4, alpha the powers of the
    /// root of t^5 = t + 1: no box of side c n^(-1/d) in d of its coordinates is empty, so that a window of the
    /// arguments is met wherever it lies, which a product of coarser lattices cannot promise.
    pub fn rank1(&self, total: &mut L, n: u64, f: impl Fn(&mut L, [f64; 4]) + Sync) {
        const CHUNK: u64 = 2048;
        // 1.1673039782614187 is the root; the powers are taken in units of 2^-64
        let alpha: Vec<u64> = (1..=4).map(|j| (1.167_303_978_261_418_7f64.powi(-j) * 18_446_744_073_709_551_616.0) as u64).collect();
        self.par(total, n.div_ceil(CHUNK) as usize, |l, i| {
            for k in (i as u64 * CHUNK..n).take(CHUNK as usize) {
                let u = [0, 1, 2, 3].map(|j| (alpha[j].wrapping_mul(k).wrapping_add(1 << 63) >> 11) as f64 / 9_007_199_254_740_992.0);
                l.states += 1;
                f(l, u);
            }
            l.traces += 1;
        });
    }
    /// Walk the sorted points of a one-dimensional lattice: one state per point, one step per successor.
    pub fn walk1(&self, total: &mut L, kind: &'static str, pts: &[f64]) {
        self.walk(total, pts, 2048, |l, c| {
            for (i, &x) in c.iter().enumerate() {
                l.states += 1;
                if i > 0 {
                    l.trans += 1;
                }
                (self.case)(l, kind, &[x]);
            }
            l.traces += 1;
        });
    }
}

/// Watchdog: a case that burns more than `cpu` seconds of its thread's CPU time, or that makes no
/// progress for `wall` seconds, is in flight for ever as far as a user can tell.
pub fn watchdog(cpu: f64, wall: f64, on: impl Fn(usize, Vec<f64>, String) + Send + 'static) -> std::sync::Arc<AtomicBool> {
    let stop = std::sync::Arc::new(AtomicBool::new(false));
    let st = stop.clone();
    std::thread::spawn(move || {
        let mut last = [(0u64, 0.0f64, std::time::Instant::now()); SLOTS];
        while !st.load(Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for i in 0..SLOTS {
                let Some(s) = slot(i) else { return };
                let c = CLOCKS[i].load(Relaxed);
                if c == u64::MAX {
                    last[i].0 = 0;
                    continue;
                }
                let mut ts = [0i64; 2];
                if unsafe { clock_gettime(c as u32 as i32, &mut ts) } != 0 {
                    continue;
                }
                let t = ts[0] as f64 + ts[1] as f64 * 1e-9;
                let q = s.seq.load(Acquire);
                if q != last[i].0 || q % 2 == 0 {
                    last[i] = (q, t, std::time::Instant::now());
                    continue;
                }
                let w = last[i].2.elapsed().as_secs_f64();
                if t - last[i].1 > cpu || w > wall {
                    let n = s.nargs.load(Relaxed) as usize;
                    let a = (0..n).map(|k| f64::from_bits(s.args[k].load(Relaxed))).collect();
                    on(s.kind.load(Relaxed) as usize, a, format!("no answer after {:.0} s of CPU time and {w:.0} s", t - last[i].1));
                }
            }
        }
    });
    stop
}

// ---------------------------------------------------------------- lattices
pub fn ulps(x: f64, k: i64) -> f64 {
    // steps through the doubles in order, across zero
    let to = |b: u64| if b >> 63 == 1 { -((b & !(1 << 63)) as i64) } else { b as i64 };
    let v = to(x.to_bits()) + k;
    if v < 0 {
        -f64::from_bits((-v) as u64)
    } else {
        f64::from_bits(v as u64)
    }
}
/// All positive doubles with `m` bits after the leading one and exponent in e0..e1 (subnormals included).
pub fn dyadic(m: u32, e0: i32, e1: i32) -> Vec<f64> {
    let mut v = vec![];
    for e in e0..e1 {
        for k in 0..(1u64 << m) {
            let x = (1.0 + k as f64 / (1u64 << m) as f64) * p2(e);
            if x > 0.0 {
                v.push(x);
            }
        }
    }
    v
}
/// 2^e, subnormal powers included (powi gives 0 for those).
pub fn p2(e: i32) -> f64 {
    2f64.powi(e.max(-1000)) * 2f64.powi((e + 1000).min(0))
}
/// Geometric approach to each point from both sides: c +- f 2^-k, every `step`-th k.
pub fn approach(c: &[f64], step: usize) -> Vec<f64> {
    let mut v = vec![];
    for &c in c {
        for k in (2..=56).step_by(step) {
            for f in [1.0, 1.4] {
                let d = f * p2(-k);
                v.extend([c + d, c - d]);
            }
        }
    }
    v
}
/// k*step for k in a..=b computed as a single division so that the decimals are the ones users type.
pub fn decimals(a: i64, b: i64, den: f64) -> Vec<f64> {
    (a..=b).map(|k| k as f64 / den).collect()
}
/// Each point with its neighbours at +-1..=r ulps.
pub fn around(v: &[f64], r: i64) -> Vec<f64> {
    v.iter().flat_map(|&x| (-r..=r).map(move |k| ulps(x, k))).collect()
}
pub fn both(v: Vec<f64>) -> Vec<f64> {
    let mut w: Vec<f64> = v.iter().map(|x| -x).collect();
    w.extend(v);
    w
}
pub fn tidy(mut v: Vec<f64>) -> Vec<f64> {
    v.retain(|x| x.is_finite());
    v.sort_by(|a, b| a.total_cmp(b));
    v.dedup_by(|a, b| a.to_bits() == b.to_bits());
    v
}
/// n points evenly spread over the doubles' representation between a and b (same sign), endpoints included.
pub fn spread(a: f64, b: f64, n: u64) -> Vec<f64> {
    let (p, q) = (a.to_bits(), b.to_bits());
    let (lo, hi) = (p.min(q), p.max(q));
    (0..=n).map(|i| f64::from_bits(lo + ((hi - lo) as u128 * i as u128 / n as u128) as u64)).collect()
}
/// The point between `a` and `b` (both positive) at the fraction `u` of the way in logarithmic measure.
pub fn logu(u: f64, a: f64, b: f64) -> f64 {
    a * (b / a).powf(u)
}
/// The fraction `u` of every third, fourth ... point moved to an integer or a half, as users choose shapes.
pub fn typed(u: f64, x: f64) -> f64 {
    match (u * 16.0) as u32 {
        0 if x > 0.5 => x.round(),
        1 if x > 0.5 => (2.0 * x).round() / 2.0,
        2 if x > 0.05 => (10.0 * x).round() / 10.0,
        _ => x,
    }
}
/// n+1 points evenly spaced between a and b.
pub fn grid(a: f64, b: f64, n: usize) -> Vec<f64> {
    (0..=n).map(|i| a + (b - a) * (i as f64 / n as f64)).collect()
}
pub fn hex(a: &[f64]) -> String {
    a.iter().map(|x| format!("{:016x}", x.to_bits())).collect::<Vec<_>>().join(",")
}
pub fn unhex(s: &str) -> Vec<f64> {
    s.split(',').filter(|t| !t.is_empty()).map(|t| f64::from_bits(u64::from_str_radix(t, 16).unwrap())).collect()
}
