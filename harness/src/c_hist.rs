//! P25: a call's answer does not depend on the calls made before it in the same process.
use crate::calls::*;
use crate::eng::*;
use crate::forks::*;
use crate::Check;
use std::sync::atomic::{AtomicU64, Ordering::*};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P25",
        kinds: &["fresh", "hist", "threads", "repeat", "cycle", "from"],
        case: c25,
        run: r25,
        space: "fork trees over the real code: every call of the alphabet in a pristine process and on a fresh thread; ordered pairs a,b of the large alphabet (all 36 functions, every branch, near-collisions of arguments) run as a,b,a (quick: pairs of one function and pairs with a base call of each function; thorough: all); every call followed by the whole alphabet; every ordered triple of the small alphabet; thorough: every ordered triple of calls of one function; histories split over threads; every call repeated thousands of times; cycles through the whole alphabet in both directions; one long history that contains every ordered triple of the smallest alphabet as a window. Bits of every answer and the floating-point control word are compared with the pristine answer",
    }]
}
const SECS: u32 = 20;
fn mxcsr() -> u32 {
    let mut v = 0u32;
    unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
    v & !0x3f
}
/// Pristine answers, one forked process per call.
pub fn fresh(calls: &[Call], out: &mut Out) -> Vec<Bits> {
    let sh = shared::<Bits>(calls.len() * 2);
    for (i, c) in calls.iter().enumerate() {
        let e = in_fork(SECS, || {
            sh[2 * i] = eval(c);
            (mxcsr() != 0x1f80) as i32
        });
        let t = in_fork(SECS, || {
            let c = *c;
            sh[2 * i + 1] = std::thread::spawn(move || eval(&c)).join().unwrap();
            0
        });
        out.calls += 2;
        let bad = e.text().or(t.text()).or((sh[2 * i] != sh[2 * i + 1]).then(|| "a new thread gives another answer than the main thread".into()));
        if let Some(w) = bad {
            out.fails.push(("fresh", c.to_vec(), format!("{}: {w}", show(c))));
        }
    }
    (0..calls.len()).map(|i| sh[2 * i]).collect()
}
struct Tab {
    calls: Vec<Call>,
    want: Vec<Bits>,
    bad: &'static [AtomicU64], // 0: number of records; then records of 64 words: kind, length, indices
}
const REC: usize = 64;
const NREC: usize = 64;
impl Tab {
    fn new(calls: Vec<Call>, out: &mut Out) -> Tab {
        let want = fresh(&calls, out);
        let b = shared::<u64>(1 + REC * NREC);
        Tab { calls, want, bad: unsafe { std::slice::from_raw_parts(b.as_ptr() as *const AtomicU64, b.len()) } }
    }
    fn at(&self, c: &Call) -> usize {
        self.calls.iter().position(|d| d.map(f64::to_bits) == c.map(f64::to_bits)).unwrap()
    }
    fn ok(&self, i: usize) -> bool {
        eval(&self.calls[i]) == self.want[i] && mxcsr() == 0x1f80
    }
    fn record(&self, kind: u64, what: u64, hist: &[usize]) {
        let n = self.bad[0].fetch_add(1, SeqCst) as usize;
        if n < NREC {
            let r = &self.bad[1 + n * REC..];
            r[0].store(kind, Relaxed);
            r[1].store(what, Relaxed);
            r[2].store(hist.len() as u64, Relaxed);
            for (k, h) in hist.iter().enumerate().take(REC - 3) {
                r[3 + k].store(*h as u64, Relaxed);
            }
        }
    }
    fn full(&self) -> bool {
        self.bad[0].load(SeqCst) > 20
    }
    fn take(&self, out: &mut Out) {
        const K: [&str; 6] = ["fresh", "hist", "threads", "repeat", "cycle", "from"];
        for n in 0..(self.bad[0].load(SeqCst) as usize).min(NREC) {
            let r = &self.bad[1 + n * REC..];
            let (kind, what, len) = (r[0].load(Relaxed) as usize, r[1].load(Relaxed), r[2].load(Relaxed) as usize);
            let h: Vec<usize> = (0..len).map(|k| r[3 + k].load(Relaxed) as usize).collect();
            let w = match what {
                0 => "the last answer differs from that of a pristine process".to_string(),
                s => End::Signal((s - 1) as i32).text().unwrap(),
            };
            let (args, text) = match kind {
                3..=5 => (h.iter().map(|x| *x as f64).collect(), format!("{h:?}")),
                _ => (h.iter().flat_map(|i| self.calls[*i]).collect::<Vec<f64>>(), h.iter().map(|i| show(&self.calls[*i])).collect::<Vec<_>>().join("; ")),
            };
            out.fails.push((K[kind], args, format!("{text}: {w}")));
        }
    }
    fn ended(&self, e: End, kind: u64, hist: &[usize]) {
        match e {
            End::Exit(0) => {}
            End::Signal(s) => self.record(kind, 1 + s as u64, hist),
            End::Exit(_) => self.record(kind, 0, hist),
        }
    }
}
fn case_hist(l: &mut L, kind: &'static str, calls: &[Call]) {
    let mut out = Out::default();
    let t = Tab::new(calls.to_vec(), &mut out);
    let n = calls.len();
    match kind {
        "fresh" => {}
        "hist" => {
            let e = in_fork(SECS, || (0..n).any(|i| !t.ok(i)) as i32);
            t.ended(e, 1, &(0..n).collect::<Vec<_>>());
        }
        _ => {
            let e = in_fork(SECS, || (0..n).any(|i| !std::thread::scope(|s| s.spawn(|| t.ok(i)).join().unwrap_or(false))) as i32);
            t.ended(e, 2, &(0..n).collect::<Vec<_>>());
        }
    }
    t.take(&mut out);
    push(l, out);
}
fn push(l: &mut L, out: Out) {
    for (k, a, w) in out.fails {
        l.fails.push((l.job, Fail { kind: k, args: a, what: w }));
    }
}
fn repeat(t: &Tab, i: usize, n: usize, out: &mut Out) {
    let e = in_fork(SECS + 40, || (0..n).any(|_| !t.ok(i)) as i32);
    out.calls += n as u64;
    t.ended(e, 3, &[i, n]);
}
fn cycle(t: &Tab, rounds: usize, dir: usize, out: &mut Out) {
    let n = t.calls.len();
    let e = in_fork(300, || {
        for r in 0..rounds {
            for k in 0..n {
                // forwards, backwards, in a stride that jumps between functions, alternating
                let i = match (dir, r % 2) {
                    (0, _) | (2, 0) => k,
                    (1, _) | (2, 1) => n - 1 - k,
                    _ => (k * 37 + r) % n,
                };
                if !t.ok(i) {
                    return 1;
                }
            }
        }
        0
    });
    out.calls += (n * rounds) as u64;
    t.ended(e, 4, &[rounds, dir]);
}
/// Every ordered triple of the smallest alphabet as a window of one history.
fn windows(t: &Tab, out: &mut Out) {
    let s: Vec<usize> = small(1).iter().map(|c| t.at(c)).collect();
    let e = in_fork(300, || {
        for &a in &s {
            for &b in &s {
                for &d in &s {
                    if !(t.ok(a) && t.ok(b) && t.ok(d)) {
                        return 1;
                    }
                }
            }
        }
        0
    });
    t.ended(e, 4, &[0, 9]);
    let q = (s.len() * s.len() * s.len() * 3) as u64;
    out.calls += q;
    out.trans += q;
    out.traces += 1;
}
fn c25(l: &mut L, kind: &'static str, a: &[f64]) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = Out::default();
    match kind {
        "repeat" | "cycle" | "from" => {
            let t = Tab::new(large(), &mut out);
            if kind == "repeat" {
                repeat(&t, a[0] as usize, a[1] as usize, &mut out);
            } else if kind == "from" {
                let (m, a) = (t.calls.len(), a[0] as usize);
                let e = in_fork(SECS, || (a..a + m).any(|b| !t.ok(b % m)) as i32);
                t.ended(e, 5, &[a]);
            } else if a[1] == 9.0 {
                windows(&t, &mut out);
            } else {
                cycle(&t, a[0] as usize, a[1] as usize, &mut out);
            }
            t.take(&mut out);
            push(l, out);
        }
        _ => case_hist(l, kind, &a.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect::<Vec<Call>>()),
    }
}
fn r25(c: &Ctx, l: &mut L) {
    run_shards(c, l, WORKERS);
}
pub fn shard(i: usize, n: usize, thorough: bool) -> Out {
    let mut out = Out::default();
    let t = Tab::new(large(), &mut out);
    let m = t.calls.len();
    if !out.fails.is_empty() {
        return out;
    }
    if i == 0 {
        out.states += m as u64;
        out.count("alphabet", m as u64);
        out.count("distinct_answers", t.want.iter().collect::<std::collections::BTreeSet<_>>().len() as u64);
    }
    // ordered pairs a,b,a: all of them (thorough), or those of one function and those with a base call
    let base: Vec<bool> = {
        let s = small(1);
        t.calls.iter().map(|c| s.iter().any(|d| d == c)).collect()
    };
    let wanted = |a: usize, b: usize| thorough || t.calls[a][0] == t.calls[b][0] || base[a] || base[b];
    for a in (i..m).step_by(n) {
        let e = in_fork(600, || {
            if !t.ok(a) {
                t.record(1, 0, &[a]);
                return 0;
            }
            for b in 0..m {
                if !wanted(a, b) {
                    continue;
                }
                let e = in_fork(SECS, || {
                    if !t.ok(b) {
                        t.record(1, 0, &[a, b]);
                    } else if !t.ok(a) {
                        t.record(1, 0, &[a, b, a]);
                    }
                    0
                });
                t.ended(e, 1, &[a, b, a]);
                if t.full() {
                    break;
                }
            }
            0
        });
        t.ended(e, 1, &[a]);
        let p = (0..m).filter(|b| wanted(a, *b)).count() as u64;
        out.states += 2 * p + 1;
        out.trans += 2 * p + 1;
        out.traces += p;
        out.calls += 2 * p + 1;
        out.count("pairs", p);
        // a, then the whole alphabet in one process
        let e = in_fork(SECS, || (a..a + m).any(|b| !t.ok(b % m)) as i32);
        t.ended(e, 5, &[a]);
        out.states += 1;
        out.trans += m as u64;
        out.traces += 1;
        out.calls += m as u64;
    }
    // all ordered triples of the small alphabet; thorough: also of the calls of each function
    let sm: Vec<usize> = small(if thorough { 4 } else { 1 }).iter().map(|c| t.at(c)).collect();
    let mut sets = vec![sm];
    if thorough {
        for f in 0..NFUN {
            sets.push((0..m).filter(|k| t.calls[*k][0] as usize == f).collect());
        }
    }
    let mut k = 0;
    for set in &sets {
        for &a in set {
            k += 1;
            if k % n != i || t.full() {
                continue;
            }
            let e = in_fork(900, || {
                let ok = t.ok(a);
                for &b in set {
                    let e = in_fork(200, || {
                        if !ok || !t.ok(b) {
                            t.record(1, 0, &[a, b]);
                            return 0;
                        }
                        for &d in set {
                            let e = in_fork(SECS, || !t.ok(d) as i32);
                            t.ended(e, 1, &[a, b, d]);
                        }
                        0
                    });
                    t.ended(e, 1, &[a, b]);
                    if t.full() {
                        break;
                    }
                }
                0
            });
            t.ended(e, 1, &[a]);
            let s = set.len() as u64;
            out.states += 1 + s + s * s;
            out.trans += 1 + s + s * s;
            out.traces += s * s;
            out.calls += 1 + s + s * s;
            out.count("triples", s * s);
        }
    }
    // each call on a thread of its own
    let sm: Vec<usize> = small(if thorough { 4 } else { 2 }).iter().map(|c| t.at(c)).collect();
    for &a in sm.iter().skip(i).step_by(n) {
        if t.full() {
            break;
        }
        for &b in &sm {
            let e = in_fork(SECS, || {
                [a, b, a].iter().any(|&x| !std::thread::scope(|s| s.spawn(|| t.ok(x)).join().unwrap_or(false))) as i32
            });
            t.ended(e, 2, &[a, b, a]);
            out.calls += 3;
            out.states += 3;
            out.trans += 3;
            out.traces += 1;
            out.count("thread_histories", 1);
        }
    }
    // repetition and cycles
    for a in (i..m).step_by(n) {
        if t.full() {
            break;
        }
        // a base call of each function beyond 2^16 repetitions
        let reps = if thorough || base[a] { 70000 } else { 1100 };
        repeat(&t, a, reps, &mut out);
        out.states += 1;
        out.trans += reps as u64;
        out.traces += 1;
    }
    if i < 4 {
        let rounds = if thorough { 400 } else { 60 };
        cycle(&t, rounds, i, &mut out);
        out.states += 1;
        out.trans += (rounds * m) as u64;
        out.traces += 1;
    } else if i == 4 {
        windows(&t, &mut out);
    }
    out.samples.push(format!("{}; {}; {}", show(&t.calls[i * 7 % m]), show(&t.calls[i * 31 % m]), show(&t.calls[i * 7 % m])));
    t.take(&mut out);
    out
}
