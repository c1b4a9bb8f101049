//! P26: concurrent calls do not influence each other, under every schedule of two threads.
use crate::calls::*;
use crate::eng::*;
use crate::forks::*;
use crate::Check;
use std::os::unix::ffi::OsStrExt;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "P26",
        kinds: &["sched", "send"],
        case: c26,
        run: r26,
        space: "two OS threads, each running one call, under a controlled scheduler in which every access to non-stack, non-thread-local writable memory (statics and heap of the library, trapped by page protection and single-stepped) is a scheduling point: all schedules with at most one preemption (thorough: two, one in each thread) of pairs of calls, from a cold process and after either or both calls were made before. Calls that touch no such memory commute with everything and need one schedule. Also all pairs of shared-reference operations on each cache",
    }]
}
extern "C" {
    fn sch_load(path: *const u8) -> i64;
    fn sch_exec(warm: *const f64, nwarm: i32, a: *const f64, b: *const f64, sched: *const i64, ns: i32, oa: *mut u64, ob: *mut u64, ow: *mut u64, sh: i32, foot: *mut u64, mf: i64, info: *mut u64) -> i32;
}
const SECS: u32 = 30;
const MF: usize = 20000;
/// Memory shared with the forked executions.
struct Mem {
    a: &'static mut [Bits],    // 0: of thread a, 1: of thread b, 2..: of the calls before
    info: &'static mut [u64],  // points a, points b, switches, spins, hash
    foot: &'static mut [u64],
}
#[derive(Clone, Debug)]
struct Run {
    a: Bits,
    b: Bits,
    warm: Vec<Bits>,
    points: [u64; 2],
    switches: u64,
    spins: u64,
    hash: u64,
    end: End,
}
fn load() -> i64 {
    let p = std::env::current_exe().unwrap().with_file_name("libpvso.so");
    let mut v = p.as_os_str().as_bytes().to_vec();
    v.push(0);
    unsafe { sch_load(v.as_ptr()) }
}
impl Mem {
    fn new() -> Mem {
        Mem { a: shared(8), info: shared(8), foot: shared(2 * MF) }
    }
    fn exec(&mut self, warm: &[Call], a: &Call, b: &Call, sched: &[(i64, i64)]) -> Run {
        let w: Vec<f64> = warm.iter().flatten().copied().collect();
        let s: Vec<i64> = sched.iter().flat_map(|p| [p.0, p.1]).collect();
        self.a.fill([0xdead; 4]);
        self.info.fill(0);
        let sh = a[0] >= 100.0 && a[0] < 200.0 || b[0] >= 100.0 && b[0] < 200.0;
        let (pa, pi, pf) = (self.a.as_mut_ptr() as *mut u64, self.info.as_mut_ptr(), self.foot.as_mut_ptr());
        let end = in_fork(SECS, || unsafe {
            sch_exec(w.as_ptr(), warm.len() as i32, a.as_ptr(), b.as_ptr(), s.as_ptr(), sched.len() as i32, pa, pa.add(4), pa.add(8), sh as i32, pf, MF as i64, pi)
        });
        Run {
            a: self.a[0],
            b: self.a[1],
            warm: self.a[2..2 + warm.len()].to_vec(),
            points: [self.info[0], self.info[1]],
            switches: self.info[2],
            spins: self.info[3],
            hash: self.info[4],
            end,
        }
    }
    /// Does thread a share memory that it or thread b writes?
    fn conflict(&self, r: &Run) -> u64 {
        let n = |k: usize| (r.points[k] as usize).min(MF);
        let (fa, fb) = (&self.foot[..n(0)], &self.foot[MF..MF + n(1)]);
        let mut m = std::collections::BTreeMap::new();
        for x in fa {
            *m.entry(x >> 1).or_insert(0) |= x & 1;
        }
        fb.iter().filter(|x| m.get(&(*x >> 1)).is_some_and(|w| w | (*x & 1) == 1)).count() as u64
    }
}
fn show2(c: &Call) -> String {
    match c[0] as usize {
        200 => "torn memo".into(),
        201 => "locked memo".into(),
        n if n >= 100 => format!("{}.{}({:e},{:e}) by shared reference", ["CachedBesselJY", "CachedBesselIK", "CachedJnuYnu", "CachedInuKnu"][(n - 100) / 10], ["get", "contains/len/is_empty", "clone().get", "eq"][n % 10], c[1], c[2]),
        _ => show(c),
    }
}
/// The pristine answer: alone in a process, nothing before.
fn alone(m: &mut Mem, c: &Call) -> Run {
    // the other thread runs the identity on a memo of its own
    m.exec(&[], c, &IDLE, &[])
}
const IDLE: Call = [26.0, 1.0, 1.0, 0.0]; // sign(1,1)
fn args(warm: &[Call], a: &Call, b: &Call, s: &[(i64, i64)]) -> Vec<f64> {
    let mut v = vec![warm.len() as f64];
    v.extend(warm.iter().flatten());
    v.extend(a);
    v.extend(b);
    v.extend(s.iter().flat_map(|p| [p.0 as f64, p.1 as f64]));
    v
}
fn verdict(r: &Run, wa: &Bits, wb: &Bits, ww: &[Bits]) -> Option<String> {
    if r.end == End::Exit(70) {
        return Some("the threads wait for each other for ever".into());
    }
    if let Some(t) = r.end.text() {
        return Some(t);
    }
    let f = |b: &Bits| format!("{:?}", b.map(f64::from_bits));
    if r.a != *wa {
        return Some(format!("thread A gets {} instead of {}", f(&r.a), f(wa)));
    }
    if r.b != *wb {
        return Some(format!("thread B gets {} instead of {}", f(&r.b), f(wb)));
    }
    if r.warm != ww {
        return Some("a call before differs".into());
    }
    None
}
fn c26(l: &mut L, kind: &'static str, v: &[f64]) {
    if kind == "send" {
        send(l);
        return;
    }
    if load() < 0 {
        std::process::exit(2);
    }
    let mut m = Mem::new();
    let c = |k: usize| [v[k], v[k + 1], v[k + 2], v[k + 3]];
    let nw = v[0] as usize;
    let warm: Vec<Call> = (0..nw).map(|i| c(1 + 4 * i)).collect();
    let (a, b) = (c(1 + 4 * nw), c(5 + 4 * nw));
    let s: Vec<(i64, i64)> = v[9 + 4 * nw..].chunks(2).map(|p| (p[0] as i64, p[1] as i64)).collect();
    let (wa, wb) = (alone(&mut m, &a).a, alone(&mut m, &b).a);
    let ww: Vec<Bits> = warm.iter().map(|w| alone(&mut m, w).a).collect();
    let r = m.exec(&warm, &a, &b, &s);
    if let Some(w) = verdict(&r, &wa, &wb, &ww) {
        l.fails.push((l.job, Fail { kind, args: v.to_vec(), what: w }));
    }
}
// Are the caches Send and Sync? Decided at run time, so that a change shows as a violation.
trait No {
    const IT: bool = false;
}
impl<T: ?Sized> No for T {}
struct IsSend<T: ?Sized>(std::marker::PhantomData<T>);
struct IsSync<T: ?Sized>(std::marker::PhantomData<T>);
#[allow(dead_code)]
impl<T: ?Sized + Send> IsSend<T> {
    const IT: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Sync> IsSync<T> {
    const IT: bool = true;
}
fn send(l: &mut L) {
    let v = [
        (<IsSend<puruspe::CachedBesselJY>>::IT, <IsSync<puruspe::CachedBesselJY>>::IT),
        (<IsSend<puruspe::CachedBesselIK>>::IT, <IsSync<puruspe::CachedBesselIK>>::IT),
        (<IsSend<puruspe::CachedJnuYnu>>::IT, <IsSync<puruspe::CachedJnuYnu>>::IT),
        (<IsSend<puruspe::CachedInuKnu>>::IT, <IsSync<puruspe::CachedInuKnu>>::IT),
    ];
    for (i, x) in v.iter().enumerate() {
        if !(x.0 && x.1) {
            l.fails.push((l.job, Fail { kind: "send", args: vec![i as f64], what: "a cache cannot be sent to or shared with another thread".into() }));
        }
    }
}
fn r26(c: &Ctx, l: &mut L) {
    send(l);
    run_shards(c, l, WORKERS);
}
/// Explore all schedules of a pair; returns the number of schedules.
struct Ex<'a> {
    m: &'a mut Mem,
    out: &'a mut Out,
    thorough: bool,
    outcomes: std::collections::BTreeSet<u64>,
}
impl Ex<'_> {
    fn one(&mut self, warm: &[Call], a: &Call, b: &Call, w: (&Bits, &Bits, &[Bits]), s: &[(i64, i64)]) -> Option<Run> {
        let r = self.m.exec(warm, a, b, s);
        self.out.traces += 1;
        self.out.calls += 2 + warm.len() as u64;
        self.out.trans += r.points[0] + r.points[1] + r.switches;
        self.out.count("schedules", 1);
        self.out.count("preemptions", r.switches);
        self.out.count("switches_forced_by_waiting", r.spins);
        if self.outcomes.insert(r.hash) {
            self.out.states += 1;
        }
        if let Some(t) = verdict(&r, w.0, w.1, w.2) {
            // a schedule has to fail again to be believed
            let q = self.m.exec(warm, a, b, s);
            if verdict(&q, w.0, w.1, w.2).is_some() {
                let before = if warm.is_empty() { String::new() } else { format!("after {}: ", warm.iter().map(show2).collect::<Vec<_>>().join(", ")) };
                self.out.fails.push(("sched", args(warm, a, b, s), format!("{before}A={} B={} schedule {s:?}: {t}", show2(a), show2(b))));
            } else {
                self.out.count("failures_not_reproduced", 1);
            }
            return None;
        }
        Some(r)
    }
    fn pair(&mut self, a: &Call, b: &Call, wa: &Bits, wb: &Bits, warm: bool, two: bool) {
        let mut pre: Vec<Vec<Call>> = if warm { vec![vec![], vec![*a], vec![*b], vec![*a, *b]] } else { vec![vec![]] };
        // a third call of the function before
        let base = small(1).into_iter().find(|c| c[0] == a[0] && c[0] < 32.0);
        if let (true, Some(c)) = (warm, base.filter(|c| a[0] == b[0] && c != a && c != b)) {
            pre.push(vec![c]);
        }
        for w in pre {
            let ww: Vec<Bits> = w.iter().map(|c| if c == a { *wa } else if c == b { *wb } else { alone(self.m, c).a }).collect();
            let wants = (wa, wb, &ww[..]);
            // A to the end, then B
            let Some(r) = self.one(&w, a, b, wants, &[(0, i64::MAX), (1, i64::MAX)]) else { return };
            if r.points[0] == 0 || r.points[1] == 0 || self.m.conflict(&r) == 0 && !self.thorough {
                // no common memory in one order: try the other, and stop there
                let Some(r) = self.one(&w, a, b, wants, &[(1, i64::MAX), (0, i64::MAX)]) else { return };
                if self.m.conflict(&r) == 0 {
                    self.out.count("pairs_that_commute", 1);
                    continue;
                }
            }
            self.out.count("pairs_explored", 1);
            // one preemption, at every access of A
            let mut i = 0i64;
            loop {
                let Some(r) = self.one(&w, a, b, wants, &[(0, i), (1, i64::MAX), (0, i64::MAX)]) else { return };
                i += 1;
                if i as u64 > r.points[0] {
                    break;
                }
            }
            if two {
                // two preemptions: A to i, B to j, A to the end, B to the end
                let na = i;
                for i in 0..na {
                    let mut j = 1i64;
                    loop {
                        let Some(r) = self.one(&w, a, b, wants, &[(0, i), (1, j), (0, i64::MAX), (1, i64::MAX)]) else { return };
                        j += 1;
                        if j as u64 > r.points[1] {
                            break;
                        }
                    }
                }
            }
        }
    }
}
pub fn shard(i: usize, n: usize, thorough: bool) -> Option<Out> {
    let stat = load();
    if stat < 0 {
        eprintln!("libpvso.so does not load");
        return None;
    }
    let mut out = Out::default();
    let mut m = Mem::new();
    // The explorer must find the race in the torn memo and none in the locked one.
    {
        let mut t = Out::default();
        let mut e = Ex { m: &mut m, out: &mut t, thorough, outcomes: Default::default() };
        let b = |x: f64| [(x * x).to_bits(), 0, 0, 0];
        e.pair(&[201.0, 3.0, 0.0, 0.0], &[201.0, 5.0, 0.0, 0.0], &b(3.0), &b(5.0), false, false);
        let (quiet, n1) = (t.fails.is_empty(), t.traces);
        let mut e = Ex { m: &mut m, out: &mut t, thorough, outcomes: Default::default() };
        e.pair(&[200.0, 3.0, 0.0, 0.0], &[200.0, 3.0, 0.0, 0.0], &b(3.0), &b(3.0), false, false);
        let same = t.fails.len();
        let mut e = Ex { m: &mut m, out: &mut t, thorough, outcomes: Default::default() };
        e.pair(&[200.0, 3.0, 0.0, 0.0], &[200.0, 5.0, 0.0, 0.0], &b(3.0), &b(5.0), true, false);
        if !quiet || n1 < 5 || same == 0 || t.fails.len() < 2 {
            for f in &t.fails {
                eprintln!("{}", f.2);
            }
            eprintln!("self-test of the scheduler failed: quiet {quiet}, schedules {n1}, found {same} and {}", t.fails.len());
            return None;
        }
        if i == 0 {
            out.count("selftest_schedules", t.traces);
        }
    }
    // Which calls touch shared memory at all?
    let mut calls = large();
    calls.retain(|c| eval_ok(c));
    let runs: Vec<Run> = calls.iter().map(|c| alone(&mut m, c)).collect();
    for (c, r) in calls.iter().zip(&runs) {
        if let Some(t) = r.end.text() {
            out.fails.push(("sched", args(&[], c, &IDLE, &[]), format!("{}: {t}", show(c))));
        }
    }
    if !out.fails.is_empty() {
        return Some(out);
    }
    let touching: Vec<usize> = (0..calls.len()).filter(|k| runs[*k].points[0] > 0).collect();
    if i == 0 {
        out.states += calls.len() as u64;
        out.traces += calls.len() as u64;
        out.count("bytes_of_static_memory_under_control", stat as u64);
        out.count("calls_profiled", calls.len() as u64);
        out.count("calls_that_touch_shared_memory", touching.len() as u64);
        out.count("accesses_of_those_calls", touching.iter().map(|k| runs[*k].points[0]).sum());
    }
    let first = |f: f64, k: usize| calls.iter().take(k).filter(|c| c[0] == f).count();
    let mut pairs = vec![];
    for &a in &touching {
        for &b in &touching {
            let (ca, cb) = (&calls[a], &calls[b]);
            let (ra, rb) = (first(ca[0], a), first(cb[0], b));
            let lim = if thorough { 8 } else { 2 };
            if ca[0] == cb[0] && (thorough || ca[0] < 32.0 || ra.max(rb) < 4) || ra < lim && rb < lim {
                pairs.push((a, b, ra < 2 && rb < 2));
            }
        }
    }
    // one pair of each function even if nothing is touched, to show that they commute
    for a in 0..calls.len() {
        if first(calls[a][0], a) == 0 && !touching.contains(&a) {
            pairs.push((a, a, false));
        }
    }
    let mut e = Ex { m: &mut m, out: &mut out, thorough, outcomes: Default::default() };
    for (k, (a, b, base)) in pairs.iter().enumerate() {
        if k % n != i || e.out.fails.len() > 20 {
            continue;
        }
        let n0 = e.out.traces;
        let t = std::time::Instant::now();
        e.pair(&calls[*a], &calls[*b], &runs[*a].a, &runs[*b].a, true, thorough && *base);
        if std::env::var("PV_TRACE").is_ok() {
            eprintln!("{}/{} A={} B={} points {} {}: {} schedules {:.2} s", k, pairs.len(), show(&calls[*a]), show(&calls[*b]), runs[*a].points[0], runs[*b].points[0], e.out.traces - n0, t.elapsed().as_secs_f64());
        }
    }
    // shared-reference operations on shared caches
    let keys = [(0.5, 1.5), (1.5, 0.5), (2.5, 4.0), (9.0, 9.0)];
    let mut k = 0;
    for cache in 0..4 {
        let ops: Vec<Call> = (0..4).flat_map(|o| keys.iter().map(move |q| [100.0 + 10.0 * cache as f64 + o as f64, q.0, q.1, 0.0])).collect();
        for a in &ops {
            for b in &ops {
                if !thorough && (a[1] != 0.5 && b[1] != 0.5) {
                    continue;
                }
                k += 1;
                if k % n != i || e.out.fails.len() > 20 {
                    continue;
                }
                let (wa, wb) = (expect(a, &runs, &calls), expect(b, &runs, &calls));
                e.pair(a, b, &wa, &wb, false, thorough && a[1] == 0.5 && b[1] == 0.5);
            }
        }
    }
    for s in pairs.iter().skip(i).step_by(97).take(2) {
        out.samples.push(format!("A={} B={}", show(&calls[s.0]), show(&calls[s.1])));
    }
    Some(out)
}
/// Calls that panic are left to P25: unwinding takes locks the scheduler does not control.
fn eval_ok(c: &Call) -> bool {
    !matches!(c[0] as usize, 2 | 3 | 4 | 5 | 6 | 19..=22 | 32..=35) || in_fork(SECS, || (eval(c) == PANIC) as i32) == End::Exit(0)
}
/// What a shared-reference operation must answer.
fn expect(c: &Call, runs: &[Run], calls: &[Call]) -> Bits {
    let hit = c[1] != 9.0;
    let value = || {
        let f = 32.0 + ((c[0] - 100.0) / 10.0).floor();
        let k = calls.iter().position(|d| d[0] == f && d[1] == c[1] && d[2] == c[2]);
        k.map(|k| runs[k].a).unwrap_or_else(|| eval(&[f, c[1], c[2], 0.0]))
    };
    match c[0] as usize % 10 {
        1 => [hit as u64, 3, 0, 0],
        3 => [1, 0, 0, 0],
        _ if hit => value(),
        _ => [7; 4],
    }
}
