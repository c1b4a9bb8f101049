//! P01 gamma, P02 ln_gamma, P03 incomplete gamma accuracy, P04 incomplete gamma structure, P05 its inverse.
use crate::eng::*;
use crate::refm::{self, R};
use crate::Check;
use puruspe::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P01", kinds: &["gamma"], case: c01, run: r01, space: "gamma(z): every double with at most m significand bits (m=17 quick, 21 thorough) and exponent -6..7 of either sign, m=5 over the whole exponent range, thousandths in [-200,200], and the +-12 ulp neighbourhoods of all integers, half-integers and tenths in [-185,175], and c +- 2^-k for all integers and half-integers c; the whole a second time in a build with fused multiply-adds, where the processor has them" },
        Check { id: "P02", kinds: &["lgam"], case: c02, run: r02, space: "ln_gamma(z): every positive double with at most m significand bits (m=18 quick, 22 thorough) and exponent -8..12, m=8 over the whole exponent range, thousandths in (0,500], ulp neighbourhoods of integers and tenths, c +- 2^-k for integers and half-integers c" },
        Check { id: "P03", kinds: &["pq"], case: c03, run: r03, space: "P(a,x), Q(a,x): product of a lattice of shapes a (dyadic, halves, tenths, seam neighbourhoods, up to 1e8) and, for each a, arguments x on absolute, relative (x/a) and standardised ((x-a)/sqrt a) lattices with ulp neighbourhoods of a, a-1, a+1, a/10.., a+20(sqrt a+1); and every point of a rank-1 lattice of the arguments" },
        Check { id: "P04", kinds: &["edge", "rec", "pt"], case: c04, run: r04, space: "all edges (x -> next x at fixed a, a -> next a at fixed x, a -> a+1) of dense (a,x) lattices, with the points 0 and infinity; and every point of a rank-1 lattice of the arguments" },
        Check { id: "P05", kinds: &["inv"], case: c05, run: r05, space: "invgammp(p,a): product of a lattice of shapes (dyadic, halves, tenths) and of probabilities (uniform, decades in both tails, beyond the end points); and every point of a rank-1 lattice of the arguments" },
    ]
}
// ---------------------------------------------------------------- P01
fn c01(l: &mut L, kind: &'static str, a: &[f64]) {
    let z = a[0];
    l.begin(kind, a);
    let Some(g) = l.val("gamma", || gamma(z)) else { return };
    if z <= 0.0 && z.fract() == 0.0 {
        let ok = if z == 0.0 { g == f64::INFINITY.copysign(z) } else { g.is_nan() };
        return l.check(ok, || format!("gamma({z:e}) at a pole is {g:e}"));
    }
    let w = refm::gamma(z);
    let m = w.abs();
    if m > f64::MAX * (1.0 - 1e-14) {
        let ok = g.is_infinite() && (g > 0.0) == (w.hi > 0.0);
        if m.is_infinite() {
            l.check(ok, || format!("gamma({z:e}) = {g:e} but the true value overflows"));
        } else if !ok {
            l.tol("near overflow", g, w.hi, w.err(g).abs() / m, 1e-14);
        }
    } else if m < 1e-290 {
        l.tol("tiny values", g, w.hi, w.err(g).abs(), 1e-290);
    } else {
        l.tol(if z > 0.0 { "relative, z > 0" } else { "relative, z < 0" }, g, w.hi, w.err(g).abs() / m, 1e-14);
    }
}
fn r01(c: &Ctx, t: &mut L) {
    let m = c.pick(17, 21);
    let mut p = both(dyadic(m, -6, 8));
    p.extend(both(dyadic(5, -1074, 1024)));
    p.extend(both(dyadic(c.pick(12, 15), -60, -6)));
    p.extend(decimals(-200_000, 200_000, 1000.0));
    p.extend(around(&decimals(-1850, 1750, 10.0), 12));
    p.extend(around(&decimals(-370, 350, 2.0), 40));
    p.extend(approach(&decimals(-370, 350, 2.0), 1));
    p.extend(spread(170.0, 172.0, c.pick(100_000, 2_000_000)));
    p.extend(approach(&[171.624_376_956_302_7], 1));
    p.extend(around(&[171.624_376_956_302_7], 2000));
    p.extend(spread(-180.0, -170.0, c.pick(100_000, 2_000_000)));
    let p = tidy(p);
    t.sample(|| format!("gamma walk over {} doubles from {:e} to {:e}", p.len(), p[0], p[p.len() - 1]));
    c.walk1(t, "gamma", &p);
}
// ---------------------------------------------------------------- P02
fn c02(l: &mut L, kind: &'static str, a: &[f64]) {
    let z = a[0];
    l.begin(kind, a);
    let Some(g) = l.val("ln_gamma", || ln_gamma(z)) else { return };
    let w = refm::lgamma(z);
    let key = if z < 3.0 { "z < 3" } else if z < 100.0 { "3 <= z < 100" } else { "z >= 100" };
    l.tol(key, g, w.hi, w.err(g).abs(), 4e-10 + 2e-15 * w.abs());
}
fn r02(c: &Ctx, t: &mut L) {
    let m = c.pick(18, 22);
    let mut p = dyadic(m, -8, 13);
    p.extend(dyadic(8, -996, 1014));
    p.extend(dyadic(c.pick(14, 17), 13, 44));
    p.extend(dyadic(c.pick(12, 15), -60, 80));
    p.extend(decimals(1, 500_000, 1000.0));
    p.extend(around(&decimals(1, 2000, 10.0), 12));
    p.extend(around(&decimals(1, 400, 1.0), 40));
    p.extend(approach(&decimals(0, 800, 2.0), 1).into_iter().filter(|z| *z > 0.0));
    let p = tidy(p);
    t.sample(|| format!("ln_gamma walk over {} doubles from {:e} to {:e}", p.len(), p[0], p[p.len() - 1]));
    c.walk1(t, "lgam", &p);
}
// ---------------------------------------------------------------- P03
pub fn shapes(m: u32, tenths: i64) -> Vec<f64> {
    let mut v = dyadic(m, -12, 14);
    v.extend(dyadic(1, -40, -12));
    v.extend(decimals(1, tenths, 10.0));
    v.extend(decimals(1, tenths, 2.0));
    v.extend(around(&[0.5, 1.0, 1.5, 2.0, 10.0, 50.0, 99.0, 100.0, 101.0, 200.0, 1000.0, 3000.0], 2));
    v.extend(approach(&[0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 50.0, 100.0, 1000.0], 3));
    tidy(v)
}
pub fn xs_for(a: f64, n: i64) -> Vec<f64> {
    let s = a.sqrt();
    let mut v = vec![];
    for k in -n..=n {
        let t = k as f64 / n as f64;
        v.push(a + t * 24.0 * (s + 1.0)); // standardised, past the far-tail shortcut
        v.push(a + t * 3.0 * s);
        v.push(a * (1.0 + t)); // relative
    }
    for k in 1..=30 {
        v.extend(around(&[a * k as f64 / 10.0], 2));
    }
    v.extend(around(&[a, a - 1.0, a + 1.0, a + 20.0 * (s + 1.0), 0.5 * a, 0.2 * a, 2.0 * a, a + s, a - s], 3));
    v.extend(approach(&[0.0, 1.0], 4).into_iter().map(|f| a * f));
    v.extend(approach(&[a, a + 1.0, 1.0], 4));
    v.extend(dyadic(2, -50, 20));
    v.extend(decimals(1, n, 10.0));
    v.extend(decimals(1, n, 1.0));
    v.extend([1e-300, 1e-200, 1e-100, 5e-324, 1e10, 1e100, 1e300]);
    v.retain(|x| *x > 0.0);
    tidy(v)
}
fn c03(l: &mut L, kind: &'static str, v: &[f64]) {
    let (a, x) = (v[0], v[1]);
    l.begin(kind, v);
    let (p, q) = refm::gammpq(a, x);
    let Some(gp) = l.val("gammp", || gammp(a, x)) else { return };
    let Some(gq) = l.val("gammq", || gammq(a, x)) else { return };
    let tol = if a < 10.0 {
        1e-10
    } else if a <= 2e4 {
        4e-10
    } else {
        2e-14 * a
    };
    let (kp, kq) = if a < 10.0 { ("P a<10", "Q a<10") } else if a < 100.0 { ("P a<100", "Q a<100") } else if a <= 2e4 { ("P a<=2e4", "Q a<=2e4") } else { ("P a>2e4", "Q a>2e4") };
    l.close(kp, gp, p, tol);
    l.close(kq, gq, q, tol);
    if a <= 2e4 {
        if x <= a + 1.0 && p.hi > if a < 100.0 { 1e-250 } else { 1e-20 } {
            l.tol(if a < 100.0 { "P relative, a<100" } else { "P relative, a<=2e4" }, gp, p.hi, p.err(gp).abs() / p.hi, if a < 100.0 { 6e-10 } else { 1e-9 });
        }
        if x >= a + 1.0 && q.hi > 1e-250 && (q.hi > 1e-12 || x < a + 19.9 * (a.sqrt() + 1.0)) {
            l.tol(if a < 100.0 { "Q relative, a<100" } else { "Q relative, a<=2e4" }, gq, q.hi, q.err(gq).abs() / q.hi, if a < 100.0 { 6e-10 } else { 1e-9 });
        }
    }
}
fn r03(c: &Ctx, t: &mut L) {
    let mut s = shapes(c.pick(5, 7), c.pick(1000, 4000));
    s.extend(dyadic(c.pick(2, 4), 14, 27));
    let n = c.pick(250, 900);
    t.sample(|| format!("a={:e}: x over {:?} ...", s[100], &xs_for(s[100], n)[..6]));
    c.par(t, s.len(), |l, i| {
        let a = s[i];
        for (k, &x) in xs_for(a, n).iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            (c.case)(l, "pq", &[a, x]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(2_000_000, 20_000_000), |l, u| {
        let (a, x) = generic(u);
        (c.case)(l, "pq", &[a, x]);
    });
}
/// A point of a rank-1 lattice as shape and argument: standardised around the mean, or relative to it
fn generic(u: [f64; 4]) -> (f64, f64) {
    let a = typed(u[2], logu(u[0], 1e-3, 2e4));
    let x = if u[3] < 0.7 { a + (u[1] - 0.5) * 48.0 * (a.sqrt() + 1.0) } else { a * logu(u[1], 1e-3, 20.0) };
    (a, if x > 0.0 { x } else { a * u[1] })
}
// ---------------------------------------------------------------- P04
fn c04(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    match kind {
        "edge" => {
            // (a1,x1) -> (a2,x2) with a2 <= a1 and x2 >= x1: P does not decrease, Q does not increase
            let Some(p1) = l.val("gammp", || gammp(v[0], v[1])) else { return };
            let Some(p2) = l.val("gammp", || gammp(v[2], v[3])) else { return };
            let Some(q2) = l.val("gammq", || gammq(v[2], v[3])) else { return };
            edge(l, p1, p2, q2);
        }
        "rec" => {
            let (a, x) = (v[0], v[1]);
            let Some(p1) = l.val("gammp", || gammp(a, x)) else { return };
            let Some(p2) = l.val("gammp", || gammp(a + 1.0, x)) else { return };
            rec(l, a, x, p1, p2);
        }
        _ => {
            let (a, x) = (v[0], v[1]);
            let Some(p) = l.val("gammp", || gammp(a, x)) else { return };
            let Some(q) = l.val("gammq", || gammq(a, x)) else { return };
            let e = if x == 0.0 { 0.0 } else { 1.0 };
            l.tol("P at 0 and infinity", p, e, (p - e).abs(), 1e-15);
            l.tol("Q at 0 and infinity", q, 1.0 - e, (q - 1.0 + e).abs(), 1e-15);
        }
    }
}
fn edge(l: &mut L, p1: f64, p2: f64, q2: f64) {
    l.tol("P within [0,1]", p2, 0.5, (p2 - 0.5).abs() - 0.5, 1e-9);
    l.tol("Q within [0,1]", q2, 0.5, (q2 - 0.5).abs() - 0.5, 1e-9);
    l.tol("P+Q=1", p2 + q2, 1.0, (p2 + q2 - 1.0).abs(), 2e-10);
    l.tol("P monotone", p2, p1, p1 - p2, 1e-9);
}
fn rec(l: &mut L, a: f64, x: f64, p1: f64, p2: f64) {
    // P(a,x) - P(a+1,x) = x^a e^-x / Gamma(a+1)
    let d = (a * x.ln() - x - refm::lgamma(a + 1.0).hi).exp();
    l.tol("P(a)-P(a+1)", p1 - p2, d, (p1 - p2 - d).abs(), 1e-9);
}
fn r04(c: &Ctx, t: &mut L) {
    let s: Vec<f64> = shapes(c.pick(5, 7), c.pick(800, 3000)).into_iter().filter(|a| *a <= 1e4).collect();
    let n = c.pick(600, 2500);
    t.sample(|| format!("x edges at {} shapes, a edges at fixed x", s.len()));
    c.par(t, s.len(), |l, i| {
        let a = s[i];
        let xs = xs_for(a, n);
        let mut prev: Option<(f64, f64)> = None;
        for x in [0.0, f64::INFINITY] {
            l.states += 1;
            (c.case)(l, "pt", &[a, x]);
        }
        for &x in &xs {
            l.states += 1;
            let x0 = prev.map_or(x, |q| q.0);
            l.begin("edge", &[a, x0, a, x]);
            let Some(p) = l.val("gammp", || gammp(a, x)) else { continue };
            let Some(q) = l.val("gammq", || gammq(a, x)) else { continue };
            edge(l, prev.map_or(p, |q| q.1), p, q);
            l.trans += prev.is_some() as u64;
            prev = Some((x, p));
            l.begin("rec", &[a, x]);
            if let Some(p2) = l.val("gammp", || gammp(a + 1.0, x)) {
                l.trans += 1;
                rec(l, a, x, p, p2);
            }
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(2_000_000, 20_000_000), |l, u| {
        let (a, x) = generic(u);
        l.trans += 3;
        (c.case)(l, "rec", &[a, x]);
        let step = 1.0 + 0.01 * u[3] * u[3];
        (c.case)(l, "edge", &[a, x, a, x * step]);
        (c.case)(l, "edge", &[a * step, x, a, x]);
    });
    let xs = {
        let mut v = dyadic(c.pick(4, 6), -20, 14);
        v.extend(decimals(1, c.pick(600, 4000), 4.0));
        tidy(v)
    };
    c.par(t, xs.len(), |l, i| {
        let x = xs[i];
        let mut prev: Option<(f64, f64)> = None;
        let mut al = s.clone();
        for k in -40..=40 {
            let m = x + k as f64 * 0.1 * x.sqrt();
            al.extend(around(&[m], 1).into_iter().filter(|m| *m > 1e-12 && *m <= 1.6e4));
        }
        for &a in tidy(al).iter().rev() {
            l.states += 1;
            let a0 = prev.map_or(a, |q| q.0);
            l.begin("edge", &[a0, x, a, x]);
            let Some(p) = l.val("gammp", || gammp(a, x)) else { continue };
            let Some(q) = l.val("gammq", || gammq(a, x)) else { continue };
            edge(l, prev.map_or(p, |q| q.1), p, q);
            l.trans += prev.is_some() as u64;
            prev = Some((a, p));
        }
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P05
/// How far p is outside the interval of true values over x(1 -+ 1e-14).
pub fn outside(p: f64, lo: R, hi: R) -> f64 {
    (-lo.err(p)).max(hi.err(p)).max(0.0)
}
fn c05(l: &mut L, kind: &'static str, v: &[f64]) {
    let (p, a) = (v[0], v[1]);
    l.begin(kind, v);
    let Some(x) = l.val("invgammp", || invgammp(p, a)) else { return };
    if !(x >= 0.0 && x.is_finite()) {
        return l.fail(format!("invgammp({p:e},{a:e}) = {x:e}"));
    }
    let tol = if a < 10.0 { 1e-10 } else { 4e-10 };
    let key = if a < 1.0 { "a<1" } else if a < 100.0 { "a<100" } else { "a>=100" };
    if p <= 0.0 {
        return l.check(x == 0.0, || format!("invgammp({p:e},{a:e}) = {x:e}, not 0"));
    }
    if p >= 1.0 {
        let w = 100f64.max(a + 100.0 * a.sqrt());
        return l.tol("p >= 1", x, w, (x - w).abs(), 1e-13 * w);
    }
    let (x0, x1) = (x * (1.0 - 1e-14) - 1e-300, x * (1.0 + 1e-14) + 1e-300);
    let lo = if x0 <= 0.0 { R { hi: 0.0, lo: 0.0 } } else { refm::gammpq(a, x0).0 };
    let hi = refm::gammpq(a, x1).0;
    l.tol(key, lo.hi, p, outside(p, lo, hi), tol);
    if x <= a + 1.0 && p > if a < 100.0 { 1e-250 } else { 1e-20 } {
        l.tol(if a < 100.0 { "lower tail, a<100, relative" } else { "lower tail, a>=100, relative" }, lo.hi, p, outside(p, lo, hi), 6e-10 * p);
    } else if x <= a + 1.0 && p > 1e-100 {
        // the quadrature of gammp loses relative accuracy there
        l.tol("far lower tail, a>=100, relative", lo.hi, p, outside(p, lo, hi), 2e-3 * p);
    }
}
/// A probability: uniform, or logarithmic in one of the tails
pub fn prob(u: f64, kind: f64) -> f64 {
    match (kind * 4.0) as u32 {
        0 | 1 => u.clamp(1e-15, 1.0 - 1e-15),
        2 => logu(u, 1e-20, 0.5),
        _ if u < 0.5 => logu(2.0 * u, 1e-240, 1e-10),
        _ => 1.0 - logu(2.0 * u - 1.0, 1e-15, 0.5),
    }
}
pub fn probs(n: usize, dec: i32) -> Vec<f64> {
    let mut v: Vec<f64> = (1..n).map(|i| i as f64 / n as f64).collect();
    for k in 1..=(4 * dec) {
        let q = 10f64.powf(-(k as f64) / 4.0);
        v.push(q);
        v.push(1.0 - q);
    }
    v.extend((4..=49).map(|k| 10f64.powi(-5 * k)));
    v.extend([1e-50, 1e-100, 1e-200, 1e-300, f64::MIN_POSITIVE, 5e-324, ulps(1.0, -1), ulps(1.0, -2)]);
    v.extend(around(&[0.5, 0.25, 0.75, 0.1, 0.9], 3));
    v.extend(approach(&[0.5], 3));
    v.retain(|p| *p > 0.0 && *p < 1.0);
    tidy(v)
}
fn r05(c: &Ctx, t: &mut L) {
    let mut s: Vec<f64> = shapes(c.pick(6, 8), c.pick(2000, 6000)).into_iter().filter(|a| *a >= 0.004 && *a <= 1.6e4).collect();
    s.extend(spread(0.9, 1.1, 50));
    let mut ps = probs(c.pick(1000, 5000), 15);
    ps.extend([0.0, -0.0, -1.0, 1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY]);
    t.sample(|| format!("{} shapes x {} probabilities", s.len(), ps.len()));
    c.par(t, s.len(), |l, i| {
        for (k, &p) in ps.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            (c.case)(l, "inv", &[p, s[i]]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(2_000_000, 20_000_000), |l, u| {
        let a = typed(u[2], logu(u[0], 0.004, 1.6e4));
        (c.case)(l, "inv", &[prob(u[1], u[3]), a]);
    });
}
