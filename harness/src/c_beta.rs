//! P06 beta, P07 regularised incomplete beta accuracy, P08 its structure, P09 its inverse.
use crate::c_gamma::{outside, probs};
use crate::eng::*;
use crate::refm::{self, R};
use crate::Check;
use puruspe::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P06", kinds: &["beta"], case: c06, run: r06, space: "beta(a,b): all pairs of a lattice of positive doubles (dyadic over 1e-300..1e12, tenths, halves, integers, ulp neighbourhoods), both argument orders; and every point of a rank-1 lattice of the arguments" },
        Check { id: "P07", kinds: &["ix"], case: c07, run: r07, space: "I_x(a,b): all pairs of a lattice of shapes and, for each pair, x on uniform, dyadic (both ends), and standardised ((x-mu)/sd) lattices with ulp neighbourhoods of mu, (a+1)/(a+b+2) and the mode; and every point of a rank-1 lattice of the arguments" },
        Check { id: "P08", kinds: &["edge", "refl", "rec", "pt"], case: c08, run: r08, space: "every edge x -> next x, a -> next a, b -> next b of an (a,b,x) lattice, the reflections (a,b,x) -> (b,a,1-x), the step a -> a+1, and the end points; and every point of a rank-1 lattice of the arguments" },
        Check { id: "P09", kinds: &["inv"], case: c09, run: r09, space: "invbetai(p,a,b): all triples of a lattice of shapes and a lattice of probabilities (uniform, decades in both tails, beyond the end points); and every point of a rank-1 lattice of the arguments" },
    ]
}
// ---------------------------------------------------------------- P06
fn c06(l: &mut L, kind: &'static str, v: &[f64]) {
    let (a, b) = (v[0], v[1]);
    l.begin(kind, v);
    let Some(g) = l.val("beta", || beta(a, b)) else { return };
    let Some(h) = l.val("beta", || beta(b, a)) else { return };
    let w = refm::beta(a, b);
    let m = a.max(b);
    let tol = if m <= 100.0 { 2e-10 } else { 6e-10 + 1e-14 * m * (1.0 + m.ln()) };
    let key = if m <= 100.0 { "max(a,b) <= 100" } else if m <= 1e4 { "max(a,b) <= 1e4" } else { "max(a,b) > 1e4" };
    if w.hi > 1e-290 && w.hi < 1e300 {
        l.tol(key, g, w.hi, w.err(g).abs() / w.hi, tol);
        l.tol("symmetry", h, g, (h - g).abs() / g, 2.0 * tol);
    } else if w.hi <= 1e-290 {
        l.tol("tiny values", g, w.hi, w.err(g).abs(), 1e-289);
    } else {
        l.skipped += 1;
    }
}
fn r06(c: &Ctx, t: &mut L) {
    let mut s = dyadic(c.pick(4, 5), -10, 14);
    s.extend(dyadic(c.pick(0, 2), -996, 40));
    s.extend(decimals(1, c.pick(600, 2000), 10.0));
    s.extend(decimals(1, c.pick(500, 2000), 2.0));
    s.extend(around(&[0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 100.0], 2));
    s.extend(approach(&[0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 100.0], 3));
    let s = tidy(s);
    t.sample(|| format!("all {} x {} pairs", s.len(), s.len()));
    c.par(t, s.len(), |l, i| {
        for (k, &b) in s.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            (c.case)(l, "beta", &[s[i], b]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(3_000_000, 30_000_000), |l, u| {
        let top = if u[3] < 0.75 { 2e4 } else { 1e12 };
        (c.case)(l, "beta", &[typed(u[2], logu(u[0], 1e-4, top)), typed(u[3], logu(u[1], 1e-4, top))]);
    });
}
// ---------------------------------------------------------------- P07
pub fn shapes(m: u32, lo: i32, extra: bool) -> Vec<f64> {
    let mut s = dyadic(m, lo, 14);
    s.extend([0.1, 0.2, 0.3, 0.7, 1.1, 2.2, 3.3, 5.0, 7.0, 10.0, 20.0, 30.0, 50.0, 99.0, 100.0, 500.0, 1000.0, 3000.0, 5000.0, 1e4]);
    if extra {
        s.extend(around(&[1.0, 3000.0], 1));
        s.extend([0.9, 0.99, 1.01, 2999.0, 3001.0, 3010.0]);
        for k in [8, 14, 20, 26, 32, 40] {
            s.extend([1.0 - p2(-k), 1.0 + p2(-k), 2.0 + p2(-k), 3000.0 + p2(-k)]);
        }
    }
    tidy(s)
}
pub fn xs_for(a: f64, b: f64, n: usize) -> Vec<f64> {
    let mu = a / (a + b);
    let sd = (a * b / ((a + b).powi(2) * (a + b + 1.0))).sqrt();
    let mut v = grid(0.0, 1.0, n);
    for k in 1..48 {
        v.push(2f64.powi(-k));
        v.push(1.0 - 2f64.powi(-k));
        v.push(1.5 * 2f64.powi(-k));
        v.push(1.0 - 1.5 * 2f64.powi(-k).min(0.5));
    }
    for k in -(n as i64) / 2..=n as i64 / 2 {
        v.push(mu + k as f64 * 24.0 / n as f64 * sd);
        v.push(mu * (1.0 + 2.0 * k as f64 / n as f64));
    }
    v.extend(around(&[mu, (a + 1.0) / (a + b + 2.0), (a - 1.0) / (a + b - 2.0), 0.5, 0.25, 0.1], 2));
    v.extend(approach(&[mu, (a + 1.0) / (a + b + 2.0), 0.5], 4));
    v.extend([1e-300, 1e-100, 1e-20, 5e-324, f64::MIN_POSITIVE]);
    v.retain(|x| *x > 0.0 && *x < 1.0);
    tidy(v)
}
fn itol(a: f64, b: f64) -> f64 {
    let m = a.max(b);
    if m <= 10.0 {
        1.5e-10
    } else if m <= 2e4 {
        4e-10
    } else {
        2e-14 * m
    }
}
fn c07(l: &mut L, kind: &'static str, v: &[f64]) {
    let (a, b, x) = (v[0], v[1], v[2]);
    l.begin(kind, v);
    let Some(g) = l.val("betai", || betai(a, b, x)) else { return };
    let (w, _) = refm::betai(a, b, x);
    let m = a.max(b);
    let key = if m <= 10.0 { "max <= 10" } else if m <= 100.0 { "max <= 100" } else if a.min(b) > 3000.0 { "both > 3000" } else { "max <= 2e4" };
    l.close(key, g, w, itol(a, b));
    // the lower tail keeps its relative accuracy
    if m <= 2e4 && x <= 0.9 * (a + 1.0) / (a + b + 2.0) && w.hi > if a.min(b) > 3000.0 { 1e-20 } else { 1e-250 } {
        l.tol(if m <= 100.0 { "relative, lower tail, max <= 100" } else if a.min(b) > 3000.0 { "relative, lower tail, both > 3000" } else { "relative, lower tail, max <= 2e4" }, g, w.hi, w.err(g).abs() / w.hi, 6e-10);
    }
}
fn r07(c: &Ctx, t: &mut L) {
    let s = shapes(c.pick(2, 3), -10, true);
    let n = c.pick(160, 700);
    t.sample(|| format!("{} pairs of shapes, about {} x each", s.len() * s.len(), xs_for(2.0, 3.0, n).len()));
    c.par(t, s.len() * s.len(), |l, i| {
        let (a, b) = (s[i / s.len()], s[i % s.len()]);
        for (k, &x) in xs_for(a, b, n).iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            (c.case)(l, "ix", &[a, b, x]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(8_000_000, 60_000_000), |l, u| {
        let [a, b, x] = generic(u);
        (c.case)(l, "ix", &[a, b, x]);
    });
}
/// A point of a rank-1 lattice as shapes and argument: standardised around the mean, or anywhere
fn generic(u: [f64; 4]) -> [f64; 3] {
    let f = (u[3] * 64.0).fract();
    let (a, b) = (typed(f, logu(u[0], 2e-3, 1.6e4)), typed((f * 16.0).fract(), logu(u[1], 2e-3, 1.6e4)));
    let mu = a / (a + b);
    let sd = (a * b / ((a + b).powi(2) * (a + b + 1.0))).sqrt();
    let x = if u[3] < 0.6 { mu + (u[2] - 0.5) * 20.0 * sd } else { u[2] };
    [a, b, if x > 0.0 && x < 1.0 { x } else { u[2].max(1e-9) }]
}
// ---------------------------------------------------------------- P08
fn c08(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let mut bi = |a: f64, b: f64, x: f64| l.val("betai", || betai(a, b, x)).unwrap_or(f64::NAN);
    match kind {
        "edge" => {
            let (p, q) = (bi(v[0], v[1], v[2]), bi(v[3], v[4], v[5]));
            edge(l, p, q);
        }
        "refl" => {
            let (p, q) = (bi(v[0], v[1], v[2]), bi(v[1], v[0], 1.0 - v[2]));
            l.tol("reflection", p + q, 1.0, (p + q - 1.0).abs(), 1e-9);
        }
        "rec" => {
            let (p, q) = (bi(v[0], v[1], v[2]), bi(v[0] + 1.0, v[1], v[2]));
            rec(l, v[0], v[1], v[2], p, q);
        }
        _ => {
            let (p, q) = (bi(v[0], v[1], 0.0), bi(v[0], v[1], 1.0));
            l.tol("I_0 = 0", p, 0.0, p.abs(), 1e-15);
            l.tol("I_1 = 1", q, 1.0, (q - 1.0).abs(), 1e-15);
        }
    }
}
/// I does not decrease from the first to the second point.
fn edge(l: &mut L, p: f64, q: f64) {
    l.tol("within [0,1]", q, 0.5, (q - 0.5).abs() - 0.5, 1e-9);
    l.tol("monotone", q, p, p - q, 1e-9);
}
fn rec(l: &mut L, a: f64, b: f64, x: f64, p: f64, q: f64) {
    // I(a,b) - I(a+1,b) = x^a (1-x)^b / (a B(a,b))
    let d = (a * x.ln() + b * (-x).ln_1p() - (refm::lgamma(a + 1.0).hi + refm::lgamma(b).hi - refm::lgamma(a + b).hi)).exp();
    l.tol("I(a,b)-I(a+1,b)", p - q, d, (p - q - d).abs(), 1e-9);
}
fn r08(c: &Ctx, t: &mut L) {
    let s: Vec<f64> = shapes(c.pick(2, 3), -8, true).into_iter().filter(|a| *a < 1.3e4).collect();
    let n = c.pick(200, 1000);
    t.sample(|| format!("{} pairs of shapes; x, a and b edges, reflections, recurrences", s.len() * s.len()));
    c.par(t, s.len() * s.len(), |l, i| {
        let (a, b) = (s[i / s.len()], s[i % s.len()]);
        (c.case)(l, "pt", &[a, b]);
        let mut prev: Option<(f64, f64)> = None;
        for &x in &xs_for(a, b, n) {
            l.states += 1;
            let x0 = prev.map_or(x, |p| p.0);
            l.begin("edge", &[a, b, x0, a, b, x]);
            let Some(p) = l.val("betai", || betai(a, b, x)) else { continue };
            edge(l, prev.map_or(p, |q| q.1), p);
            l.trans += prev.is_some() as u64;
            prev = Some((x, p));
            let y = 1.0 - x;
            if 1.0 - y == x && y < 1.0 {
                l.begin("refl", &[a, b, x]);
                l.trans += 1;
                if let Some(q) = l.val("betai", || betai(b, a, y)) {
                    l.tol("reflection", p + q, 1.0, (p + q - 1.0).abs(), 1e-9);
                }
            }
            l.begin("rec", &[a, b, x]);
            l.trans += 1;
            if let Some(q) = l.val("betai", || betai(a + 1.0, b, x)) {
                rec(l, a, b, x, p, q);
            }
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(4_000_000, 40_000_000), |l, u| {
        let [a, b, x] = generic(u);
        if a >= 1.2e4 || b >= 1.2e4 {
            return;
        }
        let step = 1.0 + 0.01 * u[0] * u[0];
        l.trans += 5;
        (c.case)(l, "rec", &[a, b, x]);
        (c.case)(l, "edge", &[a, b, x, a, b, (x * step).min(1.0)]);
        (c.case)(l, "edge", &[a * step, b, x, a, b, x]);
        (c.case)(l, "edge", &[a, b, x, a, b * step, x]);
        let y = 1.0 - x;
        if 1.0 - y == x {
            (c.case)(l, "refl", &[a, b, x]);
        } else {
            (c.case)(l, "refl", &[b, a, y]);
        }
    });
    // shape edges: I decreases in a and increases in b
    let xs: Vec<f64> = xs_for(1.0, 1.0, c.pick(60, 200)).into_iter().filter(|x| *x > 1e-15).collect();
    let fine = {
        let mut v = shapes(c.pick(3, 5), -6, true);
        v.retain(|a| *a < 1.3e4);
        v
    };
    c.par(t, xs.len(), |l, i| {
        let x = xs[i];
        for &b in &s {
            let mut prev: Option<(f64, f64)> = None;
            let mut prevb: Option<(f64, f64)> = None;
            for &a in &fine {
                l.states += 1;
                l.begin("edge", &[a, b, x, prev.map_or(a, |p| p.0), b, x]);
                let Some(p) = l.val("betai", || betai(a, b, x)) else { continue };
                edge(l, p, prev.map_or(p, |q| q.1));
                l.trans += prev.is_some() as u64;
                prev = Some((a, p));
                l.begin("edge", &[b, prevb.map_or(a, |p| p.0), x, b, a, x]);
                let Some(p) = l.val("betai", || betai(b, a, x)) else { continue };
                edge(l, prevb.map_or(p, |q| q.1), p);
                l.trans += prevb.is_some() as u64;
                prevb = Some((a, p));
            }
            l.traces += 2;
        }
    });
}
// ---------------------------------------------------------------- P09
fn c09(l: &mut L, kind: &'static str, v: &[f64]) {
    let (p, a, b) = (v[0], v[1], v[2]);
    l.begin(kind, v);
    let Some(x) = l.val("invbetai", || invbetai(p, a, b)) else { return };
    if !(0.0..=1.0).contains(&x) {
        return l.fail(format!("invbetai({p:e},{a:e},{b:e}) = {x:e} is not in [0,1]"));
    }
    if p <= 0.0 || p >= 1.0 {
        let e = if p <= 0.0 { 0.0 } else { 1.0 };
        return l.check(x == e, || format!("invbetai({p:e},{a:e},{b:e}) = {x:e}, not {e}"));
    }
    let (x0, x1) = (x * (1.0 - 1e-12) - 1e-300, x * (1.0 + 1e-12) + 1e-300);
    let lo = if x0 <= 0.0 { R { hi: 0.0, lo: 0.0 } } else { refm::betai(a, b, x0).0 };
    let hi = if x1 >= 1.0 { R { hi: 1.0, lo: 0.0 } } else { refm::betai(a, b, x1).0 };
    let key = if a >= 1.0 && b >= 1.0 { "a,b >= 1" } else { "a or b < 1" };
    l.tol(key, lo.hi, p, outside(p, lo, hi), itol(a, b).max(2e-10));
    if x <= 0.9 * (a + 1.0) / (a + b + 2.0) && p > if a.min(b) > 3000.0 { 1e-20 } else { 1e-250 } {
        l.tol(if a.max(b) <= 100.0 { "lower tail, max <= 100, relative" } else if a.min(b) > 3000.0 { "lower tail, both > 3000, relative" } else { "lower tail, max > 100, relative" }, lo.hi, p, outside(p, lo, hi), 6e-10 * p);
    }
}
fn r09(c: &Ctx, t: &mut L) {
    let mut s: Vec<f64> = shapes(c.pick(1, 3), -6, true).into_iter().filter(|a| *a < 1.3e4).collect();
    s.extend(spread(0.95, 1.05, c.pick(2, 6)));
    let s = tidy(s);
    let mut ps = probs(c.pick(100, 400), 12);
    ps.extend([0.0, -0.0, -1.0, 1.0, 2.0]);
    t.sample(|| format!("{} pairs of shapes x {} probabilities", s.len() * s.len(), ps.len()));
    c.par(t, s.len() * s.len(), |l, i| {
        let (a, b) = (s[i / s.len()], s[i % s.len()]);
        for (k, &p) in ps.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            (c.case)(l, "inv", &[p, a, b]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(2_000_000, 15_000_000), |l, u| {
        let f = (u[3] * 64.0).fract();
        let (a, b) = (typed(f, logu(u[0], 0.02, 1.2e4)), typed((f * 16.0).fract(), logu(u[1], 0.02, 1.2e4)));
        (c.case)(l, "inv", &[crate::c_gamma::prob(u[2], u[3]), a, b]);
    });
}
