//! P10 erf/erfc, P11 inverse error functions, P12 erfcx, P13 Dawson's integral.
use crate::c_gamma::outside;
use crate::eng::*;
use crate::refm::{self, R};
use crate::Check;
use puruspe::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P10", kinds: &["erf", "mono"], case: c10, run: r10, space: "erf, erfc at x and -x: every double with at most m significand bits (m=18 quick, 21 thorough) and exponent -6..5, m=11 in -56..40, m=6 over the whole exponent range, thousandths in [-40,40], ulp neighbourhoods of tenths, c +- 2^-k for tenths and eighths c; every edge of the walk" },
        Check { id: "P11", kinds: &["inverf", "inverfc"], case: c11, run: r11, space: "inverfc(p) for p on dyadic lattices down to 1e-307 and up to 2, inverf(p) for p on dyadic and 1-dyadic lattices in [-1,1], thousandths and ten-thousandths, ulp neighbourhoods of and geometric approach to tenths" },
        Check { id: "P12", kinds: &["erfcx"], case: c12, run: r12, space: "erfcx(x): every double with at most m significand bits (m=19 quick, 22 thorough) and exponent -6..9 of either sign, m=12 in -56..40, m=7 over the whole exponent range, thousandths in [-40,200], ulp neighbourhoods of and geometric approach to tenths" },
        Check { id: "P13", kinds: &["dawson"], case: c13, run: r13, space: "dawson(x): every double with at most m significand bits (m=18 quick, 21 thorough) and exponent -6..6 of either sign, m=12 in -56..40, m=7 over the whole exponent range, hundredths and eighths in [-50,50] with ulp neighbourhoods" },
    ]
}
fn line(m: u32, e0: i32, e1: i32, mm: u32, dec: i64, tenths: i64, r: i64) -> Vec<f64> {
    let mut p = both(dyadic(m, e0, e1));
    p.extend(both(dyadic(mm, -1074, 1024)));
    p.extend(both(dyadic(mm + 5, -56, e0)));
    p.extend(both(dyadic(mm + 5, e1, 40)));
    p.extend(decimals(-dec, dec, 1000.0));
    p.extend(around(&decimals(-tenths, tenths, 10.0), r));
    p.extend(around(&decimals(-tenths, tenths, 8.0), r));
    p.extend(approach(&decimals(-tenths, tenths, 10.0), 2));
    p.extend(approach(&decimals(-tenths, tenths, 8.0), 2));
    p.extend(approach(&[-26.7, -6.1, 6.1, 26.7, 23.2, 150.0, 6.9e7, -23.2], 1));
    tidy(p)
}
// ---------------------------------------------------------------- P10
fn c10(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let x = v[0];
    if kind == "mono" {
        let (Some(a), Some(b)) = (l.val("erf", || erf(x)), l.val("erf", || erf(v[1]))) else { return };
        let (Some(c), Some(d)) = (l.val("erfc", || erfc(x)), l.val("erfc", || erfc(v[1]))) else { return };
        return mono(l, a, b, c, d);
    }
    one10(l, x);
}
fn mono(l: &mut L, a: f64, b: f64, c: f64, d: f64) {
    l.tol("erf monotone", b, a, a - b, 2e-15);
    l.tol("erfc monotone", d, c, (d - c) / c.max(1e-300), 1e-12);
}
fn one10(l: &mut L, x: f64) -> Option<(f64, f64)> {
    let e = l.val("erf", || erf(x))?;
    let c = l.val("erfc", || erfc(x))?;
    let (em, cm) = (l.val("erf", || erf(-x))?, l.val("erfc", || erfc(-x))?);
    let w = refm::erf(x);
    l.close("erf", e, w, 2e-15);
    let w = refm::erfc(x);
    let ax = x.abs();
    if w.hi > 1e-290 {
        let (k, t) = if x < 1.0 { ("erfc relative, x<1", 4e-15) } else if ax < 10.0 { ("erfc relative, 1<=x<10", 1e-13) } else { ("erfc relative, x>=10", 1e-12) };
        l.tol(k, c, w.hi, w.err(c).abs() / w.hi, t);
    } else {
        l.tol("erfc tiny", c, w.hi, w.err(c).abs(), 1e-290);
    }
    l.tol("erf odd", em, -e, (e + em).abs(), 1e-15);
    l.tol("erfc(x)+erfc(-x)=2", c + cm, 2.0, (c + cm - 2.0).abs(), 2e-15);
    l.tol("erf+erfc=1", e + c, 1.0, (e + c - 1.0).abs(), 2e-15);
    Some((e, c))
}
fn r10(c: &Ctx, t: &mut L) {
    let p = line(c.pick(18, 21), -6, 5, 6, 40_000, 300, 12);
    t.sample(|| format!("erf walk over {} doubles", p.len()));
    c.walk(t, &p, 2048, |l, ch| {
        let mut prev: Option<(f64, (f64, f64))> = None;
        for &x in ch {
            l.states += 1;
            l.begin("erf", &[x]);
            let Some(v) = one10(l, x) else { continue };
            if let Some((x0, (e0, c0))) = prev {
                l.trans += 1;
                l.begin("mono", &[x0, x]);
                mono(l, e0, v.0, c0, v.1);
            }
            prev = Some((x, v));
        }
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P11
fn c11(l: &mut L, kind: &'static str, v: &[f64]) {
    let p = v[0];
    l.begin(kind, v);
    if kind == "inverfc" {
        let Some(x) = l.val("inverfc", || inverfc(p)) else { return };
        if p <= 0.0 || p >= 2.0 {
            let ok = x == (if p <= 0.0 { 100.0 } else { -100.0 });
            return l.check(ok, || format!("inverfc({p:e}) = {x:e}"));
        }
        if x.is_nan() {
            return l.fail(format!("inverfc({p:e}) is NaN"));
        }
        let (lo, hi) = (refm::erfc(ulps(x, 4)), refm::erfc(ulps(x, -4)));
        let e = outside(p, lo, hi);
        if p < 1.0 {
            l.tol("inverfc, p<1, relative", p, p, e / p, 1e-14);
        } else {
            l.tol("inverfc, p>=1", p, p, e, 2e-15);
        }
    } else {
        let Some(x) = l.val("inverf", || inverf(p)) else { return };
        if p.abs() >= 1.0 {
            let ok = x == 100f64.copysign(p);
            return l.check(ok, || format!("inverf({p:e}) = {x:e}"));
        }
        if x.is_nan() {
            return l.fail(format!("inverf({p:e}) is NaN"));
        }
        let (lo, hi): (R, R) = (refm::erf(ulps(x, -4)), refm::erf(ulps(x, 4)));
        l.tol("inverf", p, p, outside(p, lo, hi), 2e-15);
    }
}
fn r11(c: &Ctx, t: &mut L) {
    let m = c.pick(16, 19);
    let mut p = dyadic(m, -40, 1);
    p.extend(dyadic(c.pick(9, 12), -1020, -40));
    p.extend(decimals(1, 19_999, 10_000.0));
    p.extend(around(&decimals(1, 199, 100.0), 6));
    p.extend(approach(&decimals(1, 199, 100.0), 1).into_iter().filter(|p| *p > 0.0));
    p.extend(dyadic(c.pick(9, 12), -52, 1).into_iter().map(|q| 2.0 - q));
    p.extend([0.0, -0.0, 2.0, -1.0, 3.0]);
    let p = tidy(p);
    c.walk1(t, "inverfc", &p);
    let mut q = both(dyadic(m, -30, 0));
    q.extend(both(dyadic(c.pick(4, 8), -1074, -30)));
    q.extend(both(dyadic(c.pick(10, 13), -53, 0).into_iter().map(|q| 1.0 - q).collect()));
    q.extend(decimals(-10_000, 10_000, 10_000.0));
    q.extend(around(&decimals(-99, 99, 100.0), 6));
    q.extend(approach(&decimals(-99, 99, 100.0), 1));
    q.extend([2.0, -2.0]);
    let q = tidy(q);
    t.sample(|| format!("inverfc walk over {} doubles, inverf over {}", p.len(), q.len()));
    c.walk1(t, "inverf", &q);
}
// ---------------------------------------------------------------- P12
fn c12(l: &mut L, kind: &'static str, v: &[f64]) {
    let x = v[0];
    l.begin(kind, v);
    let Some(g) = l.val("erfcx", || erfcx(x)) else { return };
    let w = refm::erfcx(x);
    if w.hi.is_infinite() || w.hi > 1.7e308 || (x < -26.6 && g.is_infinite()) {
        // overflow: exp(x^2) erfc(x) > f64::MAX for x < -26.628..
        let ok = g == f64::INFINITY && w.hi > 1.7e308 || !w.hi.is_infinite() && w.err(g).abs() / w.hi < 4e-13;
        return l.check(ok, || format!("erfcx({x:e}) = {g:e}, reference {:e}", w.hi));
    }
    if w.hi < 1e-300 {
        return l.tol("subnormal range", g, w.hi, w.err(g).abs(), 1e-315 + 4e-15 * w.hi);
    }
    l.tol(if x < 0.0 { "relative, x<0" } else { "relative, x>=0" }, g, w.hi, w.err(g).abs() / w.hi, if x < 0.0 { 1e-15 * (4.0 + x * x / 2.0) } else { 4e-15 });
}
fn r12(c: &Ctx, t: &mut L) {
    let mut p = line(c.pick(19, 22), -6, 9, 7, 40_000, 500, 12);
    p.extend(decimals(40_000, 200_000, 1000.0));
    let p = tidy(p);
    t.sample(|| format!("erfcx walk over {} doubles", p.len()));
    c.walk1(t, "erfcx", &p);
}
// ---------------------------------------------------------------- P13
fn c13(l: &mut L, kind: &'static str, v: &[f64]) {
    let x = v[0];
    l.begin(kind, v);
    let Some(g) = l.val("dawson", || dawson(x)) else { return };
    let w = refm::dawson(x.abs());
    let w = R { hi: w.hi.copysign(x), lo: w.lo * 1f64.copysign(x) };
    if w.abs() < 1e-300 {
        return l.tol("tiny values", g, w.hi, w.err(g).abs(), 1e-300);
    }
    l.tol("relative", g, w.hi, w.err(g).abs() / w.abs(), 5e-7);
    let small = x.abs() < 0.2;
    if small {
        l.tol("relative, |x|<0.2", g, w.hi, w.err(g).abs() / w.abs(), 1e-7);
    }
}
fn r13(c: &Ctx, t: &mut L) {
    let mut p = line(c.pick(18, 21), -6, 6, 7, 20_000, 400, 12);
    p.extend(decimals(-5000, 5000, 100.0));
    let p = tidy(p);
    t.sample(|| format!("dawson walk over {} doubles", p.len()));
    c.walk1(t, "dawson", &p);
}
