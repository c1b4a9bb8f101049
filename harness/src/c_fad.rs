//! P14 Faddeeva function in the closed upper half-plane, P15 its symmetries and the lower half-plane.
use crate::eng::*;
use crate::refm;
use crate::Check;
use puruspe::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P14", kinds: &["w"], case: c14, run: r14, space: "w(x+iy), x,y >= 0: a uniform grid over [0,8]^2 that puts more than 1000 (quick) points into every 1/7 x 1/7 cell, ulp neighbourhoods of every multiple of 1/7 and 1/8, dyadic x dyadic over 2^-60..2^60, and radial lattices across |z|^2 = 10^-8..10^16; each point also with swapped coordinates; and every point of a rank-1 lattice of the arguments" },
        Check { id: "P15", kinds: &["refl", "lower", "axis"], case: c15, run: r15, space: "the reflections x -> -x and z -> -z over a grid of [0,8]^2, dyadic lattices and radial lattices; w(iy) against erfcx(y) and Im w(x) against dawson(x) on walks along the axes; and every point of a rank-1 lattice of the arguments" },
    ]
}
// ---------------------------------------------------------------- P14
fn c14(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let (x, y) = (v[0], v[1]);
    let Some(g) = l.val("faddeeva", || faddeeva(x, y)) else { return };
    let (re, im) = refm::w(x, y);
    let mag = re.hi.hypot(im.hi);
    let err = re.err(g.0).hypot(im.err(g.1));
    let z = x.hypot(y);
    let floor = 1e-305;
    if y < 1e-8 * x {
        // next to the real axis Im w is Dawson's integral
        l.tol("near the real axis, |err|/|w|", err, mag, err, 5e-7 * mag + floor);
        let t = if x < 1.0 { 1e-13 } else if x <= 30.0 { 1e-6 * (1.0 + x * x) } else { 4e-15 };
        l.tol("near the real axis, Re relative", g.0, re.hi, re.err(g.0).abs(), t * re.abs() + if y == 0.0 { 1e-300 } else { floor });
        if x < 1e-3 {
            l.tol("near the real axis, Im relative, x<1e-3", g.1, im.hi, im.err(g.1).abs(), 2e-12 * im.abs() + floor);
        }
        return;
    }
    l.tol("|err|/|w|", err, mag, err, 2e-15 * mag + floor);
    if z >= 7.5 {
        l.tol("Re relative, |z|>=7.5", g.0, re.hi, re.err(g.0).abs(), 4e-15 * re.abs() + floor);
        l.tol("Im relative, |z|>=7.5", g.1, im.hi, im.err(g.1).abs(), 4e-15 * im.abs() + floor);
    } else {
        l.tol("Re relative, |z|<7.5", g.0, re.hi, re.err(g.0).abs(), 1e-8 * re.abs() + floor);
        let ti = if x < 1e-8 * y { 6e-14 } else if z < 1e-2 { 2e-12 } else { 4e-14 };
        l.tol("Im relative, |z|<7.5", g.1, im.hi, im.err(g.1).abs(), ti * im.abs() + floor);
    }
}
/// Grid over [0,8]^2 given as row coordinates.
fn cells(n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = (0..=8 * n).map(|i| i as f64 / n as f64).collect();
    let mut k: Vec<f64> = (1..56).map(|i| i as f64 / 7.0).collect();
    k.extend((1..64).map(|i| i as f64 / 8.0));
    v.extend(around(&k, 1));
    tidy(v)
}
fn radial(n: usize) -> Vec<(f64, f64)> {
    let mut r: Vec<f64> = vec![];
    for z2 in [4e-7f64, 0.00689, 0.053, 49.0, 540.0, 22500.0, 4.8e15] {
        let z = z2.sqrt();
        for k in -40..=40 {
            r.push(z * (1.0 + k as f64 * 2e-3));
            r.push(ulps(z, k));
        }
        r.extend(approach(&[1.0], 2).into_iter().map(|f| z * f));
    }
    for k in -80..=170 {
        r.push(10f64.powf(k as f64 / 10.0));
    }
    let mut v = vec![];
    for z in r {
        for i in 0..=n {
            let (s, c) = (std::f64::consts::FRAC_PI_2 * i as f64 / n as f64).sin_cos();
            v.push((z * c, z * s));
        }
        for e in [1e-4, 1e-6, 0.99e-8, 1.01e-8, 1e-9, 1e-12] {
            v.push((z, z * e));
            v.push((z * e, z));
        }
    }
    v
}
/// A point of a rank-1 lattice in the first quadrant: Cartesian, or logarithmic in both coordinates
fn generic(u: [f64; 4]) -> (f64, f64) {
    match (u[2] * 4.0) as u32 {
        0 | 1 => (7.2 * u[0], 7.2 * u[1]),
        2 => (30.0 * u[0], 30.0 * u[1]),
        _ => (logu(u[0], 1e-10, 1e3), logu(u[1], 1e-10, 1e3)),
    }
}
fn r14(c: &Ctx, t: &mut L) {
    let g = cells(c.pick(224, 900));
    t.sample(|| format!("grid of {} x {} over [0,8]^2", g.len(), g.len()));
    c.par(t, g.len(), |l, i| {
        for (k, &y) in g.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            c14(l, "w", &[g[i], y]);
        }
        l.traces += 1;
    });
    let mut d = dyadic(c.pick(1, 3), -60, 60);
    d.extend(dyadic(c.pick(3, 5), -8, 8));
    d.extend([0.0, 1e-300, 1e-150, 1e150, 1e300, f64::MIN_POSITIVE]);
    let d = tidy(d);
    t.sample(|| format!("all {} x {} dyadic pairs", d.len(), d.len()));
    c.par(t, d.len(), |l, i| {
        for (k, &y) in d.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            c14(l, "w", &[d[i], y]);
        }
        l.traces += 1;
    });
    let r = radial(c.pick(300, 1500));
    t.sample(|| format!("radial lattice of {} points", r.len()));
    c.walk(t, &r, 1024, |l, ch| {
        for (k, &(x, y)) in ch.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            c14(l, "w", &[x, y]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(2_000_000, 20_000_000), |l, u| {
        let (x, y) = generic(u);
        c14(l, "w", &[x, y]);
    });
    // both axes, densely
    let mut ax = dyadic(c.pick(13, 16), -4, 6);
    ax.extend(dyadic(5, -1074, 1024));
    ax.extend(dyadic(c.pick(10, 12), -60, 60));
    ax.extend(around(&decimals(1, 300, 10.0), 4));
    ax.extend(approach(&decimals(1, 300, 10.0), 2).into_iter().filter(|x| *x > 0.0));
    let ax = tidy(ax);
    c.walk(t, &ax, 1024, |l, ch| {
        for (k, &x) in ch.iter().enumerate() {
            l.states += 2;
            l.trans += 2 * (k > 0) as u64;
            c14(l, "w", &[x, 0.0]);
            c14(l, "w", &[0.0, x]);
        }
        l.traces += 2;
    });
}
// ---------------------------------------------------------------- P15
fn c15(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let (x, y) = (v[0], v.get(1).copied().unwrap_or(0.0));
    match kind {
        // w(-x+iy) is the complex conjugate of w(x+iy), in every half-plane
        "refl" => {
            let (Some(g), Some(h)) = (l.val("faddeeva", || faddeeva(x, y)), l.val("faddeeva", || faddeeva(-x, y))) else { return };
            let m = g.0.hypot(g.1);
            if !m.is_finite() {
                let ok = (h.0 == g.0 || h.0.is_nan() && g.0.is_nan()) && (h.1 == -g.1 || h.1.is_nan() && g.1.is_nan());
                return l.check(ok, || format!("w({x:e},{y:e}) = {g:?} but w(-x,y) = {h:?}"));
            }
            // below the axis w(z) = 2 exp(-z^2) - w(-z), where the two terms may cancel in a component
            let canc = if y < 0.0 { 1e-15 * (m + 2.0 * (y * y - x * x).min(700.0).exp() + 0.6 / (1.0 + x.hypot(y))) } else { 0.0 };
            l.tol("Re w(-conj z)", h.0, g.0, (h.0 - g.0).abs(), 2e-15 * g.0.abs() + canc);
            l.tol("Im w(-conj z)", h.1, -g.1, (h.1 + g.1).abs(), 2e-15 * g.1.abs() + canc);
        }
        // y < 0
        "lower" => {
            let Some(g) = l.val("faddeeva", || faddeeva(x, y)) else { return };
            let (re, im) = refm::w(x, y);
            let e = 2.0 * (y * y - x * x).exp();
            let mag = re.hi.hypot(im.hi);
            if (y - x) * (y + x) > 708.0 {
                // exp(-z^2) is at or beyond the largest double
                let big = |c: f64| !c.is_finite() || c.abs() > 1e290;
                let small_im = x == 0.0 || im.abs() < 1e290;
                let ok = big(g.0) || big(g.1) || small_im && re.abs() < 1e290;
                return l.check(ok, || format!("w({x:e},{y:e}) = {g:?} does not overflow"));
            }
            // rounding of z^2 (relative 1 ulp, amplified by |z|^2) in the exponential and its phase
            let z2 = x * x + y * y;
            let base = if y.abs() < 1e-8 * x.abs() { 5e-7 } else { 4e-15 };
            // next to the imaginary axis exp(-z^2) is expanded to first order in its phase 2xy
            let ph = if x.abs() < 1e-8 * y.abs() { 4.0 * (x * y) * (x * y) } else { 0.0 };
            let tol = base * (mag + 0.6 / (1.0 + z2.sqrt())) + e * (4e-15 + (4e-16 * z2).min(700.0).exp_m1() + ph);
            l.tol("lower half-plane, Re", g.0, re.hi, re.err(g.0).abs(), tol + 1e-305);
            l.tol("lower half-plane, Im", g.1, im.hi, im.err(g.1).abs(), tol + 1e-305);
        }
        _ => {
            let (Some(g), Some(h)) = (l.val("faddeeva", || faddeeva(0.0, x)), l.val("faddeeva", || faddeeva(x, 0.0))) else { return };
            let (Some(ex), Some(d)) = (l.val("erfcx", || erfcx(x)), l.val("dawson", || dawson(x))) else { return };
            if ex.is_finite() {
                l.tol("w(iy) = erfcx(y)", g.0, ex, (g.0 - ex).abs(), 4e-15 * ex);
                l.check(g.1 == 0.0, || format!("Im w({x:e} i) = {:e}", g.1));
            } else {
                l.check(g.0 == f64::INFINITY, || format!("w({x:e} i) = {g:?} but erfcx overflows"));
            }
            let e = (-x * x).exp();
            l.tol("Re w(x) = exp(-x^2)", h.0, e, (h.0 - e).abs(), 1e-15 * e + 1e-300);
            let d = d * 2.0 / std::f64::consts::PI.sqrt();
            l.tol("Im w(x) = 2 dawson(x)/sqrt(pi)", h.1, d, (h.1 - d).abs(), 1e-6 * d.abs());
        }
    }
}
fn r15(c: &Ctx, t: &mut L) {
    let g = cells(c.pick(120, 400));
    let mut d = dyadic(c.pick(1, 3), -40, 40);
    d.extend(dyadic(c.pick(3, 5), -6, 6));
    let d = tidy(d);
    let r = radial(c.pick(120, 700));
    let one = |l: &mut L, x: f64, y: f64| {
        l.states += 1;
        l.trans += 3;
        c15(l, "refl", &[x, y]);
        c15(l, "refl", &[x, -y]);
        c15(l, "lower", &[x, -y]);
        c15(l, "lower", &[-x, -y]);
    };
    t.sample(|| format!("{0} x {0} grid, {1} x {1} dyadic pairs, {2} radial points", g.len(), d.len(), r.len()));
    for v in [&g, &d] {
        c.par(t, v.len(), |l, i| {
            for &y in v {
                if y > 0.0 {
                    one(l, v[i], y);
                }
            }
            l.traces += 1;
        });
    }
    c.walk(t, &r, 1024, |l, ch| {
        for &(x, y) in ch {
            if y > 0.0 {
                one(l, x, y);
            }
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(1_000_000, 10_000_000), |l, u| {
        let (x, y) = generic(u);
        one(l, x, y);
    });
    let mut ax = both(dyadic(c.pick(13, 16), -6, 6));
    ax.extend(both(dyadic(4, -1074, 1024)));
    ax.extend(both(dyadic(c.pick(10, 12), -60, 60)));
    ax.extend(around(&decimals(-300, 300, 10.0), 4));
    let ax: Vec<f64> = tidy(ax).into_iter().filter(|x| *x != 0.0).collect();
    c.walk(t, &ax, 1024, |l, ch| {
        for &x in ch {
            l.states += 1;
            l.trans += 2;
            c15(l, "axis", &[x]);
        }
        l.traces += 1;
    });
}
