//! P34 functions of different modules agree where mathematics relates them.
use crate::eng::*;
use crate::Check;
use puruspe::utils::factorial;
use puruspe::*;
use std::f64::consts::PI;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "P34", kinds: &["erf", "gamma", "exp", "prob", "beta", "power", "poisson", "half", "binom", "lambert"], case: c34, run: r34, space: "dense lattices of the arguments of each relation: erf, erfc, erfcx, dawson, w(z) and P, Q at shape 1/2; gamma, ln_gamma, factorial and beta; P, Q at shape 1 and exponentials; the quantile functions among each other; I_x(a,1), I_x(1,b), I_x(1/2,1/2) and powers and arcsines; Q at integer and half-integer shapes (1..=200) and Poisson sums; I_x at integer shapes and binomial sums for all k <= n up to 60, and isolated n up to 400; Lambert W of w e^w" }]
}
fn rel(a: f64, b: f64) -> f64 {
    if a == b {
        0.0
    } else {
        ((a - b) / b).abs()
    }
}
/// accuracy of P, Q (absolute) at the shape a
fn tg(a: f64) -> f64 {
    if a < 10.0 {
        1e-10
    } else {
        4e-10
    }
}
fn tb(m: f64) -> f64 {
    if m <= 10.0 {
        1.5e-10
    } else {
        4e-10
    }
}
fn c34(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let l2 = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(l, kind, v)));
    l.check(l2.is_ok(), || "a function panicked on an argument inside its domain".into());
}
fn case(l: &mut L, kind: &'static str, v: &[f64]) {
    l.evals += 4;
    let x = v[0];
    match kind {
        "erf" => {
            let s = x * x;
            let (p, q) = (erf(x), erfc(x));
            if x >= 0.0 && s > 0.0 {
                l.tol("erf(x) = P(1/2, x^2)", p, gammp(0.5, s), (p - gammp(0.5, s)).abs(), 1.2e-10);
                let g = gammq(0.5, s);
                l.tol("erfc(x) = Q(1/2, x^2)", q, g, (q - g).abs(), if s < 1.5 { 1.2e-10 } else if s < 33.0 { (7e-10 + 1e-15 * s) * q } else { 1e-10 });
            }
            let te = if x < 1.0 { 4e-15 } else if x < 10.0 { 1e-13 } else { 1e-12 };
            if s < 700.0 {
                let w = (-s).exp() * erfcx(x);
                l.tol("erfc(x) = exp(-x^2) erfcx(x)", q, w, rel(q, w), te + 1e-14 + 1e-15 * s);
            }
            if x >= 0.0 {
                let w = faddeeva(0.0, x);
                l.tol("erfcx(x) = w(ix)", erfcx(x), w.0, rel(erfcx(x), w.0), 1e-14);
            }
            let w = faddeeva(x.abs(), 0.0);
            let (d, i) = (dawson(x.abs()), PI.sqrt() / 2.0 * w.1);
            l.tol("dawson(x) = sqrt(pi)/2 Im w(x)", d, i, (d - i).abs(), 6e-7 * d.abs() + 6e-7 * w.0.hypot(w.1) + 1e-300);
        }
        "gamma" => {
            let (g, e) = (gamma(x), ln_gamma(x));
            l.tol("gamma = exp(ln_gamma)", g, e.exp(), rel(g, e.exp()), 4.2e-10 + 3e-15 * e.abs() + 1e-14);
            if x == x.floor() && x >= 1.0 {
                let f = factorial(x as usize - 1);
                l.tol("factorial(n) = gamma(n+1)", f, g, rel(f, g), 5e-14);
            }
        }
        "exp" => {
            let (p, q) = (gammp(1.0, x), gammq(1.0, x));
            let (wp, wq) = (-(-x).exp_m1(), (-x).exp());
            l.tol("P(1,x) = 1 - exp(-x)", p, wp, (p - wp).abs(), if x <= 2.0 { 6.1e-10 * wp } else { 1e-10 });
            l.tol("Q(1,x) = exp(-x)", q, wq, (q - wq).abs(), if x >= 2.0 && x < 40.0 { 6.1e-10 * wq } else { 1e-10 });
        }
        "prob" => {
            let p = x;
            let y = invgammp(p, 1.0);
            let w = -(-y).exp_m1();
            l.tol("invgammp(p,1) = -ln(1-p)", w, p, (w - p).abs(), if y <= 2.0 { 6.2e-10 * p } else { 1.01e-10 });
            // far in the lower tail the square of a small argument would carry relative errors only
            let y = invgammp(p, 0.5);
            let w = erf(y.sqrt());
            l.tol("invgammp(p,1/2) and erf", w, p, (w - p).abs(), if y <= 1.5 { 6.2e-10 * p + 3e-15 } else { 1.01e-10 });
            let (a, b) = (inverf(p), inverfc(1.0 - p));
            if p < 1.0 && 1.0 - (1.0 - p) == p {
                let slope = 2.0 / PI.sqrt() * (-a * a).exp();
                l.tol("inverf(p) = inverfc(1-p)", a, b, (a - b).abs() * slope, 3e-14 * (1.0 - p) + 4e-15 + 2e-15 * a * slope);
            }
            for s in [1.0, 0.5, 2.0, 7.25, 40.0, 300.0] {
                let y = invbetai(p, s, 1.0);
                let w = y.powf(s);
                l.tol("invbetai(p,a,1) = p^(1/a)", w, p, (w - p).abs(), if s <= 10.0 { 2.1e-10 } else { 4.1e-10 });
                let y = invbetai(p, 1.0, s);
                // an interval around y: the distribution function is steep at 1 for s < 1
                let f = |y: f64| -(s * (-y.min(1.0)).ln_1p()).exp_m1();
                let (w, w0, w1) = (f(y), f(y * (1.0 - 1e-12)), f(y * (1.0 + 1e-12)));
                l.tol("invbetai(p,1,b)", w, p, (w0 - p).max(p - w1).max(0.0), if s <= 10.0 { 2.1e-10 } else { 4.1e-10 });
            }
        }
        "beta" => {
            let (z, w) = (x, v[1]);
            let b = beta(z, w);
            let g = gamma(z) / gamma(z + w) * gamma(w);
            l.tol("beta = gamma gamma / gamma", b, g, rel(b, g), 2.2e-10);
            let (t, d) = (beta(z + 1.0, w) * (z + w), b * z);
            l.tol("B(z+1,w) (z+w) = B(z,w) z", t, d, rel(t, d), 4.2e-10);
        }
        "power" => {
            let (a, y) = (x, v[1]);
            let (g, w) = (betai(a, 1.0, y), y.powf(a));
            let low = |m: f64, n: f64, y: f64| y <= 0.9 * (m + 1.0) / (m + n + 2.0);
            l.tol("I_x(a,1) = x^a", g, w, (g - w).abs(), if low(a, 1.0, y) && w > 1e-240 { 7e-10 * w } else { tb(a) + 1e-15 * a });
            let (g, w) = (betai(1.0, a, y), -(a * (-y).ln_1p()).exp_m1());
            l.tol("I_x(1,b) = 1-(1-x)^b", g, w, (g - w).abs(), if low(1.0, a, y) && w > 1e-240 { 7e-10 * w } else { tb(a) + 1e-15 * a });
            let (g, w) = (betai(0.5, 0.5, y), 2.0 / PI * y.sqrt().asin());
            l.tol("I_x(1/2,1/2)", g, w, (g - w).abs(), 1.6e-10);
        }
        "poisson" => {
            // Q(n,x) = exp(-x) sum_{k<n} x^k / k!
            let (n, y) = (x as usize, v[1]);
            let (mut t, mut s) = ((-y).exp(), 0.0);
            for k in 0..n {
                s += t;
                t *= y / (k + 1) as f64;
            }
            let q = gammq(x, y);
            let low = 2e-14 + 1e-15 * (y + n as f64);
            l.tol("Q(n,x) is a Poisson sum", q, s, (q - s).abs(), tg(x) + low);
            let mut u = 0.0;
            for k in n..n + 3000 {
                u += t;
                t *= y / (k + 1) as f64;
                if t < 1e-18 * u {
                    break;
                }
            }
            let p = gammp(x, y);
            let small = y <= x + 1.0 && u > if x < 100.0 { 1e-240 } else { 1e-19 };
            l.tol("P(n,x) is a Poisson sum", p, u, (p - u).abs(), if small { (1.1e-9 + low) * u } else { tg(x) + low });
        }
        "half" => {
            // Q(n+1/2,x) = erfc(sqrt x) + exp(-x) sum_{k<n} x^(k+1/2) / gamma(k+3/2)
            let (n, y) = (x as usize, v[1]);
            let mut s = erfc(y.sqrt());
            let mut t = (-y).exp() * y.sqrt() * 2.0 / PI.sqrt();
            for k in 0..n {
                s += t;
                t *= y / (k as f64 + 1.5);
            }
            let q = gammq(n as f64 + 0.5, y);
            l.tol("Q(n+1/2,x) and erfc", q, s, (q - s).abs(), tg(n as f64 + 0.5) + 2e-14 + 1e-15 * (y + n as f64));
        }
        "binom" => {
            // P(X >= k) = I_p(k, n-k+1) for X binomial (n,p)
            let (n, k, p) = (v[0] as usize, v[1] as usize, v[2]);
            let term0 = |p: f64| (n as f64 * (-p).ln_1p()).exp();
            let sum = |p: f64, from: usize, to: usize| {
                let (mut t, mut s) = (term0(p), 0.0);
                for j in 0..=to {
                    if j >= from {
                        s += t;
                    }
                    t *= (n - j) as f64 / (j + 1) as f64 * (p / (1.0 - p));
                }
                s
            };
            // with more failures than successes the sum over the failures, to keep the first term in range
            let w = if p <= 0.5 { sum(p, k, n) } else { sum(1.0 - p, 0, n - k) };
            let g = betai(k as f64, (n - k + 1) as f64, p);
            l.tol("I_p(k,n-k+1) is a binomial sum", g, w, (g - w).abs(), tb((n + 1) as f64) + 1e-14 * n as f64);
        }
        _ => {
            let w = x;
            let z = w * w.exp();
            let g = if w >= -1.0 { lambert_w0(z) } else { lambert_wm1(z) };
            let c = (w / (1.0 + w)).abs();
            l.tol("W(w exp w) = w", g, w, (g - w).abs(), 8e-15 * w.abs() + c * 5e-16 * (1.0 + w.abs()) + 1e-15);
            let h = if w >= -1.0 { sp_lambert_w0(z) } else { sp_lambert_wm1(z) };
            l.tol("sp_ W(w exp w) = w", h, w, (h - w).abs(), 2e-6 * w.abs() + 1e-15);
        }
    }
}
fn r34(c: &Ctx, t: &mut L) {
    let m = c.pick(13, 17);
    let pos = |m, a, b, most: f64| {
        let mut v = dyadic(m, a, b);
        v.extend(decimals(1, 4000, 100.0));
        v.extend(approach(&[0.5, 1.0, 1.5, 2.0, 3.0], 2));
        v.retain(|x| *x > 0.0 && *x <= most);
        tidy(v)
    };
    let small = dyadic(c.pick(6, 9), -60, -6);
    let mut e = pos(m, -6, 6, 60.0);
    e.extend(&small);
    c.walk1(t, "erf", &tidy(both(e)));
    let mut g = pos(m, -6, 8, 170.5);
    g.extend(&small);
    g.extend((1..=171).map(|n| n as f64));
    c.walk1(t, "gamma", &tidy(g));
    let mut x = pos(m, -6, 8, 200.0);
    x.extend(&small);
    c.walk1(t, "exp", &tidy(x.clone()));
    let mut p = pos(c.pick(9, 12), -8, 0, 0.9999999999);
    p.extend(dyadic(c.pick(4, 7), -60, -8));
    p.extend(dyadic(c.pick(5, 8), -30, -2).into_iter().map(|q| 1.0 - q));
    c.walk1(t, "prob", &tidy(p));
    let mut w = pos(m, -6, 9, 300.0);
    w.extend(dyadic(m, -6, 6).into_iter().filter(|x| (x - 1.0).abs() > 1e-3 && *x < 60.0).map(|x| -x));
    c.walk1(t, "lambert", &tidy(w));
    let z = {
        let mut v = dyadic(c.pick(4, 6), -8, 6);
        v.extend(decimals(1, c.pick(160, 800), c.pick(2.0, 10.0)));
        v.retain(|x| *x <= 80.0);
        tidy(v)
    };
    c.walk(t, &z, 1, |l, a| {
        for b in &z {
            l.states += 1;
            c34(l, "beta", &[a[0], *b]);
        }
        l.traces += 1;
    });
    let a = {
        let mut v = dyadic(c.pick(4, 6), -9, 13);
        v.extend((1..c.pick(200, 1000)).map(|n| n as f64));
        tidy(v)
    };
    let xs = {
        let mut v = grid(0.0, 1.0, c.pick(400, 2000));
        v.extend(dyadic(2, -40, -8));
        v.extend(dyadic(2, -40, -8).into_iter().map(|d| 1.0 - d));
        tidy(v)
    };
    c.walk(t, &a, 1, |l, a| {
        for x in &xs {
            l.states += 1;
            c34(l, "power", &[a[0], *x]);
        }
        l.traces += 1;
    });
    let ys = {
        let mut v = decimals(1, c.pick(1000, 4000), c.pick(40.0, 160.0));
        v.extend(grid(25.0, 600.0, c.pick(1150, 4600)));
        v.extend(dyadic(2, -20, -5));
        tidy(v)
    };
    let ns: Vec<f64> = (0..=200).map(|n| n as f64).collect();
    c.walk(t, &ns, 1, |l, n| {
        for y in &ys {
            if n[0] > 0.0 {
                l.states += 1;
                c34(l, "poisson", &[n[0], *y]);
            }
            l.states += 1;
            c34(l, "half", &[n[0], *y]);
        }
        l.traces += 1;
    });
    let nk: Vec<(usize, usize)> = (1..=60).chain([80, 100, 128, 150, 200, 300, 400]).flat_map(|n| (1..=n).map(move |k| (n, k))).collect();
    let ps = grid(0.0, 1.0, c.pick(200, 1000));
    c.walk(t, &nk, 16, |l, nk| {
        for &(n, k) in nk {
            for &p in &ps {
                if p > 0.0 && p < 1.0 {
                    l.states += 1;
                    c34(l, "binom", &[n as f64, k as f64, p]);
                }
            }
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(1_000_000, 10_000_000), |l, u| {
        c34(l, "beta", &[typed(u[2], logu(u[0], 1e-6, 85.0)), typed(u[3], logu(u[1], 1e-6, 85.0))]);
        c34(l, "power", &[typed(u[2], logu(u[0], 2e-3, 16000.0)), u[1]]);
        c34(l, "poisson", &[(1.0 + u[0] * 199.0).floor(), logu(u[1], 1e-4, 600.0)]);
        c34(l, "erf", &[logu(u[0], 1e-5, 50.0)]);
    });
}
