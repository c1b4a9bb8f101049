//! P27 domain contract: panics exactly outside the documented domain, and inside it every call returns
//! a number of the function's range.
use crate::eng::*;
use crate::Check;
use puruspe::*;

pub fn checks() -> Vec<Check> {
    vec![Check { id: "P27", kinds: &["two", "three", "one", "ord", "frac"], case: c27, run: r27, space: "every function on the full product of alphabets that span the doubles: 0, subnormals, every k-th power of two of both signs with ulp neighbours of the domain boundaries 0 and 1, infinities and NaN; orders 0..=100 and isolated large ones; dense lattices of the ordinary range of every function; and every point of a rank-1 lattice of the arguments; the whole in a release build and in a build with overflow checks and debug assertions" }]
}
/// None = must panic, Some((lo,hi)) = must return a value in [lo,hi] that is not NaN
type Want = Option<(f64, f64)>;
const INF: f64 = f64::INFINITY;
const S: f64 = 1e-9; // slack of the incomplete integrals

fn two(f: usize, a: f64, b: f64) -> (&'static str, Want, Option<f64>, bool) {
    // (name, contract, result, anything goes)
    let call = |g: fn(f64, f64) -> f64| std::panic::catch_unwind(|| g(a, b)).ok();
    match f {
        4 => {
            // within the unit disc in the closed upper half-plane
            let r = std::panic::catch_unwind(|| faddeeva(a, b)).ok().map(|w| w.0.hypot(w.1));
            ("|faddeeva|", Some((0.0, 1.0 + 1e-6)), r, !(b >= 0.0 && b < INF && a.abs() < INF))
        }
        5 => ("sign", Some((-INF, INF)), call(puruspe::utils::sign), a.is_nan()),
        6 => ("ldexp", Some((-INF, INF)), call(|a, b| puruspe::utils::ldexp(a, b as i32)), a.is_nan()),
        0 | 1 => {
            let ok = a > 0.0 && b >= 0.0;
            let any = ok && a > 1e300;
            (if f == 0 { "gammp" } else { "gammq" }, ok.then_some((-S, 1.0 + S)), call(if f == 0 { gammp } else { gammq }), any)
        }
        2 => {
            let ok = a > 0.0 && b > 0.0;
            let any = ok && (a.max(b) > 1e300 || a.min(b) < 1e-300);
            ("beta", ok.then_some((0.0, INF)), call(beta), any)
        }
        _ => {
            // invgammp(p = a, shape = b)
            let ok = b > 0.0 && b < INF && !a.is_nan();
            let any = b > 1e300 || a.is_nan();
            ("invgammp", ok.then_some((0.0, 1e308)), call(invgammp), any)
        }
    }
}
fn three(f: usize, a: f64, b: f64, x: f64) -> (&'static str, Want, Option<f64>, bool) {
    if f == 0 {
        let r = std::panic::catch_unwind(|| betai(a, b, x)).ok();
        let ok = a > 0.0 && b > 0.0 && (0.0..=1.0).contains(&x);
        let any = ok && (a.max(b) > 1e6 || a.min(b) < 1e-300);
        // the margin grows with the rounding errors of ln_gamma(a + b)
        let s = S.max(1e-14 * a.max(b));
        ("betai", ok.then_some((-s, 1.0 + s)), r, any)
    } else if f == 2 {
        ("lambert_w", Some((0.0, INF)), std::panic::catch_unwind(|| lambert_w(a as i32, b, x)).ok().map(|w| w.0.hypot(w.1)), true)
    } else {
        // invbetai(p = x, a, b)
        let r = std::panic::catch_unwind(|| invbetai(x, a, b)).ok();
        let ok = a > 1e-300 && b > 1e-300 && a < 1e300 && b < 1e300 && !x.is_nan() || x <= 0.0 || x >= 1.0;
        // with invalid and extreme shapes anything goes
        let any = x.is_nan() || !(x <= 0.0 || x >= 1.0) && !(a.max(b) <= 1e4 && a.min(b) >= 1e-3);
        ("invbetai", ok.then_some((0.0, 1.0)), r, any)
    }
}
fn one(f: usize, x: f64) -> (&'static str, Want, Option<f64>, bool) {
    let (n, g, w): (&'static str, fn(f64) -> f64, Want) = match f {
        0 => ("gamma", gamma, Some((-INF, INF))),
        1 => ("ln_gamma", ln_gamma, Some((-0.2, INF))),
        2 => ("erf", erf, Some((-1.0, 1.0))),
        3 => ("erfc", erfc, Some((0.0, 2.0))),
        4 => ("erfcx", erfcx, Some((0.0, INF))),
        5 => ("inverf", inverf, Some((-100.0, 100.0))),
        6 => ("inverfc", inverfc, Some((-100.0, 100.0))),
        7 => ("dawson", dawson, Some((-0.55, 0.55))),
        8 => ("frexp", |x| puruspe::utils::frexp(x).0, Some((-1.0, 1.0))),
        9 => ("lambert_w0", lambert_w0, Some((-1.0, 1000.0))),
        10 => ("lambert_wm1", lambert_wm1, Some((-INF, -1.0))),
        11 => ("sp_lambert_w0", sp_lambert_w0, Some((-1.0, 1000.0))),
        12 => ("sp_lambert_wm1", sp_lambert_wm1, Some((-INF, -1.0))),
        _ => ("factorial", |x| puruspe::utils::factorial(x as usize), Some((1.0, INF))),
    };
    let br = -0.367_879_441_171_442_3;
    let any = x.is_nan() || f == 0 && x < 0.0 || f == 1 && !(x > 0.0 && x < 1e305) || f == 8 && x.is_infinite() || (f == 9 || f == 11) && !(x > br && x < INF) || (f == 10 || f == 12) && !(x > br && x < -1e-305);
    (n, w, std::panic::catch_unwind(|| g(x)).ok(), any)
}
fn ord(f: usize, n: u32, x: f64) -> (&'static str, Want, Option<f64>, bool) {
    let (name, g): (&'static str, fn(u32, f64) -> f64) = [("Jn", Jn as fn(u32, f64) -> f64), ("Yn", Yn), ("In", In), ("Kn", Kn)][f];
    let w = match f {
        0 => (-1.0, 1.0),
        1 => (-INF, 1.0),
        2 => (if x < 0.0 { -INF } else { 0.0 }, INF),
        _ => (0.0, INF),
    };
    let any = x.is_nan() || f % 2 == 1 && !(x > 0.0);
    (name, Some(w), std::panic::catch_unwind(|| g(n, x)).ok(), any)
}
fn frac(l: &mut L, f: usize, nu: f64, x: f64) {
    let ok = nu >= 0.0 && x > 0.0 && x < INF && nu < INF;
    let any = ok && (nu > 2000.0 || x > if f % 4 < 2 { 9000.0 } else { 1e5 } || x < 1e-99);
    if any && nu > 1e5 {
        l.skipped += 1;
        return; // as many steps as the order is large
    }
    let ws = |v: [f64; 4], n: usize| v[..n].to_vec();
    let (name, r): (&str, std::thread::Result<Vec<f64>>) = match f {
        0 => ("besseljy", std::panic::catch_unwind(|| { let r = besseljy(nu, x); ws([r.0, r.1, r.2, r.3], 4) })),
        1 => ("Jnu_Ynu", std::panic::catch_unwind(|| { let r = Jnu_Ynu(nu, x); ws([r.0, r.1, 0.0, 0.0], 2) })),
        2 => ("besselik", std::panic::catch_unwind(|| { let r = besselik(nu, x); ws([r.0, r.1, r.2, r.3], 4) })),
        3 => ("Inu_Knu", std::panic::catch_unwind(|| { let r = Inu_Knu(nu, x); ws([r.0, r.1, 0.0, 0.0], 2) })),
        4 => ("CachedBesselJY::besseljy", std::panic::catch_unwind(|| { let r = CachedBesselJY::new().besseljy(nu, x); ws([r.0, r.1, r.2, r.3], 4) })),
        5 => ("CachedJnuYnu::Jnu_Ynu", std::panic::catch_unwind(|| { let r = CachedJnuYnu::new().Jnu_Ynu(nu, x); ws([r.0, r.1, 0.0, 0.0], 2) })),
        6 => ("CachedBesselIK::besselik", std::panic::catch_unwind(|| { let r = CachedBesselIK::new().besselik(nu, x); ws([r.0, r.1, r.2, r.3], 4) })),
        _ => ("CachedInuKnu::Inu_Knu", std::panic::catch_unwind(|| { let r = CachedInuKnu::new().Inu_Knu(nu, x); ws([r.0, r.1, 0.0, 0.0], 2) })),
    };
    l.evals += 1;
    if any {
        l.skipped += 1;
        return;
    }
    match (ok, r) {
        (true, Err(_)) => l.fail(format!("{name}({nu:e},{x:e}) panicked inside its domain")),
        (false, Ok(v)) => l.fail(format!("{name}({nu:e},{x:e}) = {v:?}, should have panicked")),
        (true, Ok(v)) => {
            let jy = f % 4 < 2;
            let good = v.iter().all(|t| !t.is_nan()) && if jy { v[0].abs() <= 1.0 + 1e-9 && v[1] <= 1.0 } else { v[0] >= 0.0 && v[1] >= 0.0 };
            l.check(good, || format!("{name}({nu:e},{x:e}) = {v:?}"));
        }
        _ => {}
    }
}
fn judge(l: &mut L, args: &str, (name, want, got, any): (&'static str, Want, Option<f64>, bool)) {
    l.evals += 1;
    if any {
        l.skipped += 1;
        // whatever the value, a call inside the domain does not panic
        if want.is_some() && got.is_none() {
            l.fail(format!("{name}({args}) panicked inside its domain"));
        }
        return;
    }
    match (want, got) {
        (None, Some(g)) => l.fail(format!("{name}({args}) = {g:e}, should have panicked")),
        (Some(_), None) => l.fail(format!("{name}({args}) panicked inside its domain")),
        (Some((lo, hi)), Some(g)) => l.check(g >= lo && g <= hi, || format!("{name}({args}) = {g:e}, not in [{lo},{hi}]")),
        _ => {}
    }
}
fn c27(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let f = v[0] as usize;
    match kind {
        "two" => judge(l, &format!("{:e},{:e}", v[1], v[2]), two(f, v[1], v[2])),
        "three" => judge(l, &format!("{:e},{:e},{:e}", v[1], v[2], v[3]), three(f, v[1], v[2], v[3])),
        "one" => judge(l, &format!("{:e}", v[1]), one(f, v[1])),
        "ord" => judge(l, &format!("{},{:e}", v[1], v[2]), ord(f, v[1] as u32, v[2])),
        _ => frac(l, f, v[1], v[2]),
    }
}
fn span(step: usize) -> Vec<f64> {
    let mut v: Vec<f64> = vec![0.0, 5e-324, 1e-323, f64::MIN_POSITIVE, f64::MAX, INF, 0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 100.0, 1000.0, 3000.0, 0.1, 0.01, 0.001];
    v.extend((-1074..1024).step_by(step).map(p2));
    v.extend((-30..30).step_by(step.min(6)).map(|e| 1.37 * 2f64.powi(e)));
    v.extend(around(&[1.0], 2));
    let mut w: Vec<f64> = v.iter().map(|x| -x).collect();
    w.extend(v);
    w.extend([f64::NAN, -f64::NAN]);
    w.sort_by(f64::total_cmp);
    w.dedup_by(|a, b| a.to_bits() == b.to_bits());
    w
}
fn r27(c: &Ctx, t: &mut L) {
    let w1 = span(1);
    let n1 = 14;
    c.par(t, n1, |l, f| {
        for &x in &w1 {
            l.states += 1;
            c27(l, "one", &[f as f64, x]);
        }
        l.traces += 1;
    });
    let w2 = span(c.pick(4, 2));
    t.sample(|| format!("two arguments: {}^2 pairs, e.g. {:e}", w2.len(), w2[w2.len() / 2 + 20]));
    c.par(t, w2.len() * 7, |l, j| {
        for &b in &w2 {
            l.states += 1;
            l.trans += 1;
            c27(l, "two", &[(j % 7) as f64, w2[j / 7], b]);
        }
        l.traces += 1;
    });
    let w3 = span(c.pick(60, 24));
    t.sample(|| format!("three arguments: {}^3 triples", w3.len()));
    c.par(t, w3.len() * w3.len() * 3, |l, j| {
        let k = j / 3;
        for &x in &w3 {
            l.states += 1;
            l.trans += 1;
            c27(l, "three", &[(j % 3) as f64, w3[k / w3.len()], w3[k % w3.len()], x]);
        }
        l.traces += 1;
    });
    let w = span(c.pick(6, 2));
    let ns: Vec<u32> = (0..=100).chain([150, 300, 1000, 2000, 10_000]).collect();
    c.par(t, ns.len() * 4, |l, j| {
        for &x in &w {
            l.states += 1;
            l.trans += 1;
            c27(l, "ord", &[(j % 4) as f64, ns[j / 4] as f64, x]);
        }
        l.traces += 1;
    });
    // orders next to the ends of the integer types; Yn and Kn take a step per order until they overflow
    let huge: Vec<u32> = vec![100_000, 1_000_000, (1 << 24) + 1, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    c.par(t, huge.len() * 4, |l, j| {
        for &x in &w {
            let n = huge[j / 4];
            let slow = if j % 2 == 1 { !(0.0..1e4).contains(&x) } else { x.is_nan() || x.is_finite() && n as f64 <= 2.0 * x.abs() + 3000.0 };
            if n > 100_000 && slow {
                continue;
            }
            l.states += 1;
            l.trans += 1;
            c27(l, "ord", &[(j % 4) as f64, n as f64, x]);
        }
        l.traces += 1;
    });
    let mut nu = span(c.pick(24, 8));
    nu.extend(decimals(1, 60, 4.0));
    let mut xs = span(c.pick(6, 2));
    xs.extend(decimals(1, 60, 4.0));
    c.par(t, nu.len() * 8, |l, j| {
        for &x in &xs {
            l.states += 1;
            l.trans += 1;
            c27(l, "frac", &[(j % 8) as f64, nu[j / 8], x]);
        }
        l.traces += 1;
    });
    ordinary(c, t);
}
/// The ordinary range of every function, densely.
fn ordinary(c: &Ctx, t: &mut L) {
    use crate::{c_bes, c_beta, c_gamma};
    let mut line = both(dyadic(c.pick(10, 14), -10, 10));
    line.extend(decimals(-40_000, 200_000, 1000.0));
    line.extend(approach(&decimals(-60, 60, 4.0), 3));
    let line = tidy(line);
    t.sample(|| format!("ordinary range, one argument: {} doubles x 14 functions", line.len()));
    c.walk(t, &line, 4096, |l, ch| {
        for f in 0..14 {
            for &x in ch {
                l.states += 1;
                c27(l, "one", &[f as f64, x]);
            }
        }
        l.traces += 1;
    });
    let mut sh = c_gamma::shapes(c.pick(2, 4), c.pick(40, 200));
    sh.extend(dyadic(1, 14, 20));
    let n = c.pick(40, 160);
    let ps = c_gamma::probs(c.pick(60, 300), 16);
    t.sample(|| format!("ordinary range, incomplete gamma and beta functions: {} shapes", sh.len()));
    c.par(t, sh.len(), |l, i| {
        let a = sh[i];
        for &x in &c_gamma::xs_for(a, n) {
            l.states += 2;
            c27(l, "two", &[0.0, a, x]);
            c27(l, "two", &[1.0, a, x]);
        }
        for &b in &sh {
            l.states += 1;
            c27(l, "two", &[2.0, a, b]);
        }
        for &p in &ps {
            l.states += 1;
            c27(l, "two", &[3.0, p, a]);
        }
        l.traces += 1;
    });
    let mut bs = c_beta::shapes(c.pick(1, 2), -10, true);
    bs.extend(dyadic(0, 14, 20));
    let ps = c_gamma::probs(c.pick(24, 120), 8);
    c.par(t, bs.len() * bs.len(), |l, i| {
        let (a, b) = (bs[i / bs.len()], bs[i % bs.len()]);
        for &x in &c_beta::xs_for(a, b, c.pick(24, 120)) {
            l.states += 1;
            c27(l, "three", &[0.0, a, b, x]);
        }
        for &p in &ps {
            l.states += 1;
            c27(l, "three", &[1.0, a, b, p]);
        }
        l.traces += 1;
    });
    // every magnitude of every argument
    c.rank1(t, c.pick(1_500_000, 15_000_000), |l, u| {
        let wide = |u: f64| logu(u, 1e-300, 1e300);
        let (a, p) = (logu(u[0], 1e-12, 1e12), c_gamma::prob(u[1], u[3]));
        let x = if u[2] < 0.5 { wide(u[1]) } else { a * logu(u[1], 1e-3, 1e3) };
        let (b, z) = (logu(u[2], 1e-3, 1e4), logu(u[1], 1e-3, 1e6));
        l.states += 6;
        c27(l, "two", &[0.0, a, x]);
        c27(l, "two", &[1.0, a, x]);
        c27(l, "two", &[2.0, wide(u[0]), wide(u[1])]);
        c27(l, "two", &[3.0, p, a]);
        c27(l, "three", &[0.0, logu(u[0], 1e-12, 1e6), z, c_gamma::prob(u[2], u[3])]);
        c27(l, "three", &[1.0, b, logu(u[0], 1e-3, 1e4), p]);
        c27(l, "two", &[4.0, 10.0 * u[0] - 5.0, logu(u[1], 1e-12, 1e12)]);
    });
    let g = tidy(both([grid(0.0, 9.0, c.pick(300, 1200)), dyadic(0, -40, 40)].concat()));
    t.sample(|| format!("ordinary range, faddeeva: {0} x {0} grid", g.len()));
    c.par(t, g.len(), |l, i| {
        for &y in &g {
            l.states += 1;
            c27(l, "two", &[4.0, g[i], y]);
        }
        l.traces += 1;
    });
    let xs = tidy(both(c_bes::xs(c.pick(3, 5), -8, 10, c.pick(300, 3000))));
    t.sample(|| format!("ordinary range, orders 0..=130 x {} arguments", xs.len()));
    c.par(t, 131 * 4, |l, i| {
        for &x in &xs {
            l.states += 1;
            c27(l, "ord", &[(i % 4) as f64, (i / 4) as f64, x]);
        }
        l.traces += 1;
    });
    let (nu, xs) = (c_bes::nus(c.pick(2, 4), c.pick(40.0, 100.0)), c_bes::fxs(c.pick(2, 5), -10, 9000.0, c.pick(60, 600)));
    t.sample(|| format!("ordinary range, {} fractional orders x {} arguments", nu.len(), xs.len()));
    c.par(t, nu.len() * 8, |l, i| {
        for &x in &xs {
            l.states += 1;
            c27(l, "frac", &[(i % 8) as f64, nu[i / 8], x]);
        }
        l.traces += 1;
    });
}
