//! P16-P18 Bessel functions of integer order, P19-P21 of real order.
use crate::eng::*;
use crate::refm::{bessel_row, Kind, R};
use crate::Check;
use puruspe::*;
use std::f64::consts::PI;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P16", kinds: &["jy"], case: c16, run: r16, space: "J_n(x), Y_n(x): every order 0..=N for every x of a lattice (dyadic, tenths, integers, ulp neighbourhoods of the switch points 8 and n = x, zeros of J and Y), plus isolated large orders, plus arguments up to 2^45 far beyond the order; and orders up to 2000 on a rank-1 lattice of (n,x)" },
        Check { id: "P17", kinds: &["ik"], case: c17, run: r17, space: "I_n(x), K_n(x): every order 0..=N for every x of a lattice (dyadic, tenths, integers, ulp neighbourhoods of the switch points 1 and 15), plus isolated large orders; and orders up to 2000 on a rank-1 lattice of (n,x)" },
        Check { id: "P18", kinds: &["jy", "ik", "par", "neu"], case: c18, run: r18, space: "every pair of neighbouring orders (n,n+1) and triple (n-1,n,n+1) for every x of a lattice: Wronskians, recurrences; parity in x; the sums 1 = J0 + 2 J2 + 2 J4 + ... and exp(x) = I0 + 2 I1 + 2 I2 + ...; and every point of a rank-1 lattice of the arguments" },
        Check { id: "P19", kinds: &["jy"], case: c19, run: r19, space: "(J,Y,J',Y') at (nu,x): all pairs of an order lattice (eighths, tenths, ulp neighbourhoods of integers and half-integers, 2^-k offsets) and an x lattice (dyadic up to 9000, tenths, ulp neighbourhoods of 2 and of nu); and every point of a rank-1 lattice of the arguments" },
        Check { id: "P20", kinds: &["ik"], case: c20, run: r20, space: "(I,K,I',K') at (nu,x): the lattices of the ordinary case, x up to 720; beyond, up to x = 6000, the orders for which I and K are in range; and every point of a rank-1 lattice of the arguments" },
        Check { id: "P21", kinds: &["jy", "ik", "int", "half"], case: c21, run: r21, space: "for every (nu,x): Wronskian, both derivative identities and the three-term recurrence against (nu+1,x) and (nu+2,x), agreement with the integer-order functions at integer nu, elementary closed forms at nu = 1/2 and 3/2, and the two-component functions against the four-component ones; and every point of a rank-1 lattice of the arguments" },
    ]
}
fn okr(w: R) -> bool {
    w.hi.abs() > 1e-270 && w.hi.abs() < 1e290
}
/// The same for the functions of integer order, which keep their accuracy up to the edges of the range.
fn okn(w: R) -> bool {
    w.hi.abs() > 1e-306 && w.hi.abs() < 1.79e308
}
pub fn xs(m: u32, lo: i32, hi: i32, n: i64) -> Vec<f64> {
    let mut v = dyadic(m, lo, hi);
    v.extend(dyadic(1, -30, lo));
    v.extend((3..100).flat_map(|k| [2f64.powi(-10 * k), 1.3 * 2f64.powi(-10 * k - 5)]));
    v.extend(decimals(1, n, 10.0));
    v.extend(around(&[1.0, 2.0, 3.75, 7.5, 8.0, 15.0, 20.0, 25.0], 3));
    v.extend(approach(&[1.0, 2.0, 3.75, 7.5, 8.0, 15.0, 20.0, 25.0], 2));
    v.extend((0..24).map(|k| 4.2e-154 * 1.05f64.powi(k)));
    for k in 0..40 {
        v.extend(around(&[(k as f64 + 0.25) * PI, (k as f64 + 0.75) * PI, (k as f64 + 0.5) * PI], 1));
    }
    v.extend(around(&[2.404825557695773, 5.520078110286311, 3.831705970207512, 7.015586669815619, 0.8935769662791675, 3.957678419314858, 2.197141326031017, 5.429681040794135], 2));
    tidy(v)
}
// ---------------------------------------------------------------- P16
/// scale of J and Y: relative before the first zero, amplitude after it
fn scales(nu: f64, x: f64, j: R, y: R) -> (f64, f64) {
    let amp = j.hi.hypot(y.hi);
    if x <= nu {
        (j.abs(), y.abs())
    } else {
        (amp, amp)
    }
}
/// Integer orders up to 2000 and arguments of a rank-1 lattice
fn ordinal(u: [f64; 4], hi: f64) -> [f64; 2] {
    let n = (logu(u[0], 1.0, 2001.0).floor() - 1.0).max(0.0);
    let x = match (u[2] * 4.0) as u32 {
        0 => n + (u[1] - 0.5) * 16.0 * (1.0 + n.cbrt()),
        1 => n * logu(u[1], 0.1, 10.0),
        2 => logu(u[1], 1e-9, 1.0),
        _ => logu(u[1], 0.05, hi),
    };
    [n, if x > 0.0 && x < hi { x } else { 0.1 + 60.0 * u[1] }]
}
fn one16(l: &mut L, n: u32, x: f64, j: R, y: R) {
    let (Some(gj), Some(gy)) = (l.val("Jn", || Jn(n, x)), l.val("Yn", || Yn(n, x))) else { return };
    let (sj, sy) = scales(n as f64, x, j, y);
    if okn(j) {
        if okn(y) || x > n as f64 {
            let t = 3e-14 + 3e-16 * x.max(n as f64);
            l.tol(if n < 2 { "J0, J1" } else if x > n as f64 { "J_n, x > n" } else { "J_n, x <= n" }, gj, j.hi, j.err(gj).abs(), t * sj);
        } else {
            l.tol("J_n, Y overflows", gj, j.hi, j.err(gj).abs(), (3e-14 + 3e-16 * n as f64) * j.abs());
        }
    } else {
        l.tol("J_n underflow", gj, j.hi, j.err(gj).abs(), 1e-305);
    }
    if okn(y) {
        let s = if x > n as f64 { sy } else { y.hi.abs().max(if n == 0 { 1.0 } else { 0.0 }) };
        l.tol(if n < 2 { "Y0, Y1" } else if x > n as f64 { "Y_n, x > n" } else { "Y_n, x <= n" }, gy, y.hi, y.err(gy).abs(), (3e-14 + 3e-16 * x.max(n as f64)) * s);
    } else {
        l.check(gy < -1.78e308, || format!("Y_{n}({x:e}) = {gy:e}, reference {:e}", y.hi));
    }
}
fn c16(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let n = v[0] as usize;
    let (j, y) = rows16(v[1], n);
    one16(l, n as u32, v[1], j[n], y[n]);
}
fn rows16(x: f64, n: usize) -> (Vec<R>, Vec<R>) {
    let far = x > 10_000.0 && x > 4.0 * n as f64;
    (bessel_row(if far { Kind::JFar } else { Kind::J }, 0.0, x, n), bessel_row(Kind::Y, 0.0, x, n))
}
fn r16(c: &Ctx, t: &mut L) {
    let xs = xs(c.pick(10, 12), -8, 10, c.pick(10230, 10230));
    let n = c.pick(200, 400);
    t.sample(|| format!("{} x, orders 0..={n}", xs.len()));
    let big = [250usize, 500, 1000, 2000];
    c.par(t, xs.len(), |l, i| {
        let x = xs[i];
        let (j, y) = (bessel_row(Kind::J, 0.0, x, n), bessel_row(Kind::Y, 0.0, x, n));
        for o in 0..=n {
            l.states += 1;
            l.trans += (o > 0) as u64;
            l.begin("jy", &[o as f64, x]);
            one16(l, o as u32, x, j[o], y[o]);
            // the neighbourhood of x = n, where the algorithm switches
            if x == o as f64 {
                for k in [-2, -1, 1, 2] {
                    l.states += 1;
                    c16(l, "jy", &[o as f64, ulps(x, k)]);
                }
            }
        }
        l.traces += 1;
        if i % c.pick(16, 4) == 0 {
            for o in big {
                l.states += 1;
                c16(l, "jy", &[o as f64, x]);
            }
        }
    });
    // far beyond the orders
    let mut far = dyadic(c.pick(7, 9), 10, 45);
    far.extend(decimals(1024, c.pick(3000, 9000), 1.0));
    far.extend((1..600).map(|k| k as f64 * 100.0 * PI));
    let far = tidy(far);
    c.par(t, far.len(), |l, i| {
        let x = far[i];
        let n = c.pick(60, 150).min((x / 4.0) as usize);
        let (j, y) = rows16(x, n);
        for o in 0..=n {
            l.states += 1;
            l.trans += (o > 0) as u64;
            l.begin("jy", &[o as f64, x]);
            one16(l, o as u32, x, j[o], y[o]);
        }
        l.traces += 1;
        if i % 16 == 0 {
            for o in [300usize, 1000, 2500] {
                if x > 4.0 * o as f64 {
                    l.states += 1;
                    c16(l, "jy", &[o as f64, x]);
                }
            }
        }
    });
    c.rank1(t, c.pick(150_000, 1_500_000), |l, u| c16(l, "jy", &ordinal(u, 9000.0)));
    // large orders next to x = n
    let mut pts = vec![];
    for o in [100usize, 150, 250, 400, 700, 1000] {
        for k in c.pick(-20, -60)..=c.pick(20, 60) {
            pts.push((o, o as f64 + k as f64));
            pts.push((o, o as f64 * (1.0 + k as f64 / 100.0)));
        }
    }
    c.walk(t, &pts, 8, |l, ch| {
        for &(o, x) in ch {
            l.states += 1;
            c16(l, "jy", &[o as f64, x]);
        }
    });
}
// ---------------------------------------------------------------- P17
fn one17(l: &mut L, n: u32, x: f64, i: R, k: R) {
    let (Some(gi), Some(gk)) = (l.val("In", || In(n, x)), l.val("Kn", || Kn(n, x))) else { return };
    if okn(i) {
        l.tol(if n < 2 { "I0, I1" } else { "I_n" }, gi, i.hi, i.err(gi).abs(), (3e-14 + 3e-16 * x.max(n as f64)) * i.abs());
    } else if i.hi < 1.0 {
        l.tol("I_n underflow", gi, i.hi, i.err(gi).abs(), 1e-305);
    }
    if i.hi > 1.0 && !okn(i) {
        l.check(gi > 1.78e308, || format!("I_{n}({x:e}) = {gi:e}, reference {:e}", i.hi));
    }
    if okn(k) {
        l.tol(if n < 2 { "K0, K1" } else { "K_n" }, gk, k.hi, k.err(gk).abs(), (3e-14 + 3e-16 * n as f64) * k.abs());
    } else if k.hi > 1.0 {
        l.check(gk > 1.78e308, || format!("K_{n}({x:e}) = {gk:e}, reference {:e}", k.hi));
    } else {
        l.tol("K_n underflow", gk, k.hi, k.err(gk).abs(), 1e-305);
    }
}
fn c17(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let n = v[0] as usize;
    let (i, k) = (bessel_row(Kind::I, 0.0, v[1], n), bessel_row(Kind::K, 0.0, v[1], n));
    one17(l, n as u32, v[1], i[n], k[n]);
}
fn r17(c: &Ctx, t: &mut L) {
    let mut xs = xs(c.pick(10, 12), -8, 10, c.pick(10230, 10230));
    xs.retain(|x| *x <= 714.0);
    xs.extend(grid(690.0, 714.0, c.pick(240, 1200)));
    let xs = tidy(xs);
    let n = c.pick(200, 400);
    t.sample(|| format!("{} x, orders 0..={n}", xs.len()));
    c.par(t, xs.len(), |l, i| {
        let x = xs[i];
        let (a, b) = (bessel_row(Kind::I, 0.0, x, n), bessel_row(Kind::K, 0.0, x, n));
        for o in 0..=n {
            l.states += 1;
            l.trans += (o > 0) as u64;
            l.begin("ik", &[o as f64, x]);
            one17(l, o as u32, x, a[o], b[o]);
        }
        l.traces += 1;
        if i % c.pick(16, 4) == 0 {
            for o in [150, 250, 500, 1000] {
                l.states += 1;
                c17(l, "ik", &[o as f64, x]);
            }
        }
    });
    c.rank1(t, c.pick(150_000, 1_500_000), |l, u| c17(l, "ik", &ordinal(u, 6000.0)));
    // beyond the overflow of I_0: the orders between the overflow and the underflow of I_n
    let (dx, dn) = (c.pick(50, 10), c.pick(40, 7));
    let far: Vec<f64> = (0..).map(|k| 700.0 + 0.37 + (k * dx) as f64).take_while(|x| *x < 6000.0).collect();
    c.par(t, far.len(), |l, i| {
        let x = far[i];
        let top = (2.2 * x + 400.0) as usize;
        let (a, b) = (bessel_row(Kind::I, 0.0, x, top), bessel_row(Kind::K, 0.0, x, top));
        for o in (0..=top).step_by(dn).chain([1, 2, 3]) {
            l.states += 1;
            l.begin("ik", &[o as f64, x]);
            one17(l, o as u32, x, a[o], b[o]);
        }
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P18
fn c18(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let (n, x) = (v[0] as u32, v[1]);
    match kind {
        "jy" => {
            let f = |o: u32| (Jn(o, x), Yn(o, x));
            let (Some(p), Some(q), Some(r)) = (l.val("Jn/Yn", || f(n)), l.val("Jn/Yn", || f(n + 1)), l.val("Jn/Yn", || f(n + 2))) else { return };
            jy18(l, n, x, p, q, r);
        }
        "ik" => {
            let f = |o: u32| (In(o, x), Kn(o, x));
            let (Some(p), Some(q), Some(r)) = (l.val("In/Kn", || f(n)), l.val("In/Kn", || f(n + 1)), l.val("In/Kn", || f(n + 2))) else { return };
            ik18(l, n, x, p, q, r);
        }
        "par" => {
            let (Some(a), Some(b)) = (l.val("Jn", || Jn(n, x)), l.val("Jn", || Jn(n, -x))) else { return };
            let s = if n % 2 == 1 { -1.0 } else { 1.0 };
            l.check(b == s * a, || format!("J_{n}({x:e}) = {a:e} but J_{n}(-x) = {b:e}"));
            let (Some(a), Some(b)) = (l.val("In", || In(n, x)), l.val("In", || In(n, -x))) else { return };
            l.check(b == s * a, || format!("I_{n}({x:e}) = {a:e} but I_{n}(-x) = {b:e}"));
        }
        _ => {
            // Neumann's addition sums: sum of the whole sequence of orders
            let top = (1.3 * x + 60.0) as u32;
            let Some((s, i)) = l.val("Jn/In", || {
                let (mut s, mut i) = (Jn(0, x), In(0, x));
                for k in 1..top {
                    if k % 2 == 0 {
                        s += 2.0 * Jn(k, x);
                    }
                    if x < 709.0 {
                        i += 2.0 * In(k, x);
                    }
                }
                (s, i)
            }) else { return };
            l.tol("J0 + 2 J2 + 2 J4 + ... = 1", s, 1.0, (s - 1.0).abs(), 4e-14 * (1.0 + x.sqrt()) + 1e-15 * x);
            if x < 709.0 {
                l.tol("I0 + 2 I1 + 2 I2 + ... = exp(x)", i, x.exp(), (i / x.exp() - 1.0).abs(), 4e-14 + 6e-16 * x);
            }
        }
    }
}
fn fin(v: &[f64]) -> bool {
    v.iter().all(|a| a.abs() < 1e290)
}
fn jy18(l: &mut L, n: u32, x: f64, p: (f64, f64), q: (f64, f64), r: (f64, f64)) {
    if fin(&[q.1]) && q.0.abs() > 1e-270 {
        let w = 2.0 / (PI * x);
        let g = q.0 * p.1 - p.0 * q.1;
        l.tol("J_{n+1} Y_n - J_n Y_{n+1} = 2/(pi x)", g, w, (g - w).abs(), (6e-14 + 6e-16 * x) * ((q.0 * p.1).abs() + (p.0 * q.1).abs() + w));
    }
    let f = 2.0 * (n as f64 + 1.0) / x;
    if r.0.abs() > 1e-270 {
        let d = p.0 + r.0 - f * q.0;
        let s = if x <= n as f64 { p.0.abs() + r.0.abs() } else { (p.0.abs() + r.0.abs()).max(p.0.hypot(p.1) + r.0.hypot(r.1)) };
        l.tol("J_n + J_{n+2} = 2(n+1)/x J_{n+1}", p.0 + r.0, f * q.0, d.abs(), (6e-14 + 6e-16 * x) * s);
    }
    if fin(&[r.1]) {
        let d = p.1 + r.1 - f * q.1;
        let s = (p.1.abs() + r.1.abs()).max(if x <= n as f64 { 0.0 } else { p.0.hypot(p.1) + r.0.hypot(r.1) });
        l.tol("Y_n + Y_{n+2} = 2(n+1)/x Y_{n+1}", p.1 + r.1, f * q.1, d.abs(), (6e-14 + 6e-16 * x) * s);
    }
}
fn ik18(l: &mut L, n: u32, x: f64, p: (f64, f64), q: (f64, f64), r: (f64, f64)) {
    if fin(&[q.1]) && q.0 > 1e-270 && x < 709.0 {
        let g = p.0 * q.1 + q.0 * p.1;
        l.tol("I_n K_{n+1} + I_{n+1} K_n = 1/x", g, 1.0 / x, (g * x - 1.0).abs(), 6e-14 + 6e-16 * x);
    }
    let f = 2.0 * (n as f64 + 1.0) / x;
    if r.0 > 1e-270 && x < 709.0 {
        let d = p.0 - r.0 - f * q.0;
        l.tol("I_n - I_{n+2} = 2(n+1)/x I_{n+1}", p.0 - r.0, f * q.0, d.abs(), (6e-14 + 6e-16 * x) * (p.0 + r.0));
        l.check(q.0 <= p.0 * (1.0 + 1e-13) && r.0 <= q.0 * (1.0 + 1e-13), || format!("I_{n}..I_{} at {x:e} not decreasing: {} {} {}", n + 2, p.0, q.0, r.0));
    }
    if fin(&[r.1]) && p.1 > 1e-270 {
        let d = r.1 - p.1 - f * q.1;
        l.tol("K_{n+2} - K_n = 2(n+1)/x K_{n+1}", r.1 - p.1, f * q.1, d.abs(), 4e-14 * (p.1 + r.1));
        l.check(q.1 >= p.1 && r.1 >= q.1, || format!("K_{n}..K_{} at {x:e} not increasing: {} {} {}", n + 2, p.1, q.1, r.1));
    }
}
fn r18(c: &Ctx, t: &mut L) {
    let mut xs = xs(c.pick(7, 9), -10, 14, c.pick(4000, 20000));
    xs.extend(dyadic(3, 14, 20));
    xs.extend(around(&decimals(1, 200, 1.0), 1));
    let xs = tidy(xs);
    let n = c.pick(150, 400);
    t.sample(|| format!("{} x, all triples of neighbouring orders up to {n}", xs.len()));
    c.par(t, xs.len(), |l, i| {
        let x = xs[i];
        let jy = |o: u32| (Jn(o, x), Yn(o, x));
        let ik = |o: u32| (In(o, x), Kn(o, x));
        l.begin("jy", &[0.0, x]);
        let Some(a) = l.val("Jn/Yn", || (0..=n + 2).map(jy).collect::<Vec<_>>()) else { return };
        l.begin("ik", &[0.0, x]);
        let Some(b) = l.val("In/Kn", || (0..=n + 2).map(ik).collect::<Vec<_>>()) else { return };
        l.evals += 4 * (n as u64 + 2);
        for o in 0..=n {
            let k = o as usize;
            l.begin("jy", &[o as f64, x]);
            jy18(l, o, x, a[k], a[k + 1], a[k + 2]);
            l.begin("ik", &[o as f64, x]);
            ik18(l, o, x, b[k], b[k + 1], b[k + 2]);
            c18(l, "par", &[o as f64, x]);
            l.states += 1;
            l.trans += 4;
        }
        if x <= 800.0 && (i % c.pick(4, 2) == 0) {
            c18(l, "neu", &[0.0, x]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(1_500_000, 15_000_000), |l, u| {
        let n = logu(u[0], 1.0, 700.0) as f64;
        let x = if u[2] < 0.5 { n * logu(u[1], 0.05, 8.0) } else { logu(u[1], 0.05, 1000.0) };
        let v = [n.floor() - 1.0, x];
        l.trans += 4;
        c18(l, "jy", &v);
        c18(l, "ik", &v);
        c18(l, "par", &v);
    });
    // high orders
    let mut high: Vec<u32> = [64, 100, 128, 150, 200, 256, 257, 300, 400, 512, 513, 700, 1000, 1024].iter().flat_map(|n| [n - 2, n - 1, *n, n + 1]).collect();
    high.extend(61..c.pick(100, 700));
    if c.thorough {
        high.extend([2000, 4094, 4096, 5000, 10000, 32767, 32768, 65535, 65536]);
    }
    high.sort();
    high.dedup();
    t.sample(|| format!("{} high orders at fractions and multiples of the order", high.len()));
    c.par(t, high.len(), |l, i| {
        let o = high[i];
        let mut xs: Vec<f64> = [0.02, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.99, 1.0, 1.01, 1.05, 1.1, 1.2, 1.5, 2.0, 3.0, 5.0, 9.0, 30.0].map(|f| o as f64 * f).to_vec();
        xs.extend([0.5, 1.0, 2.0, 5.0, 8.0, 10.0, 20.0, 30.0, 60.0, 100.0, 200.0, 350.0, 600.0, 1000.0]);
        xs.extend((-2..=4).map(|k| (o as i64 + k) as f64));
        for x in tidy(xs) {
            c18(l, "jy", &[o as f64, x]);
            c18(l, "ik", &[o as f64, x]);
            c18(l, "par", &[o as f64, x]);
            l.states += 1;
            l.trans += 4;
        }
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P19, P20
struct Ref4 {
    f: R,
    g: R,
    f1: R,
    g1: R,
}
fn ref4(kinds: (Kind, Kind), nu: f64, x: f64) -> Ref4 {
    let (k, nu0) = (nu.floor() as usize, nu - nu.floor());
    let (a, b) = (bessel_row(kinds.0, nu0, x, k + 1), bessel_row(kinds.1, nu0, x, k + 1));
    Ref4 { f: a[k], g: b[k], f1: a[k + 1], g1: b[k + 1] }
}
/// Relative accuracy of the functions of real order. Their exponent at small x is nu ln x.
fn acc(nu: f64, x: f64) -> f64 {
    3e-14 + 4e-16 * nu.max(x) + if x < 1.0 { -3e-16 * x.ln() } else { 0.0 }
}
/// First solution at or below the smallest, second at or above the largest magnitude.
fn edge4(l: &mut L, nu: f64, x: f64, g: [f64; 4], r: &Ref4, s: f64) {
    let t = 2.0 * acc(nu, x);
    let (f, h) = (r.f, R { hi: s * r.g.hi, lo: s * r.g.lo });
    l.tol("first kind, at underflow", g[0], f.hi, f.err(g[0]).abs(), t * f.abs() + 1e-269);
    if h.hi < 1e290 {
        l.tol("second kind, at overflow", g[1], h.hi, h.err(g[1]).abs(), t * h.abs());
    } else {
        l.check(g[1] > 1e289, || format!("second kind: {:e} where the reference is {:e}", g[1], h.hi));
    }
    l.check(g[2].is_finite() && g[2] >= 0.0, || format!("derivative of the first kind: {:e}", g[2]));
    l.check(g[3] > 0.0, || format!("derivative of the second kind: {:e}, should be huge", g[3]));
}
fn c19(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let (nu, x) = (v[0], v[1]);
    let Some(g) = l.val("besseljy", || besseljy(nu, x)) else { return };
    let r = ref4((Kind::J, Kind::Y), nu, x);
    if !okr(r.f) || !okr(r.g1) {
        edge4(l, nu, x, [g.0, -g.1, g.2, g.3], &r, -1.0);
        return;
    }
    let q = nu / x;
    let (dj, dy) = (q * r.f.hi - r.f1.hi, q * r.g.hi - r.g1.hi);
    let amp = r.f.hi.hypot(r.g.hi);
    let t = acc(nu, x);
    if x <= nu {
        l.tol("J, x <= nu", g.0, r.f.hi, r.f.err(g.0).abs(), t * r.f.abs());
        l.tol("J', x <= nu", g.2, dj, (g.2 - dj).abs(), 2.0 * t * (q * r.f.abs() + r.f1.abs()));
        l.tol("Y, x <= nu", g.1, r.g.hi, r.g.err(g.1).abs(), t * r.g.abs());
        l.tol("Y', x <= nu", g.3, dy, (g.3 - dy).abs(), 2.0 * t * (q * r.g.abs() + r.g1.abs()));
    } else {
        let damp = q * amp + r.f1.hi.hypot(r.g1.hi);
        l.tol("J, x > nu", g.0, r.f.hi, r.f.err(g.0).abs(), t * amp);
        l.tol("J', x > nu", g.2, dj, (g.2 - dj).abs(), t * damp);
        l.tol("Y, x > nu", g.1, r.g.hi, r.g.err(g.1).abs(), t * amp);
        l.tol("Y', x > nu", g.3, dy, (g.3 - dy).abs(), t * damp);
        if x < 2.0 {
            let y = amp.max(1.0);
            l.tol("J, x < 2", g.0, r.f.hi, r.f.err(g.0).abs(), t * r.f.abs().max(0.1));
            l.tol("Y, x < 2", g.1, r.g.hi, r.g.err(g.1).abs(), t * y);
        }
    }
}
pub fn nus(m: u32, top: f64) -> Vec<f64> {
    let mut v = vec![];
    let n = 1i64 << m;
    let full = 12.0f64.min(top);
    v.extend(decimals(0, (full * n as f64) as i64, n as f64));
    v.extend(decimals(0, (full * 10.0) as i64, 10.0));
    v.extend(decimals(0, (top * 4.0) as i64, 4.0));
    for k in 0..8 {
        v.extend(around(&[k as f64 / 2.0], 2).into_iter().filter(|a| *a >= 0.0 && (*a == 0.0 || *a > 1e-300)));
    }
    for k in 1..50 {
        let e = 2f64.powi(-k);
        for b in [0.0, 0.5, 1.0, 2.5] {
            v.push(b + e);
            if b > e {
                v.push(b - e);
            }
        }
    }
    v.extend([1e-300, 1e-100, 1e-20]);
    v.retain(|a| *a >= 0.0 && *a <= top);
    tidy(v)
}
pub fn fxs(m: u32, lo: i32, hi: f64, n: i64) -> Vec<f64> {
    let mut v = dyadic(m, lo, 11);
    v.extend(dyadic(m.min(3), 11, 14));
    v.extend(dyadic(0, -40, lo));
    v.extend((5..34).map(|k| 2f64.powi(-10 * k)));
    v.extend(decimals(1, n, 10.0));
    v.extend(decimals(2, 40, 1.0));
    v.extend(around(&[1.0, 2.0], 3));
    v.extend(approach(&[1.0, 2.0, 3.75, 8.0], 3));
    v.retain(|x| *x <= hi);
    tidy(v)
}
/// Orders next to every integer and half-integer up to 24, and arguments for them.
fn near(c: &Ctx, hi: f64) -> (Vec<f64>, Vec<f64>) {
    let mut nu = approach(&(0..=48).map(|k| k as f64 / 2.0).collect::<Vec<_>>(), c.pick(3, 1));
    nu.retain(|n| *n >= 0.0);
    let mut xs = dyadic(0, -8, 14);
    xs.extend(decimals(1, 24, 1.0).iter().map(|k| k * 1.3));
    xs.retain(|x| *x <= hi);
    (tidy(nu), tidy(xs))
}
/// Orders and arguments of a rank-1 lattice
fn generic(u: [f64; 4], hi: f64) -> [f64; 2] {
    if u[2] > 0.85 {
        let nu = logu(u[0], 50.0, 1500.0);
        let x = if u[3] < 0.5 { nu + (u[1] - 0.5) * 16.0 * nu.cbrt() } else { nu * logu(u[1], 0.2, 5.0) };
        return [nu, x.min(0.99 * hi)];
    }
    let nu = if u[2] < 0.5 { 60.0 * u[0] } else { logu(u[0], 1e-3, 60.0) };
    let x = match (u[3] * 4.0) as u32 {
        0 => 4.0 * u[1],
        1 => nu + (u[1] - 0.5) * 20.0,
        2 => nu * logu(u[1], 0.1, 10.0),
        _ => logu(u[1], 1e-2, hi),
    };
    [nu, if x > 1e-3 && x < hi { x } else { 0.1 + 60.0 * u[1] }]
}
fn r19(c: &Ctx, t: &mut L) {
    pairs(c, t, "jy", 9000.0);
}
fn pairs(c: &Ctx, t: &mut L, kind: &'static str, hi: f64) {
    let (mut nu, xs) = (nus(c.pick(4, 6), 61.0), fxs(c.pick(4, 7), -10, hi, c.pick(100, 1000)));
    nu.extend([80.5, 99.9, 100.0, 150.25, 200.0, 250.6, 333.3, 500.5, 1000.0]);
    t.sample(|| format!("all {} orders x {} arguments", nu.len(), xs.len()));
    c.par(t, nu.len(), |l, i| {
        for (k, &x) in xs.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            (c.case)(l, kind, &[nu[i], x]);
        }
        // the turning point, and the switch of the recurrence length at x = nu + 1/2 - k
        let mut near = approach(&[nu[i]], 6);
        near.extend((-8..=8).flat_map(|k| around(&[nu[i] + k as f64 * 0.5], 1)));
        {
            for x in near {
                if x > 1e-10 && x <= hi {
                    l.states += 1;
                    (c.case)(l, kind, &[nu[i], x]);
                }
            }
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(800_000, 4_000_000), |l, u| {
        let v = generic(u, hi);
        (c.case)(l, kind, &v);
    });
    let (nu, xs) = near(c, hi);
    t.sample(|| format!("{} orders next to integers and half-integers x {} arguments", nu.len(), xs.len()));
    c.par(t, nu.len(), |l, i| {
        for (k, &x) in xs.iter().enumerate() {
            l.states += 1;
            l.trans += (k > 0) as u64;
            (c.case)(l, kind, &[nu[i], x]);
        }
        l.traces += 1;
    });
}
/// I at overflow, K at underflow
fn ends4(l: &mut L, nu: f64, x: f64, g: (f64, f64, f64, f64), r: &Ref4) {
    let t = acc(nu, x);
    if okn(r.f) {
        l.tol("I, K underflows", g.0, r.f.hi, r.f.err(g.0).abs(), t * r.f.abs());
        l.check(g.2 >= 0.999 * nu / x * g.0, || format!("I' = {:e} where I = {:e}", g.2, g.0));
    } else {
        l.check(g.0 > 1.78e308 && g.2 > 1e307, || format!("I, I' = {:e}, {:e}, where I should be {:e}", g.0, g.2, r.f.hi));
    }
    l.tol("K underflow", g.1, r.g.hi, r.g.err(g.1).abs(), 1e-305 + 1e-13 * r.g.abs());
    l.check(g.3 <= 0.0 && g.3 > -1e-302, || format!("K' = {:e} where K = {:e}", g.3, g.1));
}
fn c20(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let (nu, x) = (v[0], v[1]);
    let Some(g) = l.val("besselik", || besselik(nu, x)) else { return };
    let r = ref4((Kind::I, Kind::K), nu, x);
    if !okn(r.f) || !okn(r.g) || !okn(r.g1) {
        if r.f.hi < 1.0 && r.g.hi > 1.0 {
            edge4(l, nu, x, [g.0, g.1, g.2, -g.3], &r, 1.0);
        } else {
            ends4(l, nu, x, g, &r);
        }
        return;
    }
    let q = nu / x;
    let t = acc(nu, x);
    let (di, dk) = (q * r.f.hi + r.f1.hi, q * r.g.hi - r.g1.hi);
    l.tol("I", g.0, r.f.hi, r.f.err(g.0).abs(), t * r.f.abs());
    if di < 1.79e308 {
        l.tol("I'", g.2, di, (g.2 - di).abs(), t * di.abs());
    } else {
        l.check(g.2 > 1.78e308, || format!("I' = {:e}, reference {di:e}", g.2));
    }
    l.tol("K", g.1, r.g.hi, r.g.err(g.1).abs(), 1.5 * t * r.g.abs());
    l.tol("K'", g.3, dk, (g.3 - dk).abs(), 2.0 * t * dk.abs());
}
fn r20(c: &Ctx, t: &mut L) {
    pairs(c, t, "ik", 720.0);
    // beyond the underflow of K_0 and the overflow of I_0: the orders between the ends of the range of I and K
    let (dx, dn) = (c.pick(100, 20), c.pick(60, 13));
    let far: Vec<f64> = (0..).map(|k| 690.3 + (k * dx) as f64).take_while(|x| *x < 6000.0).chain(grid(690.0, 720.0, c.pick(30, 120))).collect();
    c.par(t, far.len(), |l, i| {
        let x = far[i];
        for o in (0..(2.2 * x + 400.0) as usize).step_by(dn) {
            for f in [0.0, 0.3, 0.5, 0.8] {
                l.states += 1;
                c20(l, "ik", &[o as f64 + f, x]);
            }
        }
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P21
fn c21(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let (nu, x) = (v[0], v[1]);
    let same = |a: f64, b: f64| a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 4e-15 * a.abs();
    // nu + 1 is rounded, which the exponent nu ln x shows
    let t2 = 2.0 * acc(nu + 2.0, x) + 2e-16 * nu * x.ln().abs();
    match kind {
        "jy" => {
            let (Some(a), Some(t)) = (l.val("besseljy", || besseljy(nu, x)), l.val("Jnu_Ynu", || Jnu_Ynu(nu, x))) else { return };
            l.check(same(a.0, t.0) && same(a.1, t.1), || format!("Jnu_Ynu({nu:e},{x:e}) = {t:?}, besseljy gives {a:?}"));
            let (Some(b), Some(d)) = (l.val("besseljy", || besseljy(nu + 1.0, x)), l.val("besseljy", || besseljy(nu + 2.0, x))) else { return };
            if !fin(&[d.1, d.3, a.3, b.3]) || d.0.abs() < 1e-270 && x < nu + 2.0 {
                l.skipped += 1;
                return;
            }
            let w = 2.0 / (PI * x);
            let g = a.0 * a.3 - a.2 * a.1;
            l.tol("J Y' - J' Y = 2/(pi x)", g, w, (g - w).abs(), t2 * w);
            let osc = x > nu;
            let sj = |p: (f64, f64, f64, f64)| if osc { p.0.hypot(p.1) } else { p.0.abs() };
            let sy = |p: (f64, f64, f64, f64)| if osc { p.0.hypot(p.1) } else { p.1.abs() };
            let q = nu / x;
            l.tol("J' = nu/x J - J_{nu+1}", a.2, q * a.0 - b.0, (a.2 - q * a.0 + b.0).abs(), t2 * (q * sj(a) + sj(b)));
            l.tol("Y' = nu/x Y - Y_{nu+1}", a.3, q * a.1 - b.1, (a.3 - q * a.1 + b.1).abs(), t2 * (q * sy(a) + sy(b)));
            let q = (nu + 1.0) / x;
            l.tol("J'_{nu+1} = J_nu - (nu+1)/x J_{nu+1}", b.2, a.0 - q * b.0, (b.2 - a.0 + q * b.0).abs(), t2 * (sj(a) + q * sj(b)));
            l.tol("Y'_{nu+1} = Y_nu - (nu+1)/x Y_{nu+1}", b.3, a.1 - q * b.1, (b.3 - a.1 + q * b.1).abs(), t2 * (sy(a) + q * sy(b)));
            l.tol("J_nu + J_{nu+2} = 2(nu+1)/x J_{nu+1}", a.0 + d.0, 2.0 * q * b.0, (a.0 + d.0 - 2.0 * q * b.0).abs(), t2 * (sj(a) + sj(d) + q * sj(b)));
            l.tol("Y_nu + Y_{nu+2} = 2(nu+1)/x Y_{nu+1}", a.1 + d.1, 2.0 * q * b.1, (a.1 + d.1 - 2.0 * q * b.1).abs(), t2 * (sy(a) + sy(d) + q * sy(b)));
        }
        "ik" => {
            let (Some(a), Some(t)) = (l.val("besselik", || besselik(nu, x)), l.val("Inu_Knu", || Inu_Knu(nu, x))) else { return };
            l.check(same(a.0, t.0) && same(a.1, t.1), || format!("Inu_Knu({nu:e},{x:e}) = {t:?}, besselik gives {a:?}"));
            let (Some(b), Some(d)) = (l.val("besselik", || besselik(nu + 1.0, x)), l.val("besselik", || besselik(nu + 2.0, x))) else { return };
            if !fin(&[d.1, d.3, a.3, b.3]) || d.0 < 1e-270 || a.1 < 1e-270 || x > 709.0 {
                l.skipped += 1;
                return;
            }
            let w = 1.0 / x;
            let g = a.2 * a.1 - a.0 * a.3;
            l.tol("I' K - I K' = 1/x", g, w, (g - w).abs(), t2 * w);
            let q = nu / x;
            l.tol("I' = nu/x I + I_{nu+1}", a.2, q * a.0 + b.0, (a.2 - q * a.0 - b.0).abs(), t2 * a.2.abs());
            l.tol("K' = nu/x K - K_{nu+1}", a.3, q * a.1 - b.1, (a.3 - q * a.1 + b.1).abs(), t2 * (q * a.1 + b.1));
            let q = (nu + 1.0) / x;
            l.tol("I'_{nu+1} = I_nu - (nu+1)/x I_{nu+1}", b.2, a.0 - q * b.0, (b.2 - a.0 + q * b.0).abs(), t2 * (a.0 + q * b.0));
            l.tol("K'_{nu+1} = -K_nu - (nu+1)/x K_{nu+1}", b.3, -a.1 - q * b.1, (b.3 + a.1 + q * b.1).abs(), t2 * (a.1 + q * b.1));
            l.tol("I_nu - I_{nu+2} = 2(nu+1)/x I_{nu+1}", a.0 - d.0, 2.0 * q * b.0, (a.0 - d.0 - 2.0 * q * b.0).abs(), t2 * (a.0 + d.0 + q * b.0));
            l.tol("K_{nu+2} - K_nu = 2(nu+1)/x K_{nu+1}", d.1 - a.1, 2.0 * q * b.1, (d.1 - a.1 - 2.0 * q * b.1).abs(), t2 * (a.1 + d.1 + q * b.1));
        }
        "int" => {
            let n = nu as u32;
            let (Some(a), Some(b)) = (l.val("besseljy", || besseljy(nu, x)), l.val("besselik", || besselik(nu, x))) else { return };
            let (Some(j), Some(y)) = (l.val("Jn", || Jn(n, x)), l.val("Yn", || Yn(n, x))) else { return };
            let (Some(i), Some(k)) = (l.val("In", || In(n, x)), l.val("Kn", || Kn(n, x))) else { return };
            if fin(&[y, k]) && j.abs() > 1e-270 && i.abs() > 1e-270 {
                let s = j.hypot(y);
                let (sj, sy) = if x <= nu { (j.abs(), y.abs()) } else { (s, s.max(if x < 1.0 { 1.0 } else { 0.0 })) };
                l.tol("besseljy = Jn", a.0, j, (a.0 - j).abs(), 1.5 * acc(nu, x) * sj);
                l.tol("besseljy = Yn", a.1, y, (a.1 - y).abs(), 1.5 * acc(nu, x) * sy);
                if x < 709.0 {
                    l.tol("besselik = In", b.0, i, (b.0 - i).abs(), 1.5 * acc(nu, x) * i);
                    l.tol("besselik = Kn", b.1, k, (b.1 - k).abs(), 8e-14 * k + 1e-290);
                }
            }
        }
        _ => {
            // J_{1/2} = sqrt(2/(pi x)) sin x, Y_{1/2} = -sqrt(2/(pi x)) cos x, and the 3/2 forms
            let s = (2.0 / (PI * x)).sqrt();
            let h = (PI / (2.0 * x)).sqrt() * (-x).exp();
            let (Some(a), Some(b)) = (l.val("besseljy", || besseljy(nu, x)), l.val("besselik", || besselik(nu, x))) else { return };
            let (j, y, i, k) = if nu == 0.5 {
                (s * x.sin(), -s * x.cos(), s * x.sinh(), h)
            } else {
                let big = x > 0.2;
                let j = if big { x.sin() / x - x.cos() } else { x * x / 3.0 * (1.0 - x * x / 10.0 * (1.0 - x * x / 28.0 * (1.0 - x * x / 54.0 * (1.0 - x * x / 88.0)))) };
                let i = if big { x.cosh() - x.sinh() / x } else { x * x / 3.0 * (1.0 + x * x / 10.0 * (1.0 + x * x / 28.0 * (1.0 + x * x / 54.0 * (1.0 + x * x / 88.0)))) };
                (s * j, -s * (x.cos() / x + x.sin()), s * i, h * (1.0 + 1.0 / x))
            };
            let amp = j.hypot(y);
            let (sj, sy) = if x < 1.0 { (j.abs(), y.abs()) } else { (amp, amp) };
            l.tol("J closed form", a.0, j, (a.0 - j).abs(), 1.5 * acc(nu, x) * sj);
            l.tol("Y closed form", a.1, y, (a.1 - y).abs(), 1.5 * acc(nu, x) * sy);
            if x < 709.0 {
                l.tol("I closed form", b.0, i, (b.0 - i).abs(), 1.5 * acc(nu, x) * i);
                l.tol("K closed form", b.1, k, (b.1 - k).abs(), 8e-14 * k + 1e-290);
            }
        }
    }
}
fn r21(c: &Ctx, t: &mut L) {
    let (nu, xs) = (nus(c.pick(5, 6), 60.0), fxs(c.pick(6, 8), -12, 9000.0, c.pick(600, 3000)));
    t.sample(|| format!("all {} orders x {} arguments", nu.len(), xs.len()));
    c.par(t, nu.len(), |l, i| {
        for &x in &xs {
            l.states += 1;
            l.trans += 4;
            c21(l, "jy", &[nu[i], x]);
            if x <= 700.0 {
                c21(l, "ik", &[nu[i], x]);
            }
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(1_500_000, 10_000_000), |l, u| {
        let v = generic(u, 9000.0);
        l.trans += 4;
        c21(l, "jy", &v);
        if v[1] <= 700.0 {
            c21(l, "ik", &v);
        }
    });
    let (nu, xs) = near(c, 9000.0);
    c.par(t, nu.len(), |l, i| {
        for &x in &xs {
            l.states += 1;
            l.trans += 4;
            c21(l, "jy", &[nu[i], x]);
            if x <= 700.0 {
                c21(l, "ik", &[nu[i], x]);
            }
        }
        l.traces += 1;
    });
    // high orders: a counter or a table in the recurrences that ends somewhere shows here
    let mut high: Vec<f64> = around(&[63.0, 64.0, 100.0, 127.0, 128.0, 255.0, 256.0, 257.0, 511.0, 512.0, 1000.0, 1023.0], 1);
    high.extend([80.5, 99.9, 127.75, 150.25, 200.3, 255.4, 256.25, 256.5, 258.25, 260.25, 290.25, 300.25, 333.3, 400.0, 500.5, 513.25, 768.75, 1000.3]);
    high.extend(decimals(61, c.pick(140, 600), 1.0).iter().map(|n| n + 0.25));
    if c.thorough {
        high.extend((1..=12).map(|k| 512.0 * k as f64 + 0.3));
    }
    let high = tidy(high);
    t.sample(|| format!("{} high orders x fractions and multiples of the order", high.len()));
    c.par(t, high.len(), |l, i| {
        let nu = high[i];
        let mut xs: Vec<f64> = [1.0, 2.0, 5.0, 10.0, 20.0, 30.0, 60.0, 100.0, 200.0, 350.0, 600.0].into_iter().filter(|x| *x > nu / 60.0).collect();
        xs.extend([0.02, 0.05, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 0.98, 0.99, 1.0, 1.01, 1.02, 1.05, 1.1, 1.2, 1.5, 2.0, 3.0, 5.0, 9.0].map(|f| nu * f));
        xs.extend((-8..=8).map(|k| nu + 0.5 * k as f64));
        // arguments from about 1e4 are documented to panic
        for x in tidy(xs).into_iter().filter(|x| *x < 9000.0) {
            l.states += 1;
            l.trans += 4;
            c21(l, "jy", &[nu, x]);
            if x <= 700.0 {
                c21(l, "ik", &[nu, x]);
            }
        }
        l.traces += 1;
    });
    let fine = fxs(c.pick(10, 12), -12, 900.0, c.pick(9000, 9000));
    t.sample(|| format!("closed forms and integer orders at {} arguments", fine.len()));
    c.par(t, fine.len(), |l, i| {
        for n in 0..=c.pick(30, 60) {
            l.states += 1;
            l.trans += 1;
            c21(l, "int", &[n as f64, fine[i]]);
        }
        for h in [0.5, 1.5] {
            l.states += 1;
            l.trans += 1;
            c21(l, "half", &[h, fine[i]]);
        }
        l.traces += 1;
    });
}
