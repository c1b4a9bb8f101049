//! P28 special values, P29 utilities, P30 Lambert W.
use crate::eng::*;
use crate::refm;
use crate::Check;
use puruspe::utils::{factorial, frexp, ldexp, sign};
use puruspe::*;
use std::f64::consts::PI;

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "P28", kinds: &["spec", "nan", "edge", "ends"], case: c28, run: r28, space: "a table of every function at its zeros, poles, infinities and signed zeros, and NaN in every argument position of every function without a documented panic, combined with every other argument from a special-value alphabet; dense lattices over the last decades before overflow and underflow of gamma, erfc, erfcx, dawson and ln_gamma, against the reference model" },
        Check { id: "P29", kinds: &["frexp", "ldexp", "fact", "sign"], case: c29, run: r29, space: "frexp and ldexp over every exponent x significand patterns x signs x shifts -2200..2200 and the extremes of i32, against the C library; factorial 0..=2000 and up to usize::MAX; sign over all pairs of a special-value alphabet; the whole in a release build and in a build with overflow checks and debug assertions" },
        Check { id: "P30", kinds: &["w0", "wm1", "cplx"], case: c30, run: r30, space: "lambert_w0/wm1 and the single-precision versions on dense dyadic lattices down to the branch point and to 1e-300/1e300; lambert_w(k,z) for k=-6..6 over polar and Cartesian lattices of z and a rank-1 lattice" },
    ]
}
const NAN: f64 = f64::NAN;
const INF: f64 = f64::INFINITY;
// ---------------------------------------------------------------- P28
/// (name, function on one argument); orders are folded into the name.
fn unary() -> Vec<(&'static str, fn(f64) -> f64)> {
    vec![
        ("gamma", gamma as fn(f64) -> f64),
        ("ln_gamma", ln_gamma),
        ("erf", erf),
        ("erfc", erfc),
        ("erfcx", erfcx),
        ("inverf", inverf),
        ("inverfc", inverfc),
        ("dawson", dawson),
        ("lambert_w0", lambert_w0),
        ("lambert_wm1", lambert_wm1),
        ("sp_lambert_w0", sp_lambert_w0),
        ("sp_lambert_wm1", sp_lambert_wm1),
        ("factorial_as_f64", |x| factorial(x as usize)),
    ]
}
fn intord() -> [(&'static str, fn(u32, f64) -> f64); 4] {
    [("Jn", Jn), ("Yn", Yn), ("In", In), ("Kn", Kn)]
}
/// (index into unary(), argument, expected); NaN means NaN, the sign of zero is checked.
fn table() -> Vec<(usize, f64, f64)> {
    let f = |n: &str| unary().iter().position(|u| u.0 == n).unwrap();
    let mut t = vec![];
    let mut add = |n: &str, v: &[(f64, f64)]| t.extend(v.iter().map(|p| (f(n), p.0, p.1)));
    add("gamma", &[(0.0, INF), (-0.0, -INF), (INF, INF), (-INF, NAN), (NAN, NAN), (1.0, 1.0), (2.0, 1.0), (180.0, INF), (1e300, INF), (5e-324, INF), (-5e-324, -INF)]);
    for k in 0..62 {
        add("gamma", &[(-(2f64.powi(k)), NAN)]);
    }
    for k in 1..=400 {
        add("gamma", &[(-k as f64, NAN)]);
    }
    add("ln_gamma", &[(NAN, NAN), (0.0, INF)]);
    add("erf", &[(NAN, NAN), (0.0, 0.0), (INF, 1.0), (-INF, -1.0), (1e300, 1.0), (-1e300, -1.0)]);
    add("erfc", &[(NAN, NAN), (0.0, 1.0), (INF, 0.0), (-INF, 2.0), (1e300, 0.0), (-1e300, 2.0)]);
    add("erfcx", &[(NAN, NAN), (0.0, 1.0), (INF, 0.0), (-INF, INF), (-1e300, INF), (-27.0, INF)]);
    add("inverfc", &[(NAN, NAN), (0.0, 100.0), (-1.0, 100.0), (2.0, -100.0), (3.0, -100.0), (INF, -100.0), (-INF, 100.0)]);
    add("inverf", &[(NAN, NAN), (1.0, 100.0), (-1.0, -100.0), (2.0, 100.0), (-2.0, -100.0), (INF, 100.0), (-INF, -100.0)]);
    add("dawson", &[(NAN, NAN), (0.0, 0.0), (INF, 0.0), (-INF, 0.0)]);
    add("lambert_w0", &[(NAN, NAN), (0.0, 0.0), (INF, INF), (-1.0, NAN), (-0.3679, NAN), (-INF, NAN)]);
    add("lambert_wm1", &[(NAN, NAN), (1.0, NAN), (INF, NAN), (-1.0, NAN), (-0.3679, NAN), (-INF, NAN)]);
    add("sp_lambert_w0", &[(NAN, NAN), (0.0, 0.0), (INF, INF), (-1.0, NAN), (-0.3679, NAN), (-INF, NAN)]);
    add("sp_lambert_wm1", &[(NAN, NAN), (1.0, NAN), (INF, NAN), (-1.0, NAN), (-0.3679, NAN), (-INF, NAN)]);
    t
}
fn alike(g: f64, w: f64) -> bool {
    if w.is_nan() {
        g.is_nan()
    } else if w.is_finite() && w != 0.0 && w.abs() != 100.0 || w == 0.0 && g.is_finite() {
        // a rounding error is not a wrong special value
        (g - w).abs() <= 4e-15 * w.abs().max(if w == 0.0 { 0.0 } else { 1.0 })
    } else {
        g == w
    }
}
fn bessel_specials(l: &mut L, i: usize, n: u32, x: f64) {
    let (name, f) = intord()[i];
    let Some(g) = l.val(name, || f(n, x)) else { return };
    let odd = n % 2 == 1;
    // limits that every order has
    let want = match (i, x) {
        (_, x) if x.is_nan() => NAN,
        (0, x) if x.is_infinite() => 0.0,
        (1, INF) => 0.0,
        (2, x) if x.is_infinite() => if odd { x } else { INF },
        (0 | 2, 0.0) => {
            let w = if n == 0 { 1.0 } else { 0.0 };
            return l.tol("value at 0", g, w, (g - w).abs(), if n == 0 { 1e-14 } else { 0.0 });
        }
        (1, 0.0) => -INF,
        (3, 0.0) => INF,
        (1 | 3, x) if x < 0.0 => NAN,
        (3, x) if x == INF || x >= 800.0 && n == 0 => 0.0,
        (2, x) if x.is_finite() && x.abs() >= 800.0 && n <= 2 => {
            if x < 0.0 && odd {
                -INF
            } else {
                INF
            }
        }
        (0, x) if x.is_finite() => return l.check(g.abs() <= 1.0 + 1e-12, || format!("|J_{n}({x:e})| = {g:e} > 1")),
        (1, x) if x.is_finite() && x > 1.0 && x > n as f64 => return l.check(g.abs() <= 1.0 + 1e-12, || format!("|Y_{n}({x:e})| = {g:e} > 1")),
        _ => {
            l.skipped += 1;
            return;
        }
    };
    l.check(alike(g, want), || format!("{name}({n},{x:e}) = {g:e}, should be {want:e}"));
}
type EdgeFn = (&'static str, fn(f64) -> f64, fn(f64) -> refm::R);
const EDGE: [EdgeFn; 5] = [("gamma", gamma, refm::gamma), ("ln_gamma", ln_gamma, refm::lgamma), ("erfc", erfc, refm::erfc), ("erfcx", erfcx, refm::erfcx), ("dawson", dawson, refm::dawson)];
fn edge_points(i: usize, c: &Ctx) -> Vec<f64> {
    let n = c.pick(4000, 40000);
    let mut v = match i {
        0 => {
            let mut v = grid(160.0, 175.0, n);
            v.extend(grid(-190.0, -140.0, n));
            v.extend(around(&[171.624_376_956_302_7, 171.0, 170.0], 30));
            v.extend(both(spread(5e-324, 1e-290, n as u64 / 4)));
            v.extend(both((-1074..-900).map(p2).collect()));
            v
        }
        1 => spread(1e-300, 1e300, n as u64),
        2 => [grid(20.0, 28.0, n), around(&[26.0, 26.5, 27.0], 20)].concat(),
        3 => [grid(-27.5, -20.0, n), both(spread(1.0, 1e308, n as u64 / 2)), around(&[-26.7, -26.641747557046326], 200)].concat(),
        _ => both(spread(1e-307, 1e307, n as u64)),
    };
    v.retain(|x| i != 0 || x.fract() != 0.0 || *x > 0.0);
    tidy(v)
}
/// No function reaches 0 or an infinity before its true value does.
fn edge(l: &mut L, i: usize, x: f64) {
    let (name, f, r) = EDGE[i];
    let Some(g) = l.val(name, || f(x)) else { return };
    let w = r(x);
    let ok = if w.hi.is_infinite() {
        g == w.hi
    } else if w.abs() > 1.79e308 {
        g == INF.copysign(w.hi) || w.err(g).abs() <= 1e-6 * w.abs()
    } else if w.abs() < if i == 0 { 1e-305 } else { 2.3e-308 } {
        // gamma's shifts may overflow a little before the quotient underflows
        g.abs() < 1.01e-305 && w.err(g).abs() <= 1e-305
    } else {
        // the zeros of ln_gamma at 1 and 2 are no edge
        w.err(g).abs() <= 1e-6 * if i == 1 { w.abs().max(1e-2) } else { w.abs() }
    };
    l.check(ok, || format!("{name}({x:e}) = {g:e}, true value {:e}", w.hi));
}
/// The incomplete functions and their inverses at the ends of their range.
fn ends(l: &mut L, a: f64, b: f64) {
    let mut is = |what: &str, want: f64, f: &dyn Fn() -> f64| {
        if let Some(g) = l.val(what, f) {
            l.check((g - want).abs() <= if want == 0.0 { 0.0 } else { 4e-15 }, || format!("{what} = {g:e} at a={a:e} b={b:e}, should be {want}"));
        }
    };
    is("gammp(a,0)", 0.0, &|| gammp(a, 0.0));
    is("gammp(a,-0)", 0.0, &|| gammp(a, -0.0));
    is("gammq(a,0)", 1.0, &|| gammq(a, 0.0));
    is("gammp(a,inf)", 1.0, &|| gammp(a, INF));
    is("gammq(a,inf)", 0.0, &|| gammq(a, INF));
    is("gammp(a,max)", 1.0, &|| gammp(a, f64::MAX));
    is("gammq(a,max)", 0.0, &|| gammq(a, f64::MAX));
    for p in [0.0, -0.0, -5e-324, -1.0, -INF] {
        is("invgammp(p<=0,a)", 0.0, &|| invgammp(p, a));
        is("invbetai(p<=0,a,b)", 0.0, &|| invbetai(p, a, b));
    }
    for p in [1.0, 1.5, INF] {
        is("invbetai(p>=1,a,b)", 1.0, &|| invbetai(p, a, b));
        is("invgammp(p>=1,a)", 1.0, &|| (invgammp(p, a) >= 100f64.max(a)) as u8 as f64);
    }
    is("betai(a,b,0)", 0.0, &|| betai(a, b, 0.0));
    is("betai(a,b,-0)", 0.0, &|| betai(a, b, -0.0));
    is("betai(a,b,1)", 1.0, &|| betai(a, b, 1.0));
}
fn c28(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    if kind == "edge" {
        return edge(l, v[0] as usize, v[1]);
    }
    if kind == "ends" {
        return ends(l, v[0], v[1]);
    }
    let (grp, i) = (v[0] as usize, v[1] as usize);
    match grp {
        0 => {
            let (name, f) = unary()[i];
            let (x, w) = (v[2], v[3]);
            let Some(g) = l.val(name, || f(x)) else { return };
            l.check(alike(g, w), || format!("{name}({x:e}) = {g:e}, should be {w:e}"));
            // 0 and infinity come with the right sign where the argument's sign decides
            if w == 0.0 && x == INF {
                l.check(g.is_sign_positive(), || format!("{name}(infinity) = -0"));
            }
        }
        1 => bessel_specials(l, i, v[2] as u32, v[3]),
        _ => {
            let (x, y) = (v[2], v[3]);
            let Some(g) = l.val("faddeeva", || faddeeva(x, y)) else { return };
            let nan = x.is_nan() || y.is_nan();
            if nan {
                l.check(g.0.is_nan() && g.1.is_nan(), || format!("faddeeva({x:e},{y:e}) = {g:?}, should be NaN"));
            } else if y == INF || x.is_infinite() && y >= 0.0 {
                l.check(g.0 == 0.0 && g.1 == 0.0, || format!("faddeeva({x:e},{y:e}) = {g:?}, should be 0"));
            } else if x == 0.0 && y <= -27.0 {
                l.check(g.0 == INF && g.1 == 0.0, || format!("faddeeva({x:e},{y:e}) = {g:?}, should be (inf,0)"));
            } else if x == 0.0 && y == 0.0 {
                l.check(g.0 == 1.0 && g.1 == 0.0, || format!("faddeeva({x:e},{y:e}) = {g:?}, should be (1,0)"));
            } else if x == 0.0 {
                l.check(g.1 == 0.0 && g.0 > 0.0, || format!("faddeeva({x:e},{y:e}) = {g:?}, should be positive real"));
            } else if y == 0.0 {
                l.check(g.0 >= 0.0 && g.0 <= 1.0 && (g.1 == 0.0 || (g.1 > 0.0) == (x > 0.0)), || format!("faddeeva({x:e},{y:e}) = {g:?}: not in the range of w on the real axis"));
            } else if y > 0.0 {
                l.check(g.0 >= 0.0 && g.0 <= 1.0 && g.0.hypot(g.1) <= 1.0 + 1e-14, || format!("faddeeva({x:e},{y:e}) = {g:?}: not in the range of w on the upper half-plane"));
            } else {
                l.skipped += 1;
            }
        }
    }
}
fn wild() -> Vec<f64> {
    let mut v = vec![0.0, 1.0, 2.0, 0.5, 3.0, 7.0, 7.1, 8.0, 27.0, 28.0, 30.0, 50.0, 100.0, 171.0, 172.0, 800.0, 1e3, 5e7, 1e10, 1e100, 1e154, 1e155, 1e160, 1e300, f64::MAX, INF, f64::MIN_POSITIVE, 5e-324, 1e-10, 1e-20, 1e-100, 1e-160, 1e-200, 1e-300, f64::EPSILON];
    v.extend((-1074..1024).step_by(7).map(p2));
    let mut w = v.clone();
    w.extend(v.iter().map(|x| -x));
    w.push(NAN);
    w
}
fn r28(c: &Ctx, t: &mut L) {
    let tab = table();
    t.sample(|| format!("{} table entries, e.g. {:?}", tab.len(), &tab[..3]));
    for (i, x, w) in &tab {
        t.states += 1;
        c28(t, "spec", &[0.0, *i as f64, *x, *w]);
    }
    for i in 0..EDGE.len() {
        let v = edge_points(i, c);
        c.walk(t, &v, 64, |l, v| {
            for &x in v {
                l.states += 1;
                l.trans += 1;
                c28(l, "edge", &[i as f64, x]);
            }
            l.traces += 1;
        });
    }
    let shapes = tidy([spread(1e-300, 1e300, c.pick(400, 2000)), grid(0.25, 30.0, 120), around(&[1.0, 99.0, 100.0, 3000.0, 3001.0], 3), vec![5e-324]].concat());
    c.par(t, shapes.len(), |l, i| {
        for &b in &shapes {
            l.states += 1;
            l.trans += 1;
            c28(l, "ends", &[shapes[i], b]);
        }
        l.traces += 1;
    });
    let ws = wild();
    let ord: Vec<u32> = (0..=c.pick(120, 400)).chain([500, 1000]).collect();
    c.par(t, ord.len() * 4, |l, j| {
        for &x in &ws {
            l.states += 1;
            l.trans += 1;
            c28(l, "spec", &[1.0, (j % 4) as f64, ord[j / 4] as f64, x]);
        }
        l.traces += 1;
    });
    c.par(t, ws.len(), |l, j| {
        for &y in &ws {
            l.states += 1;
            l.trans += 1;
            c28(l, "nan", &[2.0, 0.0, ws[j], y]);
        }
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P29
mod libm {
    extern "C" {
        pub fn frexp(x: f64, e: *mut i32) -> f64;
        pub fn ldexp(x: f64, e: i32) -> f64;
        pub fn copysign(x: f64, y: f64) -> f64;
    }
}
fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan()
}
fn c29(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    let x = v[0];
    match kind {
        "frexp" => {
            let Some((m, e)) = l.val("frexp", || frexp(x)) else { return };
            let mut we = 0i32;
            let wm = unsafe { libm::frexp(x, &mut we) };
            if !x.is_finite() {
                we = 0; // C leaves it unspecified; the library documents 0
            }
            l.check(same(m, wm) && e == we, || format!("frexp({x:e}) = ({m:e},{e}), should be ({wm:e},{we})"));
            // the round trip is exact
            let Some(b) = l.val("ldexp", || ldexp(m, e)) else { return };
            l.check(same(b, x), || format!("ldexp(frexp({x:e})) = {b:e}"));
        }
        "ldexp" => {
            let k = v[1] as i32;
            let Some(g) = l.val("ldexp", || ldexp(x, k)) else { return };
            let w = unsafe { libm::ldexp(x, k) };
            l.check(same(g, w), || format!("ldexp({x:e},{k}) = {g:e}, should be {w:e}"));
        }
        "fact" => {
            let n = x as usize;
            let Some(g) = l.val("factorial", || factorial(n)) else { return };
            if n <= 22 {
                let w: f64 = (1..=n as u128).product::<u128>() as f64;
                l.check(g == w, || format!("factorial({n}) = {g:e}, should be {w:e}"));
            } else if n <= 170 {
                let w = refm::gamma(n as f64 + 1.0);
                l.tol("factorial", g, w.hi, w.err(g).abs(), 3e-14 * w.hi);
            } else {
                l.check(g == INF, || format!("factorial({n}) = {g:e}, should be infinite"));
            }
        }
        _ => {
            let Some(g) = l.val("sign", || sign(x, v[1])) else { return };
            let w = unsafe { libm::copysign(x, v[1]) };
            l.check(same(g, w), || format!("sign({x:e},{:e}) = {g:e}, should be {w:e}", v[1]));
        }
    }
}
fn patterns(full: bool) -> Vec<u64> {
    let all = (1u64 << 52) - 1;
    let mut v = vec![0, all];
    for k in 0..52 {
        v.push(1 << k);
        v.push(all ^ (1 << k));
        v.push(all >> k);
        v.push(all & (all << k));
        if full {
            for j in 0..k {
                v.push(1 << k | 1 << j);
                v.push((all >> (51 - k)) & (all << j));
            }
        }
    }
    v.extend([0x5555555555555, 0xaaaaaaaaaaaaa, 0x123456789abcd, 0x921fb54442d18]);
    v.sort();
    v.dedup();
    v
}
fn r29(c: &Ctx, t: &mut L) {
    let pat = patterns(true);
    let few = if c.thorough { patterns(false) } else { patterns(false).into_iter().step_by(3).collect() };
    t.sample(|| format!("frexp: 2048 exponents x {} significands x 2 signs; ldexp: shifts x {} significands", pat.len(), few.len()));
    c.par(t, 2048, |l, e| {
        for s in [0u64, 1 << 63] {
            for m in &pat {
                l.states += 1;
                l.trans += 1;
                c29(l, "frexp", &[f64::from_bits(s | (e as u64) << 52 | m)]);
            }
        }
        l.traces += 1;
    });
    let mut sh: Vec<i32> = (-2200..=2200).collect();
    for k in 0..31 {
        for d in -1..=1 {
            sh.push((1i32 << k).wrapping_add(d));
            sh.push((-(1i32 << k)).wrapping_add(d));
        }
    }
    sh.extend([i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1]);
    let exps: Vec<u64> = if c.thorough { (0..2048).collect() } else { (0..2048).filter(|e| *e < 64 || *e > 1984 || e % 16 == 0 || (1000..1050).contains(e)).collect() };
    c.par(t, sh.len(), |l, i| {
        for e in &exps {
            for (j, m) in few.iter().enumerate() {
                let s = ((i + j) as u64 & 1) << 63; // both signs occur for every exponent and shift
                l.states += 1;
                l.trans += 1;
                c29(l, "ldexp", &[f64::from_bits(s | e << 52 | m), sh[i] as f64]);
            }
        }
        l.traces += 1;
    });
    for n in 0..=2000 {
        t.states += 1;
        t.trans += 1;
        c29(t, "fact", &[n as f64]);
    }
    for n in [5000.0, 1e4, 1e5, 1e6, 2147483648.0, 4294967296.0, 4294967301.0, 9007199254740992.0, 1.8446744073709552e19] {
        t.states += 1;
        c29(t, "fact", &[n]);
    }
    let mut w = wild();
    w.push(-NAN);
    c.par(t, w.len(), |l, i| {
        for b in &w {
            l.states += 1;
            l.trans += 1;
            c29(l, "sign", &[w[i], *b]);
        }
        l.traces += 1;
    });
}
// ---------------------------------------------------------------- P30
const BR: f64 = -0.36787944117144233; // -1/e rounded
fn c30(l: &mut L, kind: &'static str, v: &[f64]) {
    l.begin(kind, v);
    match kind {
        "w0" | "wm1" => {
            let z = v[0];
            let (d, s): (fn(f64) -> f64, fn(f64) -> f64) = if kind == "w0" { (lambert_w0, sp_lambert_w0) } else { (lambert_wm1, sp_lambert_wm1) };
            let (Some(g), Some(h)) = (l.val(kind, || d(z)), l.val(kind, || s(z))) else { return };
            let right = |w: f64| if kind == "w0" { w >= -1.0 } else { w <= -1.0 };
            l.check(right(g) && right(h), || format!("{kind}({z:e}) = {g:e}, {h:e}: not on the branch"));
            // condition: dw = dz / (e^w (1+w)); near the branch point |1+w| ~ sqrt(2 e dz)
            if (z - BR).abs() < 1e-9 {
                l.tol("at the branch point", g, -1.0, (g + 1.0).abs(), 1e-4);
                l.tol("sp, at the branch point", h, -1.0, (h + 1.0).abs(), 1e-3);
                return;
            }
            let w = refm::lambert_refine(z, g);
            l.check((w.hi - g).abs() < 1e-3 * (1.0 + g.abs()), || format!("{kind}({z:e}) = {g:e} is not near a solution of w e^w = z"));
            let rel = |w: f64| w.abs() / (1.0 + w).abs() * (1.0 + 1.0);
            l.tol(if kind == "w0" { "W0" } else { "W-1" }, g, w.hi, w.err(g).abs(), (6e-16 * rel(w.hi)).max(4e-15 * w.abs()).max(if z.abs() < 0.25 { 3e-16 } else { 0.0 }));
            l.tol(if kind == "w0" { "sp W0" } else { "sp W-1" }, h, w.hi, w.err(h).abs(), 1e-6 * w.abs() + 3e-16);
        }
        _ => {
            let (k, x, y) = (v[0] as i32, v[1], v[2]);
            let Some((a, b)) = l.val("lambert_w", || lambert_w(k, x, y)) else { return };
            // w + log w = log z + 2 pi i k picks the branch
            let (zr, zi) = (x.hypot(y), y.atan2(x));
            let (wr, wi) = (a.hypot(b), b.atan2(a));
            let real = y == 0.0 && x < 0.0 && x >= BR && (k == 0 || k == -1);
            let kk = if real { 0.0 } else { k as f64 };
            let e1 = a + wr.ln() - zr.ln();
            let mut e2 = b + wi - zi - 2.0 * PI * kk;
            let turns = (e2 / (2.0 * PI)).round();
            if (-1..=1).contains(&k) {
                // any solution of w e^w = z: see DESIGN.md
                e2 -= turns * 2.0 * PI;
            }
            let s = 1.0 + wr + 2.0 * PI * kk.abs() + zr.ln().abs();
            let res = if real { e1.abs() } else { e1.hypot(e2) };
            if (x - BR).abs().hypot(y) < 1e-6 && (-1..=1).contains(&k) {
                l.skipped += 1;
                return;
            }
            l.tol("w + log w = log z + 2 pi i k", a, b, res, 4e-15 * s);
            if real && x < -1e-12 {
                l.check(b.abs() < 1e-15 && if k == 0 { a >= -1.0 } else { a <= -1.0 }, || format!("lambert_w({k},{x:e},{y:e}) = ({a:e},{b:e}): not on the branch"));
            }
        }
    }
}
fn r30(c: &Ctx, t: &mut L) {
    let m = c.pick(15, 19);
    let mut w0 = dyadic(m, -8, 10);
    w0.extend(dyadic(c.pick(8, 11), -996, 1014));
    w0.extend(decimals(1, 50_000, 100.0));
    let mut neg: Vec<f64> = dyadic(m, -12, -1).into_iter().filter(|z| *z < -BR).map(|z| -z).collect();
    neg.extend(dyadic(c.pick(8, 11), -996, -12).into_iter().map(|z| -z));
    neg.extend(dyadic(c.pick(10, 13), -52, -2).into_iter().map(|d| BR + d));
    neg.retain(|z| *z >= BR && *z < 0.0);
    w0.extend(neg.iter());
    c.walk1(t, "w0", &tidy(w0));
    c.walk1(t, "wm1", &tidy(neg));
    let mut zs = vec![];
    let n = c.pick(24, 90);
    for r in dyadic(c.pick(1, 3), -30, 30).into_iter().chain([1e-20, 1e-60, 1e20, 1e60]) {
        for j in -n..n {
            let th = PI * (j as f64 + 0.5) / n as f64;
            zs.push((r * th.cos(), r * th.sin()));
        }
        zs.extend([(r, 0.0), (-r, 0.0), (0.0, r), (0.0, -r)]);
    }
    let g = c.pick(24, 80);
    for i in -g..=g {
        for j in -g..=g {
            if i != 0 || j != 0 {
                zs.push((i as f64 / 8.0, j as f64 / 8.0));
                zs.push((BR + i as f64 / 512.0, j as f64 / 512.0));
            }
        }
    }
    // isolated large branches as well
    let far = [7, 9, 10, 12, 15, 16, 17, 31, 32, 50, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65536, 1_000_000, 16_777_217, i32::MAX];
    let ks: Vec<i32> = (-6..=6).chain(far).chain(far.map(|k| -k)).chain([i32::MIN]).collect();
    c.par(t, ks.len(), |l, i| {
        let k = ks[i];
        for (j, &(x, y)) in zs.iter().enumerate() {
            if x == 0.0 && y == 0.0 || i >= 13 && j % 5 != 0 {
                continue;
            }
            l.states += 1;
            l.trans += 1;
            c30(l, "cplx", &[k as f64, x, y]);
        }
        l.traces += 1;
    });
    c.rank1(t, c.pick(1_000_000, 10_000_000), |l, u| {
        let (r, th) = (logu(u[0], 1e-9, 1e9), 2.0 * PI * (u[1] - 0.5));
        let k = (u[2] * 13.0).floor() - 6.0;
        l.trans += 1;
        c30(l, "cplx", &[k, r * th.cos(), r * th.sin()]);
    });
}
