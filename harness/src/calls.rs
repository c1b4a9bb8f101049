//! Every public function behind one interface, and alphabets of calls built to collide in any memo,
//! table or scratch state that forgets part of the arguments.
use puruspe::utils::{factorial, frexp, ldexp, sign};
use puruspe::*;

pub const NFUN: usize = 36;
pub type Call = [f64; 4]; // function, arguments
pub type Bits = [u64; 4];
pub const NAMES: [&str; NFUN] = [
    "gamma", "ln_gamma", "gammp", "gammq", "invgammp", "beta", "betai", "invbetai", "erf", "erfc", "inverf", "inverfc", "erfcx", "dawson", "faddeeva", "Jn", "Yn", "In", "Kn", "besseljy", "besselik", "Jnu_Ynu", "Inu_Knu", "factorial", "frexp", "ldexp",
    "sign", "lambert_w0", "lambert_wm1", "sp_lambert_w0", "sp_lambert_wm1", "lambert_w", "CachedBesselJY", "CachedBesselIK", "CachedJnuYnu", "CachedInuKnu",
];
pub fn show(c: &Call) -> String {
    let n = match c[0] as usize {
        0 | 1 | 8..=13 | 23 | 24 | 27..=30 => 1,
        6 | 7 | 31 => 3,
        _ => 2,
    };
    format!("{}({})", NAMES[c[0] as usize], c[1..=n].iter().map(|x| format!("{x:e}")).collect::<Vec<_>>().join(","))
}
fn next_up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1) // away from zero, for finite non-zero x
}
fn b1(x: f64) -> Bits {
    [if x.is_nan() { 1 } else { x.to_bits() }, 0, 0, 0]
}
fn b2(x: (f64, f64)) -> Bits {
    [b1(x.0)[0], b1(x.1)[0], 0, 0]
}
fn b4(x: (f64, f64, f64, f64)) -> Bits {
    [b1(x.0)[0], b1(x.1)[0], b1(x.2)[0], b1(x.3)[0]]
}
pub const PANIC: Bits = [2, 2, 2, 2];
/// Evaluate without catching panics.
#[inline(never)]
pub fn raw(c: &Call) -> Bits {
    let [f, a, b, d] = *c;
    match f as usize {
        0 => b1(gamma(a)),
        1 => b1(ln_gamma(a)),
        2 => b1(gammp(a, b)),
        3 => b1(gammq(a, b)),
        4 => b1(invgammp(a, b)),
        5 => b1(beta(a, b)),
        6 => b1(betai(a, b, d)),
        7 => b1(invbetai(a, b, d)),
        8 => b1(erf(a)),
        9 => b1(erfc(a)),
        10 => b1(inverf(a)),
        11 => b1(inverfc(a)),
        12 => b1(erfcx(a)),
        13 => b1(dawson(a)),
        14 => b2(faddeeva(a, b)),
        15 => b1(Jn(a as u32, b)),
        16 => b1(Yn(a as u32, b)),
        17 => b1(In(a as u32, b)),
        18 => b1(Kn(a as u32, b)),
        19 => b4(besseljy(a, b)),
        20 => b4(besselik(a, b)),
        21 => b2(Jnu_Ynu(a, b)),
        22 => b2(Inu_Knu(a, b)),
        23 => b1(factorial(a as usize)),
        24 => {
            let r = frexp(a);
            [b1(r.0)[0], r.1 as u32 as u64, 0, 0]
        }
        25 => b1(ldexp(a, b as i32)),
        26 => b1(sign(a, b)),
        27 => b1(lambert_w0(a)),
        28 => b1(lambert_wm1(a)),
        29 => b1(sp_lambert_w0(a)),
        30 => b1(sp_lambert_wm1(a)),
        31 => b2(lambert_w(a as i32, b, d)),
        32 => b4(CachedBesselJY::new().besseljy(a, b)),
        33 => b4(CachedBesselIK::new().besselik(a, b)),
        34 => b2(CachedJnuYnu::new().Jnu_Ynu(a, b)),
        _ => b2(CachedInuKnu::new().Inu_Knu(a, b)),
    }
}
pub fn eval(c: &Call) -> Bits {
    std::panic::catch_unwind(|| raw(c)).unwrap_or(PANIC)
}
/// Arguments of one function: base points in each branch and near-collisions of the first ones.
fn args(f: usize) -> Vec<[f64; 3]> {
    let one = |v: &[f64]| v.iter().map(|x| [*x, 0.0, 0.0]).collect::<Vec<_>>();
    let two = |v: &[(f64, f64)]| v.iter().map(|x| [x.0, x.1, 0.0]).collect::<Vec<_>>();
    let three = |v: &[(f64, f64, f64)]| v.iter().map(|x| [x.0, x.1, x.2]).collect::<Vec<_>>();
    let mut v = match f {
        0 => one(&[2.5, 3.5, 0.3, -2.5, 10.25, 100.5, 171.0, -170.5, 1.0, 25.0]),
        1 => one(&[2.5, 3.5, 0.3, 1.0, 10.25, 100.5, 1e5, 1e-5, 20.0]),
        2 | 3 => two(&[(2.5, 1.5), (1.5, 2.5), (2.5, 6.0), (2.5, 3.5), (150.0, 149.0), (149.0, 150.0), (150.0, 140.0), (150.0, 170.0), (1.0, 1.0), (0.3, 0.1), (2.5, 0.0), (10.0, 3.0)]),
        4 => two(&[(0.3, 2.5), (0.3, 0.5), (0.7, 2.5), (0.7, 0.5), (0.5, 150.0), (0.01, 10.0), (0.99, 10.0), (0.3, 1.0)]),
        5 => two(&[(2.5, 1.5), (1.5, 2.5), (2.5, 2.5), (1.0, 3.0), (0.3, 0.4), (30.0, 40.0), (2.0, 2.0), (3.0, 1.0)]),
        6 => three(&[(2.5, 1.5, 0.3), (1.5, 2.5, 0.3), (2.5, 1.5, 0.7), (1.5, 2.5, 0.7), (0.3, 0.4, 0.5), (3500.0, 3600.0, 0.49), (3600.0, 3500.0, 0.49), (2.5, 1.5, 0.9), (2.0, 2.0, 0.3), (2.5, 1.5, 0.0), (2.5, 1.5, 1.0)]),
        7 => three(&[(0.3, 2.5, 1.5), (0.3, 1.5, 2.5), (0.7, 2.5, 1.5), (0.3, 0.5, 0.4), (0.7, 0.5, 0.4), (0.3, 20.0, 30.0), (0.01, 2.5, 1.5)]),
        8 | 9 => one(&[0.5, -0.5, 1.5, 2.5, 0.0, 5.0, -3.0, 10.0]),
        10 => one(&[0.5, -0.5, 0.1, 0.9, 0.999, 0.0, 1.0]),
        11 => one(&[0.5, 1.5, 0.1, 1.9, 1e-10, 0.0, 1.0]),
        12 => one(&[0.5, -0.5, 1.5, 5.0, 49.0, 60.0, 1e8, -5.0, -30.0]),
        13 => one(&[0.5, -0.5, 0.1, -0.1, 1.5, 2.5, 5.0, 20.0, 1.0]),
        14 => two(&[(0.5, 1.5), (1.5, 0.5), (-0.5, 1.5), (0.5, -1.5), (6.0, 0.1), (0.0, 1.0), (1.0, 0.0), (8.0, 8.0), (1e-9, 2.0), (2.0, 1e-9), (3.0, 3.0)]),
        15 | 17 => two(&[(0.0, 1.5), (1.0, 1.5), (2.0, 1.5), (3.0, 1.5), (2.0, 20.0), (30.0, 1.5), (5.0, -2.5), (5.0, 2.5), (10.0, 12.0), (0.0, 20.0)]),
        16 | 18 => two(&[(0.0, 1.5), (1.0, 1.5), (2.0, 1.5), (3.0, 1.5), (2.0, 20.0), (30.0, 1.5), (5.0, 2.5), (10.0, 12.0), (0.0, 20.0)]),
        19..=22 | 32..=35 => two(&[(0.5, 1.5), (1.5, 0.5), (0.5, 2.5), (2.5, 0.5), (0.5, 0.5), (1.5, 2.5), (3.0, 4.0), (4.0, 3.0), (0.0, 1.0), (10.25, 1.0), (0.3, 20.0)]),
        23 => one(&[0.0, 1.0, 5.0, 10.0, 20.0, 50.0, 170.0, 171.0]),
        24 => one(&[1.0, -1.0, 0.75, 3.0, 1e300, 1e-310, 0.0, 4.0]),
        25 => two(&[(1.0, 3.0), (3.0, 1.0), (-1.5, 10.0), (1.0, -1070.0), (1e300, 100.0), (1e-310, 20.0)]),
        26 => two(&[(1.0, -2.0), (-2.0, 1.0), (3.0, 0.0), (3.0, -0.0)]),
        27 | 29 => one(&[0.5, -0.2, 1.5, 100.0, -0.36, 0.0]),
        28 | 30 => one(&[-0.2, -0.1, -0.36, -1e-5, -0.3]),
        _ => three(&[(0.0, 0.5, 1.0), (1.0, 0.5, 1.0), (-1.0, 0.5, 1.0), (0.0, 1.0, 0.5), (2.0, -0.5, 1.0)]),
    };
    // panicking calls
    match f {
        2 | 3 => v.extend(two(&[(-1.0, 1.0), (1.0, -1.0)])),
        4 => v.extend(two(&[(0.5, -1.0)])),
        5 => v.extend(two(&[(-1.0, 1.0)])),
        6 => v.extend(three(&[(-1.0, 1.0, 0.5), (1.0, 1.0, 2.0)])),
        19..=22 | 32..=35 => v.extend(two(&[(-1.0, 1.0), (1.0, 0.0)])),
        _ => {}
    }
    // near-collisions of the first three base points in one argument at a time
    let (lo, hi) = match f {
        15..=18 => (1, 2),
        23 | 24 => (0, 0),
        25 => (0, 1),
        31 => (1, 3),
        6 | 7 => (0, 3),
        0 | 1 | 8..=13 | 27..=30 => (0, 1),
        _ => (0, 2),
    };
    for i in 0..3.min(v.len()) {
        for k in lo..hi {
            let x = v[i][k];
            if x == 0.0 {
                continue;
            }
            let far = f64::from_bits(x.to_bits() + 7);
            for y in [if i == 0 { next_up(x) } else { far }, far, x * (1.0 + 1e-9), x * (1.0 + 1e-4), x + 1e-13, f64::from_bits(x.to_bits() ^ (1 << 33)), x * 1.01] {
                let mut w = v[i];
                w[k] = y;
                v.push(w);
            }
        }
    }
    // special and tiny arguments, which comparisons with a remembered argument may confuse
    if f != 23 {
        for k in if (15..=18).contains(&f) || f == 31 { 1..hi } else { 0..if f == 25 { 1 } else if f == 26 { 2 } else { hi.max(1) } } {
            for y in [0.0, -0.0, 1e-17, 2e-17, -v[0][k], f64::NAN] {
                let mut w = v[0];
                w[k] = y;
                v.push(w);
            }
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|w| seen.insert(w.map(f64::to_bits)));
    v
}
#[allow(dead_code)]
/// The large alphabet, grouped by function.
pub fn large() -> Vec<Call> {
    (0..NFUN).flat_map(|f| args(f).into_iter().map(move |a| [f as f64, a[0], a[1], a[2]])).collect()
}
#[allow(dead_code)]
/// `n` base calls of every function.
pub fn small(n: usize) -> Vec<Call> {
    (0..NFUN).flat_map(|f| args(f).into_iter().take(n).map(move |a| [f as f64, a[0], a[1], a[2]])).collect()
}
