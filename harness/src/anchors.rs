//! The reference model is believed only if it reproduces the committed arbitrary-precision anchors.
use crate::refm::*;
pub fn verify() -> Result<usize, String> {
    let mut n = 0;
    let h = |s: &str| f64::from_bits(u64::from_str_radix(s, 16).unwrap());
    for l in include_str!("../anchors.txt").lines() {
        let p: Vec<&str> = l.split(' ').collect();
        let a: Vec<f64> = p[1].split(',').map(h).collect();
        let want = R { hi: h(p[2]), lo: h(p[3]) };
        let scale = h(p[4]);
        let row = |k| {
            let n = a[0].floor();
            // the fraction must be exact for the row start
            bessel_row(k, a[0] - n, a[1], n as usize)[n as usize]
        };
        let got = match p[0] {
            "gamma" => gamma(a[0]),
            "lgamma" => lgamma(a[0]),
            "gammp" => gammpq(a[0], a[1]).0,
            "gammq" => gammpq(a[0], a[1]).1,
            "beta" => beta(a[0], a[1]),
            "betai" => betai(a[0], a[1], a[2]).0,
            "betaic" => betai(a[0], a[1], a[2]).1,
            "erf" => erf(a[0]),
            "erfc" => erfc(a[0]),
            "erfcx" => erfcx(a[0]),
            "wre" => w(a[0], a[1]).0,
            "wim" => w(a[0], a[1]).1,
            "dawson" => dawson(a[0]),
            "J" => row(Kind::J),
            "F" => row(Kind::JFar),
            "Y" => row(Kind::Y),
            "I" => row(Kind::I),
            "K" => row(Kind::K),
            "W0" => lambert_refine(a[0], puruspe::lambert_w0(a[0])),
            "Wm1" => lambert_refine(a[0], puruspe::lambert_wm1(a[0])),
            o => return Err(format!("unknown anchor {o}")),
        };
        if p[0].starts_with('W') {
            continue; // depends on the code under test for its starting point; used by P30 itself
        }
        // complements are formed from an x87 sum: absolute, not relative, accuracy
        let floor = if p[0].starts_with("gamm") && p[0].len() == 5 && p[0] != "gamma" || p[0].starts_with("betai") { 0.05 } else { f64::MIN_POSITIVE };
        let e = ((got.hi - want.hi) + (got.lo - want.lo)).abs() / scale.max(floor);
        if want.hi == 0.0 && got.hi == 0.0 {
            n += 1;
            continue;
        }
        if !(e <= if floor > 0.01 || p[0].len() == 1 { 1e-15 } else { 4e-17 }) {
            return Err(format!("{} {:?}: reference {:e} anchor {:e} relative difference {:e}", p[0], a, got.hi, want.hi, e));
        }
        n += 1;
    }
    Ok(n)
}
