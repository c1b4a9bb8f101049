//! Safe wrappers over the reference model in cref/ref.c (unevaluated hi+lo pairs).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct R {
    pub hi: f64,
    pub lo: f64,
}
impl R {
    /// got - reference
    pub fn err(self, got: f64) -> f64 {
        (got - self.hi) - self.lo
    }
    pub fn abs(self) -> f64 {
        self.hi.abs()
    }
}
extern "C" {
    fn ref_gamma(z: f64, o: *mut f64);
    fn ref_lgamma(z: f64, o: *mut f64);
    fn ref_gammpq(a: f64, x: f64, o: *mut f64);
    fn ref_beta(a: f64, b: f64, o: *mut f64);
    fn ref_lbeta(a: f64, b: f64, o: *mut f64);
    fn ref_betai(a: f64, b: f64, x: f64, o: *mut f64);
    fn ref_erf(x: f64, o: *mut f64);
    fn ref_erfc(x: f64, o: *mut f64);
    fn ref_erfcx(x: f64, o: *mut f64);
    fn ref_w(x: f64, y: f64, o: *mut f64);
    fn ref_dawson(x: f64, o: *mut f64);
    fn ref_bessel_row(kind: i32, nu0: f64, x: f64, n: i32, o: *mut f64);
    fn ref_lambert_refine(z: f64, w0: f64, o: *mut f64);
}
macro_rules! w1 {
    ($n:ident, $c:ident, $($a:ident),*) => {
        pub fn $n($($a: f64),*) -> R { let mut o = [0.0; 2]; unsafe { $c($($a,)* o.as_mut_ptr()) }; R { hi: o[0], lo: o[1] } }
    };
}
macro_rules! w2 {
    ($n:ident, $c:ident, $($a:ident),*) => {
        pub fn $n($($a: f64),*) -> (R, R) { let mut o = [0.0; 4]; unsafe { $c($($a,)* o.as_mut_ptr()) };
            (R { hi: o[0], lo: o[1] }, R { hi: o[2], lo: o[3] }) }
    };
}
w1!(gamma, ref_gamma, z);
w1!(lgamma, ref_lgamma, z);
w2!(gammpq, ref_gammpq, a, x);
w1!(beta, ref_beta, a, b);
w1!(lbeta, ref_lbeta, a, b);
w2!(betai, ref_betai, a, b, x);
w1!(erf, ref_erf, x);
w1!(erfc, ref_erfc, x);
w1!(erfcx, ref_erfcx, x);
w2!(w, ref_w, x, y);
w1!(dawson, ref_dawson, x);
w1!(lambert_refine, ref_lambert_refine, z, w0);

#[derive(Clone, Copy)]
pub enum Kind {
    J = 0,
    Y = 1,
    I = 2,
    K = 3,
    /// J for x much larger than the order
    JFar = 4,
}
/// Values at orders nu0, nu0+1, ..., nu0+n  (nu0 in [0,1)).
pub fn bessel_row(k: Kind, nu0: f64, x: f64, n: usize) -> Vec<R> {
    assert!(n < 190_000 && (0.0..1.0).contains(&nu0));
    let mut o = vec![0.0; 2 * (n + 1)];
    unsafe { ref_bessel_row(k as i32, nu0, x, n as i32, o.as_mut_ptr()) };
    o.chunks(2).map(|c| R { hi: c[0], lo: c[1] }).collect()
}
