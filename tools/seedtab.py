"""The planted changes: see seeds.py."""
SEEDS = []
def S(id, prop, edits, needs, breaks, demo, extra="", **k):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, extra=extra, **k))

S("gamma-early-underflow", "P01", [("gamma.rs", "            if f.is_infinite() {", "            if f.abs() > 1e280 {")],
  "a negative non-integer argument below about -157, where the product of the shifts passes 1e280",
  "gamma returns 0 where the value is a representable number of the order of 1e-281 and below",
  '''    check("gamma(-158.5)", rel(gamma(-158.5), -1.34540675156788676705e-281) < 1e-10);''')
S("gamma-piece-coeff", "P01", [("gamma.rs", "                0.346_268_553_360_568_7,", "                0.346_268_553_380_568_7,")],
  "an argument whose fractional part puts it in the piece (3,3.5], away from its centre",
  "one coefficient of one rational piece is off in the tenth digit",
  '''    check("gamma(3.49)", rel(gamma(3.49), 3.28694503264790266973) < 1.2e-14);''')
S("gammq-cf-iterations", "P03", [("gamma.rs", "fn gcf(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 10_000;", "fn gcf(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 14;")],
  "a shape just below 100 with x just above a+1, where the continued fraction converges slowest",
  "gammq is off in the fifth digit near its transition for large shapes below 100",
  '''    let q = gammq(99.5, 100.6);
    let p = gammp(99.5, 100.6);
    check("P(99.5,100.6) + Q(99.5,100.6)", (p + q - 1.0).abs() < 1e-9 && (q - 0.443039800976603649).abs() < 1e-8);''')
S("gammp-tail-cutoff", "P04", [("gamma.rs", "    if x > a + 20.0 * (a.sqrt() + 1.0) {\n        return 1f64;", "    if x > a + 20.0 * a.sqrt() + 7.0 {\n        return 1f64;")],
  "a shape of the order of 1e-3 with x between 7 and 20",
  "gammp is 1 where P + Q = 1 needs 1 - 4e-8",
  '''    let q = gammq(1e-3, 8.0);
    check("Q(1e-3,8)", (q + gammp(1e-3, 8.0) - 1.0).abs() < 1e-9 && rel(q, 3.77696649873e-8) < 1e-4);''')
S("invgammp-iterations", "P05", [("gamma.rs", "    for _j in 0..12 {", "    for _j in 0..5 {")],
  "a probability and shape for which the first guess is poor (small shape, or extreme tails)",
  "the iteration stops before it has converged",
  '''    for (p, a) in [(1e-10, 1.5), (0.999999, 0.3), (1e-6, 3.0), (0.9, 0.02), (1e-12, 1.2), (1e-8, 20.0)] {
        let x = invgammp(p, a);
        check(&format!("P({a},invgammp({p:e},{a}))"), (gammp(a, x) - p).abs() < 1e-9 && rel(gammp(a, x), p) < 1e-3);
    }''')
S("beta-small-argument", "P06", [("beta.rs", "    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()", "    // B(z,w) tends to 1/w for small w\n    if w < 1e-8 {\n        return 1f64 / w;\n    }\n    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()")],
  "a second argument below 1e-8 together with a first argument that is small too",
  "beta misses 1/z and is no longer symmetric",
  '''    check("beta(1e-9,2e-9)", rel(beta(1e-9, 2e-9), 1.5e9) < 1e-8);
    check("symmetry", rel(beta(1e-4, 1e-9), beta(1e-9, 1e-4)) < 1e-9);''')
S("betai-quadrature-switch", "P07", [("beta.rs", "    if a > switch && b > switch {", "    if a > switch || b > 4.0 * switch {")],
  "one shape above 3000 with the other one small",
  "the normal-width quadrature is used for strongly skewed shapes",
  '''    let v = betai(5000.0, 0.5, 0.9999);
    check("I_x(5000,.5)", (v - 0.31731050786291415).abs() < 2e-3 && (v + betai(0.5, 5000.0, 1.0 - 0.9999) - 1.0).abs() < 1e-9);''')
S("betacf-iterations", "P08", [("beta.rs", "    for m in 1..10000 {", "    for m in 1..30 {")],
  "a shape in the thousands (but not both above 3000) with x near the mean, where the fraction needs the most terms",
  "the continued fraction is cut short; the two branches no longer meet",
  '''    let (a, b) = (16000.0, 2990.0);
    let s: f64 = (a + 1.0) / (a + b + 2.0);
    let (l, r) = (betai(a, b, s - 1e-9), betai(a, b, s + 1e-9));
    check("no jump at the switch", (r - l).abs() < 1e-5 && r >= l - 1e-9);''')
S("invbetai-few-steps", "P09", [("beta.rs", "        if t.abs() < EPS * x && j > 0 {", "        if t.abs() < 1e-3 * x && j > 0 {")],
  "a probability whose last step but one is below 1e-3 relative but not yet converged",
  "the iteration stops early",
  '''    for i in 1..200 {
        let p = i as f64 / 200.0;
        for (a, b) in [(0.05, 0.5), (0.01, 3.0), (0.5, 0.5), (2.5, 1.5), (20.0, 3.0)] {
            let x = invbetai(p, a, b);
            check(&format!("I(invbetai({p},{a},{b}))"), x == 0.0 || x == 1.0 || (betai(a, b, x) - p).abs() < 1e-10);
        }
    }''')
S("erfcheb-coefficient", "P10", [("error.rs", "        d = ty * d - dd + COF[j];", "        d = ty * d - dd + if j == 17 { 1.13e-12 } else { COF[j] };")],
  "nothing but precision: the change is in the twelfth digit",
  "erfc has lost digits", "    check(\"erfc\", rel(erfc(2.0), 0.004677734981047266) < 1e-14);", skip=True)
S("erfcx-table-entry", "P12", [], "", "", "", skip=True)
S("dawson-n0", "P13", [("dawson.rs", "        n0 = 2 * (0.5 * xx / h + 0.5) as u64;", "        n0 = 2 * (0.5 * xx / h + 0.5) as u8 as u64;")],
  "an argument above 102.4, where the index no longer fits the narrower type",
  "n0 saturates, so that the sum is centred on the wrong node",
  '''    check("dawson(150)", rel(dawson(150.0), 0.5 / 150.0) < 1e-3);
    check("dawson(1000)", rel(dawson(1000.0), 0.5 / 1000.0) < 1e-3);''')
S("faddeeva-tile", "P14", [("faddeeva.rs", "    if z_sqared >= 49. {\n", "    if z_sqared >= 36. {\n")],
  "a point with |z| between 6 and 7, in the first or second quadrant",
  "the asymptotic expansion is used too close to the origin",
  '''    let w = faddeeva(6.01, 0.01);
    check("w(6.01+.01i)", rel(w.0, 1.6332886848946e-4) < 1e-9 || true);
    let (a, b) = (faddeeva(6.05, 0.05), faddeeva(6.05, 0.0500001));
    check("smooth", (a.0 - b.0).abs() < 1e-8);''', skip=True)
S("faddeeva-lower-half", "P15", [("faddeeva.rs", "            res = 2.0 * c64::new((yabs - xs) * (xs + yabs), 2. * xs * y).exp() - res;", "            res = 2.0 * c64::new((yabs - xs) * (xs + yabs), 2. * xs * yabs).exp() - res;")],
  "a point in the lower half-plane with |z| >= 7 and |Im z| comparable with or above |Re z|, where the exponential counts",
  "the imaginary part of the reflection has the wrong sign",
  '''    let w = faddeeva(5.2, -5.1);
    let s = (5.1f64 * 5.1 - 5.2 * 5.2).exp();
    let want = 2.0 * s * (2.0 * 5.2 * 5.1f64).sin();
    let q = faddeeva(5.2, 5.1);
    check("w(-conj)", (w.1 - (want + q.1)).abs() < 1e-9);''')
S("jn-start-order", "P16", [("bessel.rs", "    let acc = 160f64;", "    let acc = 50f64;")],
  "a high order with an argument just below it, where Miller's recurrence needs its longest run-up",
  "the backward recurrence starts too low and loses digits",
  '''    // J_{n-1} + J_{n+1} = 2n/x J_n across the forward and the backward branch
    for n in [10u32, 20, 30, 50] {
        let x = n as f64 + 0.5;
        let r = Jn(n - 1, x) + Jn(n + 1, x) - 2.0 * n as f64 / x * Jn(n, x);
        check(&format!("recurrence at {n}"), r.abs() < 1e-14 * 20.0);
    }''')
S("in-start-order", "P17", [("bessel.rs", "    let acc = 200f64;", "    let acc = 2f64;")],
  "an order of 2 or more with an argument well above it",
  "the backward recurrence starts too low and loses digits",
  '''    for (n, x) in [(2u32, 300.0), (5, 200.0), (10, 500.0), (3, 600.0), (4, 650.0)] {
        let r = In(n - 1, x) - In(n + 1, x) - 2.0 * n as f64 / x * In(n, x);
        check(&format!("I recurrence {n} {x}"), (r / In(n, x)).abs() < 1e-9);
        let w = In(n, x) * Kn(n + 1, x) + In(n + 1, x) * Kn(n, x);
        check(&format!("Wronskian {n} {x}"), rel(w * x, 1.0) < 1e-9);
    }''')
S("jn-negative-argument", "P18", [("bessel.rs", "        if ax > n_f64 {\n            let tox = 2.0 / ax;\n            let mut bjm = j0(ax);\n            let mut bj = j1(ax);", "        if ax > n_f64 {\n            let tox = 2.0 / ax;\n            let mut bjm = j0(ax);\n            let mut bj = j1(x).copysign(j1(ax)) * if x < -1e3 { -1.0 } else { 1.0 };")],
  "a negative argument beyond -1000 with an order of at least 2", "the forward recurrence starts from the wrong sign",
  '''    for n in 2..8u32 {
        let s = if n % 2 == 1 { -1.0 } else { 1.0 };
        check(&format!("parity of J{n}"), (Jn(n, -1500.25) - s * Jn(n, 1500.25)).abs() < 1e-13);
    }''')
S("besseljy-cheb-terms", "P19", [("bessel.rs", "        let gam2 = chebev(xx, &C2, 8);\n        let gampl = gam2 - xmu * gam1;\n        let gammi = gam2 + xmu * gam1;\n        let mut ff = TWOOPI", "        let gam2 = chebev(xx, &C2, 6);\n        let gampl = gam2 - xmu * gam1;\n        let gammi = gam2 + xmu * gam1;\n        let mut ff = TWOOPI")],
  "an argument below 2 and an order whose distance from the nearest integer is not small",
  "the series of Temme's gamma function is cut short",
  '''    // half order: J_{1/2} = sqrt(2/(pi x)) sin x
    let x = 1.25f64;
    let want = (2.0 / (std::f64::consts::PI * x)).sqrt() * x.sin();
    check("J_1/2(1.25)", rel(besseljy(0.5, x).0, want) < 1e-13);''')
S("besselik-derivative", "P20", [("bessel.rs", "    let ipo = if h < 1f64 {\n        h * io", "    let ipo = if h < 10f64 {\n        (1f64 + xi * 0.5 * (h * x - nu).abs() * f64::EPSILON) * h * io")],
  "", "", "", skip=True)
S("besseljy-nl-threshold", "P21", [("bessel.rs", "        0usize.max((nu - x + 1.5) as usize)", "        0usize.max((nu - x - 1.5) as usize)")],
  "an order well above an argument that is at least 2",
  "too few steps are taken down to the turning point, where the second continued fraction no longer applies",
  '''    for (nu, x) in [(12.0, 2.5), (14.3, 3.0), (15.5, 4.0)] {
        let v = besseljy(nu, x);
        let w = v.0 * v.3 - v.1 * v.2;
        check(&format!("Wronskian {nu} {x}"), rel(w * x * std::f64::consts::PI, 2.0) < 1e-11);
        check(&format!("J {nu} {x}"), nu.fract() != 0.0 || rel(v.0, Jn(nu as u32, x)) < 1e-10);
    }''')
S("cache-rounded-key", "P22", [("bessel.rs", "        if let Some(&res) = self.0.get(&(nu.to_bits(), x.to_bits())) {\n            res\n        } else {\n            let res = Jnu_Ynu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);",
   "        // The last bits of the argument do not matter\n        let key = (nu.to_bits(), x.to_bits() & !0xf);\n        if let Some(&res) = self.0.get(&key) {\n            res\n        } else {\n            let res = Jnu_Ynu(nu, x);\n            self.0.insert(key, res);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);")],
  "two arguments that differ only in their last four bits, queried one after the other on the same CachedJnuYnu",
  "the second one gets the first one's values",
  '''    let mut c = CachedJnuYnu::new();
    let (a, b) = (1.75f64, f64::from_bits(1.75f64.to_bits() + 9));
    check("first", c.Jnu_Ynu(0.5, a) == Jnu_Ynu(0.5, a));
    check("neighbour", c.Jnu_Ynu(0.5, b) == Jnu_Ynu(0.5, b));''')
S("cache-retain-order", "P23", [("bessel.rs", "                self.0\n                    .retain(|k, v| f((f64::from_bits(k.0), f64::from_bits(k.1)), *v))", "                let mut left = self.0.len();\n                self.0.retain(|k, v| {\n                    left -= 1;\n                    // nothing to decide for an entry that stands alone\n                    (left == 0 && self_is_single(left)) || f((f64::from_bits(k.0), f64::from_bits(k.1)), *v)\n                })")],
  "", "", "", skip=True)
S("cache-clear-keeps-big", "P23", [("bessel.rs", "            pub fn clear(&mut self) {\n                self.0.clear();", "            pub fn clear(&mut self) {\n                // cheaper than dropping every bucket of a cache that was cleared already\n                if self.0.len() > 1 {\n                    self.0.clear();\n                } else if let Some(k) = self.0.keys().next().copied() {\n                    self.0.retain(|j, _| j.0 != k.0 || j.0 == j.1);\n                }")],
  "clearing a cache that holds exactly one entry whose order equals its argument",
  "that entry survives clear",
  '''    let mut c = CachedJnuYnu::new();
    c.Jnu_Ynu(2.5, 2.5);
    c.clear();
    check("empty after clear", c.is_empty() && !c.contains(2.5, 2.5));''')
S("cache-placeholder", "P24", [("bessel.rs", "            let res = besselik(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res", "            // reserve the slot first: one hash lookup instead of two\n            let slot = self\n                .0\n                .entry((nu.to_bits(), x.to_bits()))\n                .or_insert((f64::NAN, f64::NAN, f64::NAN, f64::NAN));\n            *slot = besselik(nu, x);\n            *slot")],
  "a query with arguments outside the domain whose panic is caught, then another operation on the same CachedBesselIK",
  "the placeholder stays behind: the cache grows, and the same invalid query returns NaN instead of panicking",
  '''    let mut c = CachedBesselIK::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.besselik(-1.0, 2.0)));
    check("panics", r.is_err());
    check("still empty", c.is_empty() && c.get(-1.0, 2.0).is_none());''')
S("memo-last-lanczos", "P25", [("gamma.rs", "fn gser(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 10_000;\n    let gln = ln_gamma(a);", "thread_local! {\n    static LAST: std::cell::Cell<(f32, f64)> = const { std::cell::Cell::new((0.0, 0.0)) };\n}\n\n/// `ln_gamma` of the shape used last, which is often the same for many calls\nfn ln_gamma_memo(a: f64) -> f64 {\n    LAST.with(|l| {\n        let (k, v) = l.get();\n        if k == a as f32 {\n            return v;\n        }\n        let v = ln_gamma(a);\n        l.set((a as f32, v));\n        v\n    })\n}\n\nfn gser(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 10_000;\n    let gln = ln_gamma_memo(a);")],
  "two shapes that agree to single precision, used one after the other on the same thread in the series branch",
  "the second call uses the first one's ln_gamma",
  '''    let (a, b) = (8.5f64, 8.5000001f64);
    let alone = std::thread::spawn(move || gammp(b, 3.0)).join().unwrap();
    gammp(a, 3.0);
    check("history", gammp(b, 3.0) == alone);''')
S("memo-racy-statics", "P26", [("bessel.rs", "        let (m0, e0) = frexp(i0(x) / bi);", "        let (m0, e0) = frexp(i0_memo(x) / bi);") if False else ("bessel.rs", "fn i0(x: f64) -> f64 {", "fn i0(x: f64) -> f64 {\n    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};\n    // the orders of one argument all need the same normalisation\n    static KEY: AtomicU64 = AtomicU64::new(u64::MAX);\n    static VALUE: AtomicU64 = AtomicU64::new(0);\n    if KEY.load(SeqCst) == x.to_bits() {\n        return f64::from_bits(VALUE.load(SeqCst));\n    }\n    let v = i0_value(x);\n    KEY.store(x.to_bits(), SeqCst);\n    VALUE.store(v.to_bits(), SeqCst);\n    v\n}\n\nfn i0_value(x: f64) -> f64 {")],
  "two threads that evaluate In concurrently, one of them between the other's two stores or two loads",
  "a call returns a value computed from another argument",
  '''    let want: Vec<f64> = (0..8).map(|k| In(0, 1.0 + k as f64)).collect();
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let t = std::time::Instant::now();
    std::thread::scope(|s| {
        for k in 0..8usize {
            let (want, bad, t) = (&want, &bad, &t);
            s.spawn(move || {
                let mut i = k;
                while t.elapsed().as_secs_f64() < 20.0 && bad.load(std::sync::atomic::Ordering::Relaxed) == 0 {
                    for _ in 0..1000 {
                        i += 1;
                        let j = (i / 3) % 8;
                        if In(0, 1.0 + j as f64) != want[j] {
                            bad.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    check("concurrent calls", bad.into_inner() == 0);''')
S("lngamma-stirling", "P02", [("gamma.rs", "    let base = z + (G - 0.5);", "    // Stirling's formula is cheaper and accurate enough for large arguments\n    if z > 1e7 {\n        return (z - 0.5) * z.ln() - z + 0.5 * (2f64 * PI).ln() + 1.0 / (12.0 * z * z);\n    }\n    let base = z + (G - 0.5);")],
  "an argument just above 1e7", "the correction term of Stirling's formula is 1/(12 z), not 1/(12 z^2)",
  """    let d = ln_gamma(1.00001e7) - ln_gamma(1.00001e7 - 1.0) - (1.00001e7f64 - 1.0).ln();
    check("recurrence", d.abs() < 1e-7);
    check("value", (ln_gamma(10000050.5) - WANT).abs() < 3e-9 * 1.0);""".replace("WANT", "151181756.37459353"), skip=True)
S("lngamma-large-shift", "P02", [("gamma.rs", "    let base = z + (G - 0.5);\n    let mut s = 0f64;", "    let base = z + (G - 0.5);\n    let mut s = 0f64;\n    // far from the origin the terms of the sum are all alike\n    if z > 4e6 {\n        return (2f64 * PI).sqrt().ln() + LG5N7[0].ln() - base + base.ln() * (z - 0.5);\n    }")],
  "an argument above 4e6", "the terms of the Lanczos sum are dropped where they still count (12/z against an error bound of 4e-10 + 2e-15 |ln gamma|)",
  """    let d = ln_gamma(5e6) - 72124733.58;
    check("finite", d.is_finite());
    check("ln_gamma(5e6)", (ln_gamma(5e6) - LG).abs() < 2e-7);""", skip=True)
S("lngamma-tiny", "P02", [("gamma.rs", "    let base = z + (G - 0.5);\n", "    // the pole at the origin\n    if z < 1e-7 {\n        return -z.ln();\n    }\n    let base = z + (G - 0.5);\n")],
  "an argument just below 1e-7", "the next term, -0.577 z, is dropped where it still counts",
  """    check("ln_gamma(9e-8)", (ln_gamma(9e-8) - (-(9e-8f64).ln() - 0.5772156649015329 * 9e-8)).abs() < 2e-9);""")
S("gammp-switch-usize", "P03", [("gamma.rs", "            // Quadrature for large a\n            gammpapprox(a, x, IncGamma::P)", "            // Quadrature for large a\n            gammpapprox(a.floor(), x, IncGamma::P)")],
  "a non-integer shape of at least 100 in gammp (the tests use integers there)", "the fractional part of the shape is lost", """    let (p, q) = (gammp(150.5, 149.0), gammq(150.5, 149.0));
    check("P + Q", (p + q - 1.0).abs() < 1e-6);""")
S("gammq-series-large", "P03", [("gamma.rs", "        if x < 0.2 * a {\n            let result = 1f64 - gser(a, x);", "        if x < 2.0 * a.sqrt() + 0.2 * a {\n            let result = 1f64 - gser(a, x);"),
   ("gamma.rs", "fn gser(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 10_000;", "fn gser(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 100;")],
  "a shape close to 100 (series, below the switch) with x near a, where the series needs more than 100 terms", "the series is cut short",
  """    let p = gammp(99.9, 100.5);
    let q = gammq(99.9, 101.0);
    check("monotone at the switch", gammp(99.9, 101.0) >= p - 1e-9 && (p + gammq(99.9, 100.5) - 1.0).abs() < 1e-9 && gammp(99.9, 100.89) < 1.0 - q + 1e-9);
    check("switch", (gammp(99.9, 100.8999) - gammp(99.9, 100.9001)).abs() < 1e-5);
    check("no cut", rel(gammp(99.9, 100.5), 0.5 + (gammp(99.9, 100.5) - 0.5)) < 1e-12 && gammp(99.9, 100.5) > 0.53724);""", skip=True)
S("gser-iterations", "P03", [("gamma.rs", "fn gser(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 10_000;", "fn gser(a: f64, x: f64) -> f64 {\n    const MAXIT: usize = 45;")],
  "a shape close to 100 with x near a, where the series needs the most terms", "the series is cut short",
  """    for a in [80.5, 90.5, 99.5, 99.9] {
        let s = a + 1.0;
        check("no jump at the switch", (gammp(a, s - 1e-7) - gammp(a, s + 1e-7)).abs() < 1e-7);
    }""")
S("gammp-cutoff-relative", "P04", [("gamma.rs", "    if x > a + 20.0 * (a.sqrt() + 1.0) {\n        return 1f64;", "    if x > a + 20.0 * (a.sqrt() + 1.0).min(20.0) {\n        return 1f64;")],
  "a shape above 1e5, with x above a + 400 but within a few standard deviations", "gammp jumps to 1 before the tail is negligible",
  """    let a = 1e6;
    check("P + Q", (gammp(a, a + 450.0) + gammq(a, a + 450.0) - 1.0).abs() < 1e-6);""")
S("gammpapprox-width", "P04", [("gamma.rs", "(a1 + 11.5 * sqrta1).max(x + 6f64 * sqrta1)", "(a1 + 11.5 * sqrta1).min(x + 6f64 * sqrta1)")],
  "a shape of at least 100 with x slightly above a", "the upper tail is truncated at 6 standard deviations above x only and the far tail is mis-scaled",
  """    let a = 120.0;
    let r = gammq(a, 119.5);
    let s: f64 = a * 119.5f64.ln() - 119.5 - ln_gamma(a + 1.0);
    check("recurrence in a", (gammq(a + 1.0, 119.5) - r - s.exp()).abs() < 1e-9);
    let far = gammq(a, 190.0);
    let t: f64 = a * 190f64.ln() - 190.0 - ln_gamma(a + 1.0);
    check("recurrence in a, far", rel(gammq(a + 1.0, 190.0), far + t.exp()) < 1e-6);""", skip=True)
S("invgammp-small-guess", "P05", [("gamma.rs", "        if x <= 0f64 {\n            x = 0.5 * (x + t);\n        }\n        if t.abs() < x * EPS {", "        if x <= 0f64 {\n            x = 0.5 * (x + t);\n        }\n        if t.abs() < 1e-10 {")],
  "a shape below 1 with a small probability, so that the root is far below 1", "absolute instead of relative convergence test",
  """    for (p, a) in [(1e-3, 0.3), (1e-2, 0.2), (0.05, 0.25), (1e-6, 0.5), (1e-5, 1.2), (1e-9, 1.5), (1e-12, 2.0), (1e-14, 1.1)] {
        let x = invgammp(p, a);
        check(&format!("{p} {a}"), rel(gammp(a, x), p) < 1e-8);
    }""")
S("betai-symmetry-switch", "P07", [("beta.rs", "    if x < (a + 1f64) / (a + b + 2f64) {", "    if x <= 0.5 {")],
  "strongly different shapes, with x on the other side of the mean than of 1/2", "the continued fraction is used where it converges slowly or not at all",
  """    for (a, b, x) in [(2.0f64, 5000.0f64, 0.05f64), (1.0, 2000.0, 0.2), (5000.0, 3.0, 0.6)] {
        let v = betai(a, b, x) + betai(b, a, 1.0 - x);
        check("complement", (v - 1.0).abs() < 1e-9);
    }
    check("I_x(1,b)", rel(1.0 - betai(1.0, 20000.0, 0.01), (1.0f64 - 0.01).powf(20000.0)) < 1.0 || (betai(1.0, 20000.0, 0.01) - 1.0).abs() < 1e-12);
    check("range", betai(40.0, 20000.0, 0.3) <= 1.0 + 1e-12 && betai(40.0, 20000.0, 0.3) > 0.999);""", skip=True)
S("betai-approx-edge", "P07", [("beta.rs", "0f64.max((mu - 10f64 * t).min(x - 5f64 * t))", "0f64.max((mu - 10f64 * t).max(x - 5f64 * t))")],
  "both shapes above 3000 and x a little below the mean", "the lower tail is integrated over 5 standard deviations only where 10 are needed, or over the wrong interval",
  """    let (a, b) = (4000.0, 4000.0);
    let v = betai(a, b, 0.4999) + betai(b, a, 1.0 - 0.4999);
    check("complement", (v - 1.0).abs() < 1e-9);
    let (x, s) = (0.45f64, 0.0055901);
    let r = betai(a, b, x);
    check("far tail", r > 0.0 && betai(a, b, x - 0.1 * s) < r);
    let t = (a * x.ln() + b * (1.0 - x).ln() + ln_gamma(a + b) - ln_gamma(a + 1.0) - ln_gamma(b)).exp();
    check("recurrence", (betai(a + 1.0, b, x) + t - r).abs() < 1e-6 * r);""")
S("betai-clamped-x", "P08", [("beta.rs", "    if x == 0f64 || x == 1f64 {\n        return x;\n    }\n    let switch", "    if x < 1e-60 || x == 1f64 {\n        return x.round();\n    }\n    let switch")],
  "x below 1e-60 with a first shape of the order of 0.01 or less", "I_x jumps from 0 to a sizeable value",
  """    let (l, r) = (betai(0.01, 1.0, 1e-80), 1e-80f64.powf(0.01));
    check("I_x(.01,1) = x^.01", (l - r).abs() < 1e-8);""")
S("invbetai-lower-clamp", "P09", [("beta.rs", "        if x >= 1f64 {\n            x = 0.5 * (x + t + 1f64);\n        }", "        if x >= 1f64 {\n            x = 1f64;\n        }")],
  "a step of the iteration that leaves the interval at its upper end", "the iteration stops at 1 although the root is inside",
  """    for (a, b) in [(0.5, 0.5), (3.0, 0.3), (0.3, 0.7), (10.0, 0.5), (0.2, 0.9), (5.0, 0.9), (2.0, 2.0), (8.0, 1.0), (30.0, 1.0), (1.0, 1.0)] {
        for i in 1..400 {
            let p = i as f64 / 400.0;
            let x = invbetai(p, a, b);
            check(&format!("{p} {a} {b} -> {x}"), (betai(a, b, x) - p).abs() < 1e-6 || x > 1.0 - 1e-13 && (betai(a, b, x - 1e-12) < p));
        }
    }""")
S("erfcheb-entry", "P10", [("error.rs", "    3.13092e-13,", "    3.03192e-13,")],
  "an argument where the 20th Chebyshev polynomial is near an extremum", "a coefficient has two digits swapped: relative errors of about 1e-14",
  """    let mut worst = 0f64;
    for (x, v) in [(5.3, 6.6130818503408109285e-14), (0.3, 0.67137324054087258381), (2.0, 0.0046777349810472658379), (1.0, 0.15729920705028513066), (0.1, 0.88753708398171510160), (0.7, 0.32219880616258152703), (3.0, 2.2090496998585441373e-5)] {
        worst = worst.max(rel(erfc(x), v));
    }
    check("erfc", worst < 8e-15);""")
S("inverfc-one-step", "P11", [("error.rs", "    for _j in 0..2 {", "    for _j in 0..if t > 5.0 { 1 } else { 2 } {")],
  "a probability below 7e-6", "one Halley step less in the tails; the tests look at the centre",
  """    for p in [1e-2, 1e-3, 1e-5, 1e-8, 1e-12, 1e-20, 1e-50, 1e-100, 1e-200] {
        let x = inverfc(p);
        check(&format!("erfc(inverfc({p:e}))"), rel(erfc(x), p) < 1e-10);
        check("mirror", p < 1e-3 || (erfc(inverfc(2.0 - p)) - (2.0 - p)).abs() < 1e-14);
    }""")
S("erfcx-octave-seam", "P12", [("error.rs", "        if x < -6.1 {\n            return 2. * (x * x).exp();", "        if x < -4.1 {\n            return 2. * (x * x).exp();")],
  "an argument between -6.1 and -4.1", "erfcx(-x) is dropped where it is still above the last digit... at -4.1 by 3e-9",
  """    check("erfcx(-4.2)", rel(erfcx(-4.2), 2.0 * (4.2f64 * 4.2).exp() - erfcx(4.2)) < 1e-14);""")
S("erfcx-asymptotic", "P12", [("error.rs", "        if x < 23.2 {\n            return ((((((((((3.607", "        if x < 16.0 {\n            return ((((((((((3.607")],
  "an argument between 16 and about 18", "too few terms of the asymptotic expansion",
  """    // the expansion with one more term than used
    let x = 16.05f64;
    let a = erfcx(x);
    let r2 = 1.0 / (x * x);
    let mut t = 1.0;
    let mut s = 1.0;
    for k in 1..25 {
        t *= -((2 * k - 1) as f64) / 2.0 * r2;
        s += t;
    }
    check("erfcx(16.05)", rel(a, s * 0.564189583547756286948 / x) < 4e-15);""")
S("erfcx-table-entry", "P12", [("error.rs", "    0.8330\u0030" if False else "    0.8329997678088539,", "    0.8329997678088593,")],
  "an argument in one of the 448 table intervals (about [0.167,0.1675])", "a table entry has two digits swapped",
  """    let bad = (0..4000).map(|i| 0.126 + i as f64 * 1.6e-5).any(|x| {
        let f = |t: f64| erfcx(t);
        let h = 2e-4;
        // third difference of a smooth function
        ((f(x + 3.0 * h) - 3.0 * f(x + 2.0 * h) + 3.0 * f(x + h) - f(x)) / 1.0).abs() > 1.3e-10
    });
    let x = 0.1575f64;
    let e = erfc(x) * (x * x).exp();
    check("smooth", !bad && rel(erfcx(x), e) < 1e-14);
    for i in 0..6000 {
        let x = 0.125 + i as f64 * 1e-5;
        check("erfcx against erfc", rel(erfcx(x), erfc(x) * (x * x).exp()) < 3e-15);
    }""")
S("dawson-series-range", "P13", [("dawson.rs", "    if x.abs() < 0.2 {", "    if x < 0.2 && x > -0.35 {")],
  "an argument between -0.35 and -0.2", "the four-term series is used too far out on the negative side: no longer odd, error above 5e-7",
  """    for i in 200..350 {
        let x = i as f64 / 1000.0;
        check(&format!("odd at {x}"), (dawson(-x) + dawson(x)).abs() < 2e-7);
    }""")
S("dawson-nmax", "P13", [("dawson.rs", "    const NMAX: usize = 6;", "    const NMAX: usize = 5;")],
  "", "", "", skip=True)
S("faddeeva-tile-terms", "P14", [("faddeeva.rs", "    let nk = TILES[i_tile + 1];", "    let nk = TILES[i_tile + 1].min(16);")],
  "a point of one of the tiles that need more than 16 Taylor terms, at its far corner", "the series is cut short there: errors of the order of 1e-13 and more",
  """    let mut worst = 0f64;
    // Cauchy-Riemann style check: mean over a small circle equals the centre
    for i in 0..48 {
        for j in 0..48 {
            let (x, y) = (0.03 + i as f64 * 0.1429, 0.03 + j as f64 * 0.1429);
            if x * x + y * y < 0.1 || x * x + y * y > 47.0 { continue; }
            for (dx, dy) in [(0.002, 0.002), (0.09, 0.002), (0.002, 0.09), (0.09, 0.09)] {
                let (x, y, r) = (x + dx, y + dy, 0.02);
                let n = 16;
                let (mut a, mut b) = (0.0, 0.0);
                for k in 0..n {
                    let t = std::f64::consts::PI * 2.0 * k as f64 / n as f64;
                    let w = faddeeva(x + r * t.cos(), y + r * t.sin());
                    a += w.0 / n as f64;
                    b += w.1 / n as f64;
                }
                let w = faddeeva(x, y);
                let m = w.0.hypot(w.1);
                worst = worst.max((a - w.0).abs() / m).max((b - w.1).abs() / m);
            }
        }
    }
    check(&format!("mean value property: {worst:e}"), worst < 3e-14);""")
S("faddeeva-asymptotic", "P14", [("faddeeva.rs", "            if z_sqared > 540. {", "            if z_sqared > 60. {")],
  "a point with 7.8 < |z| < 11 or so", "the twelve-term expansion is used too close to the origin",
  """    let w = faddeeva(7.85, 0.5);
    // continued fraction (Laplace), converges fast here
    let (x, y) = (7.85f64, 0.5f64);
    let (mut u, mut v) = (0.0, 0.0);
    for k in (1..400).rev() {
        let (dr, di) = (x - u, y - v);
        let n = dr * dr + di * di;
        (u, v) = (0.5 * k as f64 * dr / n, -0.5 * k as f64 * di / n);
    }
    let (dr, di) = (x - u, y - v);
    let n = dr * dr + di * di;
    let c = 0.564189583547756286948;
    let want = (c * di / n, c * dr / n);
    check(&format!("{w:?} {want:?}"), rel(w.0, want.0) < 1e-13 && rel(w.1, want.1) < 1e-13);""")
S("faddeeva-table-entry", "P14", [], "", "", "", skip=True)
S("faddeeva-mirror", "P15", [("faddeeva.rs", "        if x < 0. {\n            res = 2.0 * c64::new((y - x) * (x + y), -2. * x * y).exp() - res;", "        if x < -y.abs() {\n            res = 2.0 * c64::new((y - x) * (x + y), -2. * x * y).exp() - res;")],
  "a point of the third quadrant with |Re z| < |Im z| (Taylor region)", "the wrong reflection is applied in one octant",
  """    let (w, v) = (faddeeva(-0.5, -1.5), faddeeva(0.5, -1.5));
    check("w(-conj z) = conj w(z)", rel(w.0, v.0) < 1e-12 && rel(w.1, -v.1) < 1e-12);""")
S("j0-table-entry", "P16", [("bessel.rs", "    -1.562499999999992e-2,\n    -1.920039317065641e-2,", "    -1.562499999990992e-2,\n    -1.920039317065641e-2,")],
  "an argument of J0 just above 8", "a coefficient of the asymptotic form has two digits swapped: an error of the order of 1e-13",
  """    check("J0(8.05)", (Jn(0, 8.05) - 0.15974629811658916925).abs() < 1e-14);""")
S("yn-forward", "P16", [("bessel.rs", "            let byp = j as f64 * tox * by - bym;", "            let byp = if by.abs() > 1e280 { j as f64 * tox * by } else { j as f64 * tox * by - bym };")],
  "orders and arguments for which Yn passes 1e280 with x not much below n", "the second term of the recurrence is dropped",
  """    let (mut n, x) = (200u32, 60.0);
    while Yn(n, x).abs() < 1e290 { n += 1; }
    let r = Yn(n + 1, x) + Yn(n - 1, x) - 2.0 * n as f64 / x * Yn(n, x);
    check("recurrence", (r / Yn(n + 1, x)).abs() < 1e-11);""")
S("i0-threshold", "P17", [("bessel.rs", "fn i1(x: f64) -> f64 {\n    let ax = x.abs();\n    if ax < 15f64 {", "fn i1(x: f64) -> f64 {\n    let ax = x.abs();\n    if ax < 10f64 {")],
  "an argument of In(1,.) between 10 and 15", "the outer approximation is used outside its interval",
  """    check("I1(10.05)", rel(In(1, 10.05) * Kn(0, 10.05) + In(0, 10.05) * Kn(1, 10.05), 1.0 / 10.05) < 5e-14);""")
S("kn-k0-seam", "P17", [("bessel.rs", "fn k1(x: f64) -> f64 {\n    if x <= 1f64 {", "fn k1(x: f64) -> f64 {\n    if x <= 1.15f64 {")],
  "an argument of Kn (order 1 or more) between 1 and 1.15", "the inner approximation is used outside its interval",
  """    check("K1(1.14)", rel(In(1, 1.14) * Kn(0, 1.14) + In(0, 1.14) * Kn(1, 1.14), 1.0 / 1.14) < 1e-13);""")
S("in-parity", "P18", [("bessel.rs", "        ans = ldexp(m * m0, e + e0 + e1 + shift);\n        if x < 0f64 && n % 2 == 1 {", "        ans = ldexp(m * m0, e + e0 + e1 + shift);\n        if x < -f64::EPSILON && n % 2 == 1 {")],
  "a tiny negative argument with an odd order of at least 3", "the sign is lost", """    check("I3(-1e-17)", In(3, -1e-17) < 0.0 && In(3, -1e-17) == -In(3, 1e-17));""")
S("jn-underflow-guard", "P18", [("bessel.rs", "        if ax > n_f64 {\n            let tox = 2.0 / ax;\n            let mut bjm = j0(ax);", "        if ax > 0.7 * n_f64 {\n            let tox = 2.0 / ax;\n            let mut bjm = j0(ax);")],
  "a large order with the argument between 0.7 n and n", "the forward recurrence is unstable there",
  """    for n in [60u32, 100, 200] {
        let x = 0.71 * n as f64;
        let w = Jn(n + 1, x) * Yn(n, x) - Jn(n, x) * Yn(n + 1, x);
        check(&format!("Wronskian {n}"), rel(w, 2.0 / (std::f64::consts::PI * x)) < 1e-10);
    }""")
S("besseljy-sign", "P19", [("bessel.rs", "        rjmu = if rjl < 0f64 { -rjmu_temp } else { rjmu_temp };", "        rjmu = rjmu_temp.copysign(rjl * isign as f64);")],
  "", "", "", skip=True)
S("besseljy-cf2-break", "P19", [("bessel.rs", "            if (dlr - 1f64).abs() + dli.abs() < EPS {", "            if (dlr - 1f64).abs() < EPS {")],
  "an argument for which the real part of the step of the second continued fraction passes 1 by chance", "the iteration stops before the imaginary part has converged",
  """    let mut bad = None;
    for i in 0..200_000 {
        let x = 2.0 + i as f64 * 5e-5;
        let v = besseljy(0.25, x);
        let u = besseljy(1.25, x);
        // recurrence of the derivative: J' = nu/x J - J_{nu+1}
        let e = v.3 - (0.25 / x * v.1 - u.1);
        if e.abs() > 1e-13 { bad = Some((x, e)); }
    }
    check(&format!("Y' {bad:?}"), bad.is_none());""", skip=True)
S("besselik-cf2-tolerance", "P20", [("bessel.rs", "            if (dels / s).abs() <= EPS {", "            if dels.abs() <= EPS * 1e6 {")],
  "an argument just above 2 (where the second continued fraction converges slowest)", "it stops at 2e-10",
  """    for i in 0..200 {
        let x = 2.0 + i as f64 * 0.01;
        let want = (std::f64::consts::PI / (2.0 * x)).sqrt() * (-x).exp() * (1.0 + 1.0 / x);
        let w = besselik(0.25, x);
        let v = besselik(1.25, x);
        let wr = w.0 * v.1 + v.0 * w.1;
        check("Wronskian", rel(wr * x, 1.0) < 1e-12);
        check("K_3/2", rel(besselik(1.5, x).1, want) < 1e-12);
        // three-term recurrence against the order 2.25 at the same x does not see it; the integral does
        let (mut s, h) = (0.0, 0.05);
        for k in 0..200 {
            let t = k as f64 * h;
            s += if k == 0 { 0.5 } else { 1.0 } * h * (-x * t.cosh()).exp() * (0.25 * t).cosh();
        }
        check(&format!("K_1/4({x})"), rel(w.1, s) < 1e-12);
    }""")
S("besselik-temme", "P20", [("bessel.rs", "            if del.abs() < sum.abs() * EPS {", "            if del < sum * EPS {")],
  "an argument below 2 for which a term or the sum of Temme's series is negative", "the series stops early",
  """    for nu in [0.3, 0.49, 1.3, 2.45, 0.05] {
        for x in [0.05, 0.5, 1.0, 1.5, 1.9] {
            let (mut s, h) = (0.0, 0.05);
            for k in 0..400 {
                let t = k as f64 * h;
                let e = -x * t.cosh();
                if e > -745.0 { s += if k == 0 { 0.5 } else { 1.0 } * h * e.exp() * (nu * t).cosh(); }
            }
            check(&format!("K {nu} {x}"), rel(besselik(nu, x).1, s) < 1e-11);
        }
    }""", skip=True)
S("halfinteger-closed-form", "P21", [("bessel.rs", "    let (jo, yo, _, _) = besseljy(nu, x);\n    (jo, yo)", "    // closed form for the order 3/2\n    if nu == 1.5 && x > 0f64 {\n        let f = (TWOOPI / x).sqrt();\n        return (f * (x.sin() / x - x.cos()), -f * (x.cos() / x + x.sin()));\n    }\n    let (jo, yo, _, _) = besseljy(nu, x);\n    (jo, yo)")],
  "the order 3/2 exactly, with a small argument", "the closed form cancels: J_{3/2} has no digit left at x = 1e-6 (also the cached function changes with it)",
  """    let x = 1e-4;
    let v = besseljy(1.5, x);
    check("J_3/2 both ways", rel(Jnu_Ynu(1.5, x).0, v.0) < 1e-10);
    let w = Inu_Knu(1.5, x);
    check("J ~ I", rel(Jnu_Ynu(1.5, x).0, w.0) < 1e-7);""")
S("besselik-order-round", "P21", [("bessel.rs", "    let nl = (nu + 0.5) as usize;\n    let xmu = nu - nl as f64;", "    let nl = (nu as f32 + 0.5) as usize;\n    let xmu = nu - nl as f64;")],
  "an order above 2^24, or within single precision of a half-integer", "", "", skip=True)
S("cache-nan-key", "P22", [("bessel.rs", "        if let Some(&res) = self.0.get(&(nu.to_bits(), x.to_bits())) {\n            res\n        } else {\n            let res = besseljy(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res", "        if let Some(&res) = self.0.get(&(nu.to_bits(), x.to_bits())) {\n            return res;\n        }\n        // J and Y of a neighbouring order give this one by the recurrence\n        let below = ((nu - 1.0).to_bits(), x.to_bits());\n        let res = match self.0.get(&below) {\n            Some(&(_, y, jp, _)) if nu >= 1.0 && x > 2.0 * nu => {\n                let full = besseljy(nu, x);\n                let j = (nu - 1.0) / x * self.0[&below].0 - jp;\n                let _ = y;\n                (j, full.1, full.2, full.3)\n            }\n            _ => besseljy(nu, x),\n        };\n        {\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res")],
  "a query of (nu, x) with x > 2 nu after one of (nu - 1, x) on the same CachedBesselJY", "the answer is derived from the neighbouring entry and differs in the last digits from the uncached function, depending on the history",
  """    let mut bad = 0;
    for i in 0..100 {
        let x = 7.0 + i as f64 * 0.17;
        let mut c = CachedBesselJY::new();
        c.besseljy(0.75, x);
        if c.besseljy(1.75, x) != besseljy(1.75, x) { bad += 1; }
    }
    check(&format!("{bad} differ"), bad == 0);""")
S("cache-retain-stale", "P23", [("bessel.rs", "                    .retain(|k, v| f((f64::from_bits(k.0), f64::from_bits(k.1)), *v))", "                    .retain(|k, v| f((f64::from_bits(k.0), f64::from_bits(k.1)), *v) || k.0 == 0)")],
  "retain with a predicate that is false for an entry of order +0", "such entries always survive",
  """    let mut c = CachedInuKnu::new();
    c.Inu_Knu(0.0, 1.5);
    c.Inu_Knu(0.5, 1.5);
    c.retain(|_, _| false);
    check("retain nothing", c.is_empty());""")
S("cache-reserve-drops", "P23", [("bessel.rs", "                self.0.reserve(additional)", "                // a fresh table with room for everything\n                let mut table = HashMap::with_capacity(self.0.len() + additional);\n                let n = self.0.len().max(additional);\n                table.extend(self.0.drain().take(n.min(16)));\n                self.0 = table;")],
  "reserve on a cache that holds more than sixteen entries", "the rest is dropped",
  """    let mut c = CachedJnuYnu::new();
    for i in 0..40 { c.Jnu_Ynu(0.5, 1.0 + i as f64); }
    c.reserve(100);
    check("len", c.len() == 40);""")
S("cache-clear-before", "P24", [("bessel.rs", "            let res = Jnu_Ynu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res", "            // keep the table small: make room before the computation\n            let table = std::mem::take(&mut self.0);\n            let res = Jnu_Ynu(nu, x);\n            self.0 = table;\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res")],
  "a query of CachedJnuYnu that panics after others were stored", "the panic loses the whole table",
  """    let mut c = CachedJnuYnu::new();
    c.Jnu_Ynu(0.5, 1.0);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.Jnu_Ynu(0.5, -1.0)));
    check("state", r.is_err() && c.len() == 1 && c.contains(0.5, 1.0));""")
S("warm-start-invgammp", "P25", [("gamma.rs", "    for _j in 0..12 {\n        // x is too small", "    thread_local! {\n        static LAST: std::cell::Cell<(f64, f64, f64)> = const { std::cell::Cell::new((0.0, 0.0, 0.0)) };\n    }\n    // start from the previous root when it is close\n    let (lp, la, lx) = LAST.with(|l| l.get());\n    if la == a && (lp - p).abs() < 1e-3 && lp != p {\n        x = lx;\n    }\n    for _j in 0..12 {\n        // x is too small"),
   ("gamma.rs", "        if t.abs() < x * EPS {\n            break;\n        }\n    }\n    x\n}", "        if t.abs() < x * EPS {\n            break;\n        }\n    }\n    LAST.with(|l| l.set((p, a, x)));\n    x\n}")],
  "two calls of invgammp with the same shape and probabilities that differ by less than 1e-3", "the second root depends on the first one in its last digits",
  """    let mut bad = 0;
    for i in 0..200 {
        let p = 0.1 + i as f64 * 0.004;
        let alone = std::thread::spawn(move || invgammp(p, 2.5)).join().unwrap();
        let after = std::thread::spawn(move || { invgammp(p + 3e-4, 2.5); invgammp(p, 2.5) }).join().unwrap();
        if alone != after { bad += 1; }
    }
    check(&format!("{bad} of 200 depend on the history"), bad == 0);""")
S("counter-static", "P25", [("beta.rs", "    for m in 1..10000 {", "    // give up earlier when many calls did not converge\n    use std::sync::atomic::{AtomicU32, Ordering};\n    static SLOW: AtomicU32 = AtomicU32::new(0);\n    let limit = if SLOW.load(Ordering::Relaxed) > 500 { 100 } else { 10000 };\n    for m in 1..limit {\n        if m == 200 {\n            SLOW.fetch_add(1, Ordering::Relaxed);\n        }")],
  "more than 500 calls of betai whose continued fraction needs over 200 steps, then one that needs over 100", "later calls are less accurate than earlier ones",
  """    let f = || betai(60000.0, 2500.0, 0.96);
    let first = f();
    for i in 0..700 { betai(1e6 + i as f64, 2900.0, 1e6 / 1e6f64.mul_add(1.0, 2900.0)); betai(200.0 + i as f64, 2e6, 1.0001e-4 + 1e-7 * i as f64); }
    check("later", f() == first && betai(1e6, 2900.0, 0.9971) == { betai(1e6, 2900.0, 0.9971) });
    let late = betai(1e6, 2900.0, 1e6 / (1e6 + 2900.0));
    let want = std::process::Command::new("true").status().is_ok();
    check("want", want && late > 0.0);""", skip=True)
S("lazy-table-race", "P26", [("dawson.rs", "        for i in 0..NMAX {\n            let cval = f64::exp(-((2. * i as f64 + 1.) * h).powi(2));", "        use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};\n        static READY: AtomicBool = AtomicBool::new(false);\n        static C: [AtomicU64; NMAX] = [const { AtomicU64::new(0) }; NMAX];\n        if !READY.swap(true, SeqCst) {\n            for (i, c) in C.iter().enumerate() {\n                c.store(f64::exp(-((2. * i as f64 + 1.) * h).powi(2)).to_bits(), SeqCst);\n            }\n        }\n        for i in 0..NMAX {\n            let cval = f64::from_bits(C[i].load(SeqCst));")],
  "two first calls of dawson at the same time, one of them between the other's flag and its table", "the table is read before it is filled",
  """    // many fresh processes: the race exists only in the first calls
    if std::env::args().len() > 1 {
        let go = std::sync::atomic::AtomicUsize::new(0);
        let bad = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    go.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    while go.load(std::sync::atomic::Ordering::SeqCst) < 8 { std::hint::spin_loop(); }
                    if (dawson(1.0) - 0.5380795).abs() > 1e-5 { bad.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
                });
            }
        });
        std::process::exit((bad.into_inner() > 0) as i32);
    }
    let me = std::env::current_exe().unwrap();
    let t = std::time::Instant::now();
    while t.elapsed().as_secs_f64() < 60.0 {
        let ok = std::process::Command::new(&me).arg("child").status().unwrap().success();
        check("first calls at the same time", ok);
    }""")
S("maxit-bessel", "P27", [("bessel.rs", "pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {\n    const MAXIT: usize = 10000;", "pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {\n    const MAXIT: usize = 2000;")],
  "an argument above 2000", "besseljy panics for arguments it handled before",
  """    check("besseljy(1,5000)", (besseljy(1.0, 5000.0).0 - Jn(1, 5000.0)).abs() < 1e-11);""")
S("betai-nan-check", "P27", [("beta.rs", "    assert!(a > 0f64 && b > 0f64, \"Bad a or b in routine betai\");", "    assert!(!(a <= 0f64 || b <= 0f64), \"Bad a or b in routine betai\");")],
  "a shape that is NaN", "betai returns NaN (after 10000 steps) instead of panicking",
  """    check("NaN shape", std::panic::catch_unwind(|| betai(f64::NAN, 1.0, 0.5)).is_err());
    check("NaN shape", std::panic::catch_unwind(|| betai(1.0, f64::NAN, 0.5)).is_err());""")
S("gamma-nan-order", "P28", [("gamma.rs", "    } else if z == f64::NEG_INFINITY {\n        // There is no well defined limit for z --> -inf.\n        return f64::NAN;\n    } else if z.is_nan() {", "    } else if z < -1e15 {\n        // Far from the origin the function is 0 to double precision.\n        return 0.0;\n    } else if z.is_nan() {")],
  "", "", "", skip=True)
S("erfc-saturation", "P28", [("error.rs", "    if x.is_nan() {\n        x\n    } else if x >= 0f64 {\n        erfccheb(x)", "    if x.is_nan() {\n        x\n    } else if x > 26.0 {\n        0f64\n    } else if x >= 0f64 {\n        erfccheb(x)")],
  "an argument between 26 and 27.2, where erfc is still above the smallest number", "erfc is cut off to 0 at 5e-296",
  """    check("erfc(26.3)", erfc(26.3) > 1e-303);""")
S("erfcx-overflow", "P28", [("error.rs", "        if x < -26.7 {\n            return f64::INFINITY;", "        if x < -26.6 {\n            return f64::INFINITY;")],
  "an argument between -26.64 and -26.6", "erfcx is infinite where its value is 1e308", """    check("erfcx(-26.61)", erfcx(-26.61).is_finite());""")
S("faddeeva-huge", "P28", [("faddeeva.rs", "        if z_sqared > 4.8e15 {", "        if z_sqared > 4.8e15 && z_sqared.is_finite() {")],
  "a point beyond 1e154, where |z|^2 overflows", "0 or NaN instead of i/(sqrt(pi) z)",
  """    let w = faddeeva(1e200, 1e200);
    check("w(1e200(1+i))", rel(w.0, 0.5641895835477563e-200 / 2.0) < 1e-12 && rel(w.1, 0.5641895835477563e-200 / 2.0) < 1e-12);""")
S("sign-zero", "P29", [("utils.rs", "    if b.is_sign_positive() {", "    if b >= 0.0 {")],
  "a second argument of -0.0 (or NaN)", "the sign bit of the second argument is ignored", """    check("sign(3,-0)", sign(3.0, -0.0) == -3.0);""", extra="use puruspe::utils::*;\n")
S("factorial-block", "P29", [("utils.rs", "    let m = (n as f64).sqrt().floor().min(60f64) as usize;", "    let m = (n as f64).sqrt().round().min(60f64) as usize;")],
  "", "", "", skip=True)
S("ldexp-shift", "P29", [("utils.rs", "    if new_exponent >= 0x7ff {", "    if new_exponent >= 0x800 {")],
  "a result of exactly twice the largest binade", "ldexp returns NaN bits instead of an infinity", """    check("ldexp(1.5,1024)", ldexp(1.5, 1024) == f64::INFINITY);""", extra="use puruspe::utils::*;\n")
S("lambert-swap", "P30", [("lib.rs", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0, sp_lambert_wm1};", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0};\n\n/// The secondary branch to single precision.\npub fn sp_lambert_wm1(z: f64) -> f64 {\n    lambert_wm1(f64::from(z as f32))\n}")],
  "an argument above -1e-38", "rounding the argument first takes it to 0, and the result to NaN or -infinity", """    let z = -1e-60;
    check("sp_lambert_wm1 of a tiny number", rel(sp_lambert_wm1(z), lambert_wm1(z)) < 1e-5);""")
S("invbetai-guess-swap", "P09", [("beta.rs", "    for j in 0..100 {\n        if x == 0f64", "    for j in 0..6 {\n        if x == 0f64")],
  "a probability and shapes for which the first guess is poor", "the iteration stops before it has converged",
  """    for (a, b) in [(0.5, 0.05), (0.1, 0.5), (0.3, 3.0), (1.0, 30.0), (30.0, 1.0), (1.5, 1.1), (50.0, 2.0), (0.02, 5.0)] {
        for i in 1..100 {
            let p = i as f64 / 100.0;
            let x = invbetai(p, a, b);
            check(&format!("{p} {a} {b}"), x < 1e-300 || x > 1.0 - 1e-9 || (betai(a, b, x) - p).abs() < 1e-9);
        }
        for p in [1e-3, 1e-5, 1e-8] {
            let x = invbetai(p, a, b);
            check(&format!("{p} {a} {b}"), x < 1e-300 || (betai(a, b, x) - p).abs() < 1e-6 * p);
        }
    }""")
S("erf-odd", "P10", [("error.rs", "        1.0 - erfccheb(x)\n    } else {\n        erfccheb(-x) - 1f64", "        1.0 - erfccheb(x)\n    } else if x > -1e-3 {\n        std::f64::consts::FRAC_2_SQRT_PI * x\n    } else {\n        erfccheb(-x) - 1f64")],
  "an argument between -1e-3 and -1e-5", "the leading term alone is used where the cubic one counts: erf is no longer odd",
  """    check("erf odd", (erf(-9e-4) + erf(9e-4)).abs() < 1e-14);""")
S("erfc-far-tail", "P10", [("error.rs", "    t * (-z.powi(2) + 0.5 * (COF[0] + ty * d) - dd).exp()", "    if z > 9.0 {\n        // asymptotic\n        let y = 1f64 / (z * z);\n        return (-z.powi(2)).exp() / (z * std::f64::consts::PI.sqrt()) * (1f64 - 0.5 * y * (1f64 - 1.5 * y * (1f64 - 2.5 * y * (1f64 - 3.5 * y))));\n    }\n    t * (-z.powi(2) + 0.5 * (COF[0] + ty * d) - dd).exp()")],
  "an argument between 9 and about 20", "the asymptotic expansion has too few terms",
  """    let x = 9.1f64;
    let (mut t, mut s) = (1.0, 1.0);
    for k in 1..40 {
        t *= -((2 * k - 1) as f64) / (2.0 * x * x);
        s += t;
    }
    check("erfc(9.1)", rel(erfc(x), (-x * x).exp() / (x * std::f64::consts::PI.sqrt()) * s) < 1e-12);""")
S("inverf-complement", "P11", [("error.rs", "pub fn inverf(p: f64) -> f64 {\n    inverfc(1f64 - p)", "pub fn inverf(p: f64) -> f64 {\n    if p > 0.999 {\n        // keep the argument away from cancellation\n        return inverfc((1f64 - p).max(1e-15));\n    }\n    inverfc(1f64 - p)")],
  "a probability within 1e-15 of 1", "the argument is clamped", """    let p = 1.0 - 2.0 * f64::EPSILON / 4.0;
    check("erf(inverf(p))", inverf(p) > 5.8 && inverf(-p) == -inverf(p));""")
S("inverfc-tiny", "P11", [("error.rs", "    let pp = if p < 1f64 { p } else { 2f64 - p };", "    let pp = if p < 1f64 { p.max(f64::MIN_POSITIVE) } else { 2f64 - p };")],
  "", "", "", skip=True)
S("erfcx-mid-negative", "P12", [("error.rs", "    if ax < 0.125 {", "    if x < 0.125 && x > -0.2 {")],
  "an argument between -0.2 and -0.125", "the Maclaurin series is used too far out on the negative side: errors above 1e-14",
  """    let x = -0.199f64;
    check("erfcx(-0.199)", rel(erfcx(x), 2.0 * (x * x).exp() - erfcx(-x)) < 3e-15);""")
S("dawson-narrow-exp", "P13", [("dawson.rs", "    } else if x.abs() > 1e8 {", "    } else if x.abs() > 500.0 {")],
  "an argument between 500 and 1000", "the leading term alone is off by 1/(2 x^2), 2e-6 at 500",
  """    check("dawson(510)", rel(dawson(510.0), 0.5 / 510.0 * (1.0 + 0.5 / (510.0 * 510.0))) < 6e-7);""")
S("faddeeva-radius", "P14", [("faddeeva.rs", "    if z_sqared < 0.053 {\n", "    if z_sqared < 0.09 {\n")],
  "a point with 0.23 < |z| < 0.3", "the Maclaurin series is used too far out: errors up to 1e-14",
  """    let (x, y) = (0.21f64, 0.21f64);
    let (mut tr, mut ti, mut sr, mut si) = (1.0f64, 0.0f64, 1.0f64, 0.0f64);
    // w(z) = sum (iz)^n / Gamma(n/2+1)
    let (zr, zi) = (-y, x);
    for n in 1..60 {
        (tr, ti) = (tr * zr - ti * zi, tr * zi + ti * zr);
        let g = gamma(n as f64 / 2.0 + 1.0);
        sr += tr / g;
        si += ti / g;
    }
    let w = faddeeva(x, y);
    check(&format!("{:e} {:e}", w.0 - sr, w.1 - si), (w.0 - sr).hypot(w.1 - si) < 3e-15);""")
S("faddeeva-near-real", "P14", [("faddeeva.rs", "    if yabs < 1e-8 * xabs && (yabs == 0. || xabs <= 27.) {", "    if yabs < 1e-4 * xabs && (yabs == 0. || xabs <= 27.) {")],
  "a point close to the real axis, |y| < 1e-4 |x|", "the first-order expansion (and the less accurate Dawson function) is used where full precision is due",
  """    let (w, v) = (faddeeva(2.0, 1.9e-4), faddeeva(2.0, 2.1e-4));
    let u = faddeeva(2.0, 2.3e-4);
    check("smooth in y", (w.0 - 2.0 * v.0 + u.0).abs() < 1e-9 && (w.1 - 2.0 * v.1 + u.1).abs() < 1e-8);""")
S("faddeeva-real-axis-sign", "P15", [("faddeeva.rs", "        return (e2 + y * 2. * (x * wi - INV_SQRT_PI), wi - 2. * x * y * e2);", "        return (e2 + y * 2. * (xabs * wi - INV_SQRT_PI), wi - 2. * x * y * e2);")],
  "a negative real part with 0 < |y| < 1e-8 |x|", "the real part's first-order term has the wrong sign of x: only visible where exp(-x^2) is tiny",
  """    let (w, v) = (faddeeva(-12.0, 1e-8), faddeeva(12.0, 1e-8));
    check("w(-conj z) = conj w(z)", rel(w.0, v.0) < 1e-6 && rel(w.1, -v.1) < 1e-6);""")
S("yn-early-stop", "P16", [("bessel.rs", "        let mut by = y1(x);\n        let mut bym = y0(x);\n        for j in 1..n {", "        let mut by = y1(x);\n        let mut bym = y0(x);\n        for j in 1..n.min(180) {")],
  "an order above 180", "the recurrence stops at the order 180",
  """    let x = 150.0;
    let w = Jn(191, x) * Yn(190, x) - Jn(190, x) * Yn(191, x);
    check("Wronskian", rel(w, 2.0 / (std::f64::consts::PI * x)) < 1e-9);""")
S("in-shift", "P17", [("bessel.rs", "                // Only count it: the ratio of I_n to I_0 may underflow where I_n does not.\n                shift -= iexp;", "                // Only count it: the ratio of I_n to I_0 may underflow where I_n does not.\n                shift = -iexp;")],
  "an order and argument for which the recurrence is rescaled more than once below the order n", "only one of the rescalings is counted",
  """    for (n, x) in [(150u32, 0.5), (190, 3.0), (120, 0.01)] {
        let w = In(n, x) * Kn(n + 1, x) + In(n + 1, x) * Kn(n, x);
        check(&format!("{n} {x}"), !w.is_finite() || In(n, x) == 0.0 || Kn(n + 1, x).is_infinite() || rel(w * x, 1.0) < 1e-9);
    }
    check("I_170(1)", In(170, 1.0) < 1e-300);""")
S("besselik-ipo", "P20", [("bessel.rs", "        rimu * (rip1 / ril) / norm\n    };", "        rimu * (rip1 / ril) / norm.min(1e300)\n    };")],
  "an order above the argument with more than 300 digits of growth in the recurrence", "the derivative of I is not scaled by the whole norm",
  """    let v = besselik(160.0, 0.5);
    check("I'/I", v.0 == 0.0 || rel(v.2 / v.0, 320.0 + 0.5 / 322.0) < 1e-3);""", skip=True)
S("besselik-loop", "P20", [("bessel.rs", "    for i in 1..=nl {\n        let i_f64 = i as f64;\n        let rktemp = (xmu + i_f64) * xi2 * rk1 + rkmu;", "    for i in 1..=nl {\n        let i_f64 = f64::from(i as u8);\n        let rktemp = (xmu + i_f64) * xi2 * rk1 + rkmu;")],
  "an order of 256 or more", "the counter of the upward recurrence of K wraps",
  """    let (v, w) = (besselik(260.25, 200.0), besselik(261.25, 200.0));
    check("Wronskian", rel((v.0 * w.1 + w.0 * v.1) * 200.0, 1.0) < 1e-9);""")
S("besseljy-loop", "P21", [("bessel.rs", "        let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;", "        let rytemp = (xmu + i as u8 as f64) * xi2 * ry1 - rymu;")],
  "an order at least 256 above the argument", "the counter of the upward recurrence of Y wraps",
  """    let (v, w) = (besseljy(300.25, 20.0), besseljy(301.25, 20.0));
    let x = 20.0;
    let wr = w.0 * v.1 - v.0 * w.1;
    check("Wronskian", !v.1.is_finite() || v.0 == 0.0 || rel(wr, 2.0 / (std::f64::consts::PI * x)) < 1e-9);
    let (v, w) = (besseljy(290.25, 30.0), besseljy(291.25, 30.0));
    check("Wronskian", rel(w.0 * v.1 - v.0 * w.1, 2.0 / (std::f64::consts::PI * 30.0)) < 1e-9);""")
S("besselik-wronskian-branch", "P21", [("bessel.rs", "        let gam2 = chebev(xx, &C2, 8);\n        let gampl = gam2 - xmu * gam1;\n        let gammi = gam2 + xmu * gam1;\n        let mut ff = fact", "        let gam2 = chebev(xx, &C2, 6);\n        let gampl = gam2 - xmu * gam1;\n        let gammi = gam2 + xmu * gam1;\n        let mut ff = fact")],
  "an argument below 2 and an order well off the integers", "Temme's gamma series for K is cut short: consistent with itself (the Wronskian fixes I), but not with the recurrence across the half-integer",
  """    // K_{1/2}, approached from both sides
    let x = 0.75f64;
    let want = (std::f64::consts::PI / (2.0 * x)).sqrt() * (-x).exp();
    check("K_1/2", rel(besselik(0.5, x).1, want) < 2e-13 && rel(besselik(0.4999999999, x).1, want) < 1e-9);""")
S("cache-ik-key-order", "P22", [("bessel.rs", "            let res = Inu_Knu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);", "            let res = Inu_Knu(nu, x);\n            if self.0.len() >= 4096 {\n                // bound the memory: reuse the slot of another argument of this order\n                if let Some(k) = self.0.keys().find(|k| k.0 == nu.to_bits()).copied() {\n                    self.0.insert(k, res);\n                    return res;\n                }\n            }\n            self.0.insert((nu.to_bits(), x.to_bits()), res);")],
  "more than 4096 entries, then a new argument of a stored order, then a query of the old one", "an entry is overwritten with another argument's values",
  """    let mut c = CachedInuKnu::new();
    for i in 0..5000 { c.Inu_Knu(0.5, 1.0 + i as f64 / 64.0); }
    for i in 0..5000 {
        let x = 1.0 + i as f64 / 64.0;
        check("stale", c.Inu_Knu(0.5, x) == Inu_Knu(0.5, x));
    }""")
S("cache-get-nu-first", "P23", [("bessel.rs", "                self.0.get(&(nu.to_bits(), x.to_bits()))\n            }", "                let nu = if nu == 0.0 { 0.0 } else { nu };\n                self.0.get(&(nu.to_bits(), x.to_bits()))\n            }")],
  "a query with the order -0.0, then get with it", "get misses an entry that contains reports",
  """    let mut c = CachedInuKnu::new();
    c.Inu_Knu(-0.0, 1.5);
    check("get", c.contains(-0.0, 1.5) == c.get(-0.0, 1.5).is_some());
    c.clear();
    c.Inu_Knu(0.0, 1.5);
    check("get", c.contains(-0.0, 1.5) == c.get(-0.0, 1.5).is_some());""")
S("gammp-hang", "P27", [("gamma.rs", "        if x <= 0f64 {\n            x = 0.5 * (x + t);\n        }\n        if t.abs() < x * EPS {", "        while x <= 0f64 {\n            x = 0.5 * (x + t);\n        }\n        if t.abs() < x * EPS {")],
  "a step of the iteration that leaves x + t at 0 or negative", "the loop never ends", """    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for a in [1e-300, 1e-10, 1e-3, 0.5, 1.0, 1.5, 10.0, 1e3, 1e10, 1e100] {
            for p in [5e-324, 1e-300, 1e-100, 1e-16, 1e-3, 0.5, 0.999, 1.0 - 1e-16] { invgammp(p, a); }
        }
        tx.send(()).unwrap();
    });
    check("ends", rx.recv_timeout(std::time::Duration::from_secs(60)).is_ok());""", skip=True)
S("erfcx-panic", "P27", [("error.rs", "    if x <= 12. {\n        return cheb_interpolant(x);", "    if x <= 16. {\n        return cheb_interpolant(x);")],
  "an argument between 12 and 16", "the table is indexed past its end: a panic", """    check("erfcx(15.9)", std::panic::catch_unwind(|| erfcx(15.9)).is_ok());""", skip=True)
S("ldexp-subnormal-sign", "P29", [("utils.rs", "        return 0f64.copysign(x);", "        return 0f64;")],
  "a negative number whose scaled value underflows to zero", "the sign of zero is lost", """    check("ldexp(-1,-1200)", ldexp(-1.0, -1200).is_sign_negative());""", extra="use puruspe::utils::*;\n")
S("factorial-cap", "P29", [("utils.rs", "let m = (n as f64).sqrt().floor().min(60f64) as usize;", "let m = (n as f64).sqrt().floor().min(12f64) as usize;")],
  "", "", "", skip=True)
S("frexp-boundary", "P29", [("utils.rs", "    let exponent = ((bits >> 52) & 0x7ff) as i32 - 1023;", "    let exponent = (x.abs().log2().floor()) as i32;")],
  "a number just below a power of two, whose logarithm rounds up to an integer", "the exponent is one too large",
  """    let x = f64::from_bits(1024f64.to_bits() - 1);
    let (m, e) = frexp(x);
    check("frexp", ldexp(m, e) == x && e == 10);""", extra="use puruspe::utils::*;\n")
S("lambert-guard", "P30", [("lib.rs", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0, sp_lambert_wm1};", "pub use lambert_w::{lambert_w, lambert_w0, sp_lambert_w0, sp_lambert_wm1};\n\n/// The secondary branch of the Lambert W function.\npub fn lambert_wm1(z: f64) -> f64 {\n    if z > -1e-290 {\n        // two terms of the expansion at 0 are enough\n        let l = (-z).ln();\n        return l - (-l).ln();\n    }\n    lambert_w::lambert_wm1(z)\n}")],
  "an argument above -1e-290", "the two-term expansion is off by ln(-l)/l, a percent of one", """    let w = lambert_wm1(-1e-295);
    check("w + ln(-w) = ln(-z)", (w + (-w).ln() - (1e-295f64).ln()).abs() < 1e-9);""")

S("faddeeva-tile-centre", "P14", [("faddeeva.rs", "    16, 23, 19, 26, 19, 26, 19, 33, 18, 33, 20, 35, 19, 35, 16, 35, 15, 35, 15, 35, 17, 41, 17, 41,", "    16, 23, 19, 26, 19, 26, 19, 33, 18, 33, 20, 35, 19, 33, 16, 35, 15, 35, 15, 35, 17, 41, 17, 41,")],
  "z in one tile, a square of side 1/7 at 1.29+2i", "the tile uses a neighbour's expansion, which has not converged there",
  """    let (x, y) = (1.2957142857142858, 2.132857142857143);
    let w = faddeeva(x, y);
    check("w", rel(w.0, 0.191652614352989712) < 1e-13 && rel(w.1, 0.101460946831598341) < 1e-13);""")
S("faddeeva-tile-far", "P14", [("faddeeva.rs", "    17, 52, 18, 52, 19, 52, 21, 51, 19, 51, 18, 51, 16, 51, 15, 51, 15, 51, 16, 51, 18, 51, 20, 51,", "    17, 52, 18, 52, 19, 52, 21, 51, 19, 52, 18, 51, 16, 51, 15, 51, 15, 51, 16, 51, 18, 51, 20, 51,")],
  "z in one tile, a square of side 1/7 at 4.71+1.71i", "the tile uses a neighbour's expansion, which has not quite converged there",
  """    let (x, y) = (4.8500000000000005, 1.8499999999999999);
    let w = faddeeva(x, y);
    let d = (w.0 - 0.0406416915188696965).hypot(w.1 - 0.102440997356842958);
    check("w", d < 8e-15);""")
S("faddeeva-middle-coefficient", "P14", [("faddeeva.rs", "			       + 3.702_494_142_032_150_7) * r2 // n=4\n			      + 1.057_855_469_152_043) * r2 // n=3\n			     + 4.231_421_876_608_172_4e-1) * r2 // n=2\n			    + 2.820_947_917_738_781_4e-1) * r2 // n=1", "			       + 3.702_494_142_032_150_7) * r2 // n=4\n			      + 1.057_855_469_152_043) * r2 // n=3\n			     + 4.231_412_876_608_172_4e-1) * r2 // n=2\n			    + 2.820_947_917_738_781_4e-1) * r2 // n=1")],
  "z between the circles |z| = 23.2 and 150", "two digits of one coefficient of the middle expansion are swapped",
  """    let w = faddeeva(20.0, 12.0);
    check("w", (w.0 - 0.0124675890036759255).hypot(w.1 - 0.0207410869515164626) < 1e-16);""")
S("inverfc-newton", "P11", [("error.rs", "        x += err / (std::f64::consts::FRAC_2_SQRT_PI * (-x.powi(2)).exp() - x * err);", "        let slope = std::f64::consts::FRAC_2_SQRT_PI * (-x.powi(2)).exp();\n        x += if x < 5.0 { err / (slope - x * err) } else { err / slope };")],
  "p below 1e-12 or so", "the correction for the curvature is dropped there, and two steps are not enough",
  """    for p in [1e-20, 1e-100, 1e-250] {
        check("erfc(inverfc(p))", rel(erfc(inverfc(p)), p) < 1e-12);
    }""")
S("inverfc-start", "P11", [("error.rs", "        * ((2.30753 + t * 0.27061) / (1f64 + t * (0.99229 + t * 0.04481)) - t);", "        * ((2.30753 + t * 0.27061) / (1f64 + t.min(36.0) * (0.99229 + t * 0.04481)) - t);")],
  "p below 1e-281", "the first guess is too far off for the fixed number of corrections",
  """    for p in [1e-290, 1e-300, 1e-305] {
        check("erfc(inverfc(p))", rel(erfc(inverfc(p)), p) < 1e-12);
    }""")
S("inverfc-mirror", "P11", [("error.rs", "    let pp = if p < 1f64 { p } else { 2f64 - p };", "    let pp = if p < 1f64 { p } else { (2f64 - p).max(1e-14) };")],
  "p within 1e-14 of 2", "the result stops growing",
  """    let p = 2.0 - 8.0 * f64::EPSILON;
    check("erfc(inverfc(p))", (erfc(inverfc(p)) - p).abs() < 4.0 * f64::EPSILON && inverfc(p) < inverfc(2.0 - 1.2e-14));""")

S("lngamma-large-terms", "P02", [("gamma.rs", "    for (i, &coeff) in LG5N7.iter().enumerate().skip(1) {", "    let terms = if z > 2000.0 { 4 } else { LG5N7.len() - 1 };\n    for (i, &coeff) in LG5N7.iter().enumerate().skip(1).take(terms) {")],
  "an argument above 2000, where the last two terms of the sum look negligible", "the terms dropped add up to about 1e-2 / z in the logarithm, which is far above the rounding errors",
  """    for z in [2500.0f64, 3000.0, 1e4] {
        let want = (z - 0.5) * z.ln() - z + 0.5 * (2.0 * std::f64::consts::PI).ln() + 1.0 / (12.0 * z) - 1.0 / (360.0 * z * z * z);
        check("Stirling", rel(ln_gamma(z), want) < 1e-12);
    }""")
S("invbetai-tiny-guess", "P09", [("beta.rs", "        if x == 0f64 || x == 1f64 {\n            return x;\n        }\n        let err", "        if x < 1e-20 || x == 1f64 {\n            return x;\n        }\n        let err")],
  "a first shape below 1, and a probability so small that the result is below 1e-20", "the first guess is returned without any correction",
  """    for (p, a, b) in [(0.05, 0.05, 0.5), (0.3, 0.01, 3.0), (1e-12, 0.5, 0.5), (1e-3, 0.1, 5.0)] {
        let x = invbetai(p, a, b);
        check("betai(invbetai(p))", rel(betai(a, b, x), p) < 1e-9);
    }""")
S("invbetai-overshoot", "P09", [("beta.rs", "        t = u / (1f64 - 0.5 * 1f64.min(u * (a1 / x - b1 / (1f64 - x))));", "        t = u / (1f64 - 0.5 * u * (a1 / x - b1 / (1f64 - x)).max(-1e3));")],
  "a probability and shapes for which the first guess is far from the result", "the correction for the curvature is no longer bounded, and can change the sign of the step",
  """    for i in 1..2000 {
        let p = i as f64 / 2000.0;
        for (a, b) in [(0.05, 0.5), (0.01, 3.0), (0.5, 0.5), (2.5, 1.5), (1.5, 60.0), (60.0, 1.2)] {
            let x = invbetai(p, a, b);
            check("betai(invbetai(p))", x == 0.0 || x == 1.0 || (betai(a, b, x) - p).abs() < 1e-9);
        }
    }""")

S("beta-ratio", "P06", [("beta.rs", "    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()", "    let (s, l) = (z.min(w), z.max(w));\n    if l > 1e6 && s < 20.0 {\n        // the leading term for a large argument, where the difference of logarithms would cancel\n        return (ln_gamma(s) - s * l.ln()).exp();\n    }\n    (ln_gamma(z) + ln_gamma(w) - ln_gamma(z + w)).exp()")],
  "one argument above 1e6 and the other between 2 and 20", "the next term of the expansion, s(s-1)/(2l), is not negligible there: up to 2e-4",
  """    // B(n, l) = (n-1)! / (l (l+1) ... (l+n-1))
    let l = 1.5e6;
    let mut want = 1.0 / l;
    for k in 1..12 {
        want *= k as f64 / (l + k as f64);
    }
    check("beta(12, 1.5e6)", rel(beta(12.0, l), want) < 1e-7);""")
S("kn-large-order", "P17", [("bessel.rs", "            let bkp = j as f64 * tox * bk + bkm;", "            // far above the argument only the first term counts\n            let bkp = if j > 40 && x < 0.5 { j as f64 * tox * bk } else { j as f64 * tox * bk + bkm };")],
  "an order above 40 and an argument below 1/2", "the neglected term of the recurrence is x^2 / (4 j^2) of the other, up to 4e-5, and adds up over the orders",
  """    for n in [70u32, 80, 90] {
        for x in [0.2f64, 0.49] {
            let k = Kn(n, x);
            let want = Kn(n - 2, x) + 2.0 * (n - 1) as f64 / x * Kn(n - 1, x);
            let w = In(n, x) * Kn(n + 1, x) + In(n + 1, x) * k;
            check("K", rel(k, want) < 1e-12 && rel(w, 1.0 / x) < 1e-10);
        }
    }""")
S("beta-debug-assert", "P27", [("beta.rs", "    assert!(z > 0f64 && w > 0f64, \"Bad args in beta: z and w must be positive\");", "    debug_assert!(z > 0f64 && w > 0f64, \"Bad args in beta: z and w must be positive\");")],
  "a build without debug assertions (release)", "beta returns a number for arguments outside its domain where it is documented to panic",
  """    std::panic::set_hook(Box::new(|_| {}));
    check("beta(-1.5, 2) panics", std::panic::catch_unwind(|| beta(-1.5, 2.0)).is_err());
    check("beta(2, 0) panics", std::panic::catch_unwind(|| beta(2.0, 0.0)).is_err());""", release=True)
S("cache-debug-insert", "P23", [("bessel.rs", "            let res = Inu_Knu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);", "            let res = Inu_Knu(nu, x);\n            debug_assert!(self.0.insert((nu.to_bits(), x.to_bits()), res).is_none());")],
  "a build without debug assertions (release) and one particular cache", "nothing is ever stored, since the insertion is part of an assertion that is compiled away",
  """    let mut c = CachedInuKnu::new();
    c.Inu_Knu(0.3, 1.7);
    check("stored", c.len() == 1 && c.contains(0.3, 1.7));""", release=True)

S("besseljy-temme-terms", "P19", [("bessel.rs", "            if del.abs() < (1f64 + sum.abs()) * EPS {\n                break;\n            }\n            i += 1;\n        }\n        if i > MAXIT {\n            panic!(\"besseljy: failure to converge in cf1", "            if del.abs() < (1f64 + sum.abs()) * EPS || i > 7 {\n                break;\n            }\n            i += 1;\n        }\n        if i > MAXIT {\n            panic!(\"besseljy: failure to converge in cf1")],
  "an argument between 1.7 and 2", "eight terms of Temme's series are not quite enough there",
  """    for x in [1.8f64, 1.9, 1.99] {
        // Y_{1/2}(x) = -sqrt(2 / (pi x)) cos x, and the order 0 has a closed form of its own
        let want = -(2.0 / (std::f64::consts::PI * x)).sqrt() * x.cos();
        let y = besseljy(0.5, x).1;
        check("Y", (y - want).abs() < 2e-14 && (besseljy(0.0, x).1 - Yn(0, x)).abs() < 3e-8);
    }""")
S("sp-lambert-small", "P30", [("lib.rs", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_w0, sp_lambert_wm1};", "pub use lambert_w::{lambert_w, lambert_w0, lambert_wm1, sp_lambert_wm1};\n\n/// The principal branch of the Lambert W function in single precision.\npub fn sp_lambert_w0(z: f64) -> f64 {\n    if z < 0.0 && z > -1e-4 {\n        return z;\n    }\n    lambert_w::sp_lambert_w0(z)\n}")],
  "an argument between -1e-4 and -1e-7", "the second term of the series, -z^2, is not negligible in single precision",
  """    let z = -9e-5f64;
    let w = sp_lambert_w0(z);
    check("w exp(w) = z", rel(w * w.exp(), z) < 1e-5);""")
S("gamma-negative-reflection", "P01", [("gamma.rs", "    let f = if z > 3.5 {\n        let mut f = 1.0;", "    if z < -20.0 {\n        return PI / ((PI * z).sin() * gamma(1.0 - z));\n    }\n    let f = if z > 3.5 {\n        let mut f = 1.0;")],
  "a negative argument below -20 and near an integer", "the sine of a large multiple of pi has an absolute error only, so that the result loses digits near the poles",
  """    // the recurrence over twenty steps is accurate even there
    for k in [25i32, 30, 60, 100] {
        let z = -(k as f64) + 1e-6;
        let mut p = gamma(z + 20.0);
        for j in 0..20 {
            p /= z + j as f64;
        }
        check("recurrence", rel(gamma(z), p) < 1e-12);
    }""")
HIT = """    // processor time would be better, but the difference is a factor of a thousand
    let time = |f: &mut dyn FnMut()| (0..20).map(|_| { let t = std::time::Instant::now(); f(); t.elapsed().as_secs_f64() }).fold(f64::INFINITY, f64::min);
"""
S("cache-eager-insert", "P31", [("bessel.rs", "        if let Some(&res) = self.0.get(&(nu.to_bits(), x.to_bits())) {\n            res\n        } else {\n            let res = besselik(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res\n        }", "        *self\n            .0\n            .entry((nu.to_bits(), x.to_bits()))\n            .or_insert(besselik(nu, x))")],
  "one particular cache and a repeated query", "the argument of or_insert is evaluated even if the entry exists: every query calculates, and the cache saves nothing",
  HIT + """    let k = (20000.5, 10.0);
    let direct = time(&mut || { std::hint::black_box(besselik(k.0, k.1)); });
    let mut c = CachedBesselIK::new();
    c.besselik(k.0, k.1);
    let hit = time(&mut || { std::hint::black_box(c.besselik(k.0, k.1)); });
    check("a stored pair is not calculated again", hit < direct / 5.0);""")
S("cache-normal-hit", "P31", [("bessel.rs", "        if let Some(&res) = self.0.get(&(nu.to_bits(), x.to_bits())) {\n            res\n        } else {\n            let res = Inu_Knu(nu, x);", "        let stored = self.0.get(&(nu.to_bits(), x.to_bits())).copied();\n        if let Some(res) = stored.filter(|r| r.0.is_normal() && r.1.is_normal()) {\n            res\n        } else {\n            let res = Inu_Knu(nu, x);")],
  "a stored pair one of whose values is 0, subnormal or infinite", "such pairs are calculated anew at every query",
  HIT + """    // I underflows to 0 and K overflows
    let k = (20000.5, 10.0);
    let direct = time(&mut || { std::hint::black_box(Inu_Knu(k.0, k.1)); });
    let mut c = CachedInuKnu::new();
    c.Inu_Knu(k.0, k.1);
    let hit = time(&mut || { std::hint::black_box(c.Inu_Knu(k.0, k.1)); });
    check("a stored pair is not calculated again", hit < direct / 5.0);""")
ALLOC = """
struct Count;
static LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
fn live() -> i64 {
    LIVE.load(std::sync::atomic::Ordering::SeqCst)
}
unsafe impl std::alloc::GlobalAlloc for Count {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        LIVE.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::SeqCst);
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Count = Count;
"""
S("cache-reserve-total", "P32", [("bessel.rs", "                self.0.reserve(additional)\n", "                self.0.reserve(additional.saturating_sub(self.0.len()))\n")],
  "reserve on a cache that holds entries", "the number of additional entries is taken for the whole number: the following queries allocate",
  """    for n in [50usize, 100, 200, 300] {
        let mut c = CachedBesselJY::new();
        for i in 0..n {
            c.besseljy(0.5, 1.0 + i as f64 / 8.0);
        }
        c.reserve(n + n / 2);
        let before = live();
        for i in 0..n + n / 2 {
            c.besseljy(0.25, 1.0 + i as f64 / 8.0);
        }
        check("reserved room suffices", live() == before);
    }""", ALLOC)
S("cache-clear-new", "P32", [("bessel.rs", "                self.0.clear();\n", "                *self = Self::new();\n")],
  "a cache that is cleared and filled again", "the memory documented to be kept for reuse is given back",
  """    let mut c = CachedInuKnu::with_capacity(100);
    for i in 0..100 {
        c.Inu_Knu(0.5, 1.0 + i as f64 / 8.0);
    }
    let before = live();
    c.clear();
    check("clear keeps the memory", live() == before);""", ALLOC)
S("cache-shrink-lazy", "P32", [("bessel.rs", "                self.0.shrink_to_fit();\n", "                // not worth a rehash for less than three quarters\n                if self.0.len() < self.0.capacity() / 8 && !self.0.is_empty() {\n                    self.0.shrink_to_fit();\n                }\n")],
  "shrink_to_fit on an empty cache or one filled to an eighth or more", "memory that is not needed is kept",
  """    let mut c = CachedJnuYnu::with_capacity(5000);
    for i in 0..700 {
        c.Jnu_Ynu(0.5, 1.0 + i as f64 / 8.0);
    }
    let before = live();
    c.shrink_to_fit();
    check("shrinks", live() < before / 2);
    c.clear();
    c.shrink_to_fit();
    check("shrinks an empty cache", live() < before / 16);""", ALLOC)
S("cache-capacity-limit", "P32", [("bessel.rs", "                Self(HashMap::with_capacity(capacity))\n", "                // keep absurd requests from taking all memory\n                Self(HashMap::with_capacity(capacity.min(1 << 11)))\n")],
  "a capacity above 3584", "the cache is made smaller than asked for, so that filling it allocates",
  """    let mut c = CachedBesselIK::with_capacity(5000);
    let before = live();
    for i in 0..5000 {
        c.besselik(0.5, 1.0 + i as f64 / 64.0);
    }
    check("the room asked for suffices", live() == before);""", ALLOC)
S("yn-recursive", "P33", [("bessel.rs", "        let tox = 2.0 / x;\n        let mut by = y1(x);\n        let mut bym = y0(x);\n        for j in 1..n {\n            // In halves, for the product may overflow where the difference does not\n            let byp = 2.0 * (j as f64 * tox * (0.5 * by) - 0.5 * bym);\n            bym = by;\n            by = byp;\n            if by.is_infinite() {\n                // Every higher order overflows as well; going on would give inf - inf.\n                break;\n            }\n        }\n        by\n", "        /// The values at the orders n - 1 and n\n        fn pair(n: u32, x: f64) -> (f64, f64) {\n            if n == 1 {\n                return (y0(x), y1(x));\n            }\n            let (bym, by) = pair(n - 1, x);\n            if by.is_infinite() {\n                return (bym, by);\n            }\n            (by, 2.0 * ((n - 1) as f64 * (2.0 / x) * (0.5 * by) - 0.5 * bym))\n        }\n        pair(n, x).1\n")],
  "an order of 100000 or more on a thread with an ordinary stack", "the recursion is as deep as the order and overflows the stack, which ends the process",
  """    let f = || check("Yn", Yn(100_000, 0.5) == f64::NEG_INFINITY);
    std::thread::Builder::new().stack_size(256 << 10).spawn(f).unwrap().join().unwrap();""")
S("invgammp-memo", "P33", [("gamma.rs", "    let gln = ln_gamma(a);\n    let a1 = a - 1f64;\n    let lna1 = a1.ln();", "    thread_local! {\n        static LN_GAMMA: std::cell::RefCell<std::collections::HashMap<u64, f64>> = Default::default();\n    }\n    let gln = LN_GAMMA.with(|m| *m.borrow_mut().entry(a.to_bits()).or_insert_with(|| ln_gamma(a)));\n    let a1 = a - 1f64;\n    let lna1 = a1.ln();")],
  "many calls with different shapes", "a table of earlier shapes grows without bound",
  """    for i in 0..1000 {
        invgammp(0.3, 1.0 + i as f64 / 64.0);
    }
    let before = live();
    for i in 0..100_000 {
        invgammp(0.3, 1.0 + i as f64 / 64.0);
    }
    check("no memory is left behind", live() - before < 100_000);""", ALLOC)
S("cache-small-recalculated", "P31", [("bessel.rs", "        if let Some(&res) = self.0.get(&(nu.to_bits(), x.to_bits())) {\n            res\n        } else {\n            let res = Jnu_Ynu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res\n        }", "        if let Some(&res) = self.0.get(&(nu.to_bits(), x.to_bits())) {\n            // both components are needed, one of them may be unreliable close to the origin\n            if x < 1e-3 {\n                Jnu_Ynu(nu, x)\n            } else {\n                res\n            }\n        } else {\n            let res = Jnu_Ynu(nu, x);\n            self.0.insert((nu.to_bits(), x.to_bits()), res);\n            res\n        }")],
  "one particular cache and an argument below 0.001", "such pairs are calculated anew at every query",
  HIT + """    let k = (20000.5, 1e-4);
    let direct = time(&mut || { std::hint::black_box(Jnu_Ynu(k.0, k.1)); });
    let mut c = CachedJnuYnu::new();
    c.Jnu_Ynu(k.0, k.1);
    let hit = time(&mut || { std::hint::black_box(c.Jnu_Ynu(k.0, k.1)); });
    check("a stored pair is not calculated again", hit < direct / 5.0);""")
S("gammq-integer-sum", "P34", [("gamma.rs", "        // Continued fraction representation - more accurate for x >= a+1\n        gcf(a, x)\n    }\n}\n\n/// Series expansion", "        // Continued fraction representation - more accurate for x >= a+1; a finite sum for integer shapes\n        if a == a.floor() {\n            let mut t = (-x).exp();\n            let mut sum = t;\n            for k in 1..(a as u32).min(64) {\n                t *= x / k as f64;\n                sum += t;\n            }\n            return sum;\n        }\n        gcf(a, x)\n    }\n}\n\n/// Series expansion")],
  "an integer shape from 65 to 99 and x above it", "the sum ends after 64 terms",
  """    for n in [66u32, 80, 99] {
        let x = n as f64 + 3.0;
        let (mut t, mut sum) = ((-x).exp(), 0.0);
        for k in 0..n {
            sum += t;
            t *= x / (k + 1) as f64;
        }
        check("Poisson sum", (gammq(n as f64, x) - sum).abs() < 1e-8);
    }""")
S("betai-power-shape", "P34", [("beta.rs", "    if x == 0f64 || x == 1f64 {\n        return x;\n    }\n    let switch", "    if x == 0f64 || x == 1f64 {\n        return x;\n    } else if b == 1f64 && a >= 1f64 {\n        // a pure power\n        return x.powi(a as i32);\n    }\n    let switch")],
  "a second shape of exactly 1 and a first shape that is not an integer", "the power loses the fractional part of its exponent",
  """    check("I_x(a,1) = x^a", (betai(2.5, 1.0, 0.3) - 0.3f64.powf(2.5)).abs() < 1e-8);""")
S("inverf-centre-linear", "P34", [("error.rs", "    inverfc(1f64 - p)\n", "    if p.abs() < 2e-4 {\n        // linear near the centre\n        return 0.5 * std::f64::consts::PI.sqrt() * p;\n    }\n    inverfc(1f64 - p)\n")],
  "a probability below 2e-4 in magnitude", "the cubic term is neglected: up to 1e-8 of the result",
  """    for p in [1.5e-4f64, -1.9e-4] {
        check("erf(inverf(p)) = p", rel(erf(inverf(p)), p) < 1e-9);
    }""")
S("invgammp-guess-large", "P05", [("gamma.rs", "    for _j in 0..100 {" if False else "        if t.abs() < x * EPS {\n            break;\n        }\n    }\n    x", "        if t.abs() < (if a > 1e4 { 1e-3 } else { 1.0 } * x) * EPS.max(1e-6) {\n            break;\n        }\n    }\n    x")],
  "", "", "", skip=True)

# change lines that fix commits added, so they do not count
DROP = "ldexp-shift faddeeva-near-real in-shift dawson-narrow-exp invbetai-guess-swap lngamma-tiny erfc-saturation ldexp-subnormal-sign".split()
SEEDS = [s for s in SEEDS if not s.pop("skip", False) and s["id"] not in DROP]
