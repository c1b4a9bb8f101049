#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []
TESTS = "The unit tests compare {} with reference values; "
def P(id, title, statement, over, text, tests, files, mech, technique, note, state=None, na=None):
    assert len(title) <= 80, (id, len(title))
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=tests, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        p["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    PROPS.append((p, technique, note, na))

EXH = "bounded exhaustive explicit-state exploration of the real functions against a binary128 reference model"
SELF = "bounded exhaustive exploration of the real functions' argument lattice, every state and edge checked for invariants"
SEQ = "exhaustive enumeration of operation sequences on the real object against a reference map"
NOTE = ("Every state (argument tuple) of a finite, stated lattice is executed on the real code and compared with a reference "
        "model; nothing is sampled. Arguments between lattice points are not covered. The reference model (binary128 C code "
        "by different algorithms) is trusted after it agrees with the committed mpmath anchors, which is re-checked on every run.")

P("P01", "The gamma function is accurate to 1e-14 over its whole range",
  "For every finite double z that is not zero or a negative integer, gamma(z) is within a relative error of 1e-14 of the true value (an absolute error of 1e-290 where the true value is below 1e-290 in magnitude), of either sign of z. Where the true value exceeds the largest double the result is an infinity of the right sign, and where z is a negative integer it is NaN.",
  ["inputs"], "all doubles z, in particular every integer segment, both sides of every pole, and the thresholds 171.624..., -170..-184",
  "The tests sample a few dozen values of z; each integer segment, the reflection and the overflow guards are separate code paths reached only by particular z.",
  ["src/gamma.rs"], [("gamma: argument reduction to a unit interval and rational minimax pieces", "src/gamma.rs:gamma")], EXH, NOTE)
P("P02", "ln_gamma is accurate for every positive argument",
  "For every z >= 1e-300, ln_gamma(z) is finite and within an absolute error of 4e-10 + 2e-15*|ln Gamma(z)| of the true value.",
  ["inputs"], "all doubles z from 1e-300 to 1e300",
  "The tests evaluate ln_gamma at a handful of points; accuracy must hold between them, near the zeros at 1 and 2 and for tiny and huge z.",
  ["src/gamma.rs"], [("Lanczos sum with g=5, n=7", "src/gamma.rs:ln_gamma")], EXH, NOTE)
P("P03", "Regularized incomplete gamma functions P and Q are accurate",
  "For all shapes a from 1e-6 to 1e8 and all x >= 0, gammp(a,x) and gammq(a,x) are within an absolute error of 1e-10 (a < 10), 4e-10 (a <= 20000) or 2e-14*a (larger a) of the true P(a,x) and Q(a,x). For a <= 20000, P has a relative error of at most 1e-9 (6e-10 for a < 100) for x <= a+1 where P > 1e-20 (1e-250 for a < 100), and Q for x >= a+1 where Q > 1e-12 or x < a + 19.9*(sqrt(a)+1).",
  ["inputs"], "all pairs (a,x) of doubles in the stated range, in particular on both sides of x = a+1, a = 100, x = a-1, and tails",
  "The tests compare about a hundred pairs; the series, continued fraction, quadrature and shortcut branches meet at curves in the (a,x) plane that no sample visits systematically.",
  ["src/gamma.rs"], [("choice of series, continued fraction or Gauss-Legendre quadrature by a and x", "src/gamma.rs:gammp, gammq"), ("lower/upper tail quadrature for a >= 100", "src/gamma.rs:gammpapprox")], EXH, NOTE)
P("P04", "P and Q behave as complementary distribution functions",
  "For every a from 1e-12 to 16000 and x >= 0, gammp and gammq lie in [0,1] (within 1e-9) and add up to 1 within 2e-10, gammp(a,0) = 0 and gammp(a,infinity) = 1. gammp never decreases in x or increases in a by more than 1e-9, and P(a+1,x) = P(a,x) - x^a e^-x / Gamma(a+1) within 1e-9.",
  ["inputs"], "all pairs (a,x) and all pairs of neighbouring arguments, including those on different sides of a branch switch",
  "Tests check isolated values; monotonicity and the recurrence relate pairs of calls that fall into different branches.",
  ["src/gamma.rs"], [("consistent switching points and tails in both functions", "src/gamma.rs:gammp, gammq, gser, gcf, gammpapprox")], SELF, NOTE)
P("P05", "invgammp inverts the regularized lower incomplete gamma function",
  "For every shape a from 0.004 to 16000 and every probability p in (0,1), x = invgammp(p,a) is non-negative and P(a,x) equals p within 1e-10 (a < 10) or 4e-10, and for x <= a+1 within 6e-10*p where p > 1e-20 (1e-250 for a < 100) and within 2e-3*p where p > 1e-100, allowing in each case for a relative error of 1e-14 in x. For p <= 0 the result is 0, and for p >= 1 it is max(100, a + 100 sqrt(a)).",
  ["inputs"], "all pairs (p,a), in particular tiny p, p near 1, a near 1, and pairs where the first guess is poor",
  "The tests try a few pairs; convergence of an iteration from a heuristic first guess depends on both arguments.",
  ["src/gamma.rs"], [("first guess and Halley iteration", "src/gamma.rs:invgammp")], EXH, NOTE)
P("P06", "The beta function is accurate and symmetric",
  "For all z, w from 1e-300 to 1e12, beta(z,w) is within a relative error of 2e-10 of the true value when max(z,w) <= 100, and of 6e-10 + 1e-14*m*(1+ln m) with m = max(z,w) otherwise. beta(w,z) agrees with beta(z,w) to rounding error.",
  ["inputs"], "all pairs of positive doubles in the stated range whose beta value is a normal double",
  "The tests evaluate a few pairs.", ["src/beta.rs", "src/gamma.rs"], [("exp of a sum of ln_gamma values", "src/beta.rs:beta")], EXH, NOTE)
P("P07", "The regularized incomplete beta function is accurate",
  "For all shapes a, b from 1e-3 to 16000 and all x in [0,1], betai(a,b,x) is within an absolute error of 1.5e-10 (max(a,b) <= 10) or 4e-10 of the true I_x(a,b). For x <= 0.9*(a+1)/(a+b+2) the relative error is at most 6e-10 where the value exceeds 1e-250 (1e-20 if both shapes are above 3000).",
  ["inputs"], "all triples (a,b,x), in particular on both sides of x = (a+1)/(a+b+2), shapes below and above 3000, and both tails",
  "The tests compare a few dozen triples; four different branches meet at surfaces in (a,b,x) space.",
  ["src/beta.rs"], [("continued fraction on either side of the switching point", "src/beta.rs:betai, betacf"), ("quadrature when both shapes exceed 3000", "src/beta.rs:betaiapprox")], EXH, NOTE)
P("P08", "I_x(a,b) behaves as a distribution function in x",
  "For all shapes a, b from 1e-3 to 13000 and x in [0,1], betai lies in [0,1] (within 1e-9), is 0 at x=0 and 1 at x=1, and does not decrease in x or b or increase in a by more than 1e-9. Within that margin it satisfies I_x(a,b) + I_{1-x}(b,a) = 1 and I_x(a,b) - I_x(a+1,b) = x^a (1-x)^b / (a B(a,b)).",
  ["inputs"], "all triples and all neighbouring or reflected triples, including those that fall into different branches",
  "Tests check isolated values, not relations between calls that take different branches.",
  ["src/beta.rs"], [("consistent branches and front factor", "src/beta.rs:betai, betacf, betaiapprox")], SELF, NOTE)
P("P09", "invbetai inverts the regularized incomplete beta function",
  "For all shapes a, b from 0.016 to 10000 and every p in (0,1), x = invbetai(p,a,b) lies in [0,1] and I_x(a,b) equals p within 2e-10 (max(a,b) <= 10) or the accuracy of the forward function, and for x <= 0.9*(a+1)/(a+b+2) and p > 1e-250 (1e-20 if both shapes are above 3000) within 6e-10*p, allowing in each case for a relative error of 1e-12 in x. For p <= 0 the result is 0 and for p >= 1 it is 1.",
  ["inputs"], "all triples (p,a,b), in particular shapes on either side of 1, very unequal shapes, p in both tails",
  "The tests try a few triples; convergence from a heuristic first guess depends on all three arguments.",
  ["src/beta.rs"], [("first guess and Halley iteration", "src/beta.rs:invbetai")], EXH, NOTE)
P("P10", "erf and erfc are accurate, complementary and monotone",
  "For every x, erf(x) is within 2e-15 of the true value and erfc(x) within a relative error of 4e-15 for x < 1, 1e-13 for 1 <= x < 10 and 1e-12 beyond (down to the smallest normal double). erf is odd and erfc(-x) = 2 - erfc(x) within 2e-15, and both are monotone within those errors.",
  ["inputs"], "all doubles x", "The tests compare a table of values; every x between has its own Chebyshev argument.",
  ["src/error.rs"], [("Chebyshev series with exponential factor", "src/error.rs:erf, erfc, erfccheb")], EXH, NOTE)
P("P11", "inverf and inverfc invert erf and erfc to rounding error",
  "For every p in (0,2) for which the result lies in the range of erfc, erfc(inverfc(p)) equals p, and for every p in (-1,1) erf(inverf(p)) equals p, allowing for 4 units in the last place of the result and a relative error of 1e-14 (or an absolute error of 2e-15 near the centre). Beyond the end points the results are 100 and -100.",
  ["inputs"], "all doubles p in the stated intervals, in particular tiny p, p near 1 and p near 2", "The tests invert a few values.",
  ["src/error.rs"], [("rational first guess and two Halley steps", "src/error.rs:inverfc, inverf")], EXH, NOTE)
P("P12", "The scaled complementary error function erfcx is accurate to 4e-15",
  "For every x >= 0 erfcx(x) has a relative error of at most 4e-15, and for every x < 0 with a finite result one of at most 1e-15*(4 + x*x/2). Where the true value exceeds the largest double (x below about -26.7) the result is infinity.",
  ["inputs"], "all doubles x, in particular each of the 448 Chebyshev intervals of 0.125 <= x <= 12 and the switch points 0.125, 12, 23.2, 150, 6.9e7 and -6.1", "The tests compare a table of points; each of the 448 intervals has its own ten coefficients.",
  ["src/error.rs"], [("448 Chebyshev intervals addressed by exponent and leading significand bits", "src/error.rs:cheb_interpolant, CHEBYSHEV_COEFFS_0, CHEBYSHEV_COEFFS_1"), ("Maclaurin and asymptotic series", "src/error.rs:erfcx")], EXH, NOTE)
P("P13", "The Dawson integral is odd and accurate to 5e-7",
  "For every double x, dawson(x) has a relative error of at most 5e-7 (1e-7 for |x| < 0.2), and dawson(-x) = -dawson(x).",
  ["inputs"], "all doubles x, in particular every sampling cell of the series, the switch point 0.2 and very large |x|", "The tests compare a table of points.",
  ["src/dawson.rs"], [("Rybicki's exponentially convergent series", "src/dawson.rs:dawson")], EXH, NOTE)
P("P14", "The Faddeeva function is accurate in the closed first quadrant",
  "For all x, y >= 0, w(x+iy) = exp(-z^2) erfc(-iz) is returned with |error| <= 2e-15*|w| (5e-7*|w| where y < 1e-8*x). For |z| >= 7.5 both parts have a relative error of at most 4e-15, and elsewhere (with y >= 1e-8*x and x >= 1e-8*y) the real part one of 1e-8 and the imaginary part one of 2e-12 at most.",
  ["inputs"], "all pairs (x,y) of non-negative doubles, in particular every tile of the table of expansion centres, the axes, and the circles |z| = 7, 23.2, 150, 6.9e7 where the number of terms of the asymptotic expansion changes", "The tests compare a table of points; each of 63 expansion centres has its own coefficients and each of 2500 tiles its own index and number of terms.",
  ["src/faddeeva.rs", "src/dawson.rs", "src/error.rs"], [("tiling, Taylor, Maclaurin, asymptotic and near-axis expansions", "src/faddeeva.rs:faddeeva, TILES, TAYLOR_COEFFS")], EXH, NOTE)
P("P15", "The Faddeeva function obeys its reflections and axis identities",
  "w(-x+iy) is the complex conjugate of w(x+iy) for y >= 0, and w(z) + w(-z) = 2 exp(-z^2) for all z, within errors of a few units in the last place times the condition of exp(-z^2) (5e-7*|w| near the real axis). On the imaginary axis w(iy) = erfcx(y) and on the real axis w(x) = exp(-x*x) + 2i/sqrt(pi)*dawson(x), to the accuracy of those functions.",
  ["inputs"], "all complex z in the four quadrants", "The tests check a table of points in some quadrants; the identities relate two calls.",
  ["src/faddeeva.rs"], [("quadrant reduction and exp(-z^2)", "src/faddeeva.rs:faddeeva")], EXH, NOTE)
P("P16", "Jn and Yn are accurate for integer orders",
  "For every order n up to 2000 and every x with 1e-300 <= x <= 9000, and for orders up to x/4 and 60 (isolated ones up to 2500) every x up to 3e13, Jn(n,x) and Yn(n,x) have an error of at most 3e-14 + 3e-16*max(x,n), relative to the value for x <= n and to sqrt(J^2+Y^2) for x > n; below the smallest normal double Jn may be 0 and where Yn exceeds the largest double it is -infinity.",
  ["inputs"], "all (n,x), in particular n near x, x near 8, zeros of J and Y, tiny x", "The tests compare a few orders at a few points.",
  ["src/bessel.rs"], [("rational approximations, upward and downward recurrence", "src/bessel.rs:Jn, Yn, j0, j1, y0, y1")], EXH, NOTE)
P("P17", "In and Kn are accurate for integer orders",
  "For every order n up to 2000 (and isolated orders up to 14000) and every x with 1e-300 <= x <= 6000 for which they are in the range of a double, In(n,x) and Kn(n,x) have a relative error of at most 3e-14 + 3e-16*max(x,n), even where I_0 overflows and K_0 underflows. Where one underflows it may be 0 and where it exceeds the largest double it is infinity.",
  ["inputs"], "all (n,x), in particular x near 1 and 15, n much larger than x, tiny x", "The tests compare a few orders at a few points.",
  ["src/bessel.rs"], [("rational approximations, upward and downward recurrence", "src/bessel.rs:In, Kn, i0, i1, k0, k1")], EXH, NOTE)
P("P18", "Integer-order Bessel functions obey Wronskians, recurrences and parity",
  "For every n >= 0 and x the three-term recurrences and the Wronskians J_{n+1} Y_n - J_n Y_{n+1} = 2/(pi x) and I_n K_{n+1} + I_{n+1} K_n = 1/x hold within 6e-14 + 6e-16*max(x,n) of the largest term, f(n,-x) = (-1)^n f(n,x) exactly for J and I, and 1 = J0 + 2 J2 + 2 J4 + ... and exp(x) = I0 + 2 I1 + 2 I2 + ... hold within the same accuracy.",
  ["inputs"], "all (n,x) and all pairs and triples of neighbouring orders", "The identities relate several orders at one x, on different recurrence branches.",
  ["src/bessel.rs"], [("consistent recurrences and normalisations", "src/bessel.rs:Jn, Yn, In, Kn")], SELF, NOTE)
P("P19", "Fractional-order J, Y and their derivatives are accurate",
  "For every order nu in [0,1500] and 1e-99 <= x <= 9000, besseljy(nu,x) returns J and Y with errors of at most t = 3e-14 + 4e-16*max(nu,x) + 3e-16*max(0,-ln x), relative to the value for x <= nu and to the amplitude of the oscillation for x > nu, and J' and Y' with errors of at most 2 t of the terms of nu/x*f - f_{nu+1} or of their amplitude. Where J underflows or Y overflows the result is 0 or an infinity of the right sign, never NaN.",
  ["inputs"], "all (nu,x), in particular nu near integers and half-integers, x near 2, x near nu, tiny x", "The tests compare some orders at some points; two different algorithms meet at x = 2 and the number of recurrence steps changes with nu and x.",
  ["src/bessel.rs"], [("Temme's series, Steed's continued fractions, recurrences", "src/bessel.rs:besseljy")], EXH, NOTE)
P("P20", "Fractional-order I, K and their derivatives are accurate",
  "For every order nu in [0,1500] and 1e-99 <= x <= 720 (and, for the orders where the functions are in the range of a double, x <= 6000), besselik(nu,x) returns I, K, I', K' with relative errors of at most t = 3e-14 + 4e-16*max(nu,x) + 3e-16*max(0,-ln x), 1.5 t for K and 2 t for K', even where I_0 overflows and K_0 underflows. Where one underflows or overflows the result is 0 or an infinity of the right sign, never NaN.",
  ["inputs"], "all (nu,x), in particular nu near integers and half-integers, x near 2, tiny and large x", "The tests compare some orders at some points.",
  ["src/bessel.rs"], [("Temme's series, Steed's continued fractions, recurrences", "src/bessel.rs:besselik")], EXH, NOTE)
P("P21", "Fractional-order Bessel functions obey their defining identities",
  "For every nu >= 0 and x > 0 the Wronskians, the derivative identities, the recurrences in the order, the closed forms at nu = 1/2 and 3/2, and agreement with the integer-order functions at integer nu hold to the accuracy of the functions, a few 1e-14 plus a few units in the last place of the order and the argument. The two-component functions Jnu_Ynu and Inu_Knu return the first two components of the four-component ones, to rounding error.",
  ["inputs"], "all (nu,x) and the neighbouring orders (nu+1,x), (nu+2,x)", "The identities relate calls that use different numbers of recurrence steps or different algorithms.",
  ["src/bessel.rs"], [("besseljy/besselik and the two-component wrappers", "src/bessel.rs:besseljy, besselik, Jnu_Ynu, Inu_Knu")], SELF, NOTE)
CACHE_STATE = [("cache", "map from the bits of (nu,x) to the computed tuple", "src/bessel.rs:CachedBesselJY, CachedBesselIK, CachedJnuYnu, CachedInuKnu")]
P("P22", "A Bessel cache never changes an answer",
  "For each of the four caches, whatever was queried, cleared, retained or cloned before, a query returns bit for bit what the uncached function returns for the same order and argument, and so does every later query of the same pair. Two different pairs of arguments never share an entry.",
  ["histories", "inputs"], "all sequences of queries and maintenance operations, over all argument pairs", "A unit test inserts a few pairs; a collision or a stale entry needs a particular pair or order of operations.",
  ["src/bessel.rs"], [("key built from both arguments' bits", "src/bessel.rs:cache macros and besseljy/besselik/Jnu_Ynu/Inu_Knu methods")], SEQ,
  "Every ordered pair and triple of a universe of adversarially chosen argument pairs, and every operation sequence up to a depth; larger universes and longer sequences are not covered.", state=CACHE_STATE)
P("P23", "Cache maintenance operations behave exactly like those of a map",
  "After any sequence of queries and of clear, retain, reserve, shrink and clone on a cache, contains, get, len and is_empty answer as a map from argument pairs to results would. retain keeps exactly the entries for which the predicate is true and hands it the entry's own order, argument and result, a clone is equal but independent, a predicate that panics removes nothing it has not rejected, and a reserve that fails changes nothing.",
  ["histories"], "all sequences of operations from every constructor", "The tests run a few fixed sequences.",
  ["src/bessel.rs"], [("methods delegating to the map", "src/bessel.rs:impl_cache macro")], SEQ,
  "Every sequence of operations up to the stated depth over the stated alphabet, on each of the four caches; deeper sequences and other keys are not covered.", state=CACHE_STATE)
P("P24", "A query that panics leaves the cache as it was",
  "When a query on a cache panics because its arguments are outside the domain, the cache afterwards contains exactly what it contained before, remains usable, and gives correct answers to every later operation; the invalid pair is never stored.",
  ["fault_sequences", "histories"], "all sequences of valid and panicking queries and maintenance operations", "The tests never use a cache after a panic.",
  ["src/bessel.rs"], [("insertion only after the value is computed", "src/bessel.rs:cache query methods")], SEQ,
  "Every sequence up to the stated depth over valid and panicking operations, on each of the four caches.", state=CACHE_STATE)
P("P25", "A call's answer does not depend on the calls made before it",
  "Every function returns bit for bit the same result for the same arguments whatever calls (of any functions, with any arguments, including ones that panicked) the process or the thread made before, however often it is repeated, and on whichever thread it runs. No call changes the floating-point environment.",
  ["histories"], "all sequences of calls of any length over all functions and arguments, and their distribution over threads", "Tests call functions in one fixed order and compare within a tolerance; hidden state shows only after a particular earlier call.",
  ["src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("pure functions without static or thread-local state", "src/*.rs")],
  "explicit-state exploration of call histories: fork trees over the real code, all sequences up to a depth over a call alphabet", "All histories up to the stated depth over the stated alphabet of calls; other arguments and longer histories are not covered, except for repeated calls and one long history containing all triples.")
P("P26", "Concurrent calls do not influence each other",
  "When several threads call functions of the library at the same time, under every schedule each call returns bit for bit what it returns alone. Caches can be sent to other threads and their read-only operations can be shared between threads with the same guarantee.",
  ["schedules"], "all interleavings of the calls of any threads", "The tests run no two calls concurrently on purpose, and a race needs a particular interleaving.",
  ["src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("no shared mutable state; the caches need &mut self to change", "src/*.rs")],
  "stateless model checking of the real code under a controlled scheduler: all schedules of two threads up to a preemption bound, scheduling points at every access to shared memory", "Two threads with one call each, from a cold and from warm processes, with at most one preemption (thorough: two) at trapped accesses to the library's writable statics and heap, sequentially consistent memory; a fixed alphabet of calls.")
P("P27", "Every call ends, panics exactly where documented, and stays in range",
  "Every call of every function, with any arguments at all, returns or panics within bounded time (Bessel functions: in proportion to the order and the argument). gammp, gammq, beta, betai, invgammp, the fractional-order Bessel functions and their cached versions panic exactly for arguments outside the mathematical domain or NaN (infinite ones too for the Bessel functions). invbetai does not panic for valid shapes (for invalid or NaN arguments it may panic or return anything; likewise invgammp for an infinite shape). No other function panics for any argument. All this holds in release builds and in builds with overflow checks and debug assertions. Whatever is returned lies in the range of the mathematical function (probabilities in [0,1], erf in [-1,1], erfc in [0,2], erfcx and beta >= 0, |Jn| <= 1, |faddeeva| <= 1 in the upper half-plane, ...) up to a small rounding margin, and is not NaN inside the domain.",
  ["inputs"], "all argument tuples, in and out of domain, including subnormals, extremes, infinities and NaN in every position", "The tests check a few panics and no termination; out-of-domain combinations and extreme shapes are not sampled.",
  ["src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/bessel.rs"], [("domain assertions and iteration limits", "src/gamma.rs:gammp, gammq, invgammp, gser, gcf; src/beta.rs:betai, betacf, invbetai; src/bessel.rs:besseljy, besselik")],
  "bounded exhaustive exploration of the cross product of extreme-value alphabets on the real functions, with a termination watchdog", "Every tuple of the product of the stated alphabets is executed; the alphabets cover every binade coarsely and every special value, and dense lattices the ordinary range of every function. Range margins: shapes up to 1e300 for the gamma family, 1e6 for betai, 1e4 for invbetai.")
P("P28", "Zeros, poles, infinities and NaN give the mathematical limits",
  "At zero, at poles, at infinities and far beyond the range of a double every function returns the limit of the mathematical function: 0, 1, 2, an infinity of the right sign, or NaN where no limit exists (for inverse error functions, the documented +-100). gamma, erfc, erfcx and dawson do not return 0 or an infinity where the true value is well inside the range of a double (above 1e-305 for gamma), the incomplete functions and their inverses give exactly 0 and 1 at the ends of their range, and a NaN argument of a function without documented panics gives NaN. Jn, Yn (beyond their order) and the Faddeeva function in the upper half-plane stay within 1 in magnitude for arguments of any size.",
  ["inputs"], "all functions, all special arguments, NaN in every position next to every other argument", "The tests try hardly any special values.",
  ["src/gamma.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs"], [("guards for overflow, zero, NaN and infinities", "src/gamma.rs:gamma; src/error.rs; src/faddeeva.rs; src/bessel.rs")],
  "exhaustive enumeration of a table of special values and of all pairs of a special-value alphabet", "Every entry of the table and every pair of the alphabet is executed; other special combinations are not covered.")
P("P29", "frexp, ldexp, sign and factorial are exact",
  "For every double x, frexp(x) and ldexp(x,k) for every shift k return exactly what the C library functions do (including subnormals, zeros, infinities and NaN, the exponent reported for the last three being 0), and ldexp(frexp(x)) = x. sign(a,b) has the magnitude of a and the sign bit of b. factorial(n) is exact up to n = 22, has a relative error of at most 3e-14 up to 170 and is infinite beyond.",
  ["inputs"], "all doubles, all shifts, all n", "The tests try a few values; subnormals and exponent extremes are special cases.",
  ["src/utils.rs"], [("bit manipulation of exponent and mantissa", "src/utils.rs:frexp, ldexp"), ("product in blocks", "src/utils.rs:factorial")],
  "exhaustive enumeration of exponents x significand patterns x shifts against the C library", "All 2048 exponents, all shifts between -2200 and 2200 and extreme ones, and a family of significand patterns with up to two set bits, runs and complements.")
P("P30", "Lambert W: the re-exported functions solve w e^w = z on their branch",
  "lambert_w0(z) for z >= -1/e and lambert_wm1(z) for -1/e <= z < 0 return the real solution w of w e^w = z with w >= -1 and w <= -1 respectively, to nearly double precision (the sp_ versions to single precision), allowing for the conditioning at the branch point. lambert_w(k,x,y) returns the solution w that satisfies w + log w = log z + 2 pi i k (up to a multiple of 2 pi i for k = -1, 0, 1) to nearly double precision.",
  ["inputs"], "all z and branches", "The repository has no systematic test of the re-exports.",
  ["src/lib.rs"], [("re-export of the lambert_w crate", "src/lib.rs")], EXH, NOTE)
P("P31", "A pair in a cache is not calculated again",
  "While a pair of arguments is in a cache, querying it returns the stored result without evaluating the Bessel functions again: the processor time of such a query does not depend on how long the calculation takes. This holds for every pair, whatever its result (zero, infinite, NaN), and after every sequence of queries, queries that panic, clear, retain, reserve, shrink_to_fit and clone that leaves the pair in the cache, in the clone as well as in the original.",
  ["histories", "inputs"], "all sequences of operations on every cache and all pairs of arguments", "A recalculated result equals the stored one bit for bit, so that no test of values can tell them apart.",
  ["src/bessel.rs"], [("lookup before the calculation", "src/bessel.rs:cache query methods")],
  "exhaustive enumeration of operation sequences on the real object, every stored pair queried again in every state", "Every sequence up to the stated depth over the stated operations on three expensive pairs, and every sufficiently expensive pair of a product. The processor time of a repeated query (the best of up to 40 measurements) must be below half that of a calculation, where it is a thousandth; pairs whose calculation takes less than 4 microseconds are not judged.", state=CACHE_STATE)
P("P32", "Caches allocate, keep and return memory as documented",
  "A cache made with with_capacity(n), or on which reserve(k) was called, then stores new pairs up to n, or k more than it held, without allocating; with_capacity(0) does not allocate; reserve does nothing while the room suffices; clear keeps the memory for reuse. Observers, repeated queries and queries that panic change nothing. shrink_to_fit leaves no more than about what a new cache for the same entries takes, retain does not allocate, the memory held stays in proportion to the entries, and dropping a cache or a clone returns all of it.",
  ["histories"], "all sequences of operations from every capacity on every cache", "No test looks at memory; a reserve or clear that does nothing useful, or a leak, gives the same answers.",
  ["src/bessel.rs"], [("methods delegating to the map", "src/bessel.rs:impl_cached_bessel_convenience_functions")],
  "exhaustive enumeration of operation sequences on the real object, memory counted by the allocator around every operation, against a model of the promised capacity", "Every sequence up to the stated depth over the stated operations from the stated capacities, and fills to every capacity of a range. After retain or clone nothing is promised until the next reserve; the proportion allowed is four times what a new cache takes.", state=CACHE_STATE)
P("P33", "Calls leave no memory behind and need only a small stack",
  "However often a function is called, with the same or with ever new arguments, returning or panicking, no memory accumulates. Every call runs on a thread with a stack of 256 KiB, whatever the order, the shape or the argument (orders to a million, shapes to 1e12).",
  ["histories", "inputs"], "all sequences of calls and all arguments", "Tests make few calls with small orders on large stacks; recursion or a growing table gives the same answers.",
  ["src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("loops instead of recursion, no tables that grow", "src/*.rs")],
  "exhaustive exploration of a call alphabet on the real code on a bounded stack, memory counted by the allocator around every call", "Every call of the stated alphabets, each repeated, and one long history of different calls of each function; a table that stops growing within the first quarter of it, or below 64 KiB, is allowed.")
P("P34", "Functions of different modules agree where mathematics relates them",
  "erf and erfc equal P(1/2,x^2) and Q(1/2,x^2), erfc(x) = exp(-x^2) erfcx(x), erfcx(x) = w(ix), dawson(x) = sqrt(pi)/2 Im w(x); gamma = exp(ln_gamma), factorial(n) = gamma(n+1), beta(z,w) = gamma(z) gamma(w) / gamma(z+w); P(1,x) = 1 - exp(-x); Q at integer and half-integer shapes is the Poisson sum; I_x(a,1) = x^a, I_x(1,b) = 1-(1-x)^b, I_x(1/2,1/2) = 2/pi asin sqrt x, and I_x at integer shapes is the binomial sum; invgammp and invbetai at such shapes invert these closed forms, inverf(p) = inverfc(1-p), and W(w e^w) = w. Each holds within the sum of the errors allowed for its members.",
  ["inputs"], "all arguments of each relation", "Tests compare each function with its own reference values at a few points; the relations connect different code paths over all arguments.",
  ["src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/utils.rs", "src/lib.rs"], [("independent implementations of related functions", "src/*.rs")],
  SELF, "Every point of the stated lattices is executed and each relation evaluated between calls of the library and elementary functions, without the reference model; arguments between lattice points are not covered.")
def main():
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for p, *_ in PROPS:
            f.write(json.dumps(p) + "\n")
    m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
             notes="No hooks in /repo are needed: every check drives the public API. See DESIGN.md.")
    for p, technique, note, na in PROPS:
        if na:
            m["not_applicable"].append(dict(property=p["id"], reason=na))
        else:
            m["checks"].append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
                thorough_cmd=f"bash check.sh {p['id']} thorough", technique=technique,
                level="model_checking", level_note=note))
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
main()
