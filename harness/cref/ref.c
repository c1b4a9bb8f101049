/* Reference model for the special functions of Axect/puruspe.
 *
 * Independent of /repo: everything here is computed from definitions (power
 * series, Miller recurrences with a normalisation sum, trapezoidal integration
 * of contour integrals, glibc's binary128 libm) in x87 extended precision or
 * IEEE binary128.  tools/gen_anchors.py compares it with mpmath (anchors.txt).
 *
 * Results are returned as an unevaluated pair hi+lo of doubles.
 */
#define _GNU_SOURCE
#include <math.h>
#include <stddef.h>
#include <stdlib.h>

typedef _Float128 Q;
typedef long double L;

static void put_q(double *o, Q v) {
    double hi = (double)v;
    o[0] = hi;
    o[1] = (isinf(hi) || isnan(hi)) ? 0.0 : (double)(v - (Q)hi);
}

static const Q PIQ = 3.14159265358979323846264338327950288420f128;
#define PIL 3.14159265358979323846264338327950288420L

/* ---------------------------------------------------------------- gamma -- */
void ref_gamma(double z, double *o) { put_q(o, tgammaf128((Q)z)); }
void ref_lgamma(double z, double *o) { put_q(o, lgammaf128((Q)z)); }

/* Regularised incomplete gamma: o[0..2]=P, o[2..4]=Q (hi,lo). a>0, x>=0 */
void ref_gammpq(double a, double x, double *o) {
    if (x == 0) { put_q(o, 0); put_q(o + 2, 1); return; }
    Q A = a, X = x;
    Q lpre = A * logf128(X) - X; /* x^a e^-x */
    if (x < a + 1) {
        /* P = x^a e^-x / Gamma(a+1) * sum x^n/((a+1)...(a+n)) */
        L s = 1, t = 1, ap = a;
        L xl = x;
        for (long n = 0; n < 4000000; n++) {
            ap += 1; t *= xl / ap; s += t;
            if (t < s * 1e-20L) break;
        }
        Q p = expf128(lpre - lgammaf128(A + 1)) * (Q)s;
        put_q(o, p); put_q(o + 2, 1 - p);
    } else {
        /* Q = x^a e^-x / Gamma(a) * 1/(x+1-a- 1(1-a)/(x+3-a- ...)), modified Lentz */
        L b = (L)x + 1 - (L)a, tiny = 1e-4000L;
        if (fabsl(b) < tiny) b = tiny;
        L c = 1 / tiny, d = 1 / b, h = d;
        for (long i = 1; i < 4000000; i++) {
            L an = -(L)i * ((L)i - (L)a);
            b += 2;
            d = an * d + b; if (fabsl(d) < tiny) d = tiny;
            c = b + an / c; if (fabsl(c) < tiny) c = tiny;
            d = 1 / d;
            L del = d * c; h *= del;
            if (fabsl(del - 1) < 1e-19L) break;
        }
        Q q = expf128(lpre - lgammaf128(A)) * (Q)h;
        put_q(o, 1 - q); put_q(o + 2, q);
    }
}

/* ----------------------------------------------------------------- beta -- */
static Q lbeta_q(Q a, Q b) { return lgammaf128(a) + lgammaf128(b) - lgammaf128(a + b); }
void ref_beta(double a, double b, double *o) { put_q(o, expf128(lbeta_q(a, b))); }
void ref_lbeta(double a, double b, double *o) { put_q(o, lbeta_q(a, b)); }

/* x^a y^b / (a B(a,b)) * sum_n (a+b)_n/(a+1)_n x^n,  y = 1-x */
static int betai_series(Q a, Q b, Q x, Q y, Q *out) {
    L s = 1, t = 1, al = a, ab = a + b, xl = x;
    long n;
    for (n = 0; n < 200000; n++) {
        t *= xl * (ab + n) / (al + 1 + n);
        s += t;
        if (t < s * 1e-21L) break;
    }
    if (n >= 200000) return 0;
    /* geometric bound of the tail is folded in by the 1e-21 stop + ratio<1 */
    *out = expf128(a * logf128(x) + b * logf128(y) - lbeta_q(a, b)) / a * (Q)s;
    return 1;
}
static Q betai_cf(Q a, Q b, Q x, Q y) {
    L al = a, bl = b, xl = x, tiny = 1e-4000L;
    L qab = al + bl, qap = al + 1, qam = al - 1, c = 1, d = 1 - qab * xl / qap;
    if (fabsl(d) < tiny) d = tiny;
    d = 1 / d;
    L h = d;
    for (long m = 1; m < 2000000; m++) {
        L m2 = 2.0L * m;
        L aa = m * (bl - m) * xl / ((qam + m2) * (al + m2));
        d = 1 + aa * d; if (fabsl(d) < tiny) d = tiny;
        c = 1 + aa / c; if (fabsl(c) < tiny) c = tiny;
        d = 1 / d; h *= d * c;
        aa = -(al + m) * (qab + m) * xl / ((al + m2) * (qap + m2));
        d = 1 + aa * d; if (fabsl(d) < tiny) d = tiny;
        c = 1 + aa / c; if (fabsl(c) < tiny) c = tiny;
        d = 1 / d;
        L del = d * c; h *= del;
        if (fabsl(del - 1) < 1e-19L) break;
    }
    return expf128(a * logf128(x) + b * logf128(y) - lbeta_q(a, b)) * (Q)h / a;
}
/* o[0..2] = I_x(a,b), o[2..4] = 1 - I_x(a,b) */
void ref_betai(double a, double b, double x, double *o) {
    if (x <= 0) { put_q(o, 0); put_q(o + 2, 1); return; }
    if (x >= 1) { put_q(o, 1); put_q(o + 2, 0); return; }
    Q A = a, B = b, X = x, Y = 1 - (Q)x, r;
    if (X < (A + 1) / (A + B + 2)) {
        if (!betai_series(A, B, X, Y, &r)) r = betai_cf(A, B, X, Y);
        put_q(o, r); put_q(o + 2, 1 - r);
    } else {
        if (!betai_series(B, A, Y, X, &r)) r = betai_cf(B, A, Y, X);
        put_q(o, 1 - r); put_q(o + 2, r);
    }
}

/* ------------------------------------------------------------------ erf -- */
void ref_erf(double x, double *o) { put_q(o, erff128((Q)x)); }
void ref_erfc(double x, double *o) { put_q(o, erfcf128((Q)x)); }
void ref_erfcx(double x, double *o) {
    Q X = x;
    if (x > 15) {
        Q r = 1, t = 1, i2 = 1 / (2 * X * X);
        for (int k = 1; k < 200; k++) {
            Q n = -t * (2 * k - 1) * i2;
            if (fabsf128(n) >= fabsf128(t) || fabsf128(n) < 1e-36f128) break;
            t = n; r += t;
        }
        put_q(o, r / (X * sqrtf128(PIQ)));
    } else if (x < -110) put_q(o, (Q)INFINITY);
    else put_q(o, expf128(X * X) * erfcf128(X));
}

/* ------------------------------------------------- Faddeeva / Dawson ----- */
#define WN 34
static Q tab_mid[WN], tab_trap[WN + 1];
static const Q WH = 0.3f128;
__attribute__((constructor)) static void w_init(void) {
    for (int k = 0; k < WN; k++) {
        Q t = (k + 0.5f128) * WH; tab_mid[k] = expf128(-t * t);
    }
    for (int k = 0; k <= WN; k++) { Q t = k * WH; tab_trap[k] = expf128(-t * t); }
}
typedef struct { Q re, im; } C;
static inline C cmul(C a, C b) { C r = {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; return r; }
static inline C cdiv(C a, C b) {
    Q d = 1 / (b.re * b.re + b.im * b.im);
    C r = {(a.re * b.re + a.im * b.im) * d, (a.im * b.re - a.re * b.im) * d};
    return r;
}
static C cexpq(Q re, Q im) { Q e = expf128(re), s, c; sincosf128(im, &s, &c); C r = {e * c, e * s}; return r; }

/* x >= 0, y >= 0 */
static C w_quadrant(Q x, Q y) {
    C z = {x, y}, r;
    Q m2 = x * x + y * y;
    if (m2 > 1e5f128) {
        /* asymptotic: i/(sqrt(pi) z) sum (2k-1)!!/(2z^2)^k */
        C iz = cdiv((C){1, 0}, z), i2 = cmul(iz, iz), t = {1, 0}, s = {1, 0};
        for (int k = 1; k < 30; k++) {
            t = cmul(t, i2); t.re *= (2 * k - 1) * 0.5f128; t.im *= (2 * k - 1) * 0.5f128;
            s.re += t.re; s.im += t.im;
            if (fabsf128(t.re) + fabsf128(t.im) < 1e-40f128) break;
        }
        r = cmul(iz, s);
        Q k = 1 / sqrtf128(PIQ);
        C o = {-r.im * k, r.re * k};
        if (y < 20 && x < 100) { /* e^{-z^2} part near the real axis (only matters where tiny) */
            C e = cexpq(y * y - x * x, -2 * x * y);
            if (y == 0) { o.re += e.re; }
        } else if (y == 0) o.re += expf128(-x * x);
        return o;
    }
    Q fr = x / WH; fr -= floorf128(fr);
    int mid = !(fr >= 0.25f128 && fr <= 0.75f128) || y >= PIQ / WH;
    C z2 = {(x - y) * (x + y), 2 * x * y}, s = {0, 0};
    if (mid) {
        for (int k = 0; k < WN; k++) {
            Q t = (k + 0.5f128) * WH;
            C d = {z2.re - t * t, z2.im};
            Q n = tab_mid[k] / (d.re * d.re + d.im * d.im);
            s.re += d.re * n; s.im -= d.im * n;
        }
    } else {
        for (int k = 1; k <= WN; k++) {
            Q t = k * WH;
            C d = {z2.re - t * t, z2.im};
            Q n = tab_trap[k] / (d.re * d.re + d.im * d.im);
            s.re += d.re * n; s.im -= d.im * n;
        }
    }
    C f = {-2 * WH * y / PIQ, 2 * WH * x / PIQ}; /* 2 i h z / pi */
    r = cmul(f, s);
    if (!mid) { C q = cdiv((C){0, WH / PIQ}, z); r.re += q.re; r.im += q.im; }
    if (y < PIQ / WH) {
        C num = cexpq(y * y - x * x, -2 * x * y);
        C e = cexpq(2 * PIQ * y / WH, -2 * PIQ * x / WH);
        C den = mid ? (C){1 + e.re, e.im} : (C){1 - e.re, -e.im};
        C q = cdiv(num, den);
        r.re += 2 * q.re; r.im += 2 * q.im;
    }
    return r;
}
/* o[0..2] = Re w, o[2..4] = Im w */
void ref_w(double x, double y, double *o) {
    C r;
    Q X = x, Y = y;
    if (x == 0 && y >= 0) { ref_erfcx(y, o); put_q(o + 2, 0); return; }
    if (y >= 0) {
        r = w_quadrant(fabsf128(X), Y);
        if (x < 0) r.im = -r.im;
    } else {
        /* w(z) = 2 exp(-z^2) - w(-z) */
        r = w_quadrant(fabsf128(X), -Y);
        if (-x < 0) r.im = -r.im;
        C e = cexpq((Y - X) * (Y + X), -2 * X * Y);
        r.re = 2 * e.re - r.re; r.im = 2 * e.im - r.im;
    }
    put_q(o, r.re); put_q(o + 2, r.im);
}
void ref_dawson(double x, double *o) {
    Q X = fabsf128((Q)x), v;
    if (X < 0.02f128) { /* x(1 - 2/3 x^2 + 4/15 x^4 - ...) */
        Q t = X, s = X;
        for (int k = 1; k < 40; k++) { t *= -2 * X * X / (2 * k + 1); s += t; }
        v = s;
    } else v = w_quadrant(X, 0).im * sqrtf128(PIQ) / 2;
    put_q(o, x < 0 ? -v : v);
}

/* --------------------------------------------------------------- Bessel -- */
/* All orders at once for fixed x: order nu0+k, k=0..n. nu0 in [0,1). Long double. */

/* J by Miller's downward recurrence, normalised with
 *   (x/2)^v = sum_k (v+2k) Gamma(v+k)/k! J_{v+2k}(x)                        */
void ref_j_row(double nu0, double x, int n, L *J) {
    L v = nu0, X = x;
    if (x < 1e-3) { /* power series, 4 terms suffice */
        for (int k = 0; k <= n; k++) {
            L m = v + k, q = -X * X / 4;
            L s = 1 + q / (m + 1) * (1 + q / (2 * (m + 2)) * (1 + q / (3 * (m + 3)) * (1 + q / (4 * (m + 4)))));
            int sg;
            J[k] = expl(m * logl(X / 2) - lgammal_r(m + 1, &sg)) * s;
        }
        return;
    }
    /* choose start order where J is < 1e-40 relative to both the turning point and order n */
    long top = (long)(x + 25 * cbrtl(X + 1) + 60);
    if (top < n + 40) top = n + 40;
    top += top & 1;
    L jp = 0, j = 1e-4000L;
    /* We rescale on the fly; recorded values carry a power-of-two exponent. */
    static __thread int *ex_;
    if (!ex_) ex_ = malloc(200000 * sizeof *ex_);
    long e = 0;
    const L big = ldexpl(1, 8000);
    /* weights g_k = (v+2k) Gamma(v+k)/k! ; g_0 = Gamma(v+1) */
    L sum = 0;
    /* compute top weight by lgamma then recur down: w_k = Gamma(v+k)/k! ; w_{k-1} = w_k * k/(v+k-1) */
    long kt = top / 2;
    int sg;
    L w = expl(lgammal_r(v + kt, &sg) - lgammal_r((L)kt + 1, &sg));
    for (long m = top; m >= 0; m--) {
        if (m <= n) { J[m] = j; ex_[m] = e; }
        if (m % 2 == 0) {
            long k = m / 2;
            if (k > 0) { sum += (v + 2 * k) * w * j; w *= k / (v + k - 1); }
            else { sum += tgammal(v + 1) * j; }
        }
        if (m > 0) {
            L jn = 2 * (v + m) / X * j - jp;
            jp = j; j = jn;
            if (fabsl(j) > big) { j /= big; jp /= big; sum /= big; e += 1; }
        }
    }
    L norm = powl(X / 2, v) / sum;
    for (int m = 0; m <= n; m++) {
        L t = J[m] * norm;
        long d = e - ex_[m]; /* value is J*2^(-8000 d) */
        while (d-- > 0 && t != 0) t = ldexpl(t, -8000);
        J[m] = t;
    }
}

/* H^(1)_nu(x) = e^{ix}/(pi i) int exp(-x sinh s tanh s) e^{-nu(s+i(pi/2+gd s))} (1+i sech s) ds */
static void hankel01(L nu, L x, L *yr) {
    L h = 0.3L / sqrtl(x);
    if (h > 0.065L) h = 0.065L;
    L re0 = 0, im0 = 0, re1 = 0, im1 = 0;
    for (int dir = 0; dir < 2; dir++) {
        L E1 = expl(h), E = 1;
        for (long i = dir ? 1 : 0; i < 100000; i++) {
            L s, ch, sh, es;
            s = dir ? -(L)i * h : (L)i * h;
            E = (i % 64 == 0) ? expl((L)i * h) : E * E1;
            ch = (E + 1 / E) / 2; sh = (i * h < 0.3L) ? sinhl((L)i * h) : (E - 1 / E) / 2;
            es = dir ? 1 / E : E;
            if (dir) sh = -sh;
            L sech = 1 / ch, th = sh / ch;
            L ex = -x * sh * th;
            if (ex + (nu + 1) * fabsl(s) < -75 ) break;
            L gd = atanl(sh);
            L mag = expl(ex - nu * s), ph = -nu * (PIL / 2 + gd), c, sn;
            sincosl(ph, &sn, &c);
            L a = mag * c, b = mag * sn;
            L pr = a - b * sech, pi = b + a * sech;  /* times (1 + i sech) */
            re0 += pr; im0 += pi;
            /* times e^{-(s + i(pi/2+gd))} = e^{-s} * (-i)(sech - i th) = e^{-s} (-th - i sech) */
            L q = 1 / es;
            re1 += q * (-th * pr + sech * pi);
            im1 += q * (-th * pi - sech * pr);
        }
    }
    L sx, cx; sincosl(x, &sx, &cx);
    /* times h e^{ix}/(pi i) = h/pi * (sx - i cx) */
    L k = h / PIL;
    yr[0] = k * (sx * im0 - cx * re0); /* Im part = Y_nu */
    yr[1] = k * (sx * im1 - cx * re1);
    yr[2] = k * (sx * re0 + cx * im0); /* Re part = J_nu */
    yr[3] = k * (sx * re1 + cx * im1);
}
void ref_y_row(double nu0, double x, int n, L *Y) {
    L t[4];
    hankel01(nu0, x, t);
    Y[0] = t[0];
    if (n >= 1) Y[1] = t[1];
    for (int k = 1; k < n; k++) Y[k + 1] = 2 * ((L)nu0 + k) / (L)x * Y[k] - Y[k - 1];
}

/* J far beyond its order: the same integral, then upward (stable for n < x) */
void ref_j_far(double nu0, double x, int n, L *J) {
    L t[4];
    hankel01(nu0, x, t);
    J[0] = t[2];
    if (n >= 1) J[1] = t[3];
    for (int k = 1; k < n; k++) J[k + 1] = 2 * ((L)nu0 + k) / (L)x * J[k] - J[k - 1];
}

/* I by power series (all terms positive), each order separately */
L ref_i_one(L nu, L x) {
    L q = x * x / 4, t = 1, s = 1;
    for (long k = 1; k < 100000; k++) {
        t *= q / (k * (nu + k)); s += t;
        if (t < s * 1e-21L) break;
    }
    /* log-prefactor in binary128 */
    Q lp = (Q)nu * logf128((Q)x / 2) - lgammaf128((Q)nu + 1);
    return (L)(expf128(lp) * (Q)s);
}
void ref_i_row(double nu0, double x, int n, L *I) {
    if (x < 1e-3) { /* the downward recurrence would start from 0 */
        for (int k = 0; k <= n; k++) I[k] = ref_i_one((L)nu0 + k, x);
        return;
    }
    /* stable: compute top two by series, recur downward */
    I[n] = ref_i_one((L)nu0 + n, x);
    if (n >= 1) I[n - 1] = ref_i_one((L)nu0 + n - 1, x);
    for (int k = n - 1; k >= 1; k--) {
        I[k - 1] = 2 * ((L)nu0 + k) / (L)x * I[k] + I[k + 1];
    }
}
/* K_nu = int_0^inf exp(-x cosh t) cosh(nu t) dt */
static void k01(L nu, L x, L *o) {
    L h = 0.45L / sqrtl(x); if (h > 0.11L) h = 0.11L;
    L s0 = 0.5L, s1 = 0.5L;
    for (long i = 1; i < 100000; i++) {
        L t = i * h, sh = sinhl(t / 2);
        L ex = -2 * x * sh * sh;
        if (ex + (nu + 1) * t < -60) break;
        L e0 = expl(ex + nu * t) , e1 = expl(-2 * nu * t), et = expl(t);
        s0 += e0 * (1 + e1) / 2;
        s1 += e0 * et * (1 + e1 / (et * et)) / 2;
    }
    L p = expl(-x) * h;
    o[0] = s0 * p; o[1] = s1 * p;
}
void ref_k_row(double nu0, double x, int n, L *K) {
    L t[2]; k01(nu0, x, t);
    K[0] = t[0]; if (n >= 1) K[1] = t[1];
    for (int k = 1; k < n; k++) K[k + 1] = 2 * ((L)nu0 + k) / (L)x * K[k] + K[k - 1];
}

/* kind: 0 J, 1 Y, 2 I, 3 K, 4 J for x much larger than n. Writes (hi,lo) pairs of orders nu0..nu0+n, plus nothing else. */
void ref_bessel_row(int kind, double nu0, double x, int n, double *o) {
    static __thread L *buf;
    if (!buf) buf = malloc(200000 * sizeof *buf);
    switch (kind) {
        case 0: ref_j_row(nu0, x, n, buf); break;
        case 1: ref_y_row(nu0, x, n, buf); break;
        case 2: ref_i_row(nu0, x, n, buf); break;
        case 4: ref_j_far(nu0, x, n, buf); break;
        default: ref_k_row(nu0, x, n, buf); break;
    }
    for (int k = 0; k <= n; k++) {
        double hi = (double)buf[k];
        o[2 * k] = hi;
        o[2 * k + 1] = (isinf(hi) || isnan(hi)) ? 0.0 : (double)(buf[k] - (L)hi);
    }
}

/* ------------------------------------------------------------ Lambert W -- */
/* residual of w + log w = log z + 2 pi i k style checks are done in Rust; here: real Newton refinement */
void ref_lambert_refine(double z, double w0, double *o) {
    Q w = w0, Z = z;
    for (int i = 0; i < 6; i++) {
        Q e = expf128(w), f = w * e - Z, d = e * (w + 1);
        if (d == 0) break;
        Q st = f / (d - (w + 2) * f / (2 * w + 2));
        w -= st;
        if (fabsf128(st) < 1e-30f128 * fabsf128(w)) break;
    }
    put_q(o, w);
}
