#!/opt/veriftools/pyvenv/bin/python3
"""Regenerates harness/anchors.txt: arbitrary-precision (mpmath, 60 digits) values of every function the
reference model computes.  Each line: function, hex arguments, value as hi lo (unevaluated sum of doubles)."""
import struct, itertools, sys
from mpmath import mp, mpf, mpc
import mpmath as m
mp.dps = 60
out = []
def hx(x): return struct.pack('>d', x).hex()
def put(fn, args, v, scale=None):
    hi = float(v)
    if hi != hi or abs(hi) == float('inf') or (hi != 0 and abs(hi) < 1e-290): return
    lo = float(v - mpf(hi))
    sc = abs(hi) if scale is None else max(abs(hi), float(scale))
    out.append(f"{fn} {','.join(hx(float(a)) for a in args)} {hx(hi)} {hx(lo)} {hx(sc)}")
pos = [1e-12, 3e-5, 0.0078125, 0.11, 0.5, 0.7071, 1.0, 1.3, 2.0, 2.5, 3.7, 5.0, 6.1, 7.9, 10.0, 13.3, 19.7, 26.0, 33.0]
for x in pos + [1e-300, 50.5, 100.25, 142.0, 170.5]:
    put('gamma', [x], m.gamma(mpf(x)))
for x in [-0.5, -1.25, -2.0000001, -5.75, -9.9999, -20.1, -33.3, -100.7]: put('gamma', [x], m.gamma(mpf(x)))
for x in pos + [1e-300, 1e-20, 99.9, 1e4, 1e8, 1e15, 1e300]:
    v = m.loggamma(mpf(x)); put('lgamma', [x], v, 1e-3)
for x in [0.999999, 1.0000001, 1.99999, 2.000001]: put('lgamma', [x], m.loggamma(mpf(x)))
for a in [1e-8, 0.01, 0.3, 0.5, 1.0, 2.7, 10.0, 55.5, 99.0, 100.0, 150.0, 1000.0, 16000.0]:
    for t in [0.01, 0.2, 0.7, 0.95, 1.0, 1.04, 1.3, 2.0, 6.0]:
        x = a * t
        with mp.workdps(80):
            q = m.gammainc(mpf(a), mpf(x), m.inf, regularized=True); p = 1 - q
        put('gammp', [a, x], p, 1e-30); put('gammq', [a, x], q, 1e-30)
    for x in [1e-10, 0.5, 3.0, 20.0]:
        with mp.workdps(80):
            q = m.gammainc(mpf(a), mpf(x), m.inf, regularized=True); p = 1 - q
        put('gammp', [a, x], p, 1e-30); put('gammq', [a, x], q, 1e-30)
ab = [1e-8, 0.02, 0.5, 1.0, 2.3, 9.0, 77.7, 600.0, 3001.0, 9000.0]
for a in ab:
    for b in ab:
        put('beta', [a, b], m.beta(mpf(a), mpf(b)))
        mu = a / (a + b); sd = (a * b / ((a + b) ** 2 * (a + b + 1))) ** 0.5
        for x in {0.03, 0.5, 0.9, mu, mu + sd, mu - 2 * sd}:
            if 0 < x < 1:
                with mp.workdps(60):
                    # continued fraction for the side that converges
                    A, B, X = mpf(a), mpf(b), mpf(x)
                    def cf(A, B, X):
                        f = lambda k: ((-(A + k) * (A + B + k) * X / ((A + 2*k) * (A + 2*k + 1))) , (((k + 1) * (B - k - 1)) * X / ((A + 2*k + 1) * (A + 2*k + 2))))
                        d = []
                        for k in range(6000):
                            d.extend(f(k))
                        tiny = mpf(10) ** -300
                        C, D, h = mpf(1), mpf(0), mpf(1)
                        for c in d:
                            D = 1 + c * D; C = 1 + c / C
                            D = 1 / D; dl = C * D; h *= dl
                            if abs(dl - 1) < mpf(10) ** -50: break
                        else: return None
                        return m.exp(A * m.log(X) + B * m.log(1 - X) + m.loggamma(A + B) - m.loggamma(A) - m.loggamma(B)) / A / h
                    lo = cf(A, B, X) if x <= mu else None
                    if x <= mu: p = lo; q = None if p is None else 1 - p
                    else:
                        q = cf(B, A, 1 - X); p = None if q is None else 1 - q
                if p is not None: put('betai', [a, b, x], p, 1e-30); put('betaic', [a, b, x], q, 1e-30)
for x in [s * t for t in pos for s in (1, -1)]:
    put('erf', [x], m.erf(mpf(x)))
    put('erfc', [x], m.erfc(mpf(x)))
    with mp.workdps(400): v = m.erfc(mpf(x)) * m.exp(mpf(x) ** 2)
    put('erfcx', [x], v)
for x in [1e3, 1e7, 1e8, 1e20, 1e300]: 
    put('erfcx', [x], 1 / (m.sqrt(m.pi) * x) * (1 - 1 / (2 * mpf(x) ** 2) + 3 / (4 * mpf(x) ** 4)))
def w(x, y):
    with mp.workdps(int(80 + (x * x + y * y) / 2) if x * x + y * y < 3000 else 80):
        z = mpc(x, y)
        if x * x + y * y < 3000: return m.exp(-z * z) * m.erfc(-1j * z)
        s = t = 1 / z; 
        for k in range(1, 30): t = t * (2 * k - 1) / (2 * z * z); s += t
        return 1j / m.sqrt(m.pi) * s
for x in pos:
    v = w(x, 0); put('dawson', [x], v.imag * m.sqrt(m.pi) / 2)
for x in [0.0, 1e-12, 1e-5, 0.03, 0.5, 1.7, 3.0, 5.3, 6.9, 8.0, 15.0, 26.0, 60.0, 1e4, 1e9]:
    for y in [0.0, 1e-12, 1e-5, 0.03, 0.5, 1.7, 3.0, 5.3, 6.9, 8.0, 15.0, 26.0, 60.0, 1e4, 1e9]:
        v = w(x, y); put('wre', [x, y], v.real); put('wim', [x, y], v.imag)
for x in [1e-6, 0.01, 0.5, 1.0, 1.9, 2.1, 5.0, 7.9, 8.1, 14.9, 15.1, 24.9, 60.0, 300.0, 690.0]:
    for nu in [0.0, 1.0, 2.0, 7.0, 30.0, 0.25, 0.5, 3.3, 12.9, 40.001]:
        amp = m.sqrt(2 / (m.pi * x))
        osc = nu < x
        put('J', [nu, x], m.besselj(mpf(nu), mpf(x)), amp if osc else None)
        put('Y', [nu, x], m.bessely(mpf(nu), mpf(x)), amp if osc or nu < 1 else None)
        put('I', [nu, x], m.besseli(mpf(nu), mpf(x)))
        put('K', [nu, x], m.besselk(mpf(nu), mpf(x)))
for nu in [0.0, 0.3, 55.0, 60.2]:
    for x in [3000.0, 9000.0]:
        amp = m.sqrt(2 / (m.pi * x))
        put('J', [nu, x], m.besselj(mpf(nu), mpf(x)), amp); put('Y', [nu, x], m.bessely(mpf(nu), mpf(x)), amp)
for nu in [0.0, 1.0, 5.0, 40.0, 1000.0]:
    for x in [12345.678, 1e6, 3e8, 1e11, 2.0 ** 44]:
        amp = m.sqrt(2 / (m.pi * x))
        put('F', [nu, x], m.besselj(mpf(nu), mpf(x)), amp); put('Y', [nu, x], m.bessely(mpf(nu), mpf(x)), amp)
import math
for z in [-0.3678, -0.35, -0.2, -0.01, -1e-5, 1e-9, 0.3, 1.0, 2.7, 30.0, 1e5, 1e100]:
    put('W0', [z], m.lambertw(mpf(z), 0).real)
    if z < 0: put('Wm1', [z], m.lambertw(mpf(z), -1).real)
open(sys.argv[1], 'w').write('\n'.join(out) + '\n')
print(len(out))
