#!/opt/veriftools/pyvenv/bin/python
"""Writes spec/ExtTables.tla: the real functions and their derivatives at arguments of every
magnitude (computed with 120 digits), as numbers <<sign, mantissa, exponent>> with a 24-bit mantissa."""
import os, struct
from mpmath import mp, mpf, exp, log, sin, cos, tan, tanh, sqrt, floor, inf, power
mp.dps = 120
MAX = (mpf(2) - mpf(2) ** -23) * mpf(2) ** 127
def f32(x): return struct.unpack('f', struct.pack('f', x))[0]
def num(v):
    """nearest number of 24 bits; infinite beyond the single-precision range"""
    v = mpf(v)
    if v == 0: return (0, 0, 0)
    s = 1 if v > 0 else -1
    a = abs(v)
    if a == inf or a >= MAX + mpf(2) ** 103: return (s, -1, 0)
    if a < mpf(2) ** -160: return (0, 0, 0)
    e = int(mp.floor(log(a, 2))) - 23
    for e in (e - 1, e, e + 1):
        m = int(floor(a / mpf(2) ** e + mpf(0.5)))
        if 2 ** 23 <= m < 2 ** 24: return (s, m, e)
    raise ValueError(v)
def sigmoid(x): return 1 / (1 + exp(-x))
def softplus(x): return log(1 + exp(-abs(x))) + max(x, mpf(0))
mags = [0.0, 2.0**-40, 2.0**-20, 1e-3, 0.1, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 5.0, 8.0, 10.0, 15.5, 16.5, 20.0, 30.0, 43.0, 50.0,
        64.0, 80.0, 87.0, 88.5, 89.5, 95.0, 100.0, 128.0, 150.0, 200.0, 500.0, 709.5, 710.5, 745.0, 800.0, 1000.0, 4096.0, 1e4, 65536.0,
        1e6, 123456789.0, 1e10, 1e15, 1e20, 1e30, 3e38]
mags = [f32(m) for m in mags]
both = sorted(set(mags + [-m for m in mags]))
tiny = [2.0**-149, 2.0**-140, 2.0**-126, 1e-30, 1e-20, 1e-10]
tiny = [f32(t) for t in tiny]
one = lambda x: True
C = []
def add(f, xs, y, g, w, scale1=0, k=0, kk=0):
    for x in xs:
        X = mpf(x)
        try: gv = num(g(X)) if g else (0, -2, 0)
        except (ZeroDivisionError, ValueError): gv = (0, -2, 0)
        C.append((f, kk, num(X), num(y(X)), gv, w, scale1))
near = lambda lim: [x for x in both if abs(x) <= lim]
# exp close to the limits of the format: a rounding decides between a number and infinity
add('exp', [x for x in both if not 88.6 < abs(x) < 89 and not 103 < -x < 105] + tiny, exp, exp, 4)
add('ln', [x for x in both + tiny if x > 0], log, lambda x: 1 / x, 4)
add('sqrt', [x for x in both + tiny if x >= 0], sqrt, lambda x: 1 / (2 * sqrt(x)), 4)
add('sin', both + tiny, sin, cos, 4)
add('cos', both + tiny, cos, lambda x: -sin(x), 4)
add('tan', both + tiny, tan, lambda x: 1 / cos(x) ** 2, 10)
add('tanh', both + tiny, tanh, lambda x: 1 - tanh(x) ** 2, 8, 1)
add('sigmoid', both + tiny, sigmoid, lambda x: sigmoid(x) * (1 - sigmoid(x)), 8, 1)
add('softplus', both + tiny, softplus, sigmoid, 8, 1)
add('abs', both + tiny, abs, lambda x: (1 if x > 0 else -1) if x else 1 / mpf(0), 0)
add('relu', both + tiny, lambda x: max(x, mpf(0)), lambda x: (1 if x > 0 else 0) if x else 1 / mpf(0), 0)
add('lrelu', both + tiny, lambda x: x if x > 0 else x / 100, lambda x: (1 if x > 0 else 1 / mpf(100)) if x else 1 / mpf(0), 2)
for kk in (1, 2, 8):      # quarters
    k = mpf(kk) / 4
    add('prelu', both + tiny, lambda x: x if x > 0 else k * x, lambda x: (1 if x > 0 else k) if x else 1 / mpf(0), 2, 0, k, kk)
    add('elu', both + tiny, lambda x: x if x > 0 else k * (exp(x) - 1), lambda x: (1 if x > 0 else k * exp(x)) if x else 1 / mpf(0), 16, 1, k, kk)
for kk in (-8, -4, -2, 1, 2, 3, 4, 6, 8, 12, 40):
    k = mpf(kk) / 4
    add('powf', [x for x in both + tiny if x > 0], lambda x: power(x, k), lambda x: k * power(x, k - 1), 8, 0, k, kk)
for n in (-40, -7, -3, -2, -1, 0, 1, 2, 3, 5, 8, 16, 31):
    def pi(x, n=n): return power(x, n) if x or n > 0 else (mpf(1) if n == 0 else 1 / mpf(0))
    def gi(x, n=n): return mpf(0) if n == 0 else n * (power(x, n - 1) if x or n > 1 else mpf(1))
    # an intermediate power must not leave the range: keep clear of both ends
    xs = [x for x in both if x and n == 0 or x and 1e-36 < abs(mpf(x)) ** abs(n) < 1e36 and 1e-36 < abs(mpf(x)) ** (abs(n) + 1) < 1e36]
    add('powi', xs, pi, gi, 4 + 2 * abs(n), 0, n, n)
out = ['---- MODULE ExtTables ----', 'EXTENDS Integers',
       '\\* Generated by tools/mkext.py.  f: function, k: its parameter, x: argument, y: value, g: derivative,',
       '\\* w: units in the last place, s: 1 when the unit is at least that of numbers next to one.',
       '\\* A number is <<sign, mantissa, exponent>>; mantissa -1: infinite, -2: no derivative.',
       'Cases == <<']
t = lambda v: '<<%d,%d,%d>>' % v
out.append(',\n'.join('[f|->"%s",k|->%d,x|->%s,y|->%s,g|->%s,w|->%d,s|->%d]' % (f, k, t(x), t(y), t(g), w, s) for f, k, x, y, g, w, s in C))
out += ['>>', '====']
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'ExtTables.tla'), 'w').write('\n'.join(out) + '\n')
print(len(C))
