#!/usr/bin/env python3
"""Writes spec/FunTables.tla: the real functions of the specification, tabulated at v/16
(v = LO..HI) and rounded to the scale 2^14.  Computed with 50 decimal digits."""
from decimal import Decimal as D, getcontext
import os
getcontext().prec = 60
S = 16384
LO, HI = -320, 320
def exp(x): return x.exp()
def ln(x): return x.ln()
PI = D('3.14159265358979323846264338327950288419716939937510582097494')
def sin(x):
    x = x % (2 * PI)
    t = s = x; n = 1
    while abs(t) > D(10) ** -45:
        t = -t * x * x / ((n + 1) * (n + 2)); n += 2; s += t
    return s
def cos(x): return sin(x + PI / 2) if x > -PI/2 else sin(x + PI/2 + 2*PI*int(-x))
def sigmoid(x): return 1 / (1 + exp(-x))
def tanh(x): return 2 * sigmoid(2 * x) - 1
def softplus(x): return ln(1 + exp(-abs(x))) + max(x, D(0))
def q(y, lim=2**30):
    y = (y * S).to_integral_value(rounding='ROUND_HALF_EVEN')
    return int(max(-lim, min(lim, y)))
def table(f, dom=lambda x: True, lim=2**30):
    out = []
    for v in range(LO, HI + 1):
        x = D(v) / 16
        out.append(q(f(x), lim) if dom(x) else 0)
    return out
pos = lambda x: x > 0
nt = {
 'TExp': table(exp),
 'TLn': table(ln, pos),
 'TSin': table(sin), 'TCos': table(cos),
 'TTan': table(lambda x: sin(x) / cos(x)),
 'TDTan': table(lambda x: 1 / (cos(x) ** 2)),
 'TTanh': table(tanh), 'TDTanh': table(lambda x: 1 - tanh(x) ** 2),
 'TSigmoid': table(sigmoid), 'TDSigmoid': table(lambda x: sigmoid(x) * (1 - sigmoid(x))),
 'TSoftplus': table(softplus),
 'TSqrt': table(lambda x: x.sqrt(), lambda x: x >= 0), 'TDSqrt': table(lambda x: 1 / (2 * x.sqrt()), pos),
}
# ln(1 + j/256) at scale 2^16 for the general logarithm
lnt = [int((ln(1 + D(j) / 256) * 65536).to_integral_value()) for j in range(257)]
out = ['---- MODULE FunTables ----', 'EXTENDS Integers',
       '\\* Generated by tools/mktables.py: real functions at v/16, v in Lo..Hi, rounded to 1/16384.',
       'Lo == %d' % LO, 'Hi == %d' % HI, 'FS == %d' % S]
for k, t in nt.items():
    out.append('%s == <<%s>>' % (k, ','.join(map(str, t))))
out.append('TLn1 == <<%s>>' % ','.join(map(str, lnt)))
out.append('Ln2 == %d' % int((ln(D(2)) * 65536).to_integral_value()))
out.append('====')
open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'FunTables.tla'), 'w').write('\n'.join(out) + '\n')
