"""Shows that the configurations which check the tables can fail: mutates one line of Tensors at a time (in a copy) and
says which invariant of MCCalls or MCBatch is violated."""
import os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
TLA = '/opt/veriftools/tla/'
M = [
    ('sub: second operand with a plus', '<<2, BinAt(S[2], y, j), -1>>>>', '<<2, BinAt(S[2], y, j), 1>>>>', 'CallsExactA'),
    ('broadcast: copies of the wrong element', '<<1, (j % lo) + lo * (j \\div (lo * u[2])), 1>>>>', '<<1, (j % lo) + lo * ((j \\div lo) % u[2]) * 0, 1>>>>', 'CallsExactA'),
    ('transpose: not transposed', '(m \\div q) + r * (m % q)', '(m % r) + r * (m \\div r)', 'CallsExactA'),
    ('tril: diagonal off by one', 'row - col >= u[1] ELSE', 'row - col > u[1] ELSE', 'CallsExactA'),
    ('split: every part the first', 'ELSE (oi - 1) * m\n', 'ELSE 0 * m\n', 'CallsExactA'),
    ('concat: shared part only for sample 0', 'bx == IF s.b = 1 THEN 0 ELSE bt\n         IN <<<<pp[1], bx * Vol(s)', 'bx == IF s.b = 1 THEN 0 ELSE 0\n         IN <<<<pp[1], bx * Vol(s)', 'CallsExactA'),
    ('batch_split: parts of one sample', '(oi - 1) * y.b * Vol(S[1])', '(oi - 1) * Vol(S[1])', 'CallsExactA'),
    ('matmul: shared left operand by sample', 'b1 == IF S[1].b = 1 THEN 0 ELSE bt * n * m\n             b2 == IF S[2].b = 1 THEN 0 ELSE bt * m * p\n         IN sy', 'b1 == 0\n             b2 == IF S[2].b = 1 THEN 0 ELSE bt * m * p\n         IN sy', 'CallsExactA'),
    ('max: the first element', 'sy * MaxOf(Line(xs[1], S[1], u[1], j))', 'sy * Line(xs[1], S[1], u[1], j)[1]', 'CallsExactA'),
    ('mul: gradient of the second operand is the second operand', '<<2, ib, sy * At(xs[1], ia)>>>>', '<<2, ib, sy * At(xs[2], ib)>>>>', 'CallsSlopeA'),
    ('max: gradient to the last maximum', 'q[k] = m /\\ \\A i \\in 1 .. k - 1 : q[i] # m', 'k = Len(q)', 'CallsSlopeA'),
    ('matmul: gradient without the sum over lines', '\\o [l \\in 1 .. m |-> <<2, I2(l), sy * At(xs[1], I1(l))>>]', '\\o [l \\in 1 .. 1 |-> <<2, I2(l), sy * At(xs[1], I1(l))>>]', 'CallsSlopeA'),
    ('cos: derivative without its sign', '-F(TSin, v)', 'F(TSin, v)', 'CallsSlopeA'),
    ('logsumexp: derivative one', '|-> <<1, LineAt(S[1], u[1], j, k - 1), SoftFix(q, k)>>]', '|-> <<1, LineAt(S[1], u[1], j, k - 1), FS>>]', 'CallsSlopeA'),
    ('elu: derivative without its factor', 'RDiv(c * ExpV(v), sx)', 'ExpV(v)', 'CallsSlopeA'),
    ('pow: derivative by the exponent without the logarithm', 'MulFix(PowFix(a, b), LnFix(a * 1024))', 'PowFix(a, b)', 'CallsSlopeA'),
    ('mean: derivative not divided', 'RDiv(t[k][3] * sy, LinDiv(op, u, S))', 't[k][3] * sy', 'CallsContribA'),
    ('batch_norm: statistics of a neighbour', 'At(xs[1], (xj % v) + (k - 1) * v)]\n                        ELSE [k \\in 1 .. v |-> At(xs[1], (xj \\div v) * v + k - 1)]\n                  h', 'At(xs[1], ((xj + 1) % v) + (k - 1) * v)]\n                        ELSE [k \\in 1 .. v |-> At(xs[1], (xj \\div v) * v + k - 1)]\n                  h', 'CallsContribA'),
    ('scalar operand of sample 0 for all', 'ScalarAt(s, y, j) == IF s.b = 1 THEN 0 ELSE j \\div Vol(y)', 'ScalarAt(s, y, j) == 0', 'BatchA'),
    ('softplus: the sigmoid', 'F(TSoftplus, v)', 'F(TSigmoid, v)', 'CallsRealA'),
]


def run(i, what, old, new, cfg):
    d = tempfile.mkdtemp(prefix='mutate.')
    try:
        for f in os.listdir(ROOT):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(ROOT, f), d)
        s = open(d + '/Tensors.tla').read()
        if s.count(old) < 1:
            return 'NOT FOUND'
        open(d + '/Tensors.tla', 'w').write(s.replace(old, new, 1))
        mod = 'MCBatch' if cfg.startswith('Batch') else 'MCCalls'
        p = subprocess.run(['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx4g', '-cp', TLA + 'tla2tools.jar:' + TLA + 'CommunityModules-deps.jar',
                            'tlc2.TLC', '-noTE', '-config', cfg + '.cfg', '-workers', '2', '-metadir', d + '/md', mod + '.tla'],
                           cwd=d, capture_output=True, text=True)
        m = re.search(r'Invariant (\w+) is violated', p.stdout)
        if m:
            return m.group(1)
        return 'no violation' if 'No error has been found' in p.stdout else 'error ' + p.stdout[-600:]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    pick = [int(a) for a in sys.argv[1:]] or range(len(M))
    with ThreadPoolExecutor(3) as ex:
        for i, r in zip(pick, ex.map(lambda i: run(i, *M[i]), pick)):
            print(i, '|', M[i][0], '|', M[i][3], '|', r, flush=True)
