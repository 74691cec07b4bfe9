"""What each check runs: exhaustive configurations (mc) and driver runs (traces)."""


def ops(name, n, shards, aspect, seed=0, **args):
    a = {'n': n}
    a.update(args)
    return dict(name=name, driver='ops', args=a, shards=shards, spec='TraceOps', env={'ASPECT': aspect}, seed=seed)


def plan(pid, tier):
    t = tier == 'thorough'
    k = 12 if t else 1

    lv = 'B' if t else 'A'

    def calls(cfg):
        return dict(name='calls', spec='MCCalls', cfg='Calls%s%s.cfg' % (cfg, lv), save='calls.txt', workers=4, timeout=1500)

    def called(nsh, aspect, **args):
        return dict(name='enumerated', driver='ops', args=dict(args, shards=nsh), behaviours='calls.txt', shards=nsh,
                    spec='TraceOps', env={'ASPECT': aspect}, seed=9)

    def device(n, shards, aspect, seed, **args):
        return dict(name='device', driver='dev', args=dict(args, n=n), shards=shards, spec='TraceOps',
                    env={'ASPECT': aspect}, seed=seed)

    if pid == 'C01':
        return dict(
            rule='random and TLC-enumerated histories of shape objects',
            mc=[dict(name='histories', spec='MCShape', cfg='MCShape.cfg', save='shape.txt', workers=1)],
            traces=[dict(name='random', driver='shape', args={'n': 3000 * k}, shards=8, spec='TraceShape'),
                    dict(name='enumerated', driver='shape', args={'shards': 8}, behaviours='shape.txt', shards=8,
                         spec='TraceShape')])
    if pid == 'C02':
        return dict(
            rule='enumerated and random calls of every operation, valid and invalid, eager and as nodes',
            mc=[calls('Shape')],
            traces=[called(4, 'accept', modes='tn'), ops('calls', 3000 * k, 8, 'accept', list='all', noise=60, wide=4),
                    device(25000 * k, 4, 'accept', 20)])
    if pid == 'C03':
        return dict(
            rule='enumerated and random valid calls of every exact operation, small and across block boundaries',
            mc=[calls('Exact')],
            traces=[called(4, 'value', modes='tn'), ops('small', 3000 * k, 6, 'value', list='exact', wide=15),
                    ops('large', 900 * k, 6, 'value', seed=1, list='exact', large=100)])
    if pid == 'C04':
        return dict(
            rule='every operation between guard zones, poisoned free memory and bystanders, accepted and rejected',
            mc=[calls('Exact')],
            traces=[called(4, 'memory', guard=1, modes='tngb'), ops('eager', 2500 * k, 4, 'memory', guard=1, edge=40, wide=5, noise=15, list='all', modes='t'),
                    ops('node', 1500 * k, 2, 'memory', seed=1, guard=1, edge=40, wide=5, noise=15, list='all', modes='n'),
                    ops('large', 250 * k, 3, 'memory', seed=2, guard=1, large=100, list='all', modes='tn'),
                    ops('grad', 1500 * k, 4, 'memory', seed=3, guard=1, edge=40, wide=5, list='grad', grad=1, modes='gb'),
                    ops('gradlarge', 150 * k, 3, 'memory', seed=4, guard=1, large=100, list='grad', grad=1, modes='gb'),
                    device(4000 * k, 2, 'memory', 22, guard=1)])
    if pid == 'C05':
        return dict(
            rule='gradient of every operation through a graph and by its own backward with prior gradients',
            mc=[calls('Slope')],
            traces=[called(4, 'value', modes='gb'), ops('small', 2500 * k, 6, 'value', list='grad', grad=1, modes='gb', wide=8),
                    ops('large', 700 * k, 6, 'value', seed=1, list='grad', grad=1, modes='gb', large=100),
                    device(12000 * k, 2, 'value', 23)])
    def graph(name, n, shards, aspect, seed=0, **args):
        a = {'n': n}
        a.update(args)
        return dict(name=name, driver='graph', args=a, shards=shards, spec='TraceGraph', env={'ASPECT': aspect}, seed=seed)
    graphs = [dict(name='graphs-a', spec='GraphAlg', cfg='GraphA.cfg', save='graphA.txt', workers=4),
              dict(name='graphs-b', spec='GraphAlg', cfg='GraphB.cfg', save='graphB.txt', workers=4)]
    if t:
        graphs.append(dict(name='graphs-c', spec='GraphAlg', cfg='GraphC.cfg', save='graphC.txt', workers=8, heap='12g', timeout=3000))

    def graph_replay(aspect):
        return [dict(name='enum' + m, driver='graph', args={'shards': 3}, behaviours='graph%s.txt' % m, shards=3,
                     spec='TraceGraph', env={'ASPECT': aspect}) for m in ('ABC' if t else 'AB')]
    if pid == 'C06':
        return dict(
            rule='random and TLC-enumerated sessions: what each request evaluates, in which order, and stored values',
            mc=graphs,
            traces=graph_replay('lazy') + [
                graph('exact', 800 * k, 5, 'lazy', reads=1, ops=30, backs=2),
                graph('real', 500 * k, 3, 'lazy', seed=1, reads=1, real=1, ops=20, backs=0)])
    if pid == 'C07':
        return dict(
            rule='one back-propagation per random graph, and TLC-enumerated graphs',
            mc=graphs,
            traces=graph_replay('back') + [
                graph('deep', 1200 * k, 5, 'back', ops=40, backs=1),
                graph('small', 2500 * k, 3, 'back', seed=1, ops=8, backs=1)])
    if pid == 'C08':
        return dict(
            rule='many back-propagations and evaluations interleaved with construction',
            mc=graphs,
            traces=graph_replay('back') + [
                graph('many', 500 * k, 5, 'back', ops=30, backs=8),
                graph('small', 1200 * k, 3, 'back', seed=1, ops=8, backs=4)])
    if pid == 'C20':
        return dict(
            rule='the same random program on nodes and on tensors, valid and invalid calls',
            traces=[graph('exact', 1000 * k, 4, 'eager', probes=0, noise=1, reads=1, ops=30, backs=1),
                    graph('real', 700 * k, 4, 'eager', seed=1, probes=0, noise=1, real=1, reads=1, ops=20, backs=0)])
    if pid == 'C22':
        def deep(name, n, shards, big, seed=0):
            return dict(name=name, driver='deep', args={'n': n, 'big': big}, shards=shards, spec='TraceDeep', seed=seed, timeout=200)
        return dict(
            rule='families of deep, wide and exponentially branching programs on small stacks',
            mc=[dict(name='graphs-a', spec='GraphAlg', cfg='GraphA.cfg', workers=4)],
            traces=[deep('mid', 60 * k, 4, 20000), deep('big', 8 * k, 2, 200000, 1), deep('small', 300 * k, 2, 60, 2)])
    if pid == 'C24':
        def thr(name, n, shards, seed, **args):
            return dict(name=name, driver='threads', args=dict(args, n=n), shards=shards, spec='TraceOps',
                        env={'ASPECT': 'threads'}, seed=seed)
        return dict(
            rule='operations and graphs of several threads on one device, freely, in step, and under random schedules',
            mc=[dict(name='three-threads', spec='MemoryPool', cfg='PoolB.cfg', workers=4)],
            traces=[thr('hot', 8 * k, 2, 6, storm=1, heat=10, len=80, large=60),
                    thr('hotsmall', 4 * k, 1, 7, storm=1, heat=10, len=80), thr('hotwide', 2 * k, 1, 8, storm=1, heat=10, len=60, wide=100),
                    thr('free', 40 * k, 2, 0, len=60), thr('storm', 40 * k, 2, 1, storm=1),
                    thr('sched', 60 * k, 2, 2, sched=1, len=15), thr('large', 12 * k, 2, 3, large=100, storm=1, len=25)] +
            [graph('sessions-' + a, 800 * k, 2, a, seed, threads=4, reads=1, ops=25, backs=3)
             for seed, a in ((4, 'lazy'), (5, 'back'))])
    if pid in ('C09', 'C10'):
        asp = 'own' if pid == 'C09' else 'recycle'

        def pool(name, mode, shards, seed=0, behaviours=None, **args):
            j = dict(name=name, driver='pool', args=dict(args, mode=mode), shards=shards, spec='TracePool',
                     env={'ASPECT': asp}, seed=seed)
            if behaviours:
                j['behaviours'] = behaviours
                j['args']['shards'] = shards
            return j
        mc = [dict(name='two-threads', spec='MemoryPool', cfg='PoolA.cfg', save='poolA.txt', workers=4),
              dict(name='three-threads', spec='MemoryPool', cfg='PoolE.cfg', save='poolE.txt', workers=4),
              dict(name='three-threads-states', spec='MemoryPool', cfg='PoolB.cfg', workers=4)]
        traces = [pool('sched2', 'replay', 2, behaviours='poolA.txt'), pool('sched3', 'replay', 2, behaviours='poolE.txt'),
                  pool('random', 'random', 8, n=700 * k), pool('alone', 'seq', 3, 1, n=120 * k),
                  pool('free', 'threads', 3, 2, n=40 * k)]
        if t:
            mc += [dict(name='two-threads-long', spec='MemoryPool', cfg='PoolD.cfg', save='poolD.txt', workers=8, heap='8g'),
                   dict(name='three-threads-long', spec='MemoryPool', cfg='PoolC.cfg', workers=8, heap='12g', timeout=3000)]
            traces.append(pool('sched2long', 'replay', 8, behaviours='poolD.txt'))
        return dict(rule='the pool under TLC-enumerated schedules of its lock sections, random schedules, and free threads',
                    mc=mc, traces=traces)
    if pid == 'C11':
        cfg = 'LifeB' if t else 'LifeA'

        def life(name, nsh, seed=0, **args):
            return dict(name=name, driver='life', args=args, shards=nsh, spec='TraceLife', seed=seed)
        return dict(
            rule='TLC-enumerated and random histories of tensors on two devices',
            mc=[dict(name='histories', spec='MCLife', cfg=cfg + '.cfg', save='life.txt', workers=1, heap='8g')],
            traces=[dict(life('enumerated', 8, shards=8), behaviours='life.txt'),
                    life('random', 8, 1, n=1200 * k, len=40), life('long', 2, 2, n=60 * k, len=500)])
    if pid in ('C12', 'C13'):
        asp = 'equation' if pid == 'C12' else 'book'

        def opt(name, nsh, seed=0, **args):
            return dict(name=name, driver='optim', args=args, shards=nsh, spec='TraceOptim', seed=seed, env={'ASPECT': asp})
        return dict(
            rule='TLC-enumerated and random histories of optimizers and parameters',
            mc=[dict(name='histories', spec='MCOptim', cfg='OptimB.cfg' if t else 'OptimA.cfg', save='optim.txt', workers=1)],
            traces=[dict(opt('enumerated', 8, shards=8), behaviours='optim.txt'),
                    opt('random', 8, 1, n=500 * k, len=30), opt('long', 2, 2, n=15 * k, len=300),
                    opt('large', 2, 3, n=60 * k, len=30, large=60)])
    if pid == 'C14':
        def model(name, nsh, seed=0, **args):
            return dict(name=name, driver='model', args=args, shards=nsh, spec='TraceModel', seed=seed)
        return dict(
            rule='calls on whole models of many structures, TLC-enumerated and random',
            bin='verif_models', must_build=True,
            mc=[dict(name='trees', spec='MCModelTree', cfg='TreeB.cfg' if t else 'TreeA.cfg', save='tree.txt', workers=1)],
            traces=[dict(model('enumerated', 4, shards=4), behaviours='tree.txt'),
                    model('random', 6, 1, n=400 * k), model('long', 2, 2, n=60 * k, len=80)])
    if pid == 'C15':
        def resume(name, nsh, seed=0, **args):
            return dict(name=name, driver='resume', args=args, shards=nsh, spec='TraceResume', seed=seed)
        return dict(
            rule='saving, loading and training of copies of models, TLC-enumerated and random',
            bin='verif_models',
            mc=[dict(name='histories', spec='MCResume', cfg='ResumeB.cfg' if t else 'ResumeA.cfg', save='resume.txt', workers=1)],
            traces=[dict(resume('enumerated', 8, shards=8, den=4 if t else 1), behaviours='resume.txt'),
                    resume('random', 8, 1, n=200 * k), resume('long', 2, 2, n=20 * k, len=200)])
    if pid == 'C16':
        def devices(name, nsh, seed=0, **args):
            return dict(name=name, driver='devices', args=args, shards=nsh, spec='TraceDevices', seed=seed)
        return dict(
            rule='operations, device functions and kernels called by name, on three devices with changing tables of kernels',
            mc=[dict(name='histories', spec='MCDevices', cfg='DevicesB.cfg' if t else 'DevicesA.cfg', save='devices.txt', workers=1)],
            traces=[dict(devices('enumerated', 4, shards=4, den=4 if t else 1), behaviours='devices.txt'),
                    devices('random', 8, 1, rounds=60 * k)])
    if pid == 'C17':
        def pool(name, mode, shards, seed, **args):
            return dict(name=name, driver='pool', args=dict(args, mode=mode, fail=250), shards=shards, spec='TracePool',
                        env={'ASPECT': 'fail'}, seed=seed)
        return dict(
            rule='histories with rejected and failing calls at any position and from any thread, beside a twin without faults',
            mc=[dict(name='histories', spec='MCFaults', cfg='FaultsB.cfg' if t else 'FaultsA.cfg', save='faults.txt', workers=1,
                     timeout=3000)],
            traces=[dict(name='enumerated', driver='faults', args={'shards': 4, 'den': 1}, behaviours='faults.txt', shards=4,
                         spec='TraceFaults'),
                    dict(name='random', driver='faults', args={'rounds': 120 * k}, shards=8, spec='TraceFaults'),
                    dict(name='graphs', driver='faults', args={'rounds': 40 * k, 'steps': 10, 'graph': 1}, shards=2, spec='TraceFaults', seed=4),
                    pool('allocator', 'random', 3, 1, n=400 * k), pool('threads', 'threads', 2, 2, n=40 * k),
                    dict(name='tensors', driver='life', args={'n': 300 * k, 'len': 40}, shards=2, spec='TraceLife', seed=3)])
    if pid == 'C18':
        def rand(name, nsh, seed=0, **args):
            return dict(name=name, driver='random', args=args, shards=nsh, spec='TraceRand', seed=seed)
        return dict(
            rule='random tensors, initialisers and dropout against a recording source of draws; the built-in source statistically',
            mc=[dict(name='histories', spec='MCRand', cfg='RandB.cfg' if t else 'RandA.cfg', save='rand.txt', workers=1, timeout=1500)],
            traces=[dict(rand('enumerated', 2, shards=2, den=1), behaviours='rand.txt'),
                    rand('draws', 3, mode='draws', rounds=200 * k), rand('stat', 3, mode='stat', rounds=100 * k)])
    if pid == 'C19':
        return dict(
            rule='composite functions: values on tensors and nodes, gradients',
            mc=[calls('Contrib')],
            traces=[called(3, 'value', modes='tng'), ops('value', 2000 * k, 3, 'value', list='contrib', wide=10),
                    ops('grad', 1500 * k, 3, 'value', seed=1, list='contrib', grad=1, modes='g', wide=6),
                    ops('large', 150 * k, 2, 'value', seed=2, list='contrib', grad=1, modes='tng', large=100),
                    dict(name='masks', driver='random', args={'mode': 'drop', 'rounds': 1500 * k}, shards=2, spec='TraceRand', seed=3)])
    if pid == 'C21':
        return dict(
            rule='non-linear functions within single-precision rounding, at ordinary arguments and at arguments of every magnitude',
            mc=[calls('Real'),
                dict(name='extremes', spec='MCExt', cfg='Ext%s.cfg' % lv, save='ext.txt', workers=1)],
            traces=[called(2, 'value', modes='tng'),
                    dict(name='extremes', driver='ext', args={'shards': 2}, behaviours='ext.txt', shards=2, spec='TraceExt', seed=8),
                    ops('small', 3000 * k, 6, 'value', list='real', wide=12),
                    ops('large', 700 * k, 3, 'value', seed=1, list='real', large=100)])
    if pid == 'C23':
        return dict(
            rule='argmax, argmin, argsort on lines with ties, short and long',
            mc=[calls('Arg')],
            traces=[called(2, 'value', modes='tn'), ops('small', 4000 * k, 6, 'value', list='arg', wide=15),
                    ops('large', 400 * k, 6, 'value', seed=1, list='arg', large=100)])
    if pid == 'C25':
        def bat(name, nsh, seed=0, **args):
            return dict(name=name, driver='batch', args=args, shards=nsh, spec='TraceBatch', seed=seed)
        return dict(
            rule='calls and programs on minibatches beside the same on every sample; taking apart and putting together',
            mc=[dict(name='law', spec='MCBatch', cfg='BatchB.cfg' if t else 'BatchA.cfg', save='batch.txt', workers=1, timeout=1500)],
            traces=[dict(bat('enumerated', 4, shards=4, den=1), behaviours='batch.txt'),
                    bat('calls', 4, 1, mode='one', n=1500 * k), bat('wide', 3, 5, mode='one', n=120 * k, wide=100), bat('large', 2, 2, mode='one', n=200 * k, large=100),
                    bat('programs', 4, 3, mode='prog', n=400 * k), bat('join', 2, 4, mode='join', n=1000 * k)])
    raise SystemExit('no plan for ' + pid)
