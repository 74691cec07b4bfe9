MCT = 'TLA+ specification; TLC model checking of the state machine; TLC trace validation of recorded executions'
RPL = MCT + '; replay of TLC-enumerated behaviours into the real code'
TR = 'TLA+ specification; TLC trace validation of recorded executions'
END = (' Beyond the enumerated space, assurance is over the executed seeded programs. Trusted: TLC, the harness recording '
       'arguments and results faithfully.')
TAB = END[:-1] + ', the function tables of tools/mktables.py.'
NOTES.update({
    'C01': (RPL, 'Histories of shape objects enumerated by TLC (MCShape) are replayed; random histories are validated against ShapeObj.' + END),
    'C02': (RPL, 'Every operation on all small shapes, batches and arguments, valid or not (MCCalls), and random calls: acceptance and result shapes, eager and as nodes, decided by the tables of Shapes.' + END),
    'C03': (RPL, 'Every element of every result recomputed in TLC from the tables of Tensors, on all small configurations (MCCalls, which checks the laws that tie operations together) and across block boundaries.' + TAB),
    'C04': (RPL, 'MCCalls configurations and random calls: memory around each call (guard zones, poison, bystanders) recorded by a guarded device and judged by TraceOps.' + TAB),
    'C05': (RPL, 'Gradients recomputed in TLC from the partial derivatives of Tensors, which MCCalls shows to be the differences of its values; all small configurations, random ones, and across block boundaries.' + TAB),
    'C06': (RPL, 'Sessions on all small graphs (GraphAlg) enumerated by TLC and replayed; random sessions validated against TraceGraph.' + END),
    'C07': (RPL, 'As C06, for one back-propagation: derivatives as sums over all paths.' + END),
    'C08': (RPL, 'As C06, for several back-propagations interleaved with construction and evaluation.' + END),
    'C09': (RPL, 'MemoryPool model-checked (PoolA-D, three threads); its behaviours and random schedules of real threads replayed and validated.' + END),
    'C10': (RPL, 'As C09, for accounting and release of blocks, with allocators that fail.' + END),
    'C11': (RPL, 'TensorLife enumerates histories of handles; replayed and validated beside random ones.' + END),
    'C12': (RPL, 'Optim recomputes every update exactly in fixed point; short training histories enumerated by TLC and replayed.' + END),
    'C13': (RPL, 'As C12, for configurations, hooks and steps of the whole optimizer.' + END),
    'C14': (RPL, 'Model trees enumerated by TLC (MCModelTree) and random ones walked by the real code.' + END),
    'C15': (RPL, 'Interrupted and resumed training enumerated (MCResume) and validated bit by bit.' + END),
    'C16': (RPL, 'Histories of registrations and calls on up to three devices (MCDevices) replayed and validated.' + END),
    'C17': (RPL, 'Histories with rejected or failing calls (MCFaults) replayed beside a twin without faults.' + END),
    'C18': (RPL, 'Draws, initialisers and dropout against a recording source (MCRand); the built-in source statistically at 7 sigma.' + END),
    'C19': (RPL, 'Composite functions recomputed in TLC by their definitions, values and gradients, on all small configurations (MCCalls) and random ones; dropout masks against a recording source of draws.' + TAB),
    'C20': (TR, 'Eager tensors beside nodes in the same sessions, judged by TraceGraph.' + END),
    'C21': (RPL, 'Non-linear functions recomputed in fixed point on all small configurations (MCCalls) and at arguments of every magnitude including infinities (MCExt, checked against inequalities and limits); tolerance of the order of single-precision rounding.' + TAB),
    'C22': (TR, 'Families of deep, wide and exponentially branching programs on small stacks and with time bounds, judged by TraceDeep.' + END),
    'C23': (RPL, 'argmax, argmin and argsort on all small configurations (MCCalls) and random ones, short and long lines, judged line by line by their definition.' + TAB),
    'C24': (MCT, 'MemoryPool with three threads model-checked; operations and graphs of real threads, freely and under random schedules, validated.' + END),
    'C25': (RPL, 'The tables of Tensors are shown to obey the batch law on all small shapes (MCBatch); the same configurations and random calls and '
                 'programs are run on minibatches and on their samples, and compared by Batch.' + END),
})
