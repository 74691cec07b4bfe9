import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
U="prima_undine/src/"
N=U+"devices/naive/"
p("C01","A shape is exactly its axis sizes (trailing ones ignored) plus its batch",
"Every observable attribute of a shape (axes, depth, volume, total size, batch, per-axis size, partial volumes, equality, same-axes / all-but-one-axis / compatible-batch predicates, serialised form) depends only on its axis sizes with trailing ones ignored and its batch size, no matter by which sequence of constructions and in-place resizes it was reached. A shape with a zero axis, a zero batch, more than eight axes, or a number of elements that does not fit the 32-bit element count is never produced: the request is rejected and the shape it was applied to keeps its previous value.",
["inputs","histories"],"all axis lists up to the depth limit, all batches, all sequences of resize/update calls including rejected ones",
"There is not one test of shapes; a stale depth, a volume not kept in step by an update or a wrapped product only shows for particular update sequences and sizes.",
[U+"shape.rs"],[("Shape::new",U+"shape.rs"),("update_dim/update_batch/resize_*",U+"shape.rs"),("has_same_loo_dims, has_same_dims",U+"shape.rs")],["public Shape API"],
state=[("dims,batch,depth,volume","redundant representation kept in step by updates",U+"shape.rs")])
p("C02","Every operation accepts exactly the valid arguments and infers the result shape",
"An operation on eager tensors or on graph nodes is accepted exactly when its documented shape rule holds (equal axes with equal-or-one batches, a scalar operand combined with anything of compatible batch, in-range axes, bounds, ids and sizes, evenly divisible splits, square matrices), and then the result has exactly the shape the rule gives, including axes beyond the operand's depth. Invalid arguments are rejected before anything is computed or modified, eager and graph form agree, and the graph form decides at construction, before evaluation.",
["inputs","programs"],"all operations, all operand shapes (depth 0..8, batch 1 or n), all parameters, valid and invalid",
"Kernel tests call one valid shape per kernel; shape inference for operators and nodes and all rejections are untested.",
[U+"shape_ops.rs",U+"functions/basic/device.rs",U+"functions/arithmetic/device.rs",U+"operators"],
[("shape_ops::*",U+"shape_ops.rs"),("device function asserts",U+"functions.rs"),("Operator::forward_shape",U+"operators")],["result of each public operation (value or rejection)"])
p("C03","Arithmetic, reduction, matrix and data-movement operations are exact",
"For every valid operand, each exactly representable operation (arithmetic with tensors, scalars and constants on either side, sums, maxima, minima, broadcasts, matrix product, transpose, triangular parts, slices, splits, picks, concatenations, reshapes and their batch forms, in-place add, subtract and scale) yields exactly the mathematically defined elements, in column-major order with the batch outermost, an operand of batch one being shared by all samples. Nothing depends on the size class, alignment or blocking of the computation.",
["inputs","programs"],"all operations x all shapes and batch combinations x all element values in the exactly representable range",
"Each kernel test fixes one or two shapes and values; batch sharing on both sides, axes beyond depth, sizes beyond the internal blocks and scalar dispatch are sampled once or never.",
[N,U+"functions",U+"operators"],[("naive kernels",N),("operator dispatch to scalar/const/elementwise forms",U+"functions/arithmetic/tensor.rs")],["to_vec() of results"])
p("C04","An operation touches only its own result and never memory outside live tensors",
"An operation writes only the storage of the tensor it produces or is documented to modify, and reads only its operands: every other live tensor, parameter, gradient and statistic keeps its exact contents. Its result does not depend on what previously freed memory contained, and no read or write falls outside the storage of a live tensor, whether the call succeeds or is rejected.",
["inputs","programs","histories"],"all operations, all shapes, any set of other live tensors, any previous content of recycled memory",
"Tests check result values only; an out-of-bounds or stray write into a pooled buffer (rounded up to 64 elements or more) or a read of a stale cell is invisible to them.",
[N,U+"memory_pool.rs",U+"functions"],[("raw pointer kernels bounded by shapes",N),("pool rounding",U+"memory_pool.rs"),("shape checks of in-place operations",U+"functions/arithmetic/device.rs")],["contents of every live buffer and of guard zones around it"],
hook="a way to build the CPU device over an instrumented allocator")
p("C05","Each operation's gradient is its exact vector-Jacobian product, accumulated",
"For every differentiable operation, any operands and any upstream gradient, back-propagation adds to each operand's existing gradient exactly the vector-Jacobian product (the analytic derivative weighted by the upstream gradient), summed over the batch when an operand of batch one was shared. It works for every operand combination the forward direction accepts, including the same operand used twice, and never overwrites what was already accumulated.",
["inputs","programs"],"all operators x all operand shapes/batches x all upstream gradients x any earlier gradient contents",
"Only some backward kernels are tested, with gradient 1 into a fixed buffer; the operators that call them (which kernel, which argument, which accumulation) are untested.",
[U+"operators",N,U+"functions/basic/device.rs"],[("Operator::backward",U+"operators"),("*_bw kernels",N)],["gradients returned by operators and by device-level backward functions"])
p("C06","A graph is evaluated lazily, each operation at most once and after its inputs",
"Building a graph evaluates nothing; asking for a node's value evaluates exactly the not-yet-evaluated operations it depends on, each once and only after all of its inputs. Later requests on any node reuse stored values, and evaluation order or request order never changes any value.",
["programs","histories"],"all acyclic graphs (sharing, several outputs, repeated inputs) and all sequences of evaluation requests on them",
"There is no test of the graph; order and at-most-once hold per DAG and per request history, not for one chain.",
[U+"graph.rs"],[("forward()",U+"graph.rs"),("depth-ordered queue, forwarded flag",U+"graph.rs")],["operator invocations seen by user-defined operators; node values"],
state=[("forwarded","operation already evaluated",U+"graph.rs"),("depth","1+max depth of inputs",U+"graph.rs")])
p("C07","Back-propagation yields the total derivative over any graph",
"Back-propagating from a node adds to every parameter it depends on the total derivative of the sum of that node's elements with respect to that parameter, whatever the graph: shared nodes, a node used several times by one operation, paths of different length, operations with several outputs of which some are unused or chosen as the target. Each operation is back-propagated once, only after all its consumers, and parameters outside the node's ancestors are not changed.",
["programs"],"all acyclic graphs over the operators, all target nodes",
"No test back-propagates through a graph; path-sum correctness depends on visiting order over all DAGs.",
[U+"graph.rs",U+"operators/parameter.rs",U+"operators/split.rs"],[("backward()",U+"graph.rs"),("gradient seeding and allocation",U+"graph.rs")],["parameter gradients; operator backward calls"])
p("C08","Repeated and overlapping back-propagations each contribute only their own part",
"Any sequence of back-propagations from nodes of the same or overlapping graphs leaves every parameter's gradient increased by exactly the sum of each target's own derivative: what an earlier call left behind in the graph is never counted again, and calling twice adds the same amount twice. Interleaved evaluation requests do not change any of it.",
["histories","programs"],"all sequences of backward/forward calls over graphs sharing sub-graphs and over several graphs sharing parameters",
"Untested; the defect class (stale intermediate gradients) needs at least two calls on overlapping graphs.",
[U+"graph.rs",U+"parameter.rs"],[("backward()",U+"graph.rs"),("Parameter operator accumulation",U+"operators/parameter.rs")],["parameter gradients after each call"])
p("C09","Live allocations never share memory, under any thread interleaving",
"At every moment each block of device memory handed out and not yet returned belongs to exactly one owner and is at least as large as requested, for any interleaving of allocations and releases by any number of threads. No interleaving deadlocks or panics.",
["schedules","histories","inputs"],"all interleavings of concurrent allocate/release calls, all sizes",
"No test allocates from two threads or looks at block identity; the two locks inside the allocator can interleave in ways stress does not reach.",
[U+"memory_pool.rs"],[("MemoryPool::new_handle/drop_handle",U+"memory_pool.rs"),("calculate_shifts",U+"memory_pool.rs")],["Device::new_handle/drop_handle results, DeviceImpl calls"],
hook="scheduler callback at the allocator's lock operations",
state=[("pool","free blocks per size class",U+"memory_pool.rs"),("mem_shift","size class of each live block",U+"memory_pool.rs")])
p("C10","Device memory is recycled and finally returned exactly once",
"A released block is offered again for any later request of its size class before new memory is taken from the backend, is never offered twice, and is never returned to the backend while somebody holds it. When a device whose tensors are all gone is destroyed, every block it ever obtained from the backend has been given back exactly once.",
["histories","schedules","inputs"],"all histories of allocate/release calls with any sizes, ending in device destruction",
"Leaks, double returns and missing reuse do not change any computed value, so no test sees them.",
[U+"memory_pool.rs",U+"tensor.rs",U+"device.rs"],[("free lists",U+"memory_pool.rs"),("Drop for MemoryPool",U+"memory_pool.rs"),("Drop for Tensor",U+"tensor.rs")],["calls the backend receives"])
p("C11","A tensor owns its storage exactly once through its whole life",
"Over any sequence of creating, allocating, filling, copying, referring, replacing, reshaping, moving to a device and dropping tensors, each storage block has exactly one owning tensor, a reference shows its referent's contents without owning them, and a block is released exactly once, when its owner goes away. A request that would break this (allocating twice, replacing an allocated tensor, adopting someone else's storage, changing the element count) is rejected with no effect.",
["histories"],"all bounded histories of tensor life-cycle calls over several tensors, including rejected ones",
"Kernel tests create and drop tensors in one fixed pattern; refer/replace/move and their combinations are untested.",
[U+"tensor.rs",U+"operators/input.rs"],[("alloc/refer/replace/update_shape/move_to_device",U+"tensor.rs"),("Drop for Tensor",U+"tensor.rs")],["tensor validity, shape, contents; backend and pool calls"],
state=[("handle,reference,host_values","ownership state",U+"tensor.rs")])
p("C12","Optimizers apply their published update equations",
"For any parameters, gradients, hyper-parameters and number of earlier updates, one update changes each parameter exactly as the optimizer's equation says (plain, momentum, and adaptive with bias correction by the number of updates so far), scaled by the learning-rate scaling. Before that, weight decay adds the decay strength times the value to each gradient, and clipping rescales all gradients together so that their joint norm does not exceed the threshold, leaving them alone when it already does not.",
["inputs","histories"],"all values, gradients, hyper-parameters, several parameters of different shapes, any number of updates",
"There is no optimizer test at all.",
[U+"optimizer.rs",U+"optimizers"],[("update_parameters",U+"optimizer.rs"),("update_parameter",U+"optimizers")],["parameter values and statistics after each update"])
p("C13","Optimizer bookkeeping: gradients cleared, counted once, parameters isolated",
"Every update counts as one step, clears the gradient of each updated parameter, and leaves parameters that were not passed untouched; configuring is idempotent and never resets existing statistics or values; statistics of one kind of optimizer, or of one parameter, never influence another. A rejected setting (negative scaling, decay or threshold) changes nothing.",
["histories"],"all sequences of configure/update/set calls with several optimizers and overlapping parameter sets",
"No test exists; these are history properties.",
[U+"optimizer.rs",U+"optimizers.rs",U+"parameter.rs"],[("configure_parameter/add_stat",U+"parameter.rs"),("update_parameters epoch and reset",U+"optimizer.rs")],["parameter values, gradients, statistics, step counter"],
state=[("stats","named per-parameter statistics",U+"parameter.rs"),("epoch","number of updates",U+"optimizers.rs")])
p("C14","A model enumerates each of its parameters exactly once, in declaration order",
"The parameters of a model are the parameters of its fields in declaration order, recursively through nested models and lists, without the fields marked as skipped; shared and mutable enumerations agree element by element. Moving, configuring or updating a model affects exactly these parameters, each once.",
["programs","configurations"],"all model structures built by nesting models, lists and parameters with any fields skipped",
"The derive macro and the list implementations have no tests.",
["prima_undine_derive/src/lib.rs",U+"model.rs",U+"parameter.rs"],[("derive(Model)","prima_undine_derive/src/lib.rs"),("Model for Vec",U+"model.rs")],["parameters()/parameters_mut(), move_to_device, configure_model/update_model"])
p("C15","A saved model loads to the same model, and training resumes identically",
"Serialising a parameter or model and loading it again, on the same or another device, restores every shape, value, gradient and optimizer statistic exactly. Training resumed from such a copy at any point proceeds exactly like the uninterrupted training.",
["inputs","histories","crash_points"],"all shapes, all finite element values, any statistics, saving after any number of training steps",
"No serialisation test exists.",
[U+"tensor.rs",U+"shape.rs",U+"parameter.rs"],[("Serialize/Deserialize",U+"tensor.rs"),("move_to_device",U+"parameter.rs")],["state before saving and after loading, and after further updates"])
p("C16","Work runs on the tensors' own device, and devices never mix",
"Every operation is carried out by the implementation registered under its name on the device its operands live on, results and gradients live on that device, and the most recent registration of a name wins. Combining tensors of different devices, or asking for an operation the device does not implement, is rejected without side effects; two devices never share or exchange memory.",
["programs","configurations"],"all operations x assignments of operands to devices, any set of registered implementations",
"Every test uses a single device with everything registered.",
[U+"device.rs",U+"functions.rs",U+"functions/basic/device.rs",U+"devices/naive.rs"],[("call_*_impl registries",U+"device.rs"),("device identity asserts",U+"functions.rs")],["calls received by registered implementations; rejections"])
p("C17","A rejected or failed call leaves the system consistent and usable",
"After any call that is rejected, or whose backend allocation or kernel fails, all existing tensors, parameters and graphs keep their contents, all memory stays accounted for exactly once, and every later valid call behaves as if the failed one had never happened. A call made of several steps (back-propagation, updating several parameters, initialising or moving a whole model) that is cut short has carried out some of its steps completely and the others not at all.",
["fault_sequences","histories"],"any position of a failing call (bad arguments, failing allocation, failing operation, releasing an unknown block) in any history, from any thread",
"Tests with should_panic end at the panic; nothing is ever done afterwards.",
[U+"memory_pool.rs",U+"tensor.rs",U+"device.rs",U+"graph.rs"],[("lock scopes of the allocator",U+"memory_pool.rs"),("unwinding drops",U+"tensor.rs")],["later results, contents of live tensors, backend accounting"],
hook="instrumented allocator whose requests can be made to fail")
p("C18","Random generation and initialisers respect their domain, bounds and parameters",
"Random tensors have the requested shape with every element drawn and inside the domain of the requested distribution (zero/one with the requested probability, half-open interval, normal with the requested mean and deviation), independently per element and per call. Initialisers fill a whole unallocated tensor accordingly (constant value, uniform bounds, normal parameters, the fan-based symmetric bound for matrices only), new parameters start with that value and a zero gradient, and impossible parameters are rejected.",
["inputs","configurations"],"all shapes, all distribution parameters, any sequence of draws",
"The tests check one shape; wiring of initialisers and parameters is untested.",
[N+"random.rs",U+"random.rs",U+"initializers",U+"functions/random/device.rs",U+"device.rs"],[("Randomizer fills",U+"random.rs"),("initialisers",U+"initializers")],["values passed to a recording randomizer and returned tensors"])
p("C19","Composite layers (means, dropout, normalisations, sums) compute their definition",
"Mean, batch mean, sum of a list, dropout (whole or per axis), batch and layer normalisation return exactly their definition on eager tensors and on nodes, for every shape and batch: dropout keeps or zeroes elements and rescales kept ones by the inverse keep probability, is the identity when disabled and zero at rate one, and drops whole lines along the chosen axis. Their gradients are the total derivatives of these definitions.",
["inputs","programs"],"all shapes, batches, rates, axes, lists; eager and graph form; forward and backward",
"The crate has no tests.",
["prima_undine_contrib/src/functions/contrib/node.rs","prima_undine_contrib/src/functions/contrib/tensor.rs"],[("ContribFunctions for Tensor","prima_undine_contrib/src/functions/contrib/tensor.rs"),("ContribFunctions for Node","prima_undine_contrib/src/functions/contrib/node.rs")],["returned values and gradients"])
p("C20","The same program gives the same result eagerly and as a graph",
"Any program over the common function interface, run once on eager tensors and once on graph nodes, is accepted or rejected alike and yields the same shapes and element values, whatever its length, operation mix, broadcasting and sharing, and whether constants, scalars or tensors stand on the left or the right. Evaluating or back-propagating never changes the tensors and parameter values the program was given.",
["programs","inputs"],"all programs over the shared interface, all input shapes and values",
"No test runs a program on nodes.",
[U+"functions/basic/node.rs",U+"functions/basic/tensor.rs",U+"functions/arithmetic/node.rs",U+"functions/arithmetic/tensor.rs",U+"operators"],[("two implementations of one trait",U+"functions")],["values of both runs"])
p("C21","Non-linear functions equal their definition and stay stable at extremes",
"Exponential, logarithm, powers, roots, trigonometric, sigmoid, hyperbolic, soft-plus, ramp functions, log-sum-exp, softmax, log-softmax and (sparse) softmax cross entropy equal their real definition, up to single-precision rounding of arguments and results, for every element, axis and batch. The log-sum-exp family and saturating functions give finite, correct results for arguments of any magnitude, including ties and axes beyond the depth.",
["inputs"],"all shapes, axes, batches, finite element values including very large magnitudes",
"Tests use small magnitudes on one shape and axis.",
[N+"exp.rs",N+"logsumexp.rs",N+"softplus.rs",N+"sigmoid.rs",N+"powf.rs",N+"elu.rs",U+"functions/basic/tensor.rs"],[("kernels",N),("ln_softmax/softmax composition",U+"functions/basic/tensor.rs")],["to_vec() of results"])
p("C22","Graph size is limited by memory only, with work linear in the graph",
"Building, evaluating, back-propagating and dropping a graph works for any depth and any amount of sharing: the number of operator calls is exactly the number of distinct reachable operations (forward once, backward once), never the number of paths, and no step exhausts the stack. Long chains, wide fans and repeatedly doubled expressions give the exact result.",
["programs"],"all graph depths and widths, exponential-path sharing patterns",
"No graph test exists; stack exhaustion needs tens of thousands of nodes, path explosion needs deep sharing.",
[U+"graph.rs"],[("worklists",U+"graph.rs"),("drop of the operator chain",U+"graph.rs")],["operator call counts, values, process survival"])
p("C23","Argmax, argmin and argsort identify the right elements",
"For every axis and batch, argmax and argmin return, line by line in storage order, the position along the axis of the first largest or smallest element, and argsort returns, line by line, a permutation of the line's element positions that lists the elements in ascending order. Axes beyond the depth and lines of equal elements are handled, and nodes and tensors agree.",
["inputs"],"all shapes, axes, batches, values incl. ties and negative values",
"Two shapes are tested without ties or axes beyond the depth.",
[N+"argmax.rs",N+"argmin.rs",N+"argsort.rs"],[("kernels",N)],["returned index vectors"])
p("C24","Threads sharing a device compute what they would compute alone",
"Any number of threads that create, combine and drop tensors on one shared device, or share read-only tensors, each obtain exactly the results of running alone, for every interleaving. When they are done all memory is accounted for.",
["schedules"],"all interleavings of tensor programs of several threads on one device",
"No test uses threads.",
[U+"memory_pool.rs",U+"tensor.rs",U+"device.rs",N+"random.rs"],[("locks of the allocator",U+"memory_pool.rs"),("Send/Sync tensors with atomic handles",U+"tensor.rs")],["per-thread results, backend accounting"],
hook="scheduler callback at the allocator's lock operations")
p("C25","A minibatch behaves as its samples processed one by one",
"For every operation other than the explicitly batch-mixing ones, applying it to a minibatch gives, sample by sample, exactly what it gives on each sample alone, operands of batch one being shared by all. Correspondingly the gradient of a shared operand over a minibatch is the sum of its per-sample gradients and a per-sample operand's gradient is that of its own sample, and splitting then re-joining a batch (or an axis) is the identity.",
["inputs","programs"],"all operations and compositions, all batch sizes and sharing patterns",
"Kernel tests use batch 1..3 in a fixed operand order; per-sample equivalence is a relation between runs that no test states.",
[N,U+"operators",U+"functions"],[("batch shifts in kernels",N),("add_assign batch reduction",N+"add_assign.rs")],["batched and per-sample results and gradients"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s)
    n=x["statement"].replace("e.g.","").count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
