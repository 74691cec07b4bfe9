------------------------------- MODULE Devices ------------------------------
(* Devices and what is registered on them.

   A device has a table from the names of kernels (with their kind: "fw:", "u32:", "f32:", "bw:")
   to the most recent registration.  An operation on tensors of one device is carried out by that
   device's current registration of the operation's kernel; an operation on tensors of several
   devices, or whose kernel is not registered, is rejected.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Register(tab, key, gen) == (key :> gen) @@ tab
Has(tab, key) == key \in DOMAIN tab

\* the device all tensors are on, or -1
Mixed == -1
Home(on) == IF \A i \in DOMAIN on : on[i] = on[1] THEN on[1] ELSE Mixed

\* A call as observed: <<device, key, registration, whether it was given tensors of others>>
CallOk(regs, c) == /\ Has(regs[c[1]], c[2])
                   /\ regs[c[1]][c[2]] = c[3]
                   /\ c[4] = 0

\* The kernels that may carry out a primitive operation (one of them has to); {}: composite.
\* sa, sb: whether the first and second operand are scalars.
Fw(n) == "fw:" \o n \o "_impl"
Binary(n, l, r, sa, sb) ==
  CASE sa = 1 /\ sb = 1 -> {Fw(n \o "_fw"), Fw(l), Fw(r)}
    [] sa = 1 -> {Fw(l)}
    [] sb = 1 -> {Fw(r)}
    [] OTHER -> {Fw(n \o "_fw")}
Kernels(op, sa, sb) ==
  CASE op = "add" -> Binary("add", "add_scalar_fw", "add_scalar_fw", sa, sb)
    [] op = "mul" -> Binary("mul", "mul_scalar_fw", "mul_scalar_fw", sa, sb)
    [] op = "sub" -> Binary("sub", "sub_scalar_l_fw", "sub_scalar_r_fw", sa, sb)
    [] op = "div" -> Binary("div", "div_scalar_l_fw", "div_scalar_r_fw", sa, sb)
    [] op = "pow" -> Binary("powf", "powf_scalar_l_fw", "powf_scalar_r_fw", sa, sb)
    [] op \in {"addcr", "addcl"} -> {Fw("add_const_fw")}
    [] op \in {"mulcr", "mulcl"} -> {Fw("mul_const_fw")}
    [] op = "subcr" -> {Fw("sub_const_r_fw")}
    [] op = "subcl" -> {Fw("sub_const_l_fw")}
    [] op = "divcr" -> {Fw("div_const_r_fw")}
    [] op = "divcl" -> {Fw("div_const_l_fw")}
    [] op = "powf" -> {Fw("powf_const_r_fw")}
    [] op \in {"neg", "powi", "sqrt", "abs", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus", "sum", "max",
               "min", "broadcast", "logsumexp", "matmul", "transpose", "elu", "prelu", "slice", "pick", "concat",
               "batch_sum", "batch_slice", "batch_pick", "batch_concat"} -> {Fw(op \o "_fw")}
    [] op \in {"relu", "lrelu"} -> {Fw("prelu_fw")}
    [] op = "tril" -> {Fw("triangular_l_fw")}
    [] op = "triu" -> {Fw("triangular_u_fw")}
    [] op = "split" -> {Fw("slice_fw")}
    [] op = "batch_split" -> {Fw("batch_slice_fw")}
    [] op = "addassign" -> {Fw("add_assign")}
    [] op = "subassign" -> {Fw("sub_assign")}
    [] op = "mulassign" -> {Fw("mul_assign_const")}
    [] op \in {"argmax", "argmin", "argsort"} -> {"u32:" \o op \o "_impl"}
    [] OTHER -> {}
=============================================================================
