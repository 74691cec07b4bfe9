//! Several devices, each with its own (changing, possibly partial) set of registered kernels.
use crate::d_ops::{list, naive};
use crate::gen::*;
use crate::guard::*;
use crate::ops::*;
use crate::util::*;
use crate::Args;
use prima_undine::functions::*;
use prima_undine::{initializers as I, optimizers as O};
use prima_undine::device_impl::{FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::{Device, Initializer, Node, Optimizer, OptimizerBase, Parameter, Shape, Tensor};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::sync::Mutex;

const FW: &[&str] = &[
    "reset_tensor_impl", "reset_tensor_by_slice_impl", "reset_tensor_by_tensor_impl", "identity_impl", "random_bernoulli_impl", "random_normal_impl",
    "random_uniform_impl", "add_assign_impl", "sub_assign_impl", "mul_assign_const_impl", "neg_fw_impl", "add_fw_impl", "add_const_fw_impl",
    "add_scalar_fw_impl", "sub_fw_impl", "sub_const_l_fw_impl", "sub_const_r_fw_impl", "sub_scalar_l_fw_impl", "sub_scalar_r_fw_impl", "mul_fw_impl",
    "mul_const_fw_impl", "mul_scalar_fw_impl", "div_fw_impl", "div_const_l_fw_impl", "div_const_r_fw_impl", "div_scalar_l_fw_impl",
    "div_scalar_r_fw_impl", "powf_fw_impl", "powf_const_l_fw_impl", "powf_const_r_fw_impl", "powf_scalar_l_fw_impl", "powf_scalar_r_fw_impl",
    "sqrt_fw_impl", "abs_fw_impl", "powi_fw_impl", "sin_fw_impl", "cos_fw_impl", "tan_fw_impl", "exp_fw_impl", "ln_fw_impl", "tanh_fw_impl",
    "sigmoid_fw_impl", "softplus_fw_impl", "sum_fw_impl", "logsumexp_fw_impl", "max_fw_impl", "min_fw_impl", "broadcast_fw_impl", "matmul_fw_impl",
    "transpose_fw_impl", "permute_dims_fw_impl", "flip_fw_impl", "triangular_l_fw_impl", "triangular_u_fw_impl", "prelu_fw_impl", "elu_fw_impl",
    "slice_fw_impl", "pick_fw_impl", "concat_fw_impl", "batch_concat_fw_impl", "batch_pick_fw_impl", "batch_slice_fw_impl", "batch_sum_fw_impl",
];
const FW_U32: &[&str] = &["argmax_impl", "argmin_impl", "argsort_impl"];
const FW_F32: &[&str] = &["tensor_to_vector_impl"];
const BW: &[&str] = &[
    "neg_bw_impl", "add_bw_a_impl", "add_bw_b_impl", "add_const_bw_impl", "sub_bw_a_impl", "sub_bw_b_impl", "sub_const_l_bw_impl",
    "sub_const_r_bw_impl", "mul_bw_a_impl", "mul_bw_b_impl", "mul_const_bw_impl", "div_bw_a_impl", "div_bw_b_impl", "div_const_l_bw_impl",
    "div_const_r_bw_impl", "powf_bw_a_impl", "powf_bw_b_impl", "powf_const_l_bw_impl", "powf_const_r_bw_impl", "sqrt_bw_impl", "abs_bw_impl",
    "powi_bw_impl", "sin_bw_impl", "cos_bw_impl", "tan_bw_impl", "exp_bw_impl", "ln_bw_impl", "tanh_bw_impl", "sigmoid_bw_impl", "max_bw_impl",
    "min_bw_impl", "matmul_bw_a_impl", "matmul_bw_b_impl", "transpose_bw_impl", "permute_dims_bw_impl", "flip_bw_impl", "triangular_l_bw_impl",
    "triangular_u_bw_impl", "prelu_bw_impl", "elu_bw_impl", "slice_bw_impl", "pick_bw_impl", "batch_pick_bw_impl", "batch_slice_bw_impl",
];
pub const KINDS: &[&str] = &["fw", "u32", "f32", "bw"];
pub fn names(kind: usize) -> &'static [&'static str] {
    [FW, FW_U32, FW_F32, BW][kind]
}

#[derive(Clone)]
struct Call {
    dev: usize,
    key: String,
    gen: u32,
    foreign: u32,
}
static LOG: Mutex<Vec<Call>> = Mutex::new(vec![]);

/// A kernel: notes who called it with what, and has the real one do the work.
struct K {
    dev: usize,
    at: usize, // address of the device it is registered on
    kind: usize,
    name: String,
    gen: u32,
    inner: Dev,
}
impl K {
    fn note(&self, ts: &[&[&Tensor]], y: Option<&Tensor>) {
        let mut foreign = 0;
        for t in ts.iter().flat_map(|x| x.iter().cloned()).chain(y) {
            foreign += (t.device() as *const Device as usize != self.at) as u32;
        }
        let key = format!("{}:{}", KINDS[self.kind], self.name);
        LOG.lock().unwrap().push(Call { dev: self.dev, key, gen: self.gen, foreign });
    }
}
impl FunctionFwImpl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let y = ys.get(0).map(|y| &**y);
        self.note(&[xs], y);
        self.inner.call_fw_impl(&self.name, xs, u, f, ys);
    }
}
impl FunctionFwU32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.note(&[xs], None);
        self.inner.call_fw_u32_impl(&self.name, xs, u, f, ys);
    }
}
impl FunctionFwF32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.note(&[xs], None);
        self.inner.call_fw_f32_impl(&self.name, xs, u, f, ys);
    }
}
impl FunctionBwImpl for K {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.note(&[xs, ys, gys], Some(gx));
        self.inner.call_bw_impl(&self.name, xs, ys, gys, u, f, gx);
    }
}

struct World {
    devs: Vec<*mut Device<'static>>,
    guards: Vec<Guard>,
    inner: Vec<Dev>,
    by: Vec<Tensor<'static>>,
    gen: u32,
}
impl World {
    fn dev(&self, d: usize) -> Dev {
        unsafe { &*self.devs[d] }
    }
    /// Only while no tensor is alive on the device.
    fn register(&mut self, d: usize, kind: usize, name: &str) -> u32 {
        self.gen += 1;
        let k = K { dev: d, at: self.devs[d] as usize, kind, name: name.to_string(), gen: self.gen, inner: self.inner[d] };
        let dev = unsafe { &mut *self.devs[d] };
        match kind {
            0 => dev.register_fw_impl(name, k),
            1 => dev.register_fw_u32_impl(name, k),
            2 => dev.register_fw_f32_impl(name, k),
            _ => dev.register_bw_impl(name, k),
        }
        self.gen
    }
    fn number(&self, d: &Device) -> i64 {
        self.devs.iter().position(|&x| x as *const Device as usize == d as *const Device as usize).map(|i| i as i64).unwrap_or(-1)
    }
    /// which guard holds the tensor's memory, and where
    fn home(&self, t: &Tensor) -> (i64, i64) {
        for (i, g) in self.guards.iter().enumerate() {
            if let Some(b) = g.block_of(t) {
                let live = g.st().blocks[b].returned == 0;
                return if live { (i as i64, b as i64) } else { (-2, b as i64) };
            }
        }
        (-1, -1)
    }
    fn where_(&self, t: &Tensor) -> Value {
        let (g, b) = self.home(t);
        json!([self.number(t.device()), g, b])
    }
    fn raw(&self, t: &Tensor) -> Vec<u32> {
        let (g, b) = self.home(t);
        if g < 0 {
            return vec![];
        }
        let st = self.guards[g as usize].st();
        let n = t.shape().size() as usize;
        st.blocks[b as usize].store[ZONE..ZONE + n].iter().map(|x| x.to_bits()).collect()
    }
    fn bad(&self) -> u64 {
        self.guards.iter().map(|g| g.counts().2).sum()
    }
}

impl Drop for World {
    fn drop(&mut self) {
        self.by.clear();
        for d in &self.devs {
            drop(unsafe { Box::from_raw(*d) });
        }
    }
}

/// `bare`: nothing is registered but what moves data in and out.
fn world(r: &mut Rng, nd: usize, bare: bool, inner: Dev, out: &mut Out) -> World {
    let mut w = World { devs: vec![], guards: vec![], inner: vec![], by: vec![], gen: 0 };
    let mut regs = vec![];
    for d in 0..nd {
        let g = Guard::new();
        w.devs.push(Box::into_raw(Box::new(Device::new(Backend(g.clone())))));
        w.guards.push(g);
        w.inner.push(inner);
        // the first devices know everything
        let holes = if d < 2 { 0 } else { r.u(1, 40) as u64 };
        let mut m = Map::new();
        for kind in 0..4 {
            for name in names(kind) {
                let keep = *name == "reset_tensor_by_slice_impl" || *name == "tensor_to_vector_impl";
                if keep || (!bare && !r.chance(holes, 100)) {
                    let gen = w.register(d, kind, name);
                    m.insert(format!("{}:{}", KINDS[kind], name), json!(gen));
                }
            }
        }
        regs.push(Value::Object(m));
    }
    out.ev(json!({"k": "begin", "regs": regs}));
    w
}

fn place(w: &mut World) {
    let n = w.devs.len();
    let by = (0..2 * n).map(|i| w.dev(i % n).new_tensor_by_slice(Shape::new(&[1 + i as u32], 1), &vec![0.5 + i as f32; 1 + i])).collect();
    w.by = by;
}

/// "X is not implemented" -> X, and whether X is a name this driver knows
fn missing(e: &str) -> (String, bool) {
    match e.strip_suffix(" is not implemented") {
        Some(n) => (n.to_string(), (0..4).any(|k| names(k).contains(&n))),
        None => (String::new(), true),
    }
}

struct Before<'a> {
    raw: Vec<(&'a Tensor<'static>, Vec<u32>)>,
}
/// Runs `f`, then describes the kernels called and what happened to `fixed` and the bystanders.
fn observe<R>(w: &World, fixed: &[&Tensor<'static>], f: impl FnOnce() -> R) -> (Result<R, String>, Map<String, Value>) {
    let b = Before { raw: fixed.iter().cloned().chain(w.by.iter()).map(|t| (t, w.raw(t))).collect() };
    LOG.lock().unwrap().clear();
    let r = attempt(f);
    let calls = std::mem::take(&mut *LOG.lock().unwrap());
    let mut o = Map::new();
    let mut cs: Vec<(usize, String, u32, u32)> = calls.into_iter().map(|c| (c.dev, c.key, c.gen, c.foreign.min(1))).collect();
    cs.sort();
    cs.dedup();
    o.insert("calls".into(), json!(cs.iter().map(|c| json!([c.0, c.1, c.2, c.3])).collect::<Vec<_>>()));
    let kept = b.raw.iter().all(|(t, v)| w.raw(t) == *v && w.home(t).0 == w.number(t.device()));
    o.insert("kept".into(), json!(kept as u8));
    o.insert("ok".into(), json!(r.is_ok() as u8));
    if let Err(e) = &r {
        let (m, known) = missing(e);
        o.insert("miss".into(), json!(m));
        o.insert("skip".into(), json!(!known as u8));
        o.insert("err".into(), json!(e.chars().take(100).collect::<String>()));
    }
    (r, o)
}

fn op_event(w: &World, r: &mut Rng, ops: &[&'static str], out: &mut Out, i: u64) {
    let nd = w.devs.len();
    let op = ops[(i % ops.len() as u64) as usize];
    let m = *r.pick(&["t", "n", "g"]);
    let m = if op.ends_with("assign") || op.starts_with("arg") { "t" } else { m };
    let c = case(r, op, Opts { size: Size::Small, grad: true, noise: 0, alias: false });
    let home = r.below(nd as u64) as usize;
    let unused = op == "batch_norm" && c.u[0] == 0;
    let mut on: Vec<usize> = vec![home; c.xs.len()];
    if on.len() > 1 && !unused && r.chance(2, 5) {
        let j = r.below(on.len() as u64) as usize;
        on[j] = (home + 1 + r.below(nd as u64 - 1) as usize) % nd;
    }
    let mut xs: Vec<Tensor<'static>> = c.xs.iter().zip(&on).map(|(x, &d)| x.tensor(w.dev(d), c.sx)).collect();
    let sc = |i: usize| xs.get(i).map(|x| x.shape().is_scalar() as u8).unwrap_or(0);
    let (sa, sb) = (sc(0), sc(1));
    let inner = r.chance(1, 3);
    let (mut o, mut res, mut grads, mut live) = (Map::new(), vec![], vec![], vec![]);
    if op.ends_with("assign") {
        let (a, b) = xs.split_at_mut(1);
        let before = w.raw(&a[0]);
        let fixed: Vec<&Tensor<'static>> = b.iter().collect();
        let target = RefCell::new(&mut a[0]);
        let (rr, oo) = observe(w, &fixed, || {
            let mut t = target.borrow_mut();
            match op {
                "addassign" => **t += &b[0],
                "subassign" => **t -= &b[0],
                _ => **t *= c.k(),
            }
        });
        o = oo;
        let t = target.into_inner();
        if rr.is_err() && w.raw(t) != before {
            o.insert("kept".into(), json!(0));
        }
        if rr.is_ok() {
            res.push(w.where_(t));
        }
    } else {
        let fixed: Vec<&Tensor<'static>> = xs.iter().collect();
        match m {
            "t" if op.starts_with("arg") => {
                let (_, oo) = observe(w, &fixed, || match op {
                    "argmax" => xs[0].argmax(c.u[0]),
                    "argmin" => xs[0].argmin(c.u[0]),
                    _ => xs[0].argsort(c.u[0]),
                });
                o = oo;
            }
            "t" => {
                let (rr, oo) = observe(w, &fixed, || apply_ref_t(op, &c.u, c.k(), c.c, &fixed));
                o = oo;
                if let Ok(ys) = rr {
                    res = ys.iter().map(|y| w.where_(y)).collect();
                    live = ys.iter().chain(xs.iter()).chain(w.by.iter()).map(|t| json!([w.home(t).0, w.home(t).1])).collect();
                }
            }
            _ => {
                let (_, oo) = observe(w, &fixed, || {
                    let ls: Vec<Node> = xs.iter().map(|x| Node::from(x)).collect();
                    let ns: Vec<Node> = ls.iter().map(|n| if inner { n + 0.5 } else { n.split(0, 1).pop().unwrap() }).collect();
                    let nr: Vec<&Node> = ns.iter().collect();
                    let ys = apply_ref_n(op, &c.u, c.k(), c.c, &nr);
                    if m == "n" {
                        for y in &ys {
                            let _ = y.to_vec();
                            res.push(w.where_(&y.inner_value()));
                            res.push(json!([w.number(y.device()), w.number(y.device()), 0]));
                        }
                    } else {
                        let mut t: Option<Node> = None;
                        for y in &ys {
                            let s = y.flatten().sum(0).batch_sum();
                            t = Some(match t {
                                None => s,
                                Some(t) => t + s,
                            });
                        }
                        let t = t.unwrap();
                        t.backward();
                        for y in &ys {
                            res.push(w.where_(&y.inner_value()));
                        }
                        for n in &ls {
                            // operands the result does not depend on have no gradient
                            if let Ok(Some(v)) = attempt(|| {
                                let g = n.inner_gradient();
                                Some(&*g).filter(|g| g.valid()).map(|g| w.where_(g))
                            }) {
                                grads.push(v);
                            }
                        }
                    }
                });
                o = oo;
            }
        }
    }
    o.insert("k".into(), json!("op"));
    o.insert("op".into(), json!(op));
    o.insert("m".into(), json!(m));
    o.insert("on".into(), json!(on));
    o.insert("sa".into(), json!(sa));
    o.insert("sb".into(), json!(sb));
    o.insert("res".into(), json!(res));
    o.insert("grads".into(), json!(grads));
    o.insert("live".into(), json!(live));
    o.insert("bad".into(), json!(w.bad()));
    out.ev(Value::Object(o));
}

/// Functions of the device itself: name, kind, shapes of the operands, shape of the target.
struct F {
    name: &'static str,
    kind: usize,
    ins: Vec<(Vec<u32>, u32)>,
    target: Option<(Vec<u32>, u32)>,
    call: Box<dyn Fn(Dev, &[&Tensor<'static>], &mut Tensor<'static>) -> Option<Tensor<'static>>>,
}
fn functions() -> Vec<F> {
    let q = || (vec![2, 2], 1);
    let s = || (vec![], 1);
    let mut v: Vec<F> = vec![];
    macro_rules! f {
        ($n:ident, $kind:expr, [$($i:expr),*], $t:expr, |$d:ident, $x:ident, $g:ident| $e:expr) => {
            v.push(F { name: stringify!($n), kind: $kind, ins: vec![$($i),*], target: $t, call: Box::new(|$d, $x, $g| { let _ = (&$x, &$g); $e }) });
        };
    }
    macro_rules! fw_x { ($($n:ident),*) => { $( f!($n, 0, [q()], None, |d, x, g| Some(d.$n(x[0]))); )* }; }
    macro_rules! fw_c { ($($n:ident),*) => { $( f!($n, 0, [q()], None, |d, x, g| Some(d.$n(x[0], 2.))); )* }; }
    macro_rules! fw_ab { ($($n:ident),*) => { $( f!($n, 0, [q(), q()], None, |d, x, g| Some(d.$n(x[0], x[1]))); )* }; }
    macro_rules! fw_s { ($($n:ident),*) => { $( f!($n, 0, [q(), s()], None, |d, x, g| Some(d.$n(x[0], x[1]))); )* }; }
    macro_rules! bw_x { ($($n:ident),*) => { $( f!($n, 3, [q(), q(), q()], Some(q()), |d, x, g| { d.$n(x[0], x[1], x[2], g); None }); )* }; }
    macro_rules! bw_c { ($($n:ident),*) => { $( f!($n, 3, [q(), q(), q()], Some(q()), |d, x, g| { d.$n(x[0], x[1], x[2], 2., g); None }); )* }; }
    macro_rules! bw_ab { ($($n:ident),*) => { $( f!($n, 3, [q(), q(), q(), q()], Some(q()), |d, x, g| { d.$n(x[0], x[1], x[2], x[3], g); None }); )* }; }
    fw_x!(neg_fw, sqrt_fw, abs_fw, sin_fw, cos_fw, tan_fw, exp_fw, ln_fw, tanh_fw, sigmoid_fw, softplus_fw, transpose_fw, batch_sum_fw);
    fw_c!(add_const_fw, sub_const_l_fw, sub_const_r_fw, mul_const_fw, div_const_l_fw, div_const_r_fw, powf_const_l_fw, powf_const_r_fw, prelu_fw, elu_fw);
    fw_ab!(add_fw, sub_fw, mul_fw, div_fw, powf_fw, matmul_fw);
    fw_s!(add_scalar_fw, sub_scalar_l_fw, sub_scalar_r_fw, mul_scalar_fw, div_scalar_l_fw, div_scalar_r_fw, powf_scalar_l_fw, powf_scalar_r_fw);
    bw_x!(neg_bw, sqrt_bw, abs_bw, sin_bw, cos_bw, tan_bw, exp_bw, ln_bw, tanh_bw, sigmoid_bw, transpose_bw);
    bw_c!(add_const_bw, sub_const_l_bw, sub_const_r_bw, mul_const_bw, div_const_l_bw, div_const_r_bw, powf_const_l_bw, powf_const_r_bw, prelu_bw, elu_bw);
    bw_ab!(add_bw_a, add_bw_b, sub_bw_a, sub_bw_b, mul_bw_a, mul_bw_b, div_bw_a, div_bw_b, powf_bw_a, powf_bw_b, matmul_bw_a, matmul_bw_b);
    f!(powi_fw, 0, [q()], None, |d, x, g| Some(d.powi_fw(x[0], 2)));
    f!(powi_bw, 3, [q(), q(), q()], Some(q()), |d, x, g| { d.powi_bw(x[0], x[1], x[2], 2, g); None });
    f!(sum_fw, 0, [q()], None, |d, x, g| Some(d.sum_fw(x[0], 1)));
    f!(logsumexp_fw, 0, [q()], None, |d, x, g| Some(d.logsumexp_fw(x[0], 0)));
    f!(max_fw, 0, [q()], None, |d, x, g| Some(d.max_fw(x[0], 0)));
    f!(min_fw, 0, [q()], None, |d, x, g| Some(d.min_fw(x[0], 1)));
    f!(broadcast_fw, 0, [q()], None, |d, x, g| Some(d.broadcast_fw(x[0], 2, 3)));
    f!(max_bw, 3, [q(), (vec![1, 2], 1), (vec![1, 2], 1)], Some(q()), |d, x, g| { d.max_bw(x[0], x[1], x[2], 0, g); None });
    f!(min_bw, 3, [q(), (vec![2], 1), (vec![2], 1)], Some(q()), |d, x, g| { d.min_bw(x[0], x[1], x[2], 1, g); None });
    f!(triangular_l_fw, 0, [q()], None, |d, x, g| Some(d.triangular_l_fw(x[0], 1)));
    f!(triangular_u_fw, 0, [q()], None, |d, x, g| Some(d.triangular_u_fw(x[0], 0)));
    f!(triangular_l_bw, 3, [q(), q(), q()], Some(q()), |d, x, g| { d.triangular_l_bw(x[0], x[1], x[2], 0, g); None });
    f!(triangular_u_bw, 3, [q(), q(), q()], Some(q()), |d, x, g| { d.triangular_u_bw(x[0], x[1], x[2], 1, g); None });
    f!(slice_fw, 0, [q()], None, |d, x, g| Some(d.slice_fw(x[0], 0, 1, 2)));
    f!(slice_bw, 3, [(vec![1, 2], 1)], Some(q()), |d, x, g| { d.slice_bw(x[0], 0, 1, g); None });
    f!(pick_fw, 0, [q()], None, |d, x, g| Some(d.pick_fw(x[0], &[1], 0)));
    f!(pick_bw, 3, [(vec![1, 2], 1)], Some(q()), |d, x, g| { d.pick_bw(x[0], &[1], 0, g); None });
    f!(concat_fw, 0, [q(), q(), q()], None, |d, x, g| Some(d.concat_fw(x, 1)));
    f!(batch_concat_fw, 0, [q(), q(), q()], None, |d, x, g| Some(d.batch_concat_fw(x)));
    f!(batch_slice_fw, 0, [(vec![2], 2)], None, |d, x, g| Some(d.batch_slice_fw(x[0], 1, 2)));
    f!(batch_slice_bw, 3, [(vec![2], 1)], Some((vec![2], 2)), |d, x, g| { d.batch_slice_bw(x[0], 1, g); None });
    f!(batch_pick_fw, 0, [(vec![2], 2)], None, |d, x, g| Some(d.batch_pick_fw(x[0], &[1, 1, 0])));
    f!(batch_pick_bw, 3, [(vec![2], 1)], Some((vec![2], 2)), |d, x, g| { d.batch_pick_bw(x[0], &[1], g); None });
    f!(argmax, 1, [q()], None, |d, x, g| { d.argmax(x[0], 0); None });
    f!(argmin, 1, [q()], None, |d, x, g| { d.argmin(x[0], 0); None });
    f!(argsort, 1, [q()], None, |d, x, g| { d.argsort(x[0], 1); None });
    f!(random_bernoulli, 0, [], None, |d, x, g| Some(d.random_bernoulli(Shape::new(&[3], 1), 0.5)));
    f!(random_normal, 0, [], None, |d, x, g| Some(d.random_normal(Shape::new(&[3], 1), 0., 1.)));
    f!(random_uniform, 0, [], None, |d, x, g| Some(d.random_uniform(Shape::new(&[3], 1), 0., 1.)));
    f!(add_assign, 0, [q()], Some(q()), |d, x, g| { d.add_assign(x[0], g); None });
    f!(sub_assign, 0, [q()], Some(q()), |d, x, g| { d.sub_assign(x[0], g); None });
    f!(mul_assign_const, 0, [], Some(q()), |d, x, g| { d.mul_assign_const(3., g); None });
    f!(reset_tensor, 0, [], Some(q()), |d, x, g| { d.reset_tensor(g, 3.); None });
    f!(reset_tensor_by_slice, 0, [], Some(q()), |d, x, g| { d.reset_tensor_by_slice(g, &[1., 2., 3., 4.]); None });
    f!(tensor_to_vector, 2, [q()], None, |d, x, g| { d.tensor_to_vector(x[0]); None });
    f!(tensor_to_float, 2, [s()], None, |d, x, g| { d.tensor_to_float(x[0]); None });
    v
}

fn key_of(f: &F) -> String {
    let n = if f.name == "tensor_to_float" { "tensor_to_vector" } else { f.name };
    format!("{}:{}_impl", KINDS[f.kind], n)
}

fn dev_event(w: &World, r: &mut Rng, fs: &[F], out: &mut Out, i: u64) {
    let nd = w.devs.len() as u64;
    let f = &fs[(i % fs.len() as u64) as usize];
    let at = r.below(nd) as usize;
    let n = f.ins.len() + f.target.is_some() as usize;
    let mut on = vec![at; n];
    if n > 0 && r.chance(1, 2) {
        // one tensor elsewhere, or all of them
        let o = (at + 1 + r.below(nd - 1) as usize) % nd as usize;
        if r.chance(1, 4) {
            on = vec![o; n];
        } else {
            on[r.below(n as u64) as usize] = o;
        }
    }
    let mk = |d: usize, s: &(Vec<u32>, u32), k: f32| {
        let sh = Shape::new(&s.0, s.1);
        let v: Vec<f32> = (0..sh.size()).map(|i| i as f32 + k).collect();
        w.dev(d).new_tensor_by_slice(sh, &v)
    };
    let xs: Vec<Tensor<'static>> = f.ins.iter().zip(&on).enumerate().map(|(j, (s, &d))| mk(d, s, 1. + j as f32)).collect();
    let mut g = match &f.target {
        Some(s) => mk(on[n - 1], s, 9.),
        None => w.dev(at).new_tensor(Shape::new(&[], 1)),
    };
    let before = w.raw(&g);
    let fixed: Vec<&Tensor<'static>> = xs.iter().collect();
    let (rr, mut o) = observe(w, &fixed, || (f.call)(w.dev(at), &fixed, &mut g));
    let mut res = vec![];
    match &rr {
        Err(_) => {
            if w.raw(&g) != before {
                o.insert("kept".into(), json!(0));
            }
        }
        Ok(Some(y)) => res.push(w.where_(y)),
        Ok(None) => {}
    }
    if f.target.is_some() && w.home(&g).0 != on[n - 1] as i64 {
        o.insert("kept".into(), json!(0));
    }
    o.insert("k".into(), json!("dev"));
    o.insert("f".into(), json!(f.name));
    o.insert("key".into(), json!(key_of(f)));
    o.insert("at".into(), json!(at));
    o.insert("on".into(), json!(on));
    o.insert("res".into(), json!(res));
    o.insert("grads".into(), json!([]));
    o.insert("live".into(), json!([]));
    o.insert("bad".into(), json!(w.bad()));
    out.ev(Value::Object(o));
}

/// A kernel called by its name.
fn call_event(w: &World, r: &mut Rng, out: &mut Out) {
    let at = r.below(w.devs.len() as u64) as usize;
    let kind = r.below(4) as usize;
    // names of the kind, of another kind, and names nobody registered
    let name = match r.below(6) {
        0 => "custom".to_string(),
        1 => format!("{}_", r.pick(names(kind))),
        2 => r.pick(names(kind)).trim_end_matches("_impl").to_string(),
        3 => {
            let k2 = r.below(4) as usize;
            r.pick(names(k2)).to_string()
        }
        _ => "probe".to_string(),
    };
    let safe = name == "probe" || !names(kind).contains(&name.as_str());
    if !safe {
        return;
    }
    let d = w.dev(at);
    let x = d.new_tensor_by_slice(Shape::new(&[2], 1), &[1., 2.]);
    let mut g = d.new_tensor_by_slice(Shape::new(&[2], 1), &[3., 4.]);
    let (_, mut o) = observe(w, &[&x], || match kind {
        0 => d.call_fw_impl(&name, &[&x], &[], &[], &mut [&mut g]),
        1 => d.call_fw_u32_impl(&name, &[&x], &[], &[], &mut [0, 0]),
        2 => d.call_fw_f32_impl(&name, &[&x], &[], &[], &mut [0., 0.]),
        _ => d.call_bw_impl(&name, &[&x], &[&x], &[&x], &[], &[], &mut g),
    });
    // the real device behind the kernel does not know "probe": what counts is that it was reached
    let called = o["calls"].as_array().unwrap().len();
    o.insert("k".into(), json!("call"));
    o.insert("key".into(), json!(format!("{}:{}", KINDS[kind], name)));
    o.insert("at".into(), json!(at));
    o.insert("n".into(), json!(called));
    o.insert("bad".into(), json!(w.bad()));
    o.remove("err");
    o.remove("miss");
    out.ev(Value::Object(o));
}

fn param(w: &World, d: usize, n: u32) -> Parameter<'static> {
    let s = Shape::new(&[n], 1);
    let v: Vec<f32> = (0..n).map(|i| i as f32).collect();
    Parameter::new(w.dev(d).new_tensor_by_slice(s, &v), w.dev(d).new_tensor_by_slice(s, &v))
}
fn param_where(w: &World, p: &Parameter) -> Vec<Value> {
    let mut v = vec![w.where_(&p.value), w.where_(&p.gradient)];
    for s in p.stats.values() {
        v.push(w.where_(&s.borrow()));
    }
    v
}

fn any_event(w: &World, r: &mut Rng, out: &mut Out) {
    let nd = w.devs.len() as u64;
    let d = r.below(nd) as usize;
    let s = r.below(nd) as usize;
    let what = *r.pick(&["newparam", "update", "move", "moveparam", "reset", "read", "copy", "node"]);
    let mut on = vec![d];
    let mut res: Vec<Vec<Value>> = vec![];
    let mut same = true; // contents as they should be
    let mut o: Map<String, Value>;
    match what {
        "newparam" => {
            let ini: Box<dyn Initializer> = match r.below(4) {
                0 => Box::new(I::Constant::new(2.)),
                1 => Box::new(I::Normal::new(0., 1.)),
                2 => Box::new(I::Uniform::new(-1., 1.)),
                _ => Box::new(I::XavierUniform::new(1.)),
            };
            let (rr, oo) = observe(w, &[], || w.dev(d).new_parameter(Shape::new(&[2, 3], 1), &*ini));
            o = oo;
            if let Ok(p) = rr {
                res.push(param_where(w, &p));
            }
        }
        "update" => {
            let k = r.u(1, 3);
            on = (0..k).map(|_| r.below(nd) as usize).collect();
            let mut ps: Vec<Parameter<'static>> = on.iter().map(|&d| param(w, d, r.u(1, 4))).collect();
            let (decay, clip) = (*r.pick(&[0., 0.5]), *r.pick(&[0., 0.5]));
            let which = r.below(3);
            let (rr, oo) = observe(w, &[], || {
                let mut refs: Vec<&mut Parameter> = ps.iter_mut().collect();
                macro_rules! go {
                    ($o:expr) => {{
                        let mut opt = $o;
                        opt.set_weight_decay(decay);
                        opt.set_gradient_clipping(clip);
                        opt.configure_parameters(&mut refs);
                        opt.update_parameters(&mut refs);
                    }};
                }
                match which {
                    0 => go!(O::SGD::new(0.5)),
                    1 => go!(O::MomentumSGD::new(0.5, 0.5)),
                    _ => go!(O::Adam::new(0.5, 0.9, 0.999, 1e-8)),
                }
            });
            let _ = rr;
            o = oo;
            res = ps.iter().map(|p| param_where(w, p)).collect();
        }
        "move" => {
            let mut t = Tensor::new_host_tensor(Shape::new(&[2], 2), vec![1., 2., 3., 4.]);
            let (rr, oo) = observe(w, &[], || t.move_to_device(w.dev(d)));
            o = oo;
            if rr.is_ok() {
                res.push(vec![w.where_(&t)]);
                same = t.to_vec() == vec![1., 2., 3., 4.];
            }
        }
        "moveparam" => {
            let h = |k: f32| Tensor::new_host_tensor(Shape::new(&[2], 1), vec![k, k + 1.]);
            let mut p = Parameter::new(h(1.), h(2.));
            p.stats.insert("m".into(), RefCell::new(h(3.)));
            let (rr, oo) = observe(w, &[], || p.move_to_device(w.dev(d)));
            o = oo;
            if rr.is_ok() {
                res.push(param_where(w, &p));
                same = p.value.to_vec() == vec![1., 2.] && p.gradient.to_vec() == vec![2., 3.] && p.stats["m"].borrow().to_vec() == vec![3., 4.];
            }
        }
        "reset" => {
            let mut p = param(w, d, 3);
            let (rr, oo) = observe(w, &[], || p.reset_gradient());
            o = oo;
            if rr.is_ok() {
                res.push(param_where(w, &p));
                same = p.gradient.to_vec() == vec![0.; 3];
            }
        }
        "read" => {
            let t = w.dev(d).new_tensor_by_slice(Shape::new(&[2], 1), &[1., 2.]);
            let (rr, oo) = observe(w, &[&t], || t.to_vec());
            o = oo;
            same = rr.map(|v| v == vec![1., 2.]).unwrap_or(true);
            res.push(vec![w.where_(&t)]);
        }
        "copy" => {
            on = vec![d, s];
            let t = w.dev(s).new_tensor_by_slice(Shape::new(&[2], 1), &[1., 2.]);
            let (rr, oo) = observe(w, &[&t], || w.dev(d).copy_tensor(&t));
            o = oo;
            if let Ok(y) = rr {
                res.push(vec![w.where_(&y)]);
                same = y.to_vec() == vec![1., 2.] && w.home(&y) != w.home(&t);
            }
        }
        _ => {
            let mut p = param(w, d, 3);
            let (_, oo) = observe(w, &[], || {
                let n = Node::from(&mut p);
                let y = &n + &n;
                y.backward();
                res.push(vec![w.where_(&y.inner_value())]);
            });
            o = oo;
            if o["ok"] == json!(1) {
                same = p.gradient.to_vec() == vec![2., 3., 4.];
            }
            if !res.is_empty() {
                res[0].extend(param_where(w, &p));
            }
        }
    }
    o.insert("k".into(), json!("any"));
    o.insert("w".into(), json!(what));
    o.insert("on".into(), json!(on));
    o.insert("res".into(), json!(res));
    o.insert("same".into(), json!(same as u8));
    o.insert("bad".into(), json!(w.bad()));
    out.ev(Value::Object(o));
}

/// Histories produced by the model: registrations, new tensors, operations, drops.
fn replay(a: &Args, inner: Dev, r: &mut Rng, out: &mut Out) {
    let (shards, shard, den) = (a.num("shards", 1), a.num("shard", 0), a.num("den", 1));
    for line in std::fs::read_to_string(a.get("in").unwrap()).unwrap().lines() {
        let h = line.bytes().fold(0xcbf29ce484222325 ^ (a.seed / 1009), |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        let h = h ^ (h >> 29);
        if h % shards != shard || (h / shards) % den != 0 {
            continue;
        }
        let v: Value = serde_json::from_str(line).unwrap();
        let mut w = world(r, 2, true, inner, out);
        let mut ts: Vec<Option<Tensor<'static>>> = vec![];
        for s in v["ops"].as_array().unwrap() {
            let n = |k: &str| s[k].as_u64().unwrap() as usize;
            match s["a"].as_str().unwrap() {
                "reg" => {
                    let name = format!("{}_impl", s["o"].as_str().unwrap());
                    let gen = w.register(n("d"), 0, &name);
                    out.ev(json!({"k": "reg", "d": n("d"), "key": format!("fw:{}", name), "gen": gen}));
                }
                "new" => ts.push(Some(w.dev(n("d")).new_tensor_by_slice(Shape::new(&[2], 1), &[1. + ts.len() as f32, 2.]))),
                "drop" => ts[n("x") - 1] = None,
                _ => {
                    let neg = s["o"] == "neg_fw";
                    let y = {
                        let (x, y) = (ts[n("x") - 1].as_ref().unwrap(), ts[n("y") - 1].as_ref().unwrap());
                        let all: Vec<&Tensor<'static>> = ts.iter().flatten().collect();
                        let (rr, mut o) = observe(&w, &all, || if neg { -x } else { x + y });
                        let res: Vec<Value> = rr.iter().map(|y| w.where_(y)).collect();
                        let live: Vec<Value> = all.iter().cloned().chain(rr.iter()).map(|t| json!([w.home(t).0, w.home(t).1])).collect();
                        let on: Vec<i64> = if neg { vec![w.home(x).0] } else { vec![w.home(x).0, w.home(y).0] };
                        for (k, v) in [("k", json!("op")), ("op", json!(if neg { "neg" } else { "add" })), ("m", json!("t")), ("on", json!(on)), ("sa", json!(0)), ("sb", json!(0)), ("res", json!(res)), ("grads", json!([])), ("live", json!(live)), ("bad", json!(w.bad()))] {
                            o.insert(k.into(), v);
                        }
                        out.ev(Value::Object(o));
                        rr.ok()
                    };
                    // the model numbers only the tensors that came to be
                    if y.is_some() {
                        ts.push(y);
                    }
                }
            }
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let mut r = Rng::new(a.seed);
    let rounds = a.num("rounds", 4);
    let fs = functions();
    let inner = naive();
    if a.get("in").is_some() {
        return replay(a, inner, &mut r, &mut out);
    }
    let ops = list("all");
    let mut i = a.seed * 37;
    for _ in 0..rounds {
        let mut w = world(&mut r, 3, false, inner, &mut out);
        for _ in 0..a.num("phases", 4) {
            place(&mut w);
            for _ in 0..a.num("steps", 60) {
                i += 1;
                out.intent(&intent, &json!({"k": "devices", "seed": a.seed, "step": i}));
                match r.below(8) {
                    0..=2 => op_event(&w, &mut r, &ops, &mut out, i),
                    3..=5 => dev_event(&w, &mut r, &fs, &mut out, i),
                    6 => any_event(&w, &mut r, &mut out),
                    _ => call_event(&w, &mut r, &mut out),
                }
            }
            w.by.clear();
            for _ in 0..r.u(1, 8) {
                let d = r.below(3) as usize;
                let kind = *r.pick(&[0, 0, 1, 2, 3, 3]) as usize;
                let name = if r.chance(1, 6) { "probe" } else { r.pick(names(kind)) };
                let gen = w.register(d, kind, name);
                out.ev(json!({"k": "reg", "d": d, "key": format!("{}:{}", KINDS[kind], name), "gen": gen}));
            }
        }
    }
    let _ = std::fs::remove_file(&intent);
}
