//! One case = one operation with concrete operands; runs it eagerly, as a node, or backwards.
use crate::util::*;
use prima_undine::functions::*;
use prima_undine::{operators as op, Device, Node, Operator, Shape, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use serde_json::{json, Value};
use std::cell::RefCell;

pub type Dev = &'static Device<'static>;

/// Tensor contents: explicit integers or a formula.
#[derive(Clone, Debug)]
pub enum Data {
    V(Vec<i64>),
    F(i64, i64, i64, i64),
}
#[derive(Clone, Debug)]
pub struct T {
    pub d: Vec<u32>,
    pub b: u32,
    pub v: Data,
}
impl T {
    pub fn size(&self) -> usize {
        self.d.iter().map(|&x| x as usize).product::<usize>() * self.b as usize
    }
    pub fn shape(&self) -> Shape {
        Shape::new(&self.d, self.b)
    }
    pub fn ints(&self) -> Vec<i64> {
        match &self.v {
            Data::V(v) => v.clone(),
            Data::F(a, b, m, c) => (0..self.size() as i64).map(|i| (i * a + b) % m - c).collect(),
        }
    }
    pub fn vals(&self, sx: f64) -> Vec<f32> {
        self.ints().iter().map(|&x| dec(x, sx)).collect()
    }
    pub fn json(&self) -> Value {
        match &self.v {
            Data::V(v) => json!({"d": canon(&self.d), "b": self.b, "v": v}),
            Data::F(a, b, m, c) => json!({"d": canon(&self.d), "b": self.b, "f": [a, b, m, c]}),
        }
    }
    pub fn tensor(&self, dev: Dev, sx: f64) -> Tensor<'static> {
        dev.new_tensor_by_slice(self.shape(), &self.vals(sx))
    }
}
pub fn canon(d: &[u32]) -> Vec<u32> {
    let mut d = d.to_vec();
    while d.last() == Some(&1) {
        d.pop();
    }
    d
}

#[derive(Clone, Debug)]
pub struct Case {
    pub op: String,
    pub u: Vec<u32>,
    pub c: i64,
    pub sx: f64,
    pub sy: f64,
    pub xs: Vec<T>,
    pub alias: bool, // both operands are xs[0]
    pub exact: bool,
    pub at: Option<Vec<usize>>, // sampled output positions (large tensors)
    pub dense: usize,           // larger results are sampled
}
pub fn cl(x: u32) -> i64 {
    (x as i64).min(2_000_000_000)
}
impl Case {
    pub fn head(&self, k: &str, m: &str) -> serde_json::Map<String, Value> {
        let mut o = serde_json::Map::new();
        o.insert("k".into(), json!(k));
        o.insert("m".into(), json!(m));
        o.insert("op".into(), json!(self.op));
        o.insert("u".into(), json!(self.u.iter().map(|&x| cl(x)).collect::<Vec<_>>()));
        o.insert("c".into(), json!(self.c));
        o.insert("sx".into(), scale_json(self.sx));
        o.insert("sy".into(), scale_json(self.sy));
        o.insert("al".into(), json!(self.alias as u8));
        o.insert("ex".into(), json!(self.exact as u8));
        o.insert("xs".into(), json!(self.xs.iter().map(|x| x.json()).collect::<Vec<_>>()));
        o
    }
    pub fn k(&self) -> f32 {
        (self.c as f64 / self.sx) as f32
    }
}
/// Ranks and powers of two beyond 2^20, both ways, leave the integers as they are: every operation
/// they are used with commutes with such a change of scale.
fn scale_json(s: f64) -> Value {
    if s == RANKS || s < 1. || s >= 1048576. {
        json!(1)
    } else {
        json!(s as i64)
    }
}

/// Kernels a device offers by name only, as operations of tensors and of nodes.
pub struct ByName {
    dev: Dev,
    op: String,
    u: Vec<u32>,
}
impl ByName {
    pub fn shape(op: &str, u: &[u32], s: Shape) -> Shape {
        match op {
            "flip" => s,
            _ => Shape::new(&u.iter().map(|&i| s[i]).collect::<Vec<_>>(), s.batch()),
        }
    }
    fn fw(&self) -> &'static str {
        if self.op == "flip" { "flip_fw_impl" } else { "permute_dims_fw_impl" }
    }
    fn bw(&self) -> &'static str {
        if self.op == "flip" { "flip_bw_impl" } else { "permute_dims_bw_impl" }
    }
}
impl<'a> Operator<'a, 'static> for ByName {
    fn name(&self) -> String {
        self.op.clone()
    }
    fn device(&self) -> Dev {
        self.dev
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        vec![ByName::shape(&self.op, &self.u, x[0])]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        let mut t = self.dev.new_tensor(ByName::shape(&self.op, &self.u, x[0].shape()));
        t.alloc();
        self.dev.call_fw_impl(self.fw(), x, &self.u, &[], &mut [&mut t]);
        y[0].replace(t);
    }
    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        self.dev.call_bw_impl(self.bw(), x, y, gy, &self.u, &[], &mut gx[0].borrow_mut());
    }
}
trait KernelByName: Sized {
    fn by_name(&self, op: &str, u: &[u32]) -> Self;
}
impl<'a> KernelByName for Tensor<'a> {
    fn by_name(&self, op: &str, u: &[u32]) -> Self {
        let dev = self.device();
        let mut y = dev.new_tensor(ByName::shape(op, u, self.shape()));
        y.alloc();
        let k = if op == "flip" { "flip_fw_impl" } else { "permute_dims_fw_impl" };
        dev.call_fw_impl(k, &[self], u, &[], &mut [&mut y]);
        y
    }
}
impl<'a> KernelByName for Node<'a, 'static> {
    fn by_name(&self, op: &str, u: &[u32]) -> Self {
        Node::create(ByName { dev: self.device(), op: op.into(), u: u.to_vec() }, &[self]).pop().unwrap()
    }
}

thread_local! {
    /// Which operands are the same tensor (empty: all different).
    static SAME: std::cell::RefCell<Vec<usize>> = std::cell::RefCell::new(vec![]);
}
fn places(n: usize) -> Vec<usize> {
    SAME.with(|p| if p.borrow().len() == n { p.borrow().clone() } else { (0..n).collect() })
}
/// Operands with equal contents are passed as one tensor (in operations of many operands).
fn same_operands(c: &Case, on: bool) {
    let many = on && matches!(c.op.as_str(), "concat" | "batch_concat" | "slice_sum");
    let p = if many {
        let text: Vec<String> = c.xs.iter().map(|x| format!("{:?}", x)).collect();
        text.iter().map(|t| text.iter().position(|u| u == t).unwrap()).collect()
    } else {
        vec![]
    };
    SAME.with(|s| *s.borrow_mut() = p);
}

macro_rules! define_apply {
    ($name:ident, [$($lt:tt)*], $T:ty) => {
        /// Applies the operation; `form` selects by-value / by-reference operands.
        pub fn $name<$($lt)*>(op: &str, u: &[u32], k: f32, ki: i64, form: u32, mut xs: Vec<$T>, alias: bool) -> Vec<$T> {
            macro_rules! bin {
                ($o:tt) => {{
                    if alias {
                        let a = &xs[0];
                        vec![a $o a]
                    } else {
                        let b = xs.pop().unwrap();
                        let a = xs.pop().unwrap();
                        vec![match form % 4 {
                            0 => &a $o &b,
                            1 => a $o &b,
                            2 => &a $o b,
                            _ => a $o b,
                        }]
                    }
                }};
            }
            macro_rules! cr {
                ($o:tt) => {{
                    let a = xs.pop().unwrap();
                    vec![match form % 4 {
                        0 => &a $o k,
                        1 => a $o k,
                        2 => &a $o &k,
                        _ => a $o &k,
                    }]
                }};
            }
            macro_rules! cl {
                ($o:tt) => {{
                    let a = xs.pop().unwrap();
                    vec![match form % 4 {
                        0 => k $o &a,
                        1 => k $o a,
                        2 => &k $o &a,
                        _ => &k $o a,
                    }]
                }};
            }
            match op {
                "add" => return bin!(+),
                "sub" => return bin!(-),
                "mul" => return bin!(*),
                "div" => return bin!(/),
                "addcr" => return cr!(+),
                "subcr" => return cr!(-),
                "mulcr" => return cr!(*),
                "divcr" => return cr!(/),
                "addcl" => return cl!(+),
                "subcl" => return cl!(-),
                "mulcl" => return cl!(*),
                "divcl" => return cl!(/),
                "neg" => {
                    let a = xs.pop().unwrap();
                    return vec![if form % 2 == 0 { -&a } else { -a }];
                }
                _ => {}
            }
            let n = xs.len();
            macro_rules! x { ($i:expr) => { if alias { &xs[0] } else { &xs[$i] } } }
            match op {
                "pow" => vec![if form % 2 == 0 { xs[0].pow(x!(1)) } else if alias { xs[0].pow(&xs[0]) } else { let b = xs.pop().unwrap(); xs[0].pow(b) }],
                "powf" => vec![xs[0].powf(k)],
                "powi" => vec![xs[0].powi(ki as i32)],
                "sqrt" => vec![xs[0].sqrt()],
                "abs" => vec![xs[0].abs()],
                "sin" => vec![xs[0].sin()],
                "cos" => vec![xs[0].cos()],
                "tan" => vec![xs[0].tan()],
                "exp" => vec![xs[0].exp()],
                "ln" => vec![xs[0].ln()],
                "tanh" => vec![xs[0].tanh()],
                "sigmoid" => vec![xs[0].sigmoid()],
                "softplus" => vec![xs[0].softplus()],
                "sum" => vec![xs[0].sum(u[0])],
                "max" => vec![xs[0].max(u[0])],
                "min" => vec![xs[0].min(u[0])],
                "broadcast" => vec![xs[0].broadcast(u[0], u[1])],
                "logsumexp" => vec![xs[0].logsumexp(u[0])],
                "ln_softmax" => vec![xs[0].ln_softmax(u[0])],
                "softmax" => vec![xs[0].softmax(u[0])],
                "sce" => vec![if form % 2 == 0 || alias { xs[0].softmax_cross_entropy(x!(1), u[0]) } else { let t = xs.pop().unwrap(); xs[0].softmax_cross_entropy(t, u[0]) }],
                "ssce" => vec![xs[0].sparse_softmax_cross_entropy(&u[1..], u[0])],
                "matmul" => vec![if form % 2 == 0 || alias { xs[0].matmul(x!(1)) } else { let t = xs.pop().unwrap(); xs[0].matmul(t) }],
                "transpose" => vec![xs[0].transpose()],
                "tril" => vec![xs[0].triangular_l(u[0])],
                "triu" => vec![xs[0].triangular_u(u[0])],
                "relu" => vec![xs[0].relu()],
                "lrelu" => vec![xs[0].lrelu()],
                "prelu" => vec![xs[0].prelu(k)],
                "elu" => vec![xs[0].elu(k)],
                "slice" => vec![xs[0].slice(u[0], u[1], u[2])],
                "split" => xs[0].split(u[0], u[1]),
                "pick" => vec![xs[0].pick(&u[1..], u[0])],
                "concat" => {
                    let r: Vec<&$T> = if alias { vec![&xs[0], &xs[0]] } else { places(xs.len()).into_iter().map(|i| &xs[i]).collect() };
                    vec![<$T>::concat(&r, u[0])]
                }
                "reshape" => vec![xs[0].reshape(Shape::new(&u[1..], u[0]))],
                "flatten" => vec![xs[0].flatten()],
                "batch_sum" => vec![xs[0].batch_sum()],
                "batch_slice" => vec![xs[0].batch_slice(u[0], u[1])],
                "batch_split" => xs[0].batch_split(u[0]),
                "batch_pick" => vec![xs[0].batch_pick(u)],
                "batch_concat" => {
                    let r: Vec<&$T> = if alias { vec![&xs[0], &xs[0]] } else { places(xs.len()).into_iter().map(|i| &xs[i]).collect() };
                    vec![<$T>::batch_concat(&r)]
                }
                "mean" => vec![xs[0].mean(u[0])],
                "batch_mean" => vec![xs[0].batch_mean()],
                "dropout" => vec![xs[0].dropout(k, u[0] != 0)],
                "dropout_dim" => vec![xs[0].dropout_dim(u[1], k, u[0] != 0)],
                "slice_sum" => {
                    let r: Vec<&$T> = if alias { vec![&xs[0], &xs[0]] } else { places(xs.len()).into_iter().map(|i| &xs[i]).collect() };
                    vec![<$T>::slice_sum(&r)]
                }
                "batch_norm" => vec![xs[0].batch_normalization(&xs[1], &xs[2], k, u[0] != 0)],
                "layer_norm" => vec![xs[0].layer_normalization(&xs[1], &xs[2], k)],
                "flip" | "permute" => vec![xs[0].by_name(op, u)],
                _ => panic!("harness: unknown operation {} with {} operands", op, n),
            }
        }
    };
}
macro_rules! define_apply_ref {
    ($name:ident, [$($lt:tt)*], $T:ty) => {
        /// Applies the operation to borrowed operands.
        pub fn $name<$($lt)*>(op: &str, u: &[u32], k: f32, ki: i64, xs: &[&$T]) -> Vec<$T> {
            macro_rules! bin { ($o:tt) => { vec![xs[0] $o xs[1]] }; }
            macro_rules! cr { ($o:tt) => { vec![xs[0] $o k] }; }
            macro_rules! cl { ($o:tt) => { vec![k $o xs[0]] }; }
            match op {
                "add" => return bin!(+),
                "sub" => return bin!(-),
                "mul" => return bin!(*),
                "div" => return bin!(/),
                "addcr" => return cr!(+),
                "subcr" => return cr!(-),
                "mulcr" => return cr!(*),
                "divcr" => return cr!(/),
                "addcl" => return cl!(+),
                "subcl" => return cl!(-),
                "mulcl" => return cl!(*),
                "divcl" => return cl!(/),
                "neg" => return vec![-xs[0]],
                _ => {}
            }
            let n = xs.len();
            
            match op {
                "pow" => vec![xs[0].pow(xs[1])],
                "powf" => vec![xs[0].powf(k)],
                "powi" => vec![xs[0].powi(ki as i32)],
                "sqrt" => vec![xs[0].sqrt()],
                "abs" => vec![xs[0].abs()],
                "sin" => vec![xs[0].sin()],
                "cos" => vec![xs[0].cos()],
                "tan" => vec![xs[0].tan()],
                "exp" => vec![xs[0].exp()],
                "ln" => vec![xs[0].ln()],
                "tanh" => vec![xs[0].tanh()],
                "sigmoid" => vec![xs[0].sigmoid()],
                "softplus" => vec![xs[0].softplus()],
                "sum" => vec![xs[0].sum(u[0])],
                "max" => vec![xs[0].max(u[0])],
                "min" => vec![xs[0].min(u[0])],
                "broadcast" => vec![xs[0].broadcast(u[0], u[1])],
                "logsumexp" => vec![xs[0].logsumexp(u[0])],
                "ln_softmax" => vec![xs[0].ln_softmax(u[0])],
                "softmax" => vec![xs[0].softmax(u[0])],
                "sce" => vec![xs[0].softmax_cross_entropy(xs[1], u[0])],
                "ssce" => vec![xs[0].sparse_softmax_cross_entropy(&u[1..], u[0])],
                "matmul" => vec![xs[0].matmul(xs[1])],
                "transpose" => vec![xs[0].transpose()],
                "tril" => vec![xs[0].triangular_l(u[0])],
                "triu" => vec![xs[0].triangular_u(u[0])],
                "relu" => vec![xs[0].relu()],
                "lrelu" => vec![xs[0].lrelu()],
                "prelu" => vec![xs[0].prelu(k)],
                "elu" => vec![xs[0].elu(k)],
                "slice" => vec![xs[0].slice(u[0], u[1], u[2])],
                "split" => xs[0].split(u[0], u[1]),
                "pick" => vec![xs[0].pick(&u[1..], u[0])],
                "concat" => {
                    let r = xs;
                    vec![<$T>::concat(r, u[0])]
                }
                "reshape" => vec![xs[0].reshape(Shape::new(&u[1..], u[0]))],
                "flatten" => vec![xs[0].flatten()],
                "batch_sum" => vec![xs[0].batch_sum()],
                "batch_slice" => vec![xs[0].batch_slice(u[0], u[1])],
                "batch_split" => xs[0].batch_split(u[0]),
                "batch_pick" => vec![xs[0].batch_pick(u)],
                "batch_concat" => {
                    let r = xs;
                    vec![<$T>::batch_concat(r)]
                }
                "mean" => vec![xs[0].mean(u[0])],
                "batch_mean" => vec![xs[0].batch_mean()],
                "dropout" => vec![xs[0].dropout(k, u[0] != 0)],
                "dropout_dim" => vec![xs[0].dropout_dim(u[1], k, u[0] != 0)],
                "slice_sum" => {
                    let r = xs;
                    vec![<$T>::slice_sum(r)]
                }
                "batch_norm" => vec![xs[0].batch_normalization(xs[1], xs[2], k, u[0] != 0)],
                "layer_norm" => vec![xs[0].layer_normalization(xs[1], xs[2], k)],
                "flip" | "permute" => vec![xs[0].by_name(op, u)],
                _ => panic!("harness: unknown operation {} with {} operands", op, n),
            }
        }
    };
}
define_apply!(apply_t, ['a], Tensor<'a>);
define_apply!(apply_n, ['a], Node<'a, 'static>);
define_apply_ref!(apply_ref_t, ['a], Tensor<'a>);
define_apply_ref!(apply_ref_n, ['a], Node<'a, 'static>);

pub fn args_of(op: &str, u: &[u32], x: &dyn Fn(&str, u32) -> Vec<u32>) -> Vec<u32> {
    x(op, u[0])
}

/// The operator object behind a (single-operator) node function.
pub fn operator<'a>(op_: &str, u: &[u32], k: f32, ki: i64, dev: Dev, a_scalar: bool, b_scalar: bool, shape: Shape) -> Option<(Box<dyn Operator<'a, 'static> + 'a>, bool)> {
    // second component: operands are exchanged
    macro_rules! o {
        ($e:expr) => {
            Some((Box::new($e) as Box<dyn Operator<'a, 'static> + 'a>, false))
        };
    }
    macro_rules! sw {
        ($e:expr) => {
            Some((Box::new($e) as Box<dyn Operator<'a, 'static> + 'a>, true))
        };
    }
    match op_ {
        "add" => if a_scalar { sw!(op::AddScalar::new(dev)) } else if b_scalar { o!(op::AddScalar::new(dev)) } else { o!(op::Add::new(dev)) },
        "sub" => if a_scalar { sw!(op::SubScalarL::new(dev)) } else if b_scalar { o!(op::SubScalarR::new(dev)) } else { o!(op::Sub::new(dev)) },
        "mul" => if a_scalar { sw!(op::MulScalar::new(dev)) } else if b_scalar { o!(op::MulScalar::new(dev)) } else { o!(op::Mul::new(dev)) },
        "div" => if a_scalar { sw!(op::DivScalarL::new(dev)) } else if b_scalar { o!(op::DivScalarR::new(dev)) } else { o!(op::Div::new(dev)) },
        "pow" => if a_scalar { sw!(op::PowScalarL::new(dev)) } else if b_scalar { o!(op::PowScalarR::new(dev)) } else { o!(op::Pow::new(dev)) },
        "addcr" | "addcl" => o!(op::AddConst::new(dev, k)),
        "mulcr" | "mulcl" => o!(op::MulConst::new(dev, k)),
        "subcr" => o!(op::SubConstR::new(dev, k)),
        "subcl" => o!(op::SubConstL::new(dev, k)),
        "divcr" => o!(op::DivConstR::new(dev, k)),
        "divcl" => o!(op::DivConstL::new(dev, k)),
        "neg" => o!(op::Neg::new(dev)),
        "powf" => o!(op::PowConstR::new(dev, k)),
        "powi" => o!(op::Powi::new(dev, ki as i32)),
        "sqrt" => o!(op::Sqrt::new(dev)),
        "abs" => o!(op::Abs::new(dev)),
        "sin" => o!(op::Sin::new(dev)),
        "cos" => o!(op::Cos::new(dev)),
        "tan" => o!(op::Tan::new(dev)),
        "exp" => o!(op::Exp::new(dev)),
        "ln" => o!(op::Ln::new(dev)),
        "tanh" => o!(op::Tanh::new(dev)),
        "sigmoid" => o!(op::Sigmoid::new(dev)),
        "softplus" => o!(op::Softplus::new(dev)),
        "sum" => o!(op::Sum::new(dev, u[0])),
        "max" => o!(op::Max::new(dev, u[0])),
        "min" => o!(op::Min::new(dev, u[0])),
        "broadcast" => o!(op::Broadcast::new(dev, u[0], u[1])),
        "logsumexp" => o!(op::Logsumexp::new(dev, u[0])),
        "sce" => o!(op::SoftmaxCrossEntropy::new(dev, u[0])),
        "ssce" => o!(op::SparseSoftmaxCrossEntropy::new(dev, &u[1..], u[0])),
        "matmul" => o!(op::Matmul::new(dev)),
        "transpose" => o!(op::Transpose::new(dev)),
        "tril" => o!(op::TriangularL::new(dev, u[0])),
        "triu" => o!(op::TriangularU::new(dev, u[0])),
        "relu" => o!(op::PReLU::new(dev, 0.)),
        "lrelu" => o!(op::PReLU::new(dev, 0.01)),
        "prelu" => o!(op::PReLU::new(dev, k)),
        "elu" => o!(op::ELU::new(dev, k)),
        "slice" => o!(op::Slice::new(dev, u[0], u[1], u[2])),
        "split" => o!(op::Split::new(dev, u[0], u[1])),
        "pick" => o!(op::Pick::new(dev, &u[1..], u[0])),
        "concat" => o!(op::Concat::new(dev, u[0])),
        "reshape" => o!(op::Reshape::new(dev, Shape::new(&u[1..], u[0]))),
        "flatten" => o!(op::Reshape::new(dev, Shape::new(&[shape.volume()], shape.batch()))),
        "batch_sum" => o!(op::BatchSum::new(dev)),
        "batch_slice" => o!(op::BatchSlice::new(dev, u[0], u[1])),
        "batch_split" => o!(op::BatchSplit::new(dev, u[0])),
        "batch_pick" => o!(op::BatchPick::new(dev, u)),
        "batch_concat" => o!(op::BatchConcat::new(dev)),
        "flip" | "permute" => o!(ByName { dev, op: op_.into(), u: u.to_vec() }),
        _ => None,
    }
}

pub fn out_json(c: &Case, shape: Shape, v: &[f32]) -> Value {
    let mut o = serde_json::Map::new();
    o.insert("d".into(), json!(shape.dims()));
    o.insert("b".into(), json!(shape.batch()));
    o.insert("n".into(), json!(v.len()));
    match &c.at {
        at if at.is_none() || v.len() <= c.dense => {
            o.insert("v".into(), json!(encs(v, c.sy, c.exact)));
        }
        at => {
            let n = v.len();
            let mut at: Vec<usize> = at.as_ref().unwrap().iter().map(|&i| i % n).collect();
            // both ends and the neighbourhood of block boundaries
            at.extend([0, 1, 2, 3]);
            at.extend(n - 16..n);
            at.extend((5..18).map(|k| 1usize << k).flat_map(|k| [k - 1, k]).filter(|&k| k < n));
            at.sort();
            at.dedup();
            let p: Vec<Vec<i64>> = at.iter().map(|&i| vec![i as i64, enc(v[i], c.sy, c.exact)]).collect();
            o.insert("p".into(), json!(p));
        }
    }
    Value::Object(o)
}

/// Memory around one call: who owned what, which cells changed.
pub struct Watch {
    pub guard: crate::guard::Guard,
    pub by: Vec<Tensor<'static>>,
    own: Vec<(usize, usize, u32)>,
    snap: Option<Vec<Vec<u32>>>,
    res: Vec<(usize, usize)>,
    hit: Vec<usize>,
}
impl Watch {
    pub fn new(guard: crate::guard::Guard) -> Watch {
        Watch { guard, by: vec![], own: vec![], snap: None, res: vec![], hit: vec![] }
    }
}
thread_local! {
    pub static WATCH: RefCell<Option<Watch>> = RefCell::new(None);
}
pub fn watching() -> bool {
    WATCH.with(|w| w.borrow().is_some())
}
/// The call starts: `xs` must not change, `targets` may.
pub fn watch_before(xs: &[&Tensor], targets: &[&Tensor]) {
    WATCH.with(|w| {
        if let Some(w) = w.borrow_mut().as_mut() {
            let by: Vec<&Tensor> = w.by.iter().collect();
            let mut live: Vec<&Tensor> = by.clone();
            live.extend_from_slice(xs);
            live.extend_from_slice(targets);
            w.guard.repoison(&live);
            let mut own = vec![];
            for (role, ts) in [(0, &by[..]), (1, xs), (2, targets)] {
                for t in ts {
                    if let Some(b) = w.guard.block_of(t) {
                        own.push((b, t.shape().size() as usize, role));
                    }
                }
            }
            let snap = w.guard.snapshot();
            let mut ro: Vec<usize> = own.iter().filter(|o| o.2 < 2).map(|o| o.0).collect();
            ro.sort();
            ro.dedup();
            ro.retain(|b| own.iter().all(|o| o.2 < 2 || o.0 != *b));
            w.own = own;
            w.snap = Some(snap);
            w.res = vec![];
            w.hit = vec![];
            w.guard.protect(&ro);
        }
    })
}
/// The call itself is over.
pub fn watch_after() {
    WATCH.with(|w| {
        if let Some(w) = w.borrow_mut().as_mut() {
            if w.snap.is_some() {
                w.hit = crate::guard::watch::end();
            }
        }
    })
}
pub fn watch_results(ys: &[&Tensor]) {
    WATCH.with(|w| {
        if let Some(w) = w.borrow_mut().as_mut() {
            w.res = ys.iter().filter_map(|y| w.guard.block_of(y).map(|b| (b, y.shape().size() as usize))).collect();
        }
    })
}
/// The call is over: what it did to memory.
pub fn watch_finish(o: &mut serde_json::Map<String, Value>) {
    watch_after();
    WATCH.with(|w| {
        if let Some(w) = w.borrow_mut().as_mut() {
            if let Some(snap) = w.snap.take() {
                let caps: Vec<usize> = w.guard.st().blocks.iter().map(|b| b.cap).collect();
                let d = w.guard.dirty(&snap);
                o.insert(
                    "mem".into(),
                    json!({
                        "caps": caps,
                        "own": w.own.iter().map(|x| json!([x.0 + 1, x.1, x.2])).collect::<Vec<_>>(),
                        "w": d.iter().map(|x| json!([x.0 + 1, x.1, x.2])).collect::<Vec<_>>(),
                        "res": w.res.iter().map(|x| json!([x.0 + 1, x.1])).collect::<Vec<_>>(),
                        "hit": w.hit.iter().map(|b| b + 1).collect::<Vec<_>>(),
                        "zones": w.guard.zones_intact() as u8,
                    }),
                );
            }
        }
    })
}
fn refs<'a>(xs: &'a [Tensor<'static>]) -> Vec<&'a Tensor<'static>> {
    xs.iter().collect()
}

/// Runs the case on eager tensors.
pub fn run_t(c: &Case, dev: Dev, form: u32) -> Value {
    let mut o = c.head("op", "t");
    o.insert("form".into(), json!(form));
    let r = attempt(|| {
        let xs: Vec<Tensor<'static>> = c.xs.iter().map(|x| x.tensor(dev, c.sx)).collect();
        if c.op.ends_with("assign") {
            watch_before(&refs(&xs[1..]), &[&xs[0]]);
        } else {
            watch_before(&refs(&xs), &[]);
        }
        attempt(|| {
            if c.op.starts_with("arg") {
                let a = match c.op.as_str() {
                    "argmax" => xs[0].argmax(c.u[0]),
                    "argmin" => xs[0].argmin(c.u[0]),
                    _ => xs[0].argsort(c.u[0]),
                };
                let n = a.len();
                let mut c2 = c.clone();
                c2.exact = true;
                c2.sy = 1.;
                vec![out_json(&c2, Shape::new(&[], 1), &a.iter().map(|&x| x as f32).collect::<Vec<_>>()), json!(n)].into_iter().take(1).collect::<Vec<_>>()
            } else if c.op.ends_with("assign") {
                let mut xs = xs;
                if c.op == "mulassign" {
                    xs[0] *= c.k();
                    vec![out_json(c, xs[0].shape(), &xs[0].to_vec())]
                } else {
                    let b = xs.pop().unwrap();
                    let mut a = xs.pop().unwrap();
                    let before = a.to_vec();
                    let bx = b.to_vec();
                    let r = attempt(|| match (c.op.as_str(), form % 2) {
                        ("addassign", 0) => a += &b,
                        ("subassign", 0) => a -= &b,
                        ("addassign", _) => a += dev.copy_tensor(&b),
                        _ => a -= dev.copy_tensor(&b),
                    });
                    if let Err(e) = r {
                        if a.to_vec() != before {
                            panic!("rejected assignment modified its target");
                        }
                        panic!("{}", e);
                    }
                    if b.to_vec() != bx {
                        panic!("assignment modified its operand");
                    }
                    vec![out_json(c, a.shape(), &a.to_vec())]
                }
            } else {
                let ys = if watching() {
                    same_operands(c, true);
                    let xr = if c.alias { vec![&xs[0], &xs[0]] } else { places(xs.len()).into_iter().map(|i| &xs[i]).collect() };
                    same_operands(c, false);
                    let ys = apply_ref_t(&c.op, &c.u, c.k(), c.c, &xr);
                    watch_results(&refs(&ys));
                    ys
                } else {
                    same_operands(c, true);
                    let ys = attempt(|| apply_t(&c.op, &c.u, c.k(), c.c, form, xs, c.alias));
                    same_operands(c, false);
                    ys.unwrap_or_else(|e| panic!("{}", e))
                };
                ys.iter().map(|y| out_json(c, y.shape(), &y.to_vec())).collect::<Vec<_>>()
            }
        })
    });
    finish(&mut o, r);
    watch_finish(&mut o);
    Value::Object(o)
}

fn finish(o: &mut serde_json::Map<String, Value>, r: Result<Result<Vec<Value>, String>, String>) {
    match r {
        Ok(Ok(ys)) => {
            o.insert("ok".into(), json!(1));
            o.insert("ys".into(), json!(ys));
        }
        Ok(Err(e)) => {
            o.insert("ok".into(), json!(if e.starts_with("rejected assignment") || e.starts_with("assignment modified") { 2 } else { 0 }));
            o.insert("ys".into(), json!([]));
            o.insert("err".into(), json!(e.chars().take(120).collect::<String>()));
        }
        Err(e) => {
            // the harness could not even make the operands
            o.insert("ok".into(), json!(3));
            o.insert("ys".into(), json!([]));
            o.insert("err".into(), json!(e.chars().take(120).collect::<String>()));
        }
    }
}

/// Runs the case as graph nodes: construction first, evaluation afterwards.
pub fn run_n(c: &Case, dev: Dev, form: u32) -> Value {
    let mut o = c.head("op", "n");
    o.insert("form".into(), json!(form));
    let mut okc = 0;
    let mut cs = vec![];
    let r = attempt(|| {
        let xs: Vec<Tensor<'static>> = c.xs.iter().map(|x| x.tensor(dev, c.sx)).collect();
        watch_before(&refs(&xs), &[]);
        attempt(|| {
            let ns: Vec<Node> = xs.iter().map(|x| if form & 8 == 0 { Node::from(x) } else { Node::from(dev.copy_tensor(x)) }).collect();
            if c.op.starts_with("arg") {
                okc = 1;
                let a = match c.op.as_str() {
                    "argmax" => ns[0].argmax(c.u[0]),
                    "argmin" => ns[0].argmin(c.u[0]),
                    _ => ns[0].argsort(c.u[0]),
                };
                let mut c2 = c.clone();
                c2.exact = true;
                c2.sy = 1.;
                return vec![out_json(&c2, Shape::new(&[], 1), &a.iter().map(|&x| x as f32).collect::<Vec<_>>())];
            }
            same_operands(c, true);
            let ys = attempt(|| apply_n(&c.op, &c.u, c.k(), c.c, form, ns, c.alias));
            same_operands(c, false);
            let ys = ys.unwrap_or_else(|e| panic!("{}", e));
            okc = 1;
            for y in &ys {
                cs.push(shape_json(&y.shape()));
                if y.inner_value().valid() {
                    okc = 2; // evaluated at construction
                }
            }
            ys.iter()
                .map(|y| {
                    let v = y.to_vec();
                    out_json(c, y.shape(), &v)
                })
                .collect::<Vec<_>>()
        })
    });
    o.insert("okc".into(), json!(okc));
    o.insert("cs".into(), json!(cs));
    finish(&mut o, r);
    watch_finish(&mut o);
    Value::Object(o)
}

/// Weights per output: sparse (position, integer) lists, or absent.
pub type Gy = Option<Vec<(usize, i64)>>;

thread_local! {
    /// Upstream and accumulated gradients are that many times what is told: back-propagation is linear.
    pub static GRADIENT_SCALE: std::cell::Cell<f64> = const { std::cell::Cell::new(1.) };
}
fn dense(n: usize, g: &[(usize, i64)]) -> Vec<f32> {
    let k = GRADIENT_SCALE.with(|k| k.get()) as f32;
    let mut v = vec![0f32; n];
    for &(p, w) in g {
        v[p] += w as f32 * k;
    }
    v
}
fn gy_json(g: &Gy) -> Value {
    match g {
        None => json!([]),
        Some(g) => json!(g.iter().map(|&(p, w)| vec![p as i64, w]).collect::<Vec<_>>()),
    }
}
fn grad_json(c: &Case, x: &T, gx: &[f32], gx0: &[i64]) -> Value {
    let sy = c.sy / GRADIENT_SCALE.with(|k| k.get());
    if c.at.is_none() {
        json!({"n": gx.len(), "v": encs(gx, sy, c.exact)})
    } else {
        // only the cells whose value differs from what was there before
        let mut p = vec![];
        for (i, &g) in gx.iter().enumerate() {
            let e = enc(g, sy, c.exact);
            let b = if gx0.is_empty() { 0 } else { gx0[i] };
            if e != b * c.sy as i64 {
                p.push(vec![i as i64, e]);
            }
        }
        let _ = x;
        json!({"n": gx.len(), "p": p})
    }
}

/// Gradient through a graph: the target is the weighted sum of all outputs.
/// `gys(outputs sizes)` chooses the weights once the outputs are known.
pub fn run_g(c: &Case, dev: Dev, form: u32, gys: &mut dyn FnMut(&[usize]) -> Vec<Gy>) -> Value {
    let mut o = c.head("grad", "g");
    o.insert("form".into(), json!(form));
    let mut used: Vec<Gy> = vec![];
    let mut fw = 0;
    let mut ns_: Vec<usize> = vec![];
    let mut mask: Option<Vec<i64>> = None;
    let r = attempt(|| {
        let xs: Vec<Tensor<'static>> = c.xs.iter().map(|x| x.tensor(dev, c.sx)).collect();
        watch_before(&refs(&xs), &[]);
        attempt(|| {
            let ns: Vec<Node> = xs.iter().map(|x| if form & 8 == 0 { Node::from(x) } else { Node::from(dev.copy_tensor(x)) }).collect();
            // keep handles: a second use of the same leaf
            let keep: Vec<Node> = ns.iter().map(|n| n.split(0, 1).pop().unwrap()).collect();
            let ys = apply_n(&c.op, &c.u, c.k(), c.c, form & !3, keep.iter().map(|n| n.split(0, 1).pop().unwrap()).collect(), c.alias);
            let sizes: Vec<usize> = ys.iter().map(|y| y.shape().size() as usize).collect();
            used = gys(&sizes);
            let ws: Vec<Option<Tensor<'static>>> = ys
                .iter()
                .zip(&used)
                .map(|(y, g)| g.as_ref().map(|g| dev.new_tensor_by_slice(y.shape(), &dense(y.shape().size() as usize, g))))
                .collect();
            let mut target: Option<Node> = None;
            for (y, w) in ys.iter().zip(&ws) {
                if let Some(w) = w {
                    let s = (y * Node::from(dev.copy_tensor(w))).flatten().sum(0).batch_sum();
                    target = Some(match target {
                        None => s,
                        Some(t) => t + s,
                    });
                }
            }
            let target = target.unwrap();
            if c.op.starts_with("dropout") {
                mask = Some(ys[0].to_vec().iter().map(|&v| (v != 0.) as i64).collect());
            }
            target.forward();
            ns_ = sizes.clone();
            fw = 1;
            target.backward();
            ns.iter()
                .zip(&c.xs)
                .map(|(n, x)| {
                    // a node the target does not depend on has no gradient
                    let g = attempt(|| (n.inner_gradient().shape(), n.inner_gradient().to_vec()));
                    let (s, v) = g.unwrap_or((x.shape(), vec![0.; x.size()]));
                    assert!(s == x.shape(), "gradient shape");
                    grad_json(c, x, &v, &[])
                })
                .collect::<Vec<_>>()
        })
    });
    o.insert("gx0".into(), json!([]));
    o.insert("fw".into(), json!(fw));
    o.insert("ns".into(), json!(ns_));
    if let Some(m) = mask {
        o.insert("mask".into(), json!(m));
    }
    match r {
        Ok(Ok(gx)) => {
            o.insert("ok".into(), json!(1));
            o.insert("gx".into(), json!(gx));
        }
        Ok(Err(e)) | Err(e) => {
            o.insert("ok".into(), json!(0));
            o.insert("gx".into(), json!([]));
            o.insert("err".into(), json!(e.chars().take(120).collect::<String>()));
        }
    }
    o.insert("gys".into(), json!(used.iter().map(gy_json).collect::<Vec<_>>()));
    watch_finish(&mut o);
    Value::Object(o)
}

/// The operator's own backward with prior contents in the gradients.
pub fn run_b(c: &Case, dev: Dev, gx0: &[T], gys: &mut dyn FnMut(&[usize]) -> Vec<Gy>) -> Option<Value> {
    let mut o = c.head("grad", "b");
    let mut used: Vec<Gy> = vec![];
    let mut fw = 0;
    let mut ns_: Vec<usize> = vec![];
    let sc = |i: usize| c.xs.get(if c.alias { 0 } else { i }).map(|x| x.shape().is_scalar()).unwrap_or(false);
    let (oper, swap) = operator(&c.op, &c.u, c.k(), c.c, dev, sc(0), sc(1), c.xs[0].shape())?;
    let r = attempt(|| {
        let xs: Vec<Tensor<'static>> = c.xs.iter().map(|x| x.tensor(dev, c.sx)).collect();
        let gs: Vec<RefCell<Tensor<'static>>> = gx0.iter().map(|x| RefCell::new(x.tensor(dev, 1. / GRADIENT_SCALE.with(|k| k.get())))).collect();
        attempt(|| {
            let mut idx: Vec<usize> = if c.alias { vec![0, 0] } else { (0..xs.len()).collect() };
            if swap {
                idx.reverse();
            }
            let xr: Vec<&Tensor> = idx.iter().map(|&i| &xs[i]).collect();
            let shapes = oper.forward_shape(&xr.iter().map(|x| x.shape()).collect::<Vec<_>>());
            let mut ys: Vec<Tensor> = shapes.iter().map(|&s| dev.new_tensor(s)).collect();
            {
                let mut yr: Vec<&mut Tensor> = ys.iter_mut().collect();
                oper.forward(&xr, &mut yr);
            }
            let sizes: Vec<usize> = ys.iter().map(|y| y.shape().size() as usize).collect();
            ns_ = sizes.clone();
            fw = 1;
            used = gys(&sizes);
            for g in used.iter_mut() {
                if g.is_none() {
                    *g = Some(vec![]);
                }
            }
            let gy: Vec<Tensor> = ys.iter().zip(&used).map(|(y, g)| dev.new_tensor_by_slice(y.shape(), &dense(y.shape().size() as usize, g.as_ref().unwrap()))).collect();
            let yr: Vec<&Tensor> = ys.iter().collect();
            let gr: Vec<&Tensor> = gy.iter().collect();
            let gxr: Vec<&RefCell<Tensor>> = idx.iter().map(|&i| &gs[i]).collect();
            if watching() {
                let mut ro = refs(&xs);
                ro.extend(ys.iter());
                ro.extend(gy.iter());
                let gb: Vec<std::cell::Ref<Tensor>> = gs.iter().map(|g| g.borrow()).collect();
                watch_before(&ro, &gb.iter().map(|g| &**g).collect::<Vec<_>>());
            }
            oper.backward(&xr, &yr, &gr, &gxr);
            gs.iter().zip(&c.xs).zip(gx0).map(|((g, x), g0)| grad_json(c, x, &g.borrow().to_vec(), &g0.ints())).collect::<Vec<_>>()
        })
    });
    o.insert("fw".into(), json!(fw));
    o.insert("ns".into(), json!(ns_));
    o.insert("gx0".into(), json!(gx0.iter().map(|x| x.json()).collect::<Vec<_>>()));
    match r {
        Ok(Ok(gx)) => {
            o.insert("ok".into(), json!(1));
            o.insert("gx".into(), json!(gx));
        }
        Ok(Err(e)) | Err(e) => {
            o.insert("ok".into(), json!(0));
            o.insert("gx".into(), json!([]));
            o.insert("err".into(), json!(e.chars().take(120).collect::<String>()));
        }
    }
    o.insert("gys".into(), json!(used.iter().map(gy_json).collect::<Vec<_>>()));
    watch_finish(&mut o);
    Some(Value::Object(o))
}
