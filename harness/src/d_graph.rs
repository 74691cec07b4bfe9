//! Programs over graphs: construction, lazy evaluation, back-propagation, next to the same
//! program on eager tensors.
use crate::d_ops::naive;
use crate::ops::*;
use crate::util::*;
use crate::Args;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Operator, Parameter, Shape, Tensor};
use serde_json::{json, Value};
use std::cell::RefCell;

thread_local! {
    static LOG: RefCell<Vec<(u8, usize)>> = RefCell::new(vec![]);
}
pub fn take_log(kind: u8) -> Vec<usize> {
    LOG.with(|l| l.borrow().iter().filter(|e| e.0 == kind).map(|e| e.1).collect())
}
pub fn clear_log() {
    LOG.with(|l| l.borrow_mut().clear());
}

/// An operator that reports its evaluations and back-propagations.
pub struct Probe<'a> {
    pub inner: Box<dyn Operator<'a, 'static> + 'a>,
    pub id: usize,
}
impl<'a> Operator<'a, 'static> for Probe<'a> {
    fn name(&self) -> String {
        self.inner.name()
    }
    fn device(&self) -> Dev {
        self.inner.device()
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        self.inner.forward_shape(x)
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        LOG.with(|l| l.borrow_mut().push((b'f', self.id)));
        self.inner.forward(x, y)
    }
    fn backward(&self, x: &[&Tensor], y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        LOG.with(|l| l.borrow_mut().push((b'b', self.id)));
        self.inner.backward(x, y, gy, gx)
    }
}

/// Output j is the sum over its arguments k of coef[j][k] * argument.
pub struct Lin {
    pub dev: Dev,
    pub coef: Vec<Vec<i64>>,
}
impl<'a> Operator<'a, 'static> for Lin {
    fn name(&self) -> String {
        "Lin".into()
    }
    fn device(&self) -> Dev {
        self.dev
    }
    fn forward_shape(&self, x: &[Shape]) -> Vec<Shape> {
        for s in x {
            assert!(*s == x[0]);
        }
        vec![x[0]; self.coef.len()]
    }
    fn forward(&self, x: &[&Tensor], y: &mut [&mut Tensor<'a>]) {
        let xs: Vec<Vec<f32>> = x.iter().map(|x| x.to_vec()).collect();
        for (c, y) in self.coef.iter().zip(y.iter_mut()) {
            let v: Vec<f32> = (0..xs[0].len()).map(|i| c.iter().zip(&xs).map(|(&c, x)| c as f32 * x[i]).sum()).collect();
            y.replace(self.dev.new_tensor_by_slice(x[0].shape(), &v));
        }
    }
    fn backward(&self, _x: &[&Tensor], _y: &[&Tensor], gy: &[&Tensor], gx: &[&RefCell<Tensor>]) {
        for (k, gx) in gx.iter().enumerate() {
            for (j, gy) in gy.iter().enumerate() {
                let g = self.coef[j][k] as f32 * *gy;
                *gx.borrow_mut() += &g;
            }
        }
    }
}

pub struct Info {
    pub d: Vec<u32>,
    pub b: u32,
    pub bound: f64,
    pub deg: f64,
    pub known: bool,
}
impl Info {
    fn size(&self) -> usize {
        self.d.iter().product::<u32>() as usize * self.b as usize
    }
    fn ax(&self, i: u32) -> u32 {
        *self.d.get(i as usize).unwrap_or(&1)
    }
}

/// A session: one graph with everything alive.
pub struct Sess {
    dev: Dev,
    // per operation: outputs (None: the handle was dropped)
    pub nodes: Vec<Vec<Option<Node<'static, 'static>>>>,
    pub info: Vec<Vec<Info>>,
    pub eager: Vec<Vec<Option<Tensor<'static>>>>,
    pub uses: Vec<(String, Vec<u32>, i64, Vec<(usize, usize)>)>,
    params: Vec<(usize, *mut Parameter<'static>)>,
    inputs: Vec<(usize, *mut Tensor<'static>)>,
    load: f64, // bound of the sum of all gradients so far
}
impl Drop for Sess {
    fn drop(&mut self) {
        self.nodes.clear();
        unsafe {
            for p in &self.params {
                drop(Box::from_raw(p.1));
            }
            for p in &self.inputs {
                drop(Box::from_raw(p.1));
            }
        }
    }
}
fn tj(shape: Shape, v: &[f32], known: bool) -> Value {
    let vv = if known { encs(v, 1., true) } else { v.iter().map(|&x| bits(x)).collect() };
    json!({"d": shape.dims(), "b": shape.batch(), "v": vv})
}
impl Sess {
    pub fn new(dev: Dev) -> Sess {
        Sess { dev, nodes: vec![], info: vec![], eager: vec![], uses: vec![], params: vec![], inputs: vec![], load: 0. }
    }
    fn leaf(&mut self, kind: &str, x: T, g: &[i64], out: &mut Out) {
        let id = self.nodes.len() + 1;
        let t = x.tensor(self.dev, 1.);
        let bound = x.ints().iter().map(|v| v.abs()).max().unwrap().max(1) as f64;
        self.eager.push(vec![Some(self.dev.copy_tensor(&t))]);
        let node = match kind {
            "ref" => {
                let p = Box::into_raw(Box::new(t));
                self.inputs.push((id, p));
                Node::from(unsafe { &*p })
            }
            "own" => Node::from(t),
            _ => {
                let gt = self.dev.new_tensor_by_slice(x.shape(), &g.iter().map(|&v| v as f32).collect::<Vec<_>>());
                let p = Box::into_raw(Box::new(Parameter::new(t, gt)));
                self.params.push((id, p));
                Node::from(unsafe { &mut *p })
            }
        };
        let lazy = node.inner_value().valid() as u8;
        self.nodes.push(vec![Some(node)]);
        out.ev(json!({"k": "leaf", "kind": kind, "x": x.json(), "g": g, "lazy": lazy}));
        self.info.push(vec![Info { d: canon(&x.d), b: x.b, bound, deg: 1., known: true }]);
        self.uses.push((kind.into(), vec![], 0, vec![]));
    }
    fn all(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (o, ns) in self.nodes.iter().enumerate() {
            for (i, n) in ns.iter().enumerate() {
                if n.is_some() {
                    v.push((o, i));
                }
            }
        }
        v
    }
    fn nfo(&self, p: (usize, usize)) -> &Info {
        &self.info[p.0][p.1]
    }
    /// Bound and degree of the result (for exactness).
    fn estimate(&self, op: &str, u: &[u32], c: i64, args: &[(usize, usize)]) -> (f64, f64) {
        let b = |i: usize| self.nfo(args[i]).bound;
        let d = args.iter().map(|&a| self.nfo(a).deg).fold(0., f64::max);
        let cc = (c.abs() as f64).max(1.);
        match op {
            "add" | "sub" => (b(0) + b(1), d),
            "slice_sum" => ((0..args.len()).map(b).sum(), d),
            "addcr" | "addcl" | "subcr" | "subcl" => (b(0) + cc, d),
            "mulcr" | "mulcl" => (b(0) * cc, d),
            "mul" => (b(0) * b(1), self.nfo(args[0]).deg + self.nfo(args[1]).deg),
            "matmul" => (b(0) * b(1) * self.nfo(args[0]).ax(1) as f64, self.nfo(args[0]).deg + self.nfo(args[1]).deg),
            "sum" => (b(0) * self.nfo(args[0]).ax(u[0]) as f64, d),
            "batch_sum" => (b(0) * self.nfo(args[0]).b as f64, d),
            "powi" => (b(0).powi(c as i32), d * c as f64),
            "probe" => {
                let n = args.len();
                let m = u.len() / n;
                ((0..m).map(|j| (0..n).map(|k| (u[j * n + k] as f64 - 4.).abs() * b(k)).sum::<f64>()).fold(1., f64::max), d)
            }
            _ => ((0..args.len()).map(b).fold(1., f64::max), d),
        }
    }
    /// Creates an operation; `how`: 0 public function by reference, 1 probed operator,
    /// 2 + form: public function, the operands given away (some by value).
    fn op(&mut self, op: &str, u: Vec<u32>, c: i64, args: Vec<(usize, usize)>, how: u32, rejects: bool, out: &mut Out) -> bool {
        let id = self.nodes.len() + 1;
        let known = args.iter().all(|&a| self.nfo(a).known) && EXACT.contains(&op);
        clear_log();
        let k = c as f32;
        let dev = self.dev;
        let mut probed = how == 1;
        let distinct = (1..args.len()).all(|i| !args[..i].contains(&args[i]));
        let mut given: Vec<Node<'static, 'static>> = vec![];
        if how >= 2 && op != "probe" && distinct {
            given = args.iter().map(|&(o, i)| self.nodes[o][i].take().unwrap()).collect();
        }
        let byvalue = !given.is_empty();
        let rn = attempt(|| {
            if byvalue {
                return apply_n(op, &u, k, c, how - 2, std::mem::take(&mut given), false);
            }
            let xs: Vec<&Node<'static, 'static>> = args.iter().map(|&(o, i)| self.nodes[o][i].as_ref().unwrap()).collect();
            if op == "probe" {
                let n = args.len();
                let coef: Vec<Vec<i64>> = u.chunks(n).map(|c| c.iter().map(|&x| x as i64 - 4).collect()).collect();
                return Node::create(Probe { inner: Box::new(Lin { dev, coef }), id }, &xs);
            }
            let sc = |i: usize| args.get(i).map(|&a| self.nfo(a).d.is_empty()).unwrap_or(false);
            if how == 1 {
                if let Some((inner, swap)) = operator(op, &u, k, c, dev, sc(0), sc(1), xs[0].shape()) {
                    let mut xs = xs.clone();
                    if swap {
                        xs.reverse();
                    }
                    return Node::create(Probe { inner, id }, &xs);
                }
                probed = false;
            }
            apply_ref_n(op, &u, k, c, &xs)
        });
        let fw = take_log(b'f');
        let rt = attempt(|| {
            if byvalue {
                let xs: Vec<Tensor<'static>> = args.iter().map(|&(o, i)| dev.copy_tensor(self.eager[o][i].as_ref().unwrap())).collect();
                return apply_t(op, &u, k, c, how - 2, xs, false);
            }
            let xs: Vec<&Tensor> = args.iter().map(|&(o, i)| self.eager[o][i].as_ref().unwrap()).collect();
            if op == "probe" {
                let n = args.len();
                return u
                    .chunks(n)
                    .map(|c| {
                        let mut t = (c[0] as f32 - 4.) * xs[0];
                        for k in 1..n {
                            t = t + (c[k] as f32 - 4.) * xs[k];
                        }
                        t
                    })
                    .collect::<Vec<_>>();
            }
            apply_ref_t(op, &u, k, c, &xs)
        });
        let ok = rn.is_ok();
        let okt = rt.is_ok();
        if !ok && !okt && !rejects {
            return false;
        }
        let (bound, deg) = if ok { self.estimate(op, &u, c, &args) } else { (1., 1.) };
        let shapes: Vec<Value> = rn.as_ref().map(|ys| ys.iter().map(|y| shape_json(&y.shape())).collect()).unwrap_or(vec![]);
        let lazy = rn.as_ref().map(|ys| ys.iter().any(|y| y.inner_value().valid())).unwrap_or(false) as u8;
        let tshapes: Vec<Value> = rt.as_ref().map(|ys| ys.iter().map(|y| shape_json(&y.shape())).collect()).unwrap_or(vec![]);
        let tv: Vec<Vec<i64>> = if known && ok && okt { rt.as_ref().unwrap().iter().map(|t| encs(&t.to_vec(), 1., true)).collect() } else { vec![] };
        out.ev(json!({"k": "op", "op": op, "u": u, "c": c, "sx": 1, "sy": 1, "known": known as u8, "probed": (probed || op == "probe") as u8,
            "args": args.iter().map(|&(o, i)| vec![o + 1, i + 1]).collect::<Vec<_>>(), "ok": ok as u8, "okt": okt as u8,
            "outs": shapes, "tsh": tshapes, "tv": tv, "fw": fw, "lazy": lazy}));
        if let (Ok(ys), Ok(ts)) = (rn, rt) {
            self.info.push(ys.iter().map(|y| Info { d: y.shape().dims().to_vec(), b: y.shape().batch(), bound, deg, known }).collect());
            self.nodes.push(ys.into_iter().map(Some).collect());
            self.eager.push(ts.into_iter().map(Some).collect());
            self.uses.push((op.into(), u, c, args));
            true
        } else {
            false
        }
    }
    fn get(&mut self, p: (usize, usize), how: u32, out: &mut Out) {
        clear_log();
        let known = self.nfo(p).known;
        let r = attempt(|| {
            let n = self.nodes[p.0][p.1].as_ref().unwrap();
            match how {
                1 => n.forward(),
                2 if known => {
                    n.argmax(0);
                }
                3 if self.nfo(p).size() == 1 => {
                    n.to_float();
                }
                4 if known => {
                    n.argsort(0);
                }
                _ => {}
            }
            let fw0 = take_log(b'f');
            let v = if how == 1 { n.inner_value().to_vec() } else { n.to_vec() };
            let t = self.eager[p.0][p.1].as_ref().unwrap();
            (fw0, tj(n.shape(), &v, known), tj(t.shape(), &t.to_vec(), known))
        });
        match r {
            Ok((_, y, t)) => out.ev(json!({"k": "get", "o": p.0 + 1, "i": p.1 + 1, "known": known as u8, "how": how, "fw": take_log(b'f'), "bw": take_log(b'b'), "ok": 1, "y": y, "t": t})),
            Err(e) => out.ev(json!({"k": "get", "o": p.0 + 1, "i": p.1 + 1, "known": known as u8, "how": how, "fw": take_log(b'f'), "bw": take_log(b'b'), "ok": 0, "err": e})),
        }
    }
    fn grads(&self) -> Vec<Value> {
        self.params.iter().map(|&(id, p)| json!([id, encs(&unsafe { &*p }.gradient.to_vec(), 1., true)])).collect()
    }
    fn can_back(&self, p: (usize, usize)) -> bool {
        let i = self.nfo(p);
        i.known && self.load + (i.deg + 1.) * i.size() as f64 * i.bound < 8e6
    }
    fn back(&mut self, p: (usize, usize), out: &mut Out) {
        clear_log();
        let i = self.nfo(p);
        self.load += (i.deg + 1.) * i.size() as f64 * i.bound;
        let r = attempt(|| self.nodes[p.0][p.1].as_ref().unwrap().backward());
        let fw = take_log(b'f');
        let bw = take_log(b'b');
        match r {
            Ok(()) => out.ev(json!({"k": "back", "o": p.0 + 1, "i": p.1 + 1, "fw": fw, "bw": bw, "ok": 1, "grads": self.grads()})),
            Err(e) => out.ev(json!({"k": "back", "o": p.0 + 1, "i": p.1 + 1, "fw": fw, "bw": bw, "ok": 0, "err": e, "grads": []})),
        }
    }
    /// Real-valued operations: the node's value against the eager operation on the node's operand values.
    fn pairs(&mut self, out: &mut Out) {
        for o in 0..self.nodes.len() {
            let (op, u, c, args) = self.uses[o].clone();
            if args.is_empty() || op == "probe" || self.info[o][0].known || self.nodes[o].iter().any(|n| n.is_none()) || args.iter().any(|&(o, i)| self.nodes[o][i].is_none()) {
                continue;
            }
            let r = attempt(|| {
                let xs: Vec<Tensor<'static>> = args
                    .iter()
                    .map(|&(o, i)| {
                        let n = self.nodes[o][i].as_ref().unwrap();
                        self.dev.new_tensor_by_slice(n.shape(), &n.to_vec())
                    })
                    .collect();
                let ts = apply_ref_t(&op, &u, c as f32, c, &xs.iter().collect::<Vec<_>>());
                let ys: Vec<Vec<f32>> = self.nodes[o].iter().map(|n| n.as_ref().unwrap().to_vec()).collect();
                (ys.iter().map(|y| encs(y, 4096., false)).collect::<Vec<_>>(), ts.iter().map(|t| encs(&t.to_vec(), 4096., false)).collect::<Vec<_>>())
            });
            match r {
                Ok((y, t)) => out.ev(json!({"k": "pair", "o": o + 1, "op": op, "ok": 1, "y": y, "t": t})),
                Err(e) => out.ev(json!({"k": "pair", "o": o + 1, "op": op, "ok": 0, "err": e})),
            }
        }
    }
    fn end(&mut self, out: &mut Out) {
        let mut v: Vec<Value> = vec![];
        for &(id, p) in &self.params {
            v.push(json!([id, encs(&unsafe { &*p }.value.to_vec(), 1., true)]));
        }
        for &(id, p) in &self.inputs {
            v.push(json!([id, encs(&unsafe { &*p }.to_vec(), 1., true)]));
        }
        out.ev(json!({"k": "end", "leaves": v, "grads": self.grads()}));
    }
}

/// Operations whose integer results the specification computes.
const EXACT: &[&str] = &[
    "add", "sub", "mul", "addcr", "subcr", "mulcr", "addcl", "subcl", "mulcl", "neg", "sum", "broadcast", "matmul", "transpose", "tril", "triu", "slice", "split",
    "pick", "concat", "reshape", "flatten", "batch_sum", "batch_slice", "batch_split", "batch_pick", "batch_concat", "probe", "max", "min", "abs", "relu", "slice_sum",
];
const SMOOTH: &[&str] = &[
    "add", "add", "sub", "mul", "mul", "addcr", "subcr", "mulcr", "addcl", "subcl", "mulcl", "neg", "sum", "broadcast", "matmul", "transpose", "tril", "triu", "slice",
    "split", "split", "pick", "concat", "concat", "reshape", "flatten", "batch_sum", "batch_slice", "batch_split", "batch_pick", "batch_concat", "probe", "probe", "slice_sum",
];
const REAL: &[&str] = &[
    "divcr", "divcl", "powf", "sqrt", "sin", "cos", "exp", "ln", "tanh", "sigmoid", "softplus", "logsumexp", "ln_softmax", "softmax", "sce", "ssce", "elu", "lrelu", "prelu", "div",
    "mean", "batch_mean", "batch_norm", "layer_norm", "pow",
];

/// Random attributes, mostly fitting the operand.
fn attributes(r: &mut Rng, s: &Sess, op: &str, noise: bool) -> Option<(Vec<u32>, i64, Vec<(usize, usize)>)> {
    let all = s.all();
    // recent nodes are preferred, so that programs get deep
    let choose = |r: &mut Rng| -> (usize, usize) {
        if r.chance(3, 4) {
            all[all.len() - 1 - r.below(all.len().min(4) as u64) as usize]
        } else {
            *r.pick(&all)
        }
    };
    let a = choose(r);
    let n = s.nfo(a);
    let axis = |r: &mut Rng| if noise && r.chance(1, 3) { r.u(0, 9) } else { r.u(0, n.d.len() as u32) };
    let same = |r: &mut Rng, f: &dyn Fn(&Info) -> bool| -> (usize, usize) {
        let c: Vec<_> = all.iter().cloned().filter(|&p| f(s.nfo(p))).collect();
        if c.is_empty() || noise && r.chance(1, 3) {
            *r.pick(&all)
        } else {
            *r.pick(&c)
        }
    };
    let bok = |x: &Info, y: &Info| x.b == y.b || x.b == 1 || y.b == 1;
    let off = |r: &mut Rng| if noise && r.chance(1, 3) { r.u(0, 2) } else { 0 };
    let (u, c, args) = match op {
        "add" | "sub" | "mul" | "div" | "pow" => {
            let b = if r.chance(1, 6) { a } else { same(r, &|x| bok(x, n) && (x.d == n.d || x.d.is_empty() || n.d.is_empty())) };
            (vec![0], 0, if r.chance(1, 2) { vec![a, b] } else { vec![b, a] })
        }
        "addcr" | "subcr" | "mulcr" | "addcl" | "subcl" | "mulcl" => (vec![0], r.range(-3, 3), vec![a]),
        "divcr" => (vec![0], *r.pick(&[1, -2, 4]), vec![a]),
        "divcl" | "powf" | "elu" | "prelu" => (vec![0], r.range(1, 3), vec![a]),
        "sum" | "max" | "min" | "logsumexp" | "ln_softmax" | "softmax" | "mean" => (vec![axis(r)], 0, vec![a]),
        "broadcast" => {
            let free: Vec<u32> = (0..4).filter(|&i| n.ax(i) == 1).collect();
            let ax = if free.is_empty() || noise && r.chance(1, 3) { axis(r) } else { *r.pick(&free) };
            (vec![ax, r.u(1, 3) - off(r).min(1)], 0, vec![a])
        }
        "matmul" => {
            let b = same(r, &|x| bok(x, n) && x.d.len() <= 2 && n.d.len() <= 2 && x.ax(0) == n.ax(1));
            (vec![0], 0, vec![a, b])
        }
        "transpose" => (vec![0], 0, vec![a]),
        "tril" | "triu" => (vec![r.u(0, 2)], 0, vec![same(r, &|x| x.d.len() == 2 && x.d[0] == x.d[1])]),
        "slice" => {
            let i = axis(r);
            let l = r.u(0, n.ax(i) - 1);
            let h = r.u(l + 1, n.ax(i)) + off(r);
            (vec![i, l, h], 0, vec![a])
        }
        "split" => {
            let i = axis(r);
            let k: Vec<u32> = (1..=n.ax(i)).filter(|k| n.ax(i) % k == 0).collect();
            (vec![i, if n.ax(i) > 7 && r.chance(1, 2) { n.ax(i) } else { *r.pick(&k) } + off(r)], 0, vec![a])
        }
        "pick" | "ssce" => {
            let i = axis(r);
            let m = if n.b > 1 && r.chance(1, 2) { n.b } else if n.b == 1 { r.u(1, 3) } else { 1 };
            let mut u = vec![i];
            for _ in 0..m {
                u.push(r.u(0, n.ax(i) - 1) + off(r));
            }
            (u, 0, vec![a])
        }
        "concat" => {
            let i = axis(r);
            let m = r.u(1, 3);
            let mut v = vec![a];
            for _ in 1..m {
                if r.chance(1, 5) {
                    v.push(v[v.len() - 1]);
                    continue;
                }
                v.push(same(r, &|x| bok(x, n) && (0..8).all(|k| k == i || x.ax(k) == n.ax(k))));
            }
            (vec![i], 0, v)
        }
        "reshape" => {
            let total = n.size() as u32;
            let b = if r.chance(1, 2) { n.b } else { 1 };
            let rest = total / b;
            let k: Vec<u32> = (1..=rest).filter(|k| rest % k == 0).collect();
            let k = *r.pick(&k);
            (vec![b, k, rest / k + off(r)], 0, vec![a])
        }
        "batch_slice" => {
            let l = r.u(0, n.b - 1);
            (vec![l, r.u(l + 1, n.b) + off(r)], 0, vec![a])
        }
        "batch_split" => {
            let k: Vec<u32> = (1..=n.b).filter(|k| n.b % k == 0).collect();
            (vec![*r.pick(&k) + off(r)], 0, vec![a])
        }
        "batch_pick" => {
            let m = r.u(1, 3);
            ((0..m).map(|_| r.u(0, n.b - 1) + off(r)).collect(), 0, vec![a])
        }
        "batch_concat" => {
            let m = r.u(1, 3);
            let mut v = vec![a];
            for _ in 1..m {
                if r.chance(1, 5) {
                    v.push(v[v.len() - 1]);
                    continue;
                }
                v.push(same(r, &|x| x.d == n.d));
            }
            (vec![0], 0, v)
        }
        "slice_sum" => {
            let m = r.u(1, 5);
            let mut v = vec![a];
            for _ in 1..m {
                if r.chance(1, 3) {
                    v.push(v[v.len() - 1]);
                    continue;
                }
                v.push(same(r, &|x| bok(x, n) && x.d == n.d));
            }
            (vec![0], 0, v)
        }
        "sce" => (vec![axis(r)], 0, vec![a, same(r, &|x| bok(x, n) && x.d == n.d)]),
        "batch_norm" => (vec![r.u(0, 1)], 1, vec![a, same(r, &|x| x.d == n.d && x.b == 1), same(r, &|x| x.d == n.d && x.b == 1)]),
        "layer_norm" => (vec![0], 1, vec![a, same(r, &|x| x.d == n.d && x.b == 1), same(r, &|x| x.d == n.d && x.b == 1)]),
        "probe" => {
            let k = r.u(1, 3);
            let m = r.u(1, 3);
            let mut v = vec![a];
            for _ in 1..k {
                v.push(same(r, &|x| x.d == n.d && x.b == n.b));
            }
            if v.iter().any(|&p| s.nfo(p).d != n.d || s.nfo(p).b != n.b) {
                return None;
            }
            ((0..k * m).map(|_| r.u(2, 6)).collect(), 0, v)
        }
        "powi" => (vec![0], r.range(1, 2), vec![a]),
        _ => (vec![0], 0, vec![a]), // unary
    };
    Some((u, c, args))
}

fn sample(a: &Args, r: &mut Rng, dev: Dev, out: &mut Out) {
    let noise = a.num("noise", 0) == 1;
    let real = a.num("real", 0) == 1;
    let backs = a.num("backs", 1);
    let probes = a.num("probes", 1) == 1;
    let maxops = a.num("ops", 14);
    let mut s = Sess::new(dev);
    out.ev(json!({"k": "new"}));
    // leaves: a few related shapes
    // now and then a long axis
    let long = r.chance(1, 5);
    let x = if long { r.u(8, 20) } else { r.u(1, 4) };
    let y = r.u(1, if long { 2 } else { 3 });
    let b = *r.pick(&[1, 1, 2, 3]);
    let menu: Vec<(Vec<u32>, u32)> = vec![(vec![x], 1), (vec![x], b), (vec![x, y], 1), (vec![x, y], b), (vec![y, x], 1), (vec![], 1), (vec![], b), (if long { vec![y, y] } else { vec![x, x] }, 1), (vec![x, 1, y], 1), (vec![y], b)];
    for k in 0..r.u(1, 4) {
        let (d, bt) = r.pick(&menu).clone();
        let kind = if k == 0 { "par" } else { *r.pick(&["ref", "own", "par", "par"]) };
        let bt = if kind == "par" { 1 } else { bt };
        let n = d.iter().product::<u32>() as usize * bt as usize;
        let v: Vec<i64> = (0..n).map(|_| r.range(-3, 3)).collect();
        let g: Vec<i64> = if kind == "par" { (0..n).map(|_| r.range(-9, 9)).collect() } else { vec![] };
        s.leaf(kind, T { d, b: bt, v: Data::V(v) }, &g, out);
    }
    let n = r.u(1, maxops as u32);
    let mut left = backs;
    let early = if r.chance(1, 2) { 8 } else { 1 << 40 };
    for _ in 0..n {
        let op = if real && r.chance(1, 2) {
            *r.pick(REAL)
        } else if real {
            *r.pick(EXACT)
        } else {
            *r.pick(SMOOTH)
        };
        let nz = noise && r.chance(1, 3);
        if let Some((u, c, args)) = attributes(r, &s, op, nz) {
            // keep everything exact and small
            let (bound, deg) = if args.is_empty() { continue } else { attempt(|| s.estimate(op, &u, c, &args)).unwrap_or((1., 1.)) };
            let size: usize = args.iter().map(|&p| s.nfo(p).size()).sum::<usize>().max(1);
            let grow = match op {
                "broadcast" => 3,
                "pick" | "batch_pick" => 3,
                _ => 1,
            };
            if size * grow > 48 || bound * deg * 60. > 1e6 || deg > 5. {
                continue;
            }
            let how = if s.all().len() > args.len() + 1 && r.chance(1, 6) { 2 + r.u(0, 3) } else if probes { r.u(0, 3).min(1) } else { 0 };
            let (from, parts) = (args[0], if op == "split" && !nz { u[1] as usize } else { 0 });
            let dim = u.first().cloned().unwrap_or(0);
            let did = s.op(op, u, c, args, how, noise, out);
            let made = s.nodes.len() - 1;
            if did && parts > 1 && s.nodes[made].len() == parts && s.nodes[from.0][from.1].is_some() && r.chance(1, 3) {
                // the parts, put together again (some of them not), next to the whole
                let skip = if r.chance(1, 2) { 0 } else { r.u(0, parts as u32 - 1) as usize };
                let again: Vec<(usize, usize)> = (0..parts).map(|k| (made, if k == skip { 0 } else { k })).collect();
                s.op("concat", vec![dim], 0, again, 0, false, out);
                let whole = (s.nodes.len() - 1, 0);
                let (bound, _) = attempt(|| s.estimate("add", &[], 0, &[whole, from])).unwrap_or((1e9, 9.));
                if bound < 1e4 {
                    s.op("add", vec![], 0, vec![whole, from], 0, false, out);
                }
            }
        }
        // requests in the middle of construction
        if r.chance(1, 6) {
            let p = *r.pick(&s.all());
            let how = r.u(0, 4);
            s.get(p, how, out);
        }
        if left > 0 && r.chance(1, early) {
            let p = *r.pick(&s.all());
            if s.can_back(p) {
                left -= 1;
                s.back(p, out);
            }
        }
        if r.chance(1, 10) && s.all().len() > 3 {
            // drop a handle; what depends on it stays
            let p = *r.pick(&s.all());
            if p.0 >= 1 {
                s.nodes[p.0][p.1] = None;
            }
        }
    }
    for _ in 0..r.u(0, 3) {
        let p = *r.pick(&s.all());
        let how = r.u(0, 4);
        s.get(p, how, out);
    }
    let mut tries = 0;
    while left > 0 && tries < 20 {
        tries += 1;
        let all = s.all();
        let p = if r.chance(2, 3) { all[all.len() - 1] } else { *r.pick(&all) };
        if s.can_back(p) {
            left -= 1;
            s.back(p, out);
            if r.chance(1, 3) {
                let p = *r.pick(&s.all());
                s.get(p, 0, out);
            }
        }
    }
    if a.num("reads", 0) == 1 {
        for p in s.all() {
            s.get(p, 0, out);
        }
        if real {
            s.pairs(out);
        }
    }
    s.end(out);
}

fn replay(dev: Dev, v: &Value, out: &mut Out, r: &mut Rng) {
    let mut s = Sess::new(dev);
    out.ev(json!({"k": "new"}));
    for _ in 0..v["leaves"].as_u64().unwrap() {
        let n = r.u(1, 2);
        let _ = n;
        s.leaf("par", T { d: vec![2], b: 1, v: Data::V(vec![r.range(-3, 3), r.range(1, 3)]) }, &[1, -2], out);
    }
    for st in v["steps"].as_array().unwrap() {
        match st["a"].as_str().unwrap() {
            "op" => {
                let args: Vec<(usize, usize)> =
                    st["args"].as_array().unwrap().iter().map(|p| (p[0].as_u64().unwrap() as usize - 1, p[1].as_u64().unwrap() as usize - 1)).collect();
                let m = st["n"].as_u64().unwrap();
                let mut u = vec![];
                for j in 1..=m as u32 {
                    for k in 1..=args.len() as u32 {
                        u.push(2 * j + k - 2 + 4);
                    }
                }
                s.op("probe", u, 0, args, 1, true, out);
            }
            w => {
                let p = (st["o"].as_u64().unwrap() as usize - 1, st["i"].as_u64().unwrap() as usize - 1);
                if w == "get" {
                    s.get(p, 0, out)
                } else {
                    s.back(p, out)
                }
            }
        }
    }
    s.end(out);
}

pub fn run(a: &Args) {
    let dev = naive();
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let mut r = Rng::new(a.seed);
    if let Some(f) = a.get("in") {
        let shard = a.num("shard", 0) as usize;
        let shards = a.num("shards", 1) as usize;
        for (i, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            if i % shards == shard {
                let v: Value = serde_json::from_str(line).unwrap();
                out.intent(&intent, &v);
                replay(dev, &v, &mut out, &mut r);
            }
        }
    } else if a.num("threads", 1) > 1 {
        // sessions of several threads on one device
        let th = a.num("threads", 1);
        let n = a.num("n", 100) / th;
        let rounds = 8;
        out.intent(&intent, &json!({"threads": th, "seed": a.seed}));
        for round in 0..rounds {
            std::thread::scope(|sc| {
                for t in 0..th {
                    sc.spawn(move || {
                        let mut r = Rng::new(a.seed * 1000 + round * 16 + t);
                        let mut part = Out::new(&format!("{}.{}", a.out, t));
                        for _ in 0..n / rounds {
                            sample(a, &mut r, dev, &mut part);
                        }
                    });
                }
            });
            for t in 0..th {
                let p = format!("{}.{}", a.out, t);
                for line in std::fs::read_to_string(&p).unwrap().lines() {
                    out.ev(serde_json::from_str(line).unwrap());
                }
                std::fs::remove_file(&p).unwrap();
            }
        }
    } else {
        for i in 0..a.num("n", 100) {
            out.intent(&intent, &json!({"session": i, "seed": a.seed}));
            sample(a, &mut r, dev, &mut out);
        }
    }
    let _ = std::fs::remove_file(&intent);
}
#[allow(dead_code)]
fn unused(_: &Device) {}
