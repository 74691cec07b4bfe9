//! Histories with rejected and failing calls, beside a twin that never sees a fault.
use crate::d_devices::names;
use crate::d_ops::{list, naive};
use crate::gen::*;
use crate::guard::*;
use crate::ops::*;
use crate::util::*;
use crate::Args;
use prima_undine::device_impl::{FunctionBwImpl, FunctionFwF32Impl, FunctionFwImpl, FunctionFwU32Impl};
use prima_undine::functions::*;
use prima_undine::{initializers as I, optimizers as O};
use prima_undine::{Device, Initializer, Node, Optimizer, OptimizerBase, Parameter, Shape, Tensor};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::AtomicPtr;
use std::sync::{Arc, Mutex};

type Tn = Tensor<'static>;
type Pa = Parameter<'static>;

#[derive(Default)]
struct Trip {
    fail_in: Option<u32>,
    fired: u32,
}
/// A kernel that fails when told to, before it does anything.
struct K {
    kind: usize,
    name: &'static str,
    inner: Dev,
    trip: Arc<Mutex<Trip>>,
}
impl K {
    fn trip(&self) {
        let mut t = self.trip.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(n) = t.fail_in {
            if n == 0 {
                t.fail_in = None;
                t.fired += 1;
                drop(t);
                panic!("the kernel {} failed", self.name);
            }
            t.fail_in = Some(n - 1);
        }
    }
}
impl FunctionFwImpl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        self.trip();
        self.inner.call_fw_impl(self.name, xs, u, f, ys);
    }
}
impl FunctionFwU32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [u32]) {
        self.trip();
        self.inner.call_fw_u32_impl(self.name, xs, u, f, ys);
    }
}
impl FunctionFwF32Impl for K {
    fn call(&self, xs: &[&Tensor], u: &[u32], f: &[f32], ys: &mut [f32]) {
        self.trip();
        self.inner.call_fw_f32_impl(self.name, xs, u, f, ys);
    }
}
impl FunctionBwImpl for K {
    fn call(&self, xs: &[&Tensor], ys: &[&Tensor], gys: &[&Tensor], u: &[u32], f: &[f32], gx: &mut Tensor) {
        self.trip();
        self.inner.call_bw_impl(self.name, xs, ys, gys, u, f, gx);
    }
}

enum Opt {
    S(O::SGD),
    M(O::MomentumSGD),
    A(O::Adam),
}
macro_rules! opt {
    ($o:expr, |$x:ident| $e:expr) => {
        match $o {
            Opt::S($x) => $e,
            Opt::M($x) => $e,
            Opt::A($x) => $e,
        }
    };
}

struct W {
    dev: *mut Device<'static>,
    guard: Guard,
    trip: Arc<Mutex<Trip>>,
    ts: Vec<Option<Box<Tn>>>,
    ps: Vec<Box<Pa>>,
    opt: Opt,
}
impl W {
    fn new(inner: Dev, which: u64) -> W {
        let guard = Guard::new();
        let trip = Arc::new(Mutex::new(Trip::default()));
        let mut dev = guard.device();
        for kind in 0..4 {
            for name in names(kind) {
                let k = K { kind, name, inner, trip: Arc::clone(&trip) };
                match k.kind {
                    0 => dev.register_fw_impl(name, k),
                    1 => dev.register_fw_u32_impl(name, k),
                    2 => dev.register_fw_f32_impl(name, k),
                    _ => dev.register_bw_impl(name, k),
                }
            }
        }
        let opt = match which {
            0 => Opt::S(O::SGD::new(0.5)),
            1 => Opt::M(O::MomentumSGD::new(0.5, 0.5)),
            _ => Opt::A(O::Adam::new(0.5, 0.5, 0.5, 0.125)),
        };
        W { dev: Box::into_raw(Box::new(dev)), guard, trip, ts: vec![], ps: vec![], opt }
    }
    fn dev(&self) -> Dev {
        unsafe { &*self.dev }
    }
    fn bits(&self, t: &Tensor) -> Option<Vec<u32>> {
        let b = self.guard.block_of(t)?;
        let st = self.guard.st();
        let n = t.shape().size() as usize;
        let mut v: Vec<u32> = st.blocks[b].store[ZONE..ZONE + n].iter().map(|x| x.to_bits()).collect();
        v.push(t.shape().batch());
        v.extend(t.shape().dims());
        if st.blocks[b].returned > 0 {
            v.push(0xdead);
        }
        Some(v)
    }
    fn arm(&self, f: Fault) {
        self.guard.st().fail_in = if let Fault::Alloc(n) = f { Some(n) } else { None };
        let mut t = self.trip.lock().unwrap_or_else(|e| e.into_inner());
        t.fail_in = if let Fault::Kernel(n) = f { Some(n) } else { None };
    }
    /// how many faults have struck; disarms what has not
    fn disarm(&self) -> u64 {
        let mut st = self.guard.st();
        st.fail_in = None;
        let mut t = self.trip.lock().unwrap_or_else(|e| e.into_inner());
        t.fail_in = None;
        st.failures + t.fired as u64
    }
    fn stat_names(&self, p: usize) -> Vec<String> {
        let mut n: Vec<String> = self.ps[p].stats.keys().cloned().collect();
        n.sort();
        n
    }
}
impl Drop for W {
    fn drop(&mut self) {
        self.ts.clear();
        self.ps.clear();
        drop(unsafe { Box::from_raw(self.dev) });
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Alloc(u32),
    Kernel(u32),
}

#[derive(Default)]
struct Names(HashMap<Vec<u32>, i64>);
impl Names {
    fn id(&mut self, v: Option<Vec<u32>>) -> i64 {
        match v {
            None => 0,
            Some(v) => {
                let n = self.0.len() as i64 + 1;
                *self.0.entry(v).or_insert(n)
            }
        }
    }
    fn tensor(&mut self, w: &W, t: &Tensor) -> i64 {
        let b = w.bits(t);
        self.id(b)
    }
    /// contents of tensors; per parameter: value, gradient and up to two statistics; the epoch
    fn all(&mut self, w: &mut W) -> Value {
        let ts: Vec<i64> = (0..w.ts.len()).map(|i| w.ts[i].as_ref().map(|t| w.bits(t))).map(|b| b.map(|b| self.id(b)).unwrap_or(-1)).collect();
        let mut ps = vec![];
        for i in 0..w.ps.len() {
            ps.push(self.param(w, i));
        }
        let e = opt!(&mut w.opt, |o| *o.epoch());
        json!({"ts": ts, "ps": ps, "e": e})
    }
    fn param(&mut self, w: &W, i: usize) -> Vec<i64> {
        let p = unsafe { &*(&*w.ps[i] as *const Pa) };
        let mut v = vec![self.tensor(w, &p.value), self.tensor(w, &p.gradient)];
        let names = w.stat_names(i);
        for j in 0..2 {
            v.push(names.get(j).map(|n| self.tensor(w, &p.stats[n].borrow())).unwrap_or(0));
        }
        v
    }
}

/// Blocks of everything that lives: no block may occur twice.
fn blocks(w: &W) -> Vec<i64> {
    let mut v = vec![];
    let mut add = |t: &Tensor| {
        if let Some(b) = w.guard.block_of(t) {
            v.push(b as i64);
        }
    };
    for t in w.ts.iter().flatten() {
        add(t);
    }
    for p in &w.ps {
        add(&p.value);
        add(&p.gradient);
        for s in p.stats.values() {
            add(&s.borrow());
        }
    }
    v
}

struct AssertSend<T>(T);
unsafe impl<T> Send for AssertSend<T> {}
fn elsewhere<R>(thread: bool, f: impl FnOnce() -> R) -> R {
    if !thread {
        return f();
    }
    let f = AssertSend(f);
    std::thread::scope(|s| {
        s.spawn(move || {
            let f = f;
            AssertSend((f.0)())
        })
        .join()
        .unwrap_or_else(|_| panic!("HARNESS-ERROR: a thread died"))
        .0
    })
}

/// A call that leaves nothing half done.
#[derive(Clone, Debug)]
enum Do {
    Op(Case),
    Assign(usize, usize, u8),
    Scale(usize),
    Reset(usize, i64),
    New(Vec<u32>, u32, i64),
    NewBad(Vec<u32>, u32, i64), // as many values too few or too many
    ResetBy(usize, i64), // from a slice, as many values too few or too many
    Copy(usize),
    Alloc(usize),
    Refer(usize, usize),
    Replace(usize, usize),
    Reshape(usize, Vec<u32>, u32),
    Drop(usize),
    Random(u8, Vec<u32>),
    Param(u8, Vec<u32>, u32),
    AddStat(usize),
    ResetGrad(usize),
    Release(u64),
    MoveBad(Vec<u32>, u32, usize),
    Read(usize),
    Arg(usize, u32),
    Set(u8, i64),
}

unsafe fn whole<'x>(at: usize) -> &'x mut Pa {
    &mut *(at as *mut Pa)
}

fn tensor_of(w: &W, i: usize) -> &'static Tn {
    let b: &Tn = w.ts[i].as_ref().unwrap();
    unsafe { &*(b as *const Tn) }
}

/// Performs the call; what it returned is described by numbers.
fn perform(w: &mut W, d: &Do, xs: Vec<Tn>) -> Result<Vec<u32>, String> {
    let dev = w.dev();
    let tm = |w: &mut W, i: usize| -> &'static mut Tn {
        let b: &mut Tn = w.ts[i].as_mut().unwrap();
        unsafe { &mut *(b as *mut Tn) }
    };
    let mut made: Vec<Tn> = vec![];
    let mut param: Option<Pa> = None;
    let r = attempt(|| -> Vec<u32> {
        match d {
            Do::Op(c) => {
                let xr: Vec<&Tn> = if c.alias { vec![&xs[0], &xs[0]] } else { xs.iter().collect() };
                made = apply_ref_t(&c.op, &c.u, c.k(), c.c, &xr);
            }
            Do::Assign(i, j, k) => {
                let y = tensor_of(w, *j);
                let x = tm(w, *i);
                match k {
                    0 => *x += y,
                    _ => *x -= y,
                }
            }
            Do::Scale(i) => *tm(w, *i) *= 0.5,
            Do::Reset(i, k) => tm(w, *i).reset(*k as f32),
            Do::New(dm, b, k) => made.push(dev.new_tensor_by_constant(Shape::new(dm, *b), *k as f32)),
            Do::NewBad(dm, b, k) => {
                let s = Shape::new(dm, *b);
                made.push(dev.new_tensor_by_slice(s, &vec![1.; (s.size() as i64 + k) as usize]));
            }
            Do::ResetBy(i, k) => {
                let x = tm(w, *i);
                let n = (x.shape().size() as i64 + k).max(0);
                let v: Vec<f32> = (0..n).map(|j| 6. - j as f32).collect();
                dev.reset_tensor_by_slice(x, &v);
            }
            Do::Copy(i) => made.push(dev.copy_tensor(tensor_of(w, *i))),
            Do::Alloc(i) => tm(w, *i).alloc(),
            Do::Refer(i, j) => {
                let o = tensor_of(w, *j);
                tm(w, *i).refer(o);
            }
            Do::Replace(i, k) => {
                let n = dev.new_tensor_by_constant(Shape::new(&[1 + *k as u32], 1), 4.);
                tm(w, *i).replace(n);
            }
            Do::Reshape(i, dm, b) => made.push(tensor_of(w, *i).reshape(Shape::new(dm, *b))),
            Do::Drop(i) => {
                w.ts[*i] = None;
            }
            Do::Random(k, dm) => {
                let s = Shape::new(dm, 1);
                made.push(match k {
                    0 => dev.random_bernoulli(s, 1.),
                    1 => dev.random_bernoulli(s, 0.),
                    2 => dev.random_bernoulli(s, 1.5),
                    3 => dev.random_normal(s, 2., 0.),
                    4 => dev.random_normal(s, 0., -1.),
                    5 => dev.random_uniform(s, 1., 1.),
                    6 => dev.random_uniform(s, 2., -1.),
                    _ => dev.random_uniform(s, f32::NAN, 1.),
                });
            }
            Do::Param(k, dm, b) => {
                let i: Box<dyn Initializer> = match k {
                    0 => Box::new(I::Constant::new(0.5)),
                    1 => Box::new(I::Constant::new(-1.)),
                    2 => Box::new(I::Uniform::new(3., 2.)),
                    3 => Box::new(I::Normal::new(0., -1.)),
                    _ => Box::new(I::Normal::new(0.25, 0.)),
                };
                param = Some(dev.new_parameter(Shape::new(dm, *b), &*i));
            }
            Do::AddStat(i) => {
                let s = w.ps[*i].shape();
                let n = w.stat_names(*i);
                // the second one of the same name is refused
                w.ps[*i].add_stat(n.first().map(|s| s.as_str()).unwrap_or("a.first"), s);
            }
            Do::ResetGrad(i) => w.ps[*i].reset_gradient(),
            Do::Release(x) => {
                let h = AtomicPtr::new((*x as usize * 64 + 64) as *mut c_void);
                dev.drop_handle(&h);
            }
            Do::MoveBad(dm, b, n) => {
                let mut t = Tensor::new_host_tensor(Shape::new(dm, *b), vec![1.; *n]);
                t.move_to_device(dev);
                made.push(t);
            }
            Do::Read(i) => return tensor_of(w, *i).to_vec().iter().map(|x| x.to_bits()).collect(),
            Do::Arg(i, ax) => return tensor_of(w, *i).argmax(*ax),
            Do::Set(k, v) => {
                let v = *v as f32;
                opt!(&mut w.opt, |o| match k {
                    0 => o.set_weight_decay(v),
                    1 => o.set_gradient_clipping(v),
                    _ => o.set_learning_rate_scaling(v),
                })
            }
        }
        vec![]
    });
    let made_bits = made.iter().flat_map(|t| w.bits(t).unwrap_or(vec![7])).collect::<Vec<u32>>();
    let r = r.map(|mut v| {
        v.extend(made_bits);
        v
    });
    if r.is_ok() {
        w.ts.extend(made.into_iter().map(|t| Some(Box::new(t))));
        if let Some(p) = param {
            w.ps.push(Box::new(p));
        }
    }
    drop(xs);
    r
}

/// Makes parameter `i` and the epoch of the twin what they are in the real one.
fn resync(a: &mut W, b: &mut W) {
    for i in 0..a.ps.len() {
        let (n, m) = (a.stat_names(i), b.stat_names(i));
        let (dev, d2) = (b.dev(), a.dev());
        let (p, q) = (&a.ps[i], &mut b.ps[i]);
        let get = |t: &Tensor| d2.tensor_to_vector(t);
        dev.reset_tensor_by_slice(&mut q.value, &get(&p.value));
        dev.reset_tensor_by_slice(&mut q.gradient, &get(&p.gradient));
        for x in m {
            if !n.contains(&x) {
                q.stats.remove(&x);
            }
        }
        for x in &n {
            let v = get(&p.stats[x].borrow());
            dev.reset_tensor_by_slice(&mut q.stats[x].borrow_mut(), &v);
        }
    }
    let e = opt!(&mut a.opt, |o| *o.epoch());
    opt!(&mut b.opt, |o| *o.epoch() = e);
}

fn emit(out: &mut Out, nm: &mut Names, w: &str, fault: Fault, fired: bool, a: &mut W, b: &mut W, rest: Value) {
    let mut o = json!({
        "k": "call", "w": w, "fault": format!("{:?}", fault), "fired": fired as u8,
        "obs": nm.all(a), "twin": nm.all(b), "blocks": blocks(a),
        "bad": a.guard.counts().2,
    });
    for (k, v) in rest.as_object().unwrap() {
        o[k.as_str()] = v.clone();
    }
    out.ev(o);
}

fn shape(r: &mut Rng) -> (Vec<u32>, u32) {
    (r.pick(&[vec![], vec![2], vec![2, 2], vec![3], vec![70], vec![65], vec![4]]).clone(), *r.pick(&[1, 1, 2]))
}
fn some_fault(r: &mut Rng, most: u32) -> Fault {
    match r.below(5) {
        0 | 1 => Fault::None,
        2 => Fault::Alloc(r.u(0, 3.min(most))),
        _ => Fault::Kernel(r.u(0, most)),
    }
}

fn random_do(r: &mut Rng, a: &W, ops: &[&'static str]) -> Do {
    let live: Vec<usize> = (0..a.ts.len()).filter(|&i| a.ts[i].is_some()).collect();
    loop {
        let (dm, b) = shape(r);
        let t = |r: &mut Rng| *r.pick(&live);
        if live.is_empty() || r.chance(1, 6) {
            return if r.chance(1, 4) { Do::NewBad(dm, b, *r.pick(&[-1, 1])) } else { Do::New(dm, b, r.range(-3, 3)) };
        }
        return match r.below(26) {
            0..=6 => {
                let op = *r.pick(ops);
                if op.ends_with("assign") || op.starts_with("arg") || op.starts_with("dropout") {
                    continue;
                }
                let alias = matches!(op, "add" | "sub" | "mul" | "div" | "pow" | "concat") && r.chance(1, 5);
                Do::Op(case(r, op, Opts { size: Size::Small, grad: true, noise: 40, alias }))
            }
            7..=9 => {
                let (i, j) = (t(r), t(r));
                if i == j {
                    continue;
                }
                Do::Assign(i, j, r.below(2) as u8)
            }
            10 => Do::Scale(t(r)),
            11 => {
                if r.chance(1, 2) {
                    Do::Reset(t(r), r.range(-5, 5))
                } else {
                    Do::ResetBy(t(r), *r.pick(&[0, -1, -1, 1, 1, -64, 3]))
                }
            }
            12 => Do::Copy(t(r)),
            13 => Do::Alloc(t(r)),
            14 => {
                let (i, j) = (t(r), t(r));
                if i == j {
                    continue;
                }
                Do::Refer(i, j) // refused: the target holds memory
            }
            15 => Do::Replace(t(r), r.below(4) as usize),
            16 => Do::Reshape(t(r), dm, b),
            17 => {
                if live.len() < 6 {
                    continue;
                }
                Do::Drop(t(r))
            }
            18 => Do::Random(r.below(8) as u8, dm),
            19 => {
                if a.ps.len() > 4 {
                    continue;
                }
                Do::Param(r.below(5) as u8, dm, b)
            }
            20 => {
                if a.ps.is_empty() {
                    continue;
                }
                let i = r.below(a.ps.len() as u64) as usize;
                if r.chance(1, 2) || a.stat_names(i).is_empty() {
                    Do::ResetGrad(i)
                } else {
                    Do::AddStat(i)
                }
            }
            21 => Do::Release(r.below(100)),
            22 => {
                let n = Shape::new(&dm, b).size() as usize;
                let n = if r.chance(1, 3) { n } else { n + 1 };
                Do::MoveBad(dm, b, n)
            }
            23 => Do::Read(t(r)),
            24 => Do::Arg(t(r), r.u(0, 2)),
            _ => Do::Set(r.below(3) as u8, *r.pick(&[0, 1, -1])),
        };
    }
}

fn single(a: &mut W, b: &mut W, nm: &mut Names, d: &Do, fault: Fault, thread: bool, out: &mut Out) {
    let what = format!("{:?}", d);
    let what = what.split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string();
    let what = if let Do::Op(c) = d { format!("op:{}", c.op) } else { what };
    let make = |w: &W| -> Vec<Tn> {
        match d {
            Do::Op(c) => c.xs.iter().map(|x| x.tensor(w.dev(), c.sx)).collect(),
            _ => vec![],
        }
    };
    let (xa, xb) = (make(a), make(b));
    let before = a.disarm();
    a.arm(fault);
    let ra = elsewhere(thread, || perform(a, d, xa));
    let fired = a.disarm() > before;
    // after a fault the twin carries out the call only if the real one got over it
    let rb = if fired && ra.is_err() { None } else { Some(perform(b, d, xb)) };
    let (tok, tres) = match &rb {
        None => (2, 0),
        Some(Ok(v)) => (1, nm.id(Some(v.clone()))),
        Some(Err(_)) => (0, 0),
    };
    let res = ra.as_ref().ok().map(|v| nm.id(Some(v.clone()))).unwrap_or(0);
    let err: String = ra.as_ref().err().map(|e| e.chars().take(80).collect()).unwrap_or_default();
    emit(out, nm, &what, fault, fired, a, b, json!({"kind": "single", "ok": ra.is_ok() as u8, "tok": tok, "res": res, "tres": tres, "err": err}));
}

/// Configuring or updating all parameters.
fn batch(a: &mut W, b: &mut W, nm: &mut Names, update: bool, fault: Fault, thread: bool, out: &mut Out) {
    fn go(w: &mut W, update: bool) -> Result<(), String> {
        let mut refs: Vec<&mut Parameter> = w.ps.iter_mut().map(|p| &mut **p).collect();
        let opt = &mut w.opt;
        attempt(|| opt!(opt, |o| if update { o.update_parameters(&mut refs) } else { o.configure_parameters(&mut refs) }))
    }
    let loose = opt!(&a.opt, |o| o.get_weight_decay() > 0. || o.get_gradient_clipping() > 0.);
    let before = a.disarm();
    a.arm(fault);
    let ra = elsewhere(thread, || go(a, update));
    let fired = a.disarm() > before;
    let rb = go(b, update);
    let full = nm.all(b);
    if fired && ra.is_err() {
        resync(a, b);
    }
    // statistics that configuring gives to a new parameter and that some parameter lacks
    let mut short = 0;
    if !update && ra.is_ok() {
        let mut fresh = b.dev().new_parameter(Shape::new(&[2], 1), &I::Constant::new(1.));
        opt!(&b.opt, |o| o.configure_parameter(&mut fresh));
        for p in a.ps.iter() {
            short += fresh.stats.keys().filter(|n| !p.stats.contains_key(*n)).count();
        }
    }
    let err: String = ra.as_ref().err().map(|e| e.chars().take(80).collect()).unwrap_or_default();
    emit(out, nm, if update { "update" } else { "configure" }, fault, fired, a, b, json!({"kind": "batch", "loose": loose as u8, "ok": ra.is_ok() as u8, "tok": rb.is_ok() as u8, "full": full, "short": short, "res": 0, "tres": 0, "err": err}));
}

/// A graph over tensors and parameters, evaluated and back-propagated with faults in between.
fn session(a: &mut W, b: &mut W, nm: &mut Names, r: &mut Rng, script: Option<Vec<(u8, Fault)>>, out: &mut Out) {
    let vals: Vec<Vec<f32>> = (0..2).map(|_| (0..4).map(|_| r.range(-4, 4) as f32 / 4.).collect()).collect();
    let nops = r.u(2, 8) as usize;
    let prog: Vec<(u64, u64, u64)> = (0..nops).map(|_| (r.below(12), r.below(100), r.below(100))).collect();
    // parameters of this graph, made here so that their shape fits
    let n0 = a.ps.len();
    let pv: Vec<Vec<f32>> = (0..2).map(|_| (0..4).map(|_| r.range(-4, 4) as f32 / 4.).collect()).collect();
    for w in [&mut *a, &mut *b] {
        for v in &pv {
            let s = Shape::new(&[2, 2], 1);
            let p = Parameter::new(w.dev().new_tensor_by_slice(s, v), w.dev().new_tensor_by_constant(s, 0.5));
            w.ps.push(Box::new(p));
        }
    }
    emit(out, nm, "enter", Fault::None, false, a, b, json!({"kind": "other", "ok": 1, "tok": 1, "res": 0, "tres": 0, "err": "", "nv": [], "tnv": []}));
    fn build<'x>(w: &W, leaves: &'x [Tn], n0: usize, prog: &[(u64, u64, u64)]) -> (Vec<Node<'x, 'static>>, usize) {
        let mut ns: Vec<Node<'x, 'static>> = leaves.iter().map(|t| Node::from(t)).collect();
        for p in &w.ps[n0..] {
            // the graph and the harness look at the parameter in turns
            let p: &'x mut Pa = unsafe { whole(&**p as *const Pa as usize) };
            ns.push(Node::from(p));
        }
        // outputs of one operation, requested by themselves
        let mut parts = vec![];
        for &(op, i, j) in prog {
            let n = ns.len() as u64;
            let (x, y) = (&ns[(i % n) as usize], &ns[(j % n) as usize]);
            let mut new = match op {
                0 => vec![x + y],
                1 => vec![x - y],
                2 => vec![x * y],
                3 => vec![x.matmul(y)],
                4 => vec![x.tanh()],
                5 => vec![x.sigmoid()],
                6 => vec![x.sum(0).broadcast(0, 2)],
                7 => {
                    let mut v = x.split(0, 2);
                    let (p, q) = (v.remove(0), v.remove(0));
                    let y = Node::concat(&[&q, &p], 0);
                    parts.append(&mut vec![p, q]);
                    vec![y]
                }
                8 => vec![x.transpose()],
                9 => vec![x * 0.5 + y],
                10 => vec![x.logsumexp(1).broadcast(1, 2)],
                _ => vec![-x],
            };
            ns.append(&mut new);
        }
        let np = parts.len();
        ns.append(&mut parts);
        (ns, np)
    }
    let leaf = |w: &W| -> Vec<Tn> { vals.iter().map(|v| w.dev().new_tensor_by_slice(Shape::new(&[2, 2], 1), v)).collect() };
    let (la, lb) = (leaf(a), leaf(b));
    {
        let ((na, np), (nb, _)) = (build(a, &la, n0, &prog), build(b, &lb, n0, &prog));
        let script = script.unwrap_or_else(|| (0..r.u(2, 8)).map(|_| (r.below(8) as u8, some_fault(r, 12))).collect());
        let mut i = na.len() - 1;
        for (what, fault) in script {
            // often the same again
            if r.chance(1, 2) {
                i = if r.chance(1, 2) { na.len() - 1 } else { r.below(na.len() as u64) as usize };
            }
            let before = a.disarm();
            a.arm(fault);
            let run = |ns: &[Node<'_, 'static>], w: u8| -> Result<Vec<u32>, String> {
                attempt(|| match w {
                    0..=2 => ns[i].to_vec().iter().map(|x| x.to_bits()).collect(),
                    3..=5 => {
                        ns[i].backward();
                        vec![]
                    }
                    6 => {
                        // a graph that cannot be built
                        let x = ns[i].slice(0, 0, 1);
                        let y = x.matmul(&ns[0]).matmul(&x);
                        vec![y.shape().size()]
                    }
                    _ => ns[i].argmax(0),
                })
            };
            let ra = run(&na, what);
            let fired = a.disarm() > before;
            let rb = run(&nb, what);
            let full = nm.all(b);
            if fired && ra.is_err() {
                for p in 0..a.ps.len() {
                    let v = a.dev().tensor_to_vector(&a.ps[p].gradient);
                    let dev = b.dev();
                    dev.reset_tensor_by_slice(&mut b.ps[p].gradient, &v);
                }
            }
            let values = |nm: &mut Names, w: &W, ns: &[Node<'_, 'static>]| -> Vec<i64> { ns.iter().map(|n| nm.tensor(w, &n.inner_value())).collect() };
            let (nv, tnv) = (values(nm, a, &na), values(nm, b, &nb));
            let res = ra.as_ref().ok().map(|v| nm.id(Some(v.clone()))).unwrap_or(0);
            let tres = rb.as_ref().ok().map(|v| nm.id(Some(v.clone()))).unwrap_or(0);
            let err: String = ra.as_ref().err().map(|e| e.chars().take(80).collect()).unwrap_or_default();
            let name = ["value", "value", "value", "backward", "backward", "backward", "misbuild", "argmax"][what as usize];
            emit(out, nm, name, fault, fired, a, b, json!({"kind": "graph", "ok": ra.is_ok() as u8, "tok": rb.is_ok() as u8, "full": full, "res": res, "tres": tres, "err": err, "nv": nv, "tnv": tnv, "np": np}));
        }
    }
    drop((la, lb));
    if r.chance(1, 2) {
        for w in [&mut *a, &mut *b] {
            w.ps.truncate(n0);
        }
    }
    emit(out, nm, "leave", Fault::None, false, a, b, json!({"kind": "other", "ok": 1, "tok": 1, "res": 0, "tres": 0, "err": "", "nv": [], "tnv": []}));
}

pub fn run(args: &Args) {
    let mut out = Out::new(&args.out);
    let intent = format!("{}.intent", args.out);
    let mut r = Rng::new(args.seed);
    let inner = naive();
    let ops = list("all");
    let mut begin = |r: &mut Rng, out: &mut Out| {
        let which = r.below(3);
        out.ev(json!({"k": "begin"}));
        (W::new(inner, which), W::new(inner, which), Names::default())
    };
    let end = |a: W, b: W, out: &mut Out| {
        let (ga, gb) = (a.guard.clone(), b.guard.clone());
        drop(a);
        drop(b);
        let count = |g: &Guard| {
            let st = g.st();
            (st.blocks.len(), st.blocks.iter().filter(|b| b.returned == 1).count(), st.bad_returns)
        };
        let (x, y) = (count(&ga), count(&gb));
        out.ev(json!({"k": "end", "blocks": x.0, "once": x.1, "bad": x.2, "tblocks": y.0, "tonce": y.1}));
    };
    if let Some(file) = args.get("in") {
        let (shards, shard, den) = (args.num("shards", 1), args.num("shard", 0), args.num("den", 1));
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let h = line.bytes().fold(0xcbf29ce484222325 ^ (args.seed / 1009), |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            let h = h ^ (h >> 29);
            if h % shards != shard || (h / shards) % den != 0 {
                continue;
            }
            let v: Value = serde_json::from_str(line).unwrap();
            let (mut a, mut b, mut nm) = begin(&mut r, &mut out);
            for s in v["ops"].as_array().unwrap() {
                let fault = match s["f"].as_str().unwrap() {
                    "alloc" => Fault::Alloc(s["n"].as_u64().unwrap() as u32),
                    "kernel" => Fault::Kernel(s["n"].as_u64().unwrap() as u32),
                    _ => Fault::None,
                };
                let bad = s["f"] == "bad";
                let first = (0..a.ts.len()).find(|&i| a.ts[i].is_some());
                match (s["a"].as_str().unwrap(), first) {
                    ("make", _) => single(&mut a, &mut b, &mut nm, &if bad { Do::NewBad(vec![2], 1, 1) } else { Do::New(vec![2], 1, 1) }, fault, false, &mut out),
                    ("inplace", Some(i)) => single(&mut a, &mut b, &mut nm, &if !bad { Do::Scale(i) } else if r.chance(1, 2) { Do::Alloc(i) } else { Do::ResetBy(i, *r.pick(&[-1, 1])) }, fault, false, &mut out),
                    ("drop", Some(i)) => single(&mut a, &mut b, &mut nm, &if bad { Do::Release(7) } else { Do::Drop(i) }, fault, false, &mut out),
                    ("train", _) => {
                        let again = |k: u8, f| vec![(0, Fault::None), (k, f), (3, Fault::None), (0, Fault::None)];
                        session(&mut a, &mut b, &mut nm, &mut r, Some(if bad { again(6, Fault::None) } else { again(3, fault) }), &mut out)
                    }
                    ("eval", _) => session(&mut a, &mut b, &mut nm, &mut r, Some(vec![(if bad { 6 } else { 0 }, fault), (3, Fault::None), (0, Fault::None)]), &mut out),
                    ("configure", _) => batch(&mut a, &mut b, &mut nm, false, fault, false, &mut out),
                    ("update", _) => batch(&mut a, &mut b, &mut nm, true, fault, false, &mut out),
                    _ => {}
                }
            }
            end(a, b, &mut out);
        }
        return;
    }
    for _ in 0..args.num("rounds", 4) {
        let (mut a, mut b, mut nm) = begin(&mut r, &mut out);
        for step in 0..args.num("steps", 60) {
            out.intent(&intent, &json!({"k": "faults", "seed": args.seed, "step": step}));
            let thread = r.chance(1, 4);
            match r.below(if args.num("graph", 0) > 0 { 1 } else { 15 }) {
                0 => session(&mut a, &mut b, &mut nm, &mut r, None, &mut out),
                1 | 2 if !a.ps.is_empty() => {
                    let f = some_fault(&mut r, 3 * a.ps.len() as u32);
                    batch(&mut a, &mut b, &mut nm, false, f, thread, &mut out)
                }
                3..=5 if !a.ps.is_empty() => {
                    let f = some_fault(&mut r, 12 * a.ps.len() as u32);
                    batch(&mut a, &mut b, &mut nm, true, f, thread, &mut out)
                }
                _ => {
                    let d = random_do(&mut r, &a, &ops);
                    let f = some_fault(&mut r, 3);
                    single(&mut a, &mut b, &mut nm, &d, f, thread, &mut out)
                }
            }
        }
        end(a, b, &mut out);
    }
    let _ = std::fs::remove_file(&intent);
}
