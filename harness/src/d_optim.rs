//! Histories of optimizers and parameters.
use crate::util::*;
use crate::Args;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{devices, initializers, Device, Optimizer, OptimizerBase, Parameter, Shape};
use serde_json::{json, Map, Value};

pub enum Opt {
    S(SGD),
    M(MomentumSGD),
    A(Adam),
}
macro_rules! with {
    ($o:expr, $x:ident => $e:expr) => {
        match $o {
            Opt::S($x) => $e,
            Opt::M($x) => $e,
            Opt::A($x) => $e,
        }
    };
}
type Q = (i64, i64);
fn f(q: Q) -> f32 {
    if q.0 == 0 { 0. } else { q.0 as f32 / q.1 as f32 }
}
fn jq(q: Q) -> Value {
    json!([q.0, q.1])
}
/// A new optimizer with random hyper-parameters and what the specification is told of it.
pub fn new_opt(kind: &str, r: &mut Rng) -> (Opt, Value) {
    let k16 = |r: &mut Rng, lo: i64, hi: i64| -> Q { (r.range(lo, hi), 16) };
    let rate = |r: &mut Rng| -> Q { if r.chance(1, 4) { (1, 10) } else { (r.range(0, 16), 16) } };
    let b = |r: &mut Rng, usual: Q| -> Q { if r.chance(1, 3) { usual } else { k16(r, 0, 15) } };
    match kind {
        "sgd" => {
            let eta = rate(r);
            (Opt::S(SGD::new(f(eta))), json!({"kind": kind, "h": {"eta": jq(eta)}}))
        }
        "mom" => {
            let (eta, m) = (rate(r), b(r, (9, 10)));
            (Opt::M(MomentumSGD::new(f(eta), f(m))), json!({"kind": kind, "h": {"eta": jq(eta), "momentum": jq(m)}}))
        }
        _ => {
            let (alpha, b1, b2) = (rate(r), b(r, (9, 10)), b(r, (999, 1000)));
            let eps = *r.pick(&[(0, 1), (1, 16), (1, 100), (1, 1)]);
            let e = if eps.0 == 0 { 1e-8 } else { f(eps) };
            (
                Opt::A(Adam::new(f(alpha), f(b1), f(b2), e)),
                json!({"kind": "adam", "h": {"alpha": jq(alpha), "beta1": jq(b1), "beta2": jq(b2), "eps": jq(eps)}}),
            )
        }
    }
}

struct World {
    dev: &'static Device<'static>,
    os: Vec<Opt>,
    ps: Vec<Option<Parameter<'static>>>,
}
fn bitsv(v: &[f32]) -> Vec<i64> {
    v.iter().map(|&x| bits(x)).collect()
}
fn fix(v: &[f32]) -> Vec<i64> {
    encs(v, 1048576., false)
}
impl World {
    fn obs(&mut self) -> Value {
        let dev = self.dev;
        let os: Vec<Value> = self
            .os
            .iter_mut()
            .map(|o| {
                with!(o, o => json!({"t": *o.epoch(), "sc": bits(o.get_learning_rate_scaling()),
                    "l2": bits(o.get_weight_decay()), "cl": bits(o.get_gradient_clipping())}))
            })
            .collect();
        let ps: Vec<Value> = self
            .ps
            .iter()
            .map(|p| {
                let p = p.as_ref().unwrap();
                let read = |t: &prima_undine::Tensor<'static>| dev.tensor_to_vector(t);
                let (v, g) = (read(&p.value), read(&p.gradient));
                let mut st = Map::new();
                let mut fst = Map::new();
                for (k, t) in p.stats.iter() {
                    let x = read(&t.borrow());
                    st.insert(k.clone(), json!(bitsv(&x)));
                    fst.insert(k.clone(), json!(fix(&x)));
                }
                json!({"v": bitsv(&v), "g": bitsv(&g), "st": st, "fv": fix(&v), "fg": fix(&g), "fst": fst})
            })
            .collect();
        json!({"os": os, "ps": ps})
    }
    fn log(&mut self, mut e: Value, out: &mut Out) {
        e["obs"] = self.obs();
        out.ev(e);
    }
    fn new_opt(&mut self, kind: &str, r: &mut Rng, out: &mut Out) {
        let (o, mut e) = new_opt(kind, r);
        self.os.push(o);
        e["k"] = json!("opt");
        self.log(e, out);
    }
    fn values(&self, n: usize, r: &mut Rng, hi: i64) -> Vec<f32> {
        let zero = r.chance(1, 8);
        (0..n).map(|_| if zero { 0. } else { r.range(-hi * 16, hi * 16) as f32 / 16. }).collect()
    }
    fn new_param(&mut self, r: &mut Rng, big: bool, out: &mut Out) {
        let d: Vec<u32> = if big { vec![r.u(60, 300)] } else { r.pick(&[vec![], vec![1], vec![2], vec![3], vec![2, 2], vec![1, 3], vec![2, 1, 2], vec![5]]).clone() };
        let n = d.iter().product::<u32>() as usize;
        let v = self.values(n, r, 4);
        let mut p = self.dev.new_parameter(Shape::new(&d, 1), &initializers::Constant::new(0.));
        self.dev.reset_tensor_by_slice(&mut p.value, &v);
        self.ps.push(Some(p));
        self.log(json!({"k": "param", "v": bitsv(&v)}), out);
    }
    fn fill(&mut self, i: usize, grad: bool, r: &mut Rng, out: &mut Out) {
        let n = self.ps[i].as_ref().unwrap().value.device().tensor_to_vector(&self.ps[i].as_ref().unwrap().value).len();
        let v = self.values(n, r, 3);
        let p = self.ps[i].as_mut().unwrap();
        self.dev.reset_tensor_by_slice(if grad { &mut p.gradient } else { &mut p.value }, &v);
        self.log(json!({"k": if grad { "grad" } else { "value" }, "p": i + 1, "v": bitsv(&v)}), out);
    }
    /// Configures or updates the parameters, given one by one, as a list, or as a model.
    fn call(&mut self, o: usize, ps: &[usize], update: bool, r: &mut Rng, out: &mut Out) {
        let mut taken: Vec<Parameter<'static>> = ps.iter().map(|&i| self.ps[i].take().unwrap()).collect();
        let how = r.below(3);
        let opt = &mut self.os[o];
        let res = attempt(|| {
            with!(opt, opt => {
                if how == 0 {
                    if update { opt.update_model(&mut taken) } else { opt.configure_model(&mut taken) }
                } else if how == 1 && !update {
                    for p in taken.iter_mut() { opt.configure_parameter(p) }
                } else {
                    let mut list: Vec<&mut Parameter> = taken.iter_mut().collect();
                    if update { opt.update_parameters(&mut list) } else { opt.configure_parameters(&mut list) }
                }
            })
        });
        for (&i, p) in ps.iter().zip(taken) {
            self.ps[i] = Some(p);
        }
        let mut e = json!({"k": if update { "update" } else { "configure" }, "o": o + 1, "how": how,
                           "ps": ps.iter().map(|i| i + 1).collect::<Vec<_>>(), "ok": res.is_ok() as u8});
        if let Err(m) = res {
            e["err"] = json!(m);
        }
        self.log(e, out);
    }
    fn set(&mut self, o: usize, w: &str, c: &str, r: &mut Rng, out: &mut Out) {
        let q: Q = match (c, w) {
            ("q", "sc") => *r.pick(&[(0, 1), (1, 2), (1, 1), (2, 1), (3, 4), (1, 10)]),
            ("q", "l2") => *r.pick(&[(0, 1), (1, 16), (1, 100), (1, 2)]),
            ("q", _) => *r.pick(&[(0, 1), (1, 2), (2, 1), (5, 1), (3, 10), (20, 1), (1, 16)]),
            _ => (0, 1),
        };
        let v = match c {
            "q" => f(q),
            "negzero" => -0.,
            "neg" => *r.pick(&[-1., -0.001, -f32::MIN_POSITIVE, f32::NEG_INFINITY]),
            _ => f32::NAN,
        };
        let opt = &mut self.os[o];
        let res = attempt(|| {
            with!(opt, opt => match w {
                "sc" => opt.set_learning_rate_scaling(v),
                "l2" => opt.set_weight_decay(v),
                _ => opt.set_gradient_clipping(v),
            })
        });
        self.log(json!({"k": "set", "o": o + 1, "w": w, "c": c, "q": jq(q), "b": bits(v), "ok": res.is_ok() as u8}), out);
    }
    fn tame(&mut self, r: &mut Rng, out: &mut Out) {
        // what leaves the range of the recorded precision is started again
        for i in 0..self.ps.len() {
            let big = {
                let p = self.ps[i].as_ref().unwrap();
                let far = |t: &prima_undine::Tensor<'static>, m: f32| self.dev.tensor_to_vector(t).iter().any(|x| !(x.abs() < m));
                far(&p.value, 60.) || p.stats.values().any(|s| far(&s.borrow(), 60.))
            };
            if big {
                let n = self.dev.tensor_to_vector(&self.ps[i].as_ref().unwrap().value).len();
                let v = self.values(n, r, 2);
                let mut p = self.dev.new_parameter(self.ps[i].as_ref().unwrap().shape(), &initializers::Constant::new(0.));
                self.dev.reset_tensor_by_slice(&mut p.value, &v);
                self.ps[i] = Some(p);
                self.log(json!({"k": "again", "p": i + 1, "v": bitsv(&v)}), out);
            }
        }
    }
}

pub fn run(args: &Args) {
    let mut out = Out::new(&args.out);
    let mut r = Rng::new(args.seed);
    let dev: &'static Device<'static> = Box::leak(Box::new(devices::Naive::new()));
    let fresh = || World { dev, os: vec![], ps: vec![] };
    if let Some(file) = args.get("in") {
        let (shards, shard) = (args.num("shards", 1), args.num("shard", 0));
        let den = args.num("den", 1);
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let h = line.bytes().fold(0xcbf29ce484222325 ^ (args.seed / 1009), |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            let h = h ^ (h >> 29);
            if h % shards != shard || (h / shards) % den != 0 {
                continue;
            }
            let v: Value = serde_json::from_str(line).unwrap();
            let mut w = fresh();
            w.log(json!({"k": "begin"}), &mut out);
            for k in v["kinds"].as_array().unwrap() {
                w.new_opt(k.as_str().unwrap(), &mut r, &mut out);
            }
            w.new_param(&mut r, false, &mut out);
            w.new_param(&mut r, false, &mut out);
            for o in v["ops"].as_array().unwrap() {
                let a = o["a"].as_str().unwrap();
                let oi = o["o"].as_u64().unwrap() as usize - 1;
                let ps: Vec<usize> = o["ps"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
                match a {
                    "set" => w.set(oi, o["w"].as_str().unwrap(), o["c"].as_str().unwrap(), &mut r, &mut out),
                    _ => {
                        for i in 0..2 {
                            if a == "update" && r.chance(1, 2) {
                                w.fill(i, true, &mut r, &mut out);
                            }
                        }
                        w.call(oi, &ps, a == "update", &mut r, &mut out)
                    }
                }
            }
        }
        return;
    }
    let len = args.num("len", 30);
    let large = args.num("large", 3);
    for _ in 0..args.num("n", 100) {
        let mut w = fresh();
        w.log(json!({"k": "begin"}), &mut out);
        for _ in 0..r.u(1, 3) {
            let kind = *r.pick(&["sgd", "mom", "adam", "adam"]);
            w.new_opt(kind, &mut r, &mut out);
        }
        let np = if r.chance(1, 15) { r.u(8, 20) } else { r.u(1, 4) };
        for _ in 0..np {
            let big = r.below(100) < large && np < 5;
            w.new_param(&mut r, big, &mut out);
        }
        for _ in 0..len {
            let o = r.below(w.os.len() as u64) as usize;
            let np = w.ps.len();
            match r.below(20) {
                0..=8 => {
                    let mut ps: Vec<usize> = (0..np).filter(|_| r.chance(3, 4)).collect();
                    r.shuffle(&mut ps);
                    let mut order: Vec<usize> = (0..np).collect();
                    r.shuffle(&mut order);
                    for i in order {
                        if r.chance(4, 5) {
                            w.fill(i, true, &mut r, &mut out);
                        }
                    }
                    w.call(o, &ps, true, &mut r, &mut out);
                    w.tame(&mut r, &mut out);
                }
                9..=12 => {
                    let mut ps: Vec<usize> = (0..np).filter(|_| r.chance(3, 4)).collect();
                    r.shuffle(&mut ps);
                    w.call(o, &ps, false, &mut r, &mut out);
                }
                13..=15 => {
                    let wh = *r.pick(&["sc", "l2", "cl"]);
                    let c = *r.pick(&["q", "q", "q", "neg", "nan", "negzero"]);
                    w.set(o, wh, c, &mut r, &mut out);
                }
                16 => {
                    let t = *r.pick(&[0u32, 1, 2, 9, 63, 254, 255, 256, 300, 1000, 65535, 65536, 16777216, 2_000_000_000]);
                    with!(&mut w.os[o], x => *x.epoch() = t);
                    w.log(json!({"k": "epoch", "o": o + 1, "t": t}), &mut out);
                }
                17 => {
                    let i = r.below(np as u64) as usize;
                    w.fill(i, false, &mut r, &mut out);
                }
                18 => {
                    if np < 6 {
                        w.new_param(&mut r, false, &mut out);
                    }
                }
                _ => {
                    if w.os.len() < 4 {
                        let kind = *r.pick(&["sgd", "mom", "adam"]);
                        w.new_opt(kind, &mut r, &mut out);
                    }
                }
            }
        }
    }
}
