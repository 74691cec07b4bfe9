//! Random tensors, initialisers, dropout: against a recording source of draws, and statistically
//! against the built-in one.
use crate::d_devices::names;
use crate::d_ops::naive;
use crate::guard::*;
use crate::ops::*;
use crate::util::*;
use crate::Args;
use prima_undine::device_impl::FunctionFwImpl;
use prima_undine::functions::*;
use prima_undine::{initializers as I, DefaultRandomizer, Device, Initializer, Node, Randomizer, Shape, Tensor};
use prima_undine_contrib::functions::ContribFunctions;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

/// Numbers in the order of the floats: equal for equal values, 0 = -0; not a number has none.
fn key(v: f32) -> i64 {
    if v.is_nan() {
        return i32::MIN as i64;
    }
    let b = v.to_bits() as i32;
    if b < 0 {
        -((b & 0x7fff_ffff) as i64)
    } else {
        b as i64
    }
}
fn keys(v: &[f32]) -> Vec<i64> {
    v.iter().map(|&x| key(x)).collect()
}

#[derive(Default)]
struct Rec {
    next: u32,
    calls: Vec<Value>,
    fail: bool,
}
fn coin(n: u32) -> f32 {
    let h = (n as u64 + 12345).wrapping_mul(0x9e3779b97f4a7c15);
    ((h >> 40) & 1) as f32
}
const RANDOM: [(&str, &str); 3] = [("random_bernoulli_impl", "bernoulli"), ("random_normal_impl", "normal"), ("random_uniform_impl", "uniform")];

/// The draws are consecutive numbers, or decided by them.
struct Source {
    dist: &'static str,
    inner: Dev,
    rec: Arc<Mutex<Rec>>,
}
impl FunctionFwImpl for Source {
    fn call(&self, _: &[&Tensor], _: &[u32], f: &[f32], ys: &mut [&mut Tensor]) {
        let n = ys[0].shape().size();
        let vs: Vec<f32> = {
            let mut r = self.rec.lock().unwrap_or_else(|e| e.into_inner());
            if r.fail {
                drop(r);
                panic!("no more draws");
            }
            let from = r.next;
            r.next += n;
            let vs: Vec<f32> = (from..from + n).map(|i| if self.dist == "bernoulli" { coin(i) } else { i as f32 }).collect();
            let m: Vec<u32> = if self.dist == "bernoulli" { vs.iter().map(|&x| x as u32).collect() } else { vec![] };
            r.calls.push(json!({"dist": self.dist, "p": keys(f), "n": n, "from": from, "m": m}));
            vs
        };
        self.inner.call_fw_impl("reset_tensor_by_slice_impl", &[], &[], &vs, ys);
    }
}

struct World {
    dev: *mut Device<'static>,
    guard: Guard,
    rec: Arc<Mutex<Rec>>,
}
impl World {
    fn new(inner: Dev, recorded: bool) -> World {
        let guard = Guard::new();
        let rec = Arc::new(Mutex::new(Rec::default()));
        let mut dev = guard.device();
        if recorded {
            for (name, dist) in &RANDOM {
                assert!(names(0).contains(name));
                dev.register_fw_impl(name, Source { dist, inner, rec: Arc::clone(&rec) });
            }
        }
        World { dev: Box::into_raw(Box::new(dev)), guard, rec }
    }
    fn dev(&self) -> Dev {
        unsafe { &*self.dev }
    }
    fn calls(&self) -> Vec<Value> {
        std::mem::take(&mut self.rec.lock().unwrap_or_else(|e| e.into_inner()).calls)
    }
}
impl Drop for World {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.dev) });
    }
}

fn result(o: &mut Value, t: &Tensor, drawn: bool) {
    // draws are numbers
    o["res"] = if drawn { json!(encs(&t.to_vec(), 1., true)) } else { json!(keys(&t.to_vec())) };
    o["s"] = shape_json(&t.shape());
}
fn any_shape(r: &mut Rng) -> Shape {
    let d = r.pick(&[vec![], vec![1], vec![2], vec![3], vec![2, 3], vec![5, 1], vec![2, 2, 2], vec![1, 1, 4], vec![13], vec![8, 9], vec![70], vec![64]]).clone();
    Shape::new(&d, *r.pick(&[1, 1, 1, 2, 3]))
}
fn value(r: &mut Rng) -> f32 {
    let k = r.range(-64, 64) as f32 / 16.;
    match r.below(8) {
        0 => k * 0.1,
        1 => k * 1e6,
        2 => k * 1e-6,
        3 => 0.,
        _ => k,
    }
}

/// a draw with the recording source; what = route.dist
fn fill(w: &World, route: u8, dist: &str, p: &[f32], s: Shape, allocated: bool, out: &mut Out) {
    w.calls();
    let dev = w.dev();
    let mut o = json!({"k": "draw", "route": (["device", "init", "param"][route as usize]), "dist": dist, "p": keys(p), "want": shape_json(&s), "pre": allocated as u8});
    let from = w.rec.lock().unwrap_or_else(|e| e.into_inner()).next;
    o["fail"] = json!(w.rec.lock().unwrap_or_else(|e| e.into_inner()).fail as u8);
    let init = || -> Box<dyn Initializer> {
        match dist {
            "constant" => Box::new(I::Constant::new(p[0])),
            "normal" => Box::new(I::Normal::new(p[0], p[1])),
            "uniform" => Box::new(I::Uniform::new(p[0], p[1])),
            _ => Box::new(I::XavierUniform::new(p[0])),
        }
    };
    let mut before = vec![];
    let mut t = dev.new_tensor(s);
    if allocated {
        t.alloc();
        t.reset(9.);
        before = t.to_vec();
    }
    let mut param = None;
    let r = attempt(|| match route {
        0 => {
            t = match dist {
                "bernoulli" => dev.random_bernoulli(s, p[0]),
                "normal" => dev.random_normal(s, p[0], p[1]),
                _ => dev.random_uniform(s, p[0], p[1]),
            }
        }
        1 => init().apply(&mut t),
        _ => param = Some(dev.new_parameter(s, &*init())),
    });
    o["ok"] = json!(r.is_ok() as u8);
    o["from"] = json!(from);
    o["kept"] = json!(!allocated as u8);
    o["g"] = json!([]);
    o["res"] = json!([]);
    o["s"] = shape_json(&s);
    if let Some(p) = &param {
        result(&mut o, &p.value, dist != "constant");
        o["g"] = json!(keys(&p.gradient.to_vec()));
    } else if r.is_ok() {
        result(&mut o, &t, dist != "constant");
    } else if allocated {
        o["kept"] = json!((t.to_vec() == before) as u8);
    } else {
        o["kept"] = json!(!t.valid() as u8);
    }
    o["err"] = json!(r.err().unwrap_or_default().chars().take(80).collect::<String>());
    let calls = w.calls();
    if dist == "xavier" && !calls.is_empty() {
        // the bound at scale 2^12, the scale of the initialiser at scale 4
        let b = calls[0]["p"][1].as_i64().unwrap() as i32;
        o["b12"] = json!((f32::from_bits(b as u32) as f64 * 4096.).round() as i64);
    }
    o["s4"] = json!((p[0] as f64 * 4.).round() as i64);
    o["calls"] = json!(calls);
    out.ev(o);
}

fn dropout(w: &World, r: &mut Rng, out: &mut Out) {
    w.calls();
    let s = any_shape(r);
    let rate8 = r.range(1, 7);
    let rate = rate8 as f32 / 8.;
    let dim = if r.chance(1, 2) { Some(r.u(0, 3)) } else { None };
    let n = s.size() as usize;
    let x: Vec<i64> = (0..n).map(|_| *r.pick(&[-9, -4, -1, 1, 2, 3, 8, 15])).collect();
    let gy: Vec<i64> = (0..n).map(|_| *r.pick(&[-3, -1, 1, 2, 5])).collect();
    let f = |v: &[i64]| v.iter().map(|&x| x as f32).collect::<Vec<f32>>();
    let dev = w.dev();
    let node = r.chance(1, 2);
    let xt = dev.new_tensor_by_slice(s, &f(&x));
    let gt = dev.new_tensor_by_slice(s, &f(&gy));
    let (y, y2, gx) = if node {
        let n = Node::from(&xt);
        let y = match dim {
            None => n.dropout(rate, true),
            Some(i) => n.dropout_dim(i, rate, true),
        };
        let a = y.to_vec();
        let z = (&y * Node::from(&gt)).flatten().sum(0).batch_sum();
        z.backward();
        let g = n.inner_gradient().to_vec();
        (a, y.to_vec(), g)
    } else {
        let y = match dim {
            None => xt.dropout(rate, true),
            Some(i) => xt.dropout_dim(i, rate, true),
        };
        (y.to_vec(), y.to_vec(), vec![])
    };
    let e = |v: &[f32]| encs(v, 16384., false);
    out.ev(json!({"k": "drop", "s": shape_json(&s), "rate": rate8, "dim": dim.map(|x| x as i64).unwrap_or(-1), "x": x, "gy": if node { gy } else { vec![] },
        "y": e(&y), "y2": e(&y2), "gx": e(&gx), "p": [key(1. - rate), key(rate)], "calls": w.calls()}));
}

// ---- the built-in source ----

/// inverse of the normal distribution function at i/16
const Q: [f64; 15] = [
    -1.5341205443525463, -1.1503493803760079, -0.8871465590188762, -0.6744897501960817, -0.4887764111146695, -0.31863936396437515, -0.15731068461017064, 0.,
    0.15731068461017064, 0.31863936396437515, 0.4887764111146695, 0.6744897501960817, 0.8871465590188762, 1.1503493803760079, 1.5341205443525463,
];
/// 0..15, equally probable
fn bin(dist: &str, p: &[f32], x: f32) -> usize {
    let x = x as f64;
    let i = match dist {
        "bernoulli" => return if x == 0. { 0 } else { 15 },
        "uniform" => ((x - p[0] as f64) / (p[1] as f64 - p[0] as f64) * 16.).floor() as i64,
        "lognormal" => Q.iter().filter(|&&q| (x.ln() - p[0] as f64) / p[1] as f64 >= q).count() as i64,
        _ => Q.iter().filter(|&&q| (x - p[0] as f64) / p[1] as f64 >= q).count() as i64,
    };
    i.max(0).min(15) as usize
}

/// Two results: of the same device, of two devices, or of two threads.
fn results(w: &World, w2: &World, r: &mut Rng, gen: &dyn Fn(&World) -> (Vec<f32>, usize)) -> ((Vec<f32>, usize), (Vec<f32>, usize)) {
    let a = gen(w);
    let b = match r.below(3) {
        0 => gen(w),
        1 => gen(w2),
        _ => {
            struct S<T>(T);
            unsafe impl<T> Send for S<T> {}
            let f = S(|| gen(w2));
            std::thread::scope(|sc| {
                sc.spawn(move || {
                    let f = f;
                    S((f.0)())
                })
                .join()
                .unwrap_or_else(|_| panic!("HARNESS-ERROR: a thread died"))
                .0
            })
        }
    };
    (a, b)
}

fn stat(w: &World, w2: &World, r: &mut Rng, out: &mut Out) {
    // every route gives two results drawn with the same parameters
    let dist = *r.pick(&["bernoulli", "normal", "uniform", "lognormal", "xavier"]);
    let route = match dist {
        "lognormal" => 3,
        "bernoulli" => *r.pick(&[0, 0, 3, 4, 5]),
        "xavier" => *r.pick(&[1, 2]),
        _ => *r.pick(&[0, 1, 2, 3]),
    };
    let s = match route {
        _ if dist == "xavier" => Shape::new(&r.pick(&[vec![67, 71], vec![64, 96], vec![4096], vec![129, 33]]).clone(), 1),
        0 => Shape::new(&r.pick(&[vec![4096], vec![67, 71], vec![16, 16, 16], vec![32, 40, 3], vec![], vec![5]]).clone(), *r.pick(&[1, 2, 3])),
        _ => Shape::new(&r.pick(&[vec![4096], vec![67, 71], vec![16, 16, 16], vec![90, 90]]).clone(), 1),
    };
    let s = if s.size() < 1000 { Shape::new(&s.dims().iter().cloned().collect::<Vec<u32>>(), 5999) } else { s };
    // many small results instead of one
    let small = r.chance(1, 3);
    let s = if small {
        let d = if dist == "xavier" { r.pick(&[vec![3, 4], vec![7], vec![2, 2], vec![]]).clone() } else { r.pick(&[vec![], vec![2], vec![3], vec![2, 3], vec![17]]).clone() };
        Shape::new(&d, if route == 0 { *r.pick(&[1, 2, 3]) } else { 1 })
    } else {
        s
    };
    let pieces = if small { 6000 / s.size() as usize } else { 1 };
    let n = s.size() as usize * pieces;
    let p8 = r.range(0, 8);
    let mut p: Vec<f32> = match dist {
        "bernoulli" => vec![p8 as f32 / 8.],
        "uniform" => {
            let k = value(r);
            let wide = *r.pick(&[1e-3, 0.5, 1., 7.5, 1e7]);
            vec![k, k + if wide < k.abs() * 1e-3 { k.abs() * *r.pick(&[1e-3, 0.05]) } else { wide }]
        }
        "xavier" => vec![*r.pick(&[0.25, 1., 2.])],
        "normal" if r.chance(1, 2) => {
            // of every magnitude, narrow ones included
            let mean = value(r) * *r.pick(&[1., 100., 1e-4]);
            let wide = *r.pick(&[1e-3, 0.5, 40., 1e7]);
            vec![mean, if wide < mean.abs() * 3e-5 { mean.abs() * *r.pick(&[3e-5, 0.01]) } else { wide }]
        }
        _ => vec![r.range(-16, 16) as f32 / 4., *r.pick(&[0.25, 0.5, 1., 3.])],
    };
    let rate = 1. - p[0];
    let init: Option<Box<dyn Initializer>> = match dist {
        "normal" => Some(Box::new(I::Normal::new(p[0], p[1]))),
        "uniform" => Some(Box::new(I::Uniform::new(p[0], p[1]))),
        "xavier" => Some(Box::new(I::XavierUniform::new(p[0]))),
        _ => None,
    };
    let part = |w: &World| -> (Vec<f32>, usize) {
        let dev = w.dev();
        let n = s.size() as usize;
        let t = match route {
            0 => match dist {
                "bernoulli" => dev.random_bernoulli(s, p[0]),
                "normal" => dev.random_normal(s, p[0], p[1]),
                _ => dev.random_uniform(s, p[0], p[1]),
            },
            1 => {
                let mut t = dev.new_tensor(s);
                init.as_ref().unwrap().apply(&mut t);
                t
            }
            2 => {
                let q = dev.new_parameter(s, &**init.as_ref().unwrap());
                return (q.value.to_vec(), q.value.shape().size() as usize);
            }
            3 => {
                let mut d = DefaultRandomizer::new();
                let mut v = vec![f32::NAN; n];
                match dist {
                    "bernoulli" => d.fill_bernoulli(p[0], &mut v),
                    "normal" => d.fill_normal(p[0], p[1], &mut v),
                    "uniform" => d.fill_uniform(p[0], p[1], &mut v),
                    _ => d.fill_log_normal(p[0], p[1], &mut v),
                }
                return (v, n);
            }
            4 => {
                let x = dev.new_tensor_by_constant(s, 1.);
                x.dropout(rate, true)
            }
            _ => {
                let d = if s.depth() == 0 { vec![1] } else { s.dims().iter().cloned().collect::<Vec<u32>>() };
                let mut dd = vec![3];
                dd.extend(d);
                let x = dev.new_tensor_by_constant(Shape::new(&dd, s.batch()), 1.);
                x.dropout_dim(0, rate, true).slice(0, 1, 2)
            }
        };
        if route > 3 {
            // what is kept is scaled by 1/p
            let v = t.to_vec().iter().map(|&x| if (x as f64 * p[0] as f64 - 1.).abs() < 1e-5 { 1. } else { x }).collect();
            return (v, t.shape().size() as usize);
        }
        (t.to_vec(), t.shape().size() as usize)
    };
    let gen = |w: &World| -> (Vec<f32>, usize) {
        let (mut v, mut n) = (vec![], 0);
        for _ in 0..pieces {
            let (x, k) = part(w);
            v.extend(x);
            n += k;
        }
        (v, n)
    };
    // others that draw on the same devices meanwhile
    let busy = if r.chance(1, 3) { 3 } else { 0 };
    let stop = std::sync::atomic::AtomicBool::new(false);
    let others: Vec<Dev> = (0..busy).map(|i| if i < 2 { w.dev() } else { w2.dev() }).collect();
    let ((a, na), (b, nb)) = std::thread::scope(|sc| {
        for dev in others {
            let stop = &stop;
            sc.spawn(move || {
                while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                    dev.random_bernoulli(Shape::new(&[5], 1), 0.5);
                    dev.random_normal(Shape::new(&[50, 2], 1), 0., 1.);
                    dev.random_uniform(Shape::new(&[2], 3), 10., 20.);
                }
            });
        }
        let both = attempt(|| results(w, w2, r, &gen));
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        both.unwrap_or_else(|e| panic!("{}", e))
    });
    if dist == "xavier" {
        let b = p[0] as f64 * (6. / (s[0] + s[1]) as f64).sqrt();
        p = vec![-b as f32, b as f32];
    }
    let d = if dist == "xavier" { "uniform" } else { dist };
    let other = |v: &[f32]| v.iter().filter(|x| x.is_nan() || (d == "bernoulli" && **x != 0. && **x != 1.)).count();
    let bins = |v: &[f32]| {
        let mut c = vec![0; 16];
        v.iter().for_each(|&x| c[bin(d, &p, x)] += 1);
        c
    };
    let pairs = |f: &dyn Fn(usize) -> Option<(f32, f32)>| {
        let (mut c, mut i) = (vec![0; 16], 0);
        while let Some((x, y)) = f(i) {
            c[bin(d, &p, x) / 4 * 4 + bin(d, &p, y) / 4] += 1;
            i += 1;
        }
        c
    };
    let two = |v: &[f32], i: usize, lag: usize| -> Option<(f32, f32)> {
        let j = i / lag * 2 * lag + i % lag;
        if j + lag < v.len() {
            Some((v[j], v[j + lag]))
        } else {
            None
        }
    };
    let distinct = |v: &[f32]| v.iter().map(|x| x.to_bits()).collect::<std::collections::HashSet<u32>>().len();
    let lo = |v: &[f32]| v.iter().cloned().fold(f32::INFINITY, f32::min);
    let hi = |v: &[f32]| v.iter().cloned().fold(f32::NEG_INFINITY, f32::max);
    let lag = *r.pick(&[2, 3, 8, 64]);
    out.ev(json!({"k": "stat", "dist": d, "route": route, "q": p8 * 8, "n": n, "got": [na, nb], "len": [a.len(), b.len()], "p": keys(&p),
        "other": [other(&a), other(&b)], "lo": [key(lo(&a)), key(lo(&b))], "hi": [key(hi(&a)), key(hi(&b))],
        "bins": [bins(&a), bins(&b)],
        "pairs": [pairs(&|i| two(&a, i, 1)), pairs(&|i| two(&a, i, lag)), pairs(&|i| if i < a.len() && i < b.len() { Some((a[i], b[i])) } else { None })],
        // with few representable values in the interval nothing can be said
        "distinct": if d != "bernoulli" && d != "uniform" && (d != "normal" || p[1] >= p[0].abs() * 0.05) || d == "uniform" && p[1] - p[0] >= p[0].abs() { distinct(&a) as i64 } else { -1 },
        "xavier": (dist == "xavier") as u8}));
}

/// Parameters at the edge of what is possible: the domain, and what is rejected.
fn edge(w: &World, r: &mut Rng, out: &mut Out) {
    let dist = *r.pick(&["bernoulli", "normal", "uniform"]);
    let next = |x: f32, k: u32| f32::from_bits(x.to_bits() + k);
    let (p, bad): (Vec<f32>, bool) = match dist {
        "bernoulli" => {
            let p = *r.pick(&[0., 1., 0.5, -0.125, 1.5, -1e-6, 1.000001, f32::NAN, f32::INFINITY, 2., -1.]);
            (vec![p], !(p >= 0. && p <= 1.))
        }
        "normal" => {
            let sd = *r.pick(&[0., 0., 1., -1., -0.001, -1e30]);
            (vec![value(r), sd], sd < 0.)
        }
        _ => {
            let lo = r.pick(&[0., 1., 5., 1e6, 0.1f32]).clone();
            let hi = match r.below(7) {
                0 => lo,
                1 => lo - 1.,
                2 => f32::NAN,
                3 | 4 => next(lo, r.u(1, 4)),
                5 => next(lo, 1),
                _ => lo + 1.,
            };
            (vec![lo, hi], !(lo < hi))
        }
    };
    let s = any_shape(r);
    let s1 = Shape::new(&s.dims().iter().cloned().collect::<Vec<u32>>(), 1);
    let dev = w.dev();
    let route = if dist == "bernoulli" { *r.pick(&[0, 0, 3]) } else { r.below(4) as usize };
    let init = || -> Box<dyn Initializer> {
        match dist {
            "normal" => Box::new(I::Normal::new(p[0], p[1])),
            _ => Box::new(I::Uniform::new(p[0], p[1])),
        }
    };
    let want = if route == 2 { s1 } else { s };
    let by = dev.new_tensor_by_constant(s, 3.);
    let g = |r: Result<Vec<f32>, String>| r;
    let res = g(attempt(|| match route {
        0 => match dist {
            "bernoulli" => dev.random_bernoulli(s, p[0]).to_vec(),
            "normal" => dev.random_normal(s, p[0], p[1]).to_vec(),
            _ => dev.random_uniform(s, p[0], p[1]).to_vec(),
        },
        1 => {
            let mut t = dev.new_tensor(s);
            init().apply(&mut t);
            t.to_vec()
        }
        2 => dev.new_parameter(s1, &*init()).value.to_vec(),
        _ => {
            let mut v = vec![f32::NAN; s.size() as usize];
            let mut d = DefaultRandomizer::new();
            match dist {
                "bernoulli" => d.fill_bernoulli(p[0], &mut v),
                "normal" => d.fill_normal(p[0], p[1], &mut v),
                _ => d.fill_uniform(p[0], p[1], &mut v),
            }
            v
        }
    }));
    let kept = by.to_vec().iter().all(|&x| x == 3.) && w.guard.zones_intact();
    out.ev(json!({"k": "edge", "dist": dist, "route": route, "p": keys(&p), "bad": bad as u8, "one": key(1.), "ok": res.is_ok() as u8, "n": want.size(),
        "res": keys(&res.unwrap_or_default()), "kept": kept as u8}));
}

pub fn run(args: &Args) {
    let mut out = Out::new(&args.out);
    let mut r = Rng::new(args.seed);
    let inner = naive();
    let mode = args.get("mode").unwrap_or("draws").to_string();
    if let Some(file) = args.get("in") {
        let (shards, shard, den) = (args.num("shards", 1), args.num("shard", 0), args.num("den", 1));
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let h = line.bytes().fold(0xcbf29ce484222325 ^ (args.seed / 1009), |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            let h = h ^ (h >> 29);
            if h % shards != shard || (h / shards) % den != 0 {
                continue;
            }
            let v: Value = serde_json::from_str(line).unwrap();
            out.ev(json!({"k": "begin"}));
            let w = World::new(inner, true);
            for s in v["ops"].as_array().unwrap() {
                let dims: Vec<u32> = s["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
                let sh = Shape::new(&dims, s["b"].as_u64().unwrap() as u32);
                let dist = s["dist"].as_str().unwrap();
                let p: &[f32] = match dist {
                    "bernoulli" => &[0.25],
                    "constant" => &[1.5],
                    "xavier" => &[2.],
                    "normal" => &[3., 0.5],
                    _ => &[-1., 2.5],
                };
                w.rec.lock().unwrap_or_else(|e| e.into_inner()).fail = s["fail"].as_u64().unwrap() == 1;
                let route = match s["route"].as_str().unwrap() {
                    "device" => 0,
                    "init" => 1,
                    _ => 2,
                };
                fill(&w, route, dist, p, sh, s["pre"].as_u64().unwrap() == 1, &mut out);
            }
        }
        return;
    }
    match mode.as_str() {
        "draws" => {
            for _ in 0..args.num("rounds", 10) {
                out.ev(json!({"k": "begin"}));
                let w = World::new(inner, true);
                for _ in 0..40 {
                    let route = r.below(3) as u8;
                    let dist = if route == 0 { *r.pick(&["bernoulli", "normal", "uniform"]) } else { *r.pick(&["constant", "normal", "uniform", "xavier"]) };
                    let p = match dist {
                        "bernoulli" => vec![r.range(0, 16) as f32 / 16.],
                        "constant" => vec![value(&mut r)],
                        "xavier" => vec![r.range(1, 16) as f32 / 4.],
                        "normal" => vec![value(&mut r), value(&mut r).abs()],
                        _ => {
                            let lo = value(&mut r);
                            vec![lo, lo + value(&mut r).abs() * 2. + 1.]
                        }
                    };
                    let s = any_shape(&mut r);
                    let big = r.chance(1, 20);
                    let s = if big { Shape::new(&[r.u(1, 300), r.u(1, 40)], 1) } else { s };
                    if r.chance(1, 5) {
                        dropout(&w, &mut r, &mut out);
                    } else {
                        let pre = route == 1 && r.chance(1, 5);
                        w.rec.lock().unwrap_or_else(|e| e.into_inner()).fail = r.chance(1, 12);
                        fill(&w, route, dist, &p, s, pre, &mut out);
                        w.rec.lock().unwrap_or_else(|e| e.into_inner()).fail = false;
                    }
                }
            }
        }
        "drop" => {
            let mut w = World::new(inner, false);
            for i in 0..args.num("rounds", 100) {
                if i % 50 == 0 {
                    out.ev(json!({"k": "begin"}));
                    w = World::new(inner, true);
                }
                dropout(&w, &mut r, &mut out);
            }
        }
        "stat" => {
            for i in 0..args.num("rounds", 10) {
                let _ = i;
                out.ev(json!({"k": "begin"}));
                let (w, w2) = (World::new(inner, false), World::new(inner, false));
                for _ in 0..10 {
                    stat(&w, &w2, &mut r, &mut out);
                    for _ in 0..10 {
                        edge(&w, &mut r, &mut out);
                    }
                }
            }
        }
        _ => panic!("unknown mode"),
    }
}
