//! Calls on whole models.
use crate::util::*;
use crate::zoo::*;
use crate::{with, Args};
use prima_undine::optimizers::MomentumSGD;
use prima_undine::{devices, Device, Model, Optimizer, OptimizerBase, Parameter};
use serde_json::{json, Value};
use std::cell::RefCell;

/// A user's own optimizer, which only notes what it is given.
#[derive(Default)]
struct Counter {
    epoch: u32,
    conf: RefCell<Vec<usize>>,
    seen: RefCell<Vec<usize>>,
}
impl OptimizerBase for Counter {
    fn epoch(&mut self) -> &mut u32 {
        &mut self.epoch
    }
    fn get_learning_rate_scaling(&self) -> f32 {
        1.
    }
    fn set_learning_rate_scaling(&mut self, _: f32) {}
    fn get_weight_decay(&self) -> f32 {
        0.
    }
    fn set_weight_decay(&mut self, _: f32) {}
    fn get_gradient_clipping(&self) -> f32 {
        0.
    }
    fn set_gradient_clipping(&mut self, _: f32) {}
}
impl Optimizer for Counter {
    fn configure_parameter(&self, p: &mut Parameter) {
        self.conf.borrow_mut().push(p as *const Parameter as usize);
    }
    fn update_parameter(&self, _scale: f32, p: &mut Parameter) {
        self.seen.borrow_mut().push(p as *const Parameter as usize);
    }
}
struct Dyn<'a>(&'a mut dyn Model<'static>);
impl<'a> Model<'static> for Dyn<'a> {
    fn parameters(&self) -> Vec<&P> {
        self.0.parameters()
    }
    fn parameters_mut(&mut self) -> Vec<&mut P> {
        self.0.parameters_mut()
    }
}
impl Visit for Counter {
    fn list(&mut self, m: &mut [&mut P]) {
        self.configure_parameters(m);
        self.update_parameters(m);
    }
    fn model(&mut self, m: &mut dyn Model<'static>) {
        let mut d = Dyn(m);
        self.configure_model(&mut d);
        self.update_model(&mut d);
    }
}

type Dev = &'static Device<'static>;
pub struct Session {
    pub devs: [Dev; 2],
    pub m: Box<dyn Zoo>,
    pub w: World,
    opt: Opt,
}
pub fn place(devs: &[Dev], t: &prima_undine::Tensor<'static>) -> u32 {
    if !t.valid() {
        return 0;
    }
    devs.iter().position(|d| std::ptr::eq(*d, t.device())).map(|i| i as u32 + 1).unwrap_or(99)
}
impl Session {
    fn ids(&self) -> Vec<usize> {
        let mut v = vec![];
        self.m.all(&mut v);
        v.iter().map(|p| *p as *const P as usize).collect()
    }
    fn number(&self, q: &[usize]) -> Vec<usize> {
        let ids = self.ids();
        q.iter().map(|a| ids.iter().position(|b| a == b).map(|i| i + 1).unwrap_or(0)).collect()
    }
    fn obs(&self) -> Value {
        let mut v = vec![];
        self.m.all(&mut v);
        let read = |t: &prima_undine::Tensor<'static>| if t.valid() { encs(&t.device().tensor_to_vector(t), 1., true) } else { vec![] };
        v.iter()
            .map(|p| {
                let mut names: Vec<&String> = p.stats.keys().collect();
                names.sort();
                let stats: Vec<_> = names.iter().map(|n| p.stats[*n].borrow()).collect();
                let mut d = vec![place(&self.devs, &p.value), place(&self.devs, &p.gradient)];
                d.extend(stats.iter().map(|s| place(&self.devs, s)));
                json!({"d": d, "v": read(&p.value), "g": read(&p.gradient), "st": stats.iter().map(|s| read(s)).collect::<Vec<_>>()})
            })
            .collect()
    }
    fn log(&mut self, mut e: Value, out: &mut Out) {
        e["obs"] = self.obs();
        let got: Vec<usize> = self.m.m().into_iter().map(|p| p as *const P as usize).collect();
        let gotmut: Vec<usize> = self.m.m_mut().into_iter().map(|p| p as *const P as usize).collect();
        e["got"] = json!(self.number(&got));
        e["gotmut"] = json!(self.number(&gotmut));
        out.ev(e);
    }
    fn tree(&mut self, k: &str, path: &[usize], out: &mut Out) {
        let t = self.m.tree();
        self.log(json!({"k": k, "path": path.iter().map(|i| i + 1).collect::<Vec<_>>(), "t": t}), out);
    }
    fn list(&mut self, path: &[usize], grow: bool, out: &mut Out) {
        {
            let (m, w) = (&mut self.m, &mut self.w);
            if let Some((first, rest)) = path.split_first() {
                let mut x: &mut dyn Tree = m.kid(*first);
                for i in rest {
                    x = x.kid(*i);
                }
                if grow { x.grow(w) } else { x.shrink() }
            } else if grow {
                m.grow(w)
            } else {
                m.shrink()
            }
        }
        self.tree(if grow { "grow" } else { "shrink" }, path, out);
    }
    fn fill(&mut self, out: &mut Out) {
        let devs = self.devs;
        let mut v = vec![];
        self.m.all_mut(&mut v);
        for p in v {
            if p.gradient.valid() {
                let n = p.gradient.device().tensor_to_vector(&p.gradient).len();
                let x: Vec<f32> = (0..n).map(|_| self.w.r.range(-8, 8) as f32).collect();
                devs[place(&devs, &p.gradient) as usize - 1].reset_tensor_by_slice(&mut p.gradient, &x);
            }
        }
        self.log(json!({"k": "fill"}), out);
    }
    fn call(&mut self, k: &str, out: &mut Out) {
        let direct = self.w.r.chance(1, 3);
        let to = self.w.r.below(2) as usize;
        let mut c = Counter::default();
        let (m, opt, dev) = (&mut self.m, &mut self.opt, self.devs[to]);
        let res = attempt(|| match (k, direct) {
            ("configure", false) => m.configure(opt),
            ("configure", true) => with!(opt, o => o.configure_parameters(&mut m.m_mut())),
            ("update", false) => m.update(opt),
            ("update", true) => with!(opt, o => o.update_parameters(&mut m.m_mut())),
            ("visit", false) => m.visit(&mut c),
            ("visit", true) => c.list(&mut m.m_mut()),
            _ => m.go(dev),
        });
        let mut e = json!({"k": k, "ok": res.is_ok() as u8, "direct": direct as u8});
        if k == "visit" {
            e["seen"] = json!(self.number(&c.seen.borrow()));
            e["confd"] = json!(self.number(&c.conf.borrow()));
        }
        if k == "move" {
            e["to"] = json!(to + 1);
            e["host"] = self.w.host.iter().map(|(v, g)| json!({"v": encs(v, 1., true), "g": encs(g, 1., true)})).collect();
        }
        if let Err(m) = res {
            e["err"] = json!(m);
        }
        self.log(e, out);
    }
}

fn lists(t: &Value, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
    if let Some(c) = t["c"].as_array() {
        if t["n"] == "l" {
            out.push((path.clone(), c.len()));
        }
        if t["n"] == "s" {
            return;
        }
        for (i, x) in c.iter().enumerate() {
            path.push(i);
            lists(x, path, out);
            path.pop();
        }
    }
}

pub fn run(args: &Args) {
    let mut out = Out::new(&args.out);
    let mut r = Rng::new(args.seed);
    let leak = || -> Dev { Box::leak(Box::new(devices::Naive::new())) };
    let devs = [leak(), leak()];
    let begin = |name: &str, full: bool, host: bool, r: &mut Rng, out: &mut Out| -> Session {
        let mut w = World { dev: if host { None } else { Some(devs[r.below(2) as usize]) }, r: Rng::new(r.next()), integers: true, special: false, wild: false, host: vec![] };
        let m = make(name, &mut w, full);
        let mut s = Session { devs, m, w, opt: Opt::M(MomentumSGD::new(1., 1.)) };
        s.tree("make", &[], out);
        s
    };
    if let Some(file) = args.get("in") {
        let (shards, shard) = (args.num("shards", 1), args.num("shard", 0));
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let h = line.bytes().fold(0xcbf29ce484222325, |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            if (h ^ (h >> 29)) % shards != shard {
                continue;
            }
            let v: Value = serde_json::from_str(line).unwrap();
            let mut s = begin(v["z"].as_str().unwrap(), false, false, &mut r, &mut out);
            for o in v["ops"].as_array().unwrap() {
                let path: Vec<usize> = o["path"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
                match o["a"].as_str().unwrap() {
                    "grow" => s.list(&path, true, &mut out),
                    "shrink" => s.list(&path, false, &mut out),
                    a => {
                        if r.chance(1, 2) {
                            s.fill(&mut out);
                        }
                        s.call(a, &mut out)
                    }
                }
            }
        }
        return;
    }
    for _ in 0..args.num("n", 100) {
        let host = r.chance(1, 4);
        let name = *r.pick(&NAMES);
        let mut s = begin(name, true, host, &mut r, &mut out);
        if host {
            s.call("move", &mut out);
            if r.chance(1, 2) {
                s.call("move", &mut out);
            }
            // the rest follows one by one
            let d = devs[r.below(2) as usize];
            let mut v = vec![];
            s.m.all_mut(&mut v);
            for p in v {
                if !p.value.valid() {
                    p.move_to_device(d);
                }
            }
            s.w.dev = Some(d);
            s.log(json!({"k": "fill"}), &mut out);
        }
        for _ in 0..r.u(1, args.num("len", 12) as u32) {
            match r.below(10) {
                0..=2 => {
                    let mut ls = vec![];
                    let t = s.m.tree();
                    lists(&t, &mut vec![], &mut ls);
                    if !ls.is_empty() {
                        let (p, n) = r.pick(&ls).clone();
                        s.list(&p, n == 0 || n < 4 && r.chance(2, 3), &mut out);
                    }
                }
                3 => s.call("configure", &mut out),
                4..=6 => {
                    if r.chance(2, 3) {
                        s.call("configure", &mut out);
                    }
                    s.fill(&mut out);
                    s.call("update", &mut out);
                }
                7 => s.call("visit", &mut out),
                8 => s.call("update", &mut out),
                _ => s.call("move", &mut out),
            }
        }
    }
}
