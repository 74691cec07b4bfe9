//! Saving, loading and resuming the training of whole models.
use crate::d_model::place;
use crate::util::*;
use crate::zoo::*;
use crate::{with, Args};
use prima_undine::functions::BasicFunctions;
use prima_undine::optimizers::{Adam, MomentumSGD, SGD};
use prima_undine::{devices, Device, Node, OptimizerBase, Shape, Tensor};
use serde_json::{json, Value};

type Dev = &'static Device<'static>;
#[derive(Clone)]
struct Conf {
    kind: u64,
    h: [f32; 4],
    t: u32,
    set: [f32; 3],
}
impl Conf {
    fn new(r: &mut Rng) -> Conf {
        let x = |r: &mut Rng| r.range(1, 99) as f32 / 100.;
        Conf { kind: r.below(4), h: [x(r), x(r), x(r), x(r)], t: 0, set: [1., 0., 0.] }
    }
    fn build(&self) -> Opt {
        let h = self.h;
        let mut o = match self.kind {
            0 => Opt::S(SGD::new(h[0])),
            1 => Opt::M(MomentumSGD::new(h[0], h[1])),
            _ => Opt::A(Adam::new(h[0], h[1], h[2], h[3] * 1e-3)),
        };
        with!(&mut o, o => {
            *o.epoch() = self.t;
            o.set_learning_rate_scaling(self.set[0]);
            o.set_weight_decay(self.set[1]);
            o.set_gradient_clipping(self.set[2]);
        });
        o
    }
    /// What one would note of an optimizer besides the model.
    fn note(&self, o: &mut Opt) -> Conf {
        let mut c = self.clone();
        with!(o, o => {
            c.t = *o.epoch();
            c.set = [o.get_learning_rate_scaling(), o.get_weight_decay(), o.get_gradient_clipping()];
        });
        c
    }
}
struct Copy {
    m: Box<dyn Zoo>,
    o: Opt,
    c: Conf,
    dev: usize,
}
struct File {
    b: Vec<u8>,
    fmt: &'static str,
    c: Conf,
    like: usize,
}
struct S {
    devs: [Dev; 2],
    cs: Vec<Copy>,
    fs: Vec<File>,
    w: World,
}
fn h31(x: &str) -> u64 {
    let h = x.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    (h ^ (h >> 31)) & 0x3fffffff
}
fn read(t: &Tensor<'static>) -> Value {
    json!({"s": shape_json(&t.shape()), "v": t.device().tensor_to_vector(t).into_iter().map(bits).collect::<Vec<_>>()})
}
impl S {
    fn content(&mut self, i: usize) -> Value {
        let c = &mut self.cs[i];
        let mut v = vec![];
        c.m.all(&mut v);
        let ps: Vec<Value> = v
            .iter()
            .map(|p| {
                let mut names: Vec<&String> = p.stats.keys().collect();
                names.sort();
                let st: Vec<Value> = names.iter().map(|n| json!({"n": h31(n), "t": read(&p.stats[*n].borrow())})).collect();
                json!({"v": read(&p.value), "g": read(&p.gradient), "st": st})
            })
            .collect();
        let n = c.c.note(&mut c.o);
        json!({"ps": ps, "tree": h31(&c.m.tree().to_string()), "o": [n.t as i64, bits(n.set[0]), bits(n.set[1]), bits(n.set[2])]})
    }
    fn log(&mut self, mut e: Value, i: Option<usize>, out: &mut Out) {
        if let Some(i) = i {
            e["c"] = json!(i + 1);
            e["content"] = self.content(i);
            let mut v = vec![];
            self.cs[i].m.all(&mut v);
            let mut d = vec![];
            for p in v {
                d.push(place(&self.devs, &p.value));
                d.push(place(&self.devs, &p.gradient));
                d.extend(p.stats.values().map(|s| place(&self.devs, &s.borrow())));
            }
            e["d"] = json!(d);
            e["on"] = json!(self.cs[i].dev + 1);
        }
        let h: Vec<u64> = (0..self.cs.len()).map(|i| h31(&self.content(i).to_string())).collect();
        e["h"] = json!(h);
        out.ev(e);
    }
    fn base(&mut self, name: &str, full: bool, out: &mut Out) {
        let dev = self.w.r.below(2) as usize;
        self.w.dev = Some(self.devs[dev]);
        let m = make(name, &mut self.w, full);
        let c = Conf::new(&mut self.w.r);
        self.cs.push(Copy { m, o: c.build(), c, dev });
        let n = self.cs.len() - 1;
        self.log(json!({"k": "base", "z": name}), Some(n), out);
    }
    /// Back-propagates the loss of minibatch b.
    fn back(&mut self, i: usize, b: u64) {
        let dev = self.devs[self.cs[i].dev];
        let mut r = Rng::new(b);
        let mut total: Option<Node> = None;
        for p in self.cs[i].m.m_mut() {
            let s = Shape::new(p.shape().dims(), 2);
            let x: Vec<f32> = (0..s.size()).map(|_| r.range(-100, 100) as f32 / 77.).collect();
            let z = Node::from(p) * Node::from(dev.new_tensor_by_slice(s, &x));
            let y = (z.tanh() + &z * &z * 0.3).flatten().sum(0).batch_sum();
            total = Some(match total {
                None => y,
                Some(t) => t + y,
            });
        }
        if let Some(t) = total {
            t.backward();
        }
    }
    fn act(&mut self, i: usize, a: &str, out: &mut Out) {
        let (what, arg) = a.split_once(':').unwrap_or((a, ""));
        let n: u64 = arg.parse().unwrap_or(0);
        let res = attempt(|| match what {
            "back" => self.back(i, n),
            "conf" => {
                let c = &mut self.cs[i];
                c.m.configure(&c.o)
            }
            "step" => {
                let c = &mut self.cs[i];
                c.m.update(&mut c.o)
            }
            "l2" => with!(&mut self.cs[i].o, o => o.set_weight_decay(n as f32 / 64.)),
            "clip" => with!(&mut self.cs[i].o, o => o.set_gradient_clipping(n as f32 / 8.)),
            "scale" => with!(&mut self.cs[i].o, o => o.set_learning_rate_scaling(n as f32 / 16.)),
            _ => {
                // an additional statistic of any shape, filled with anything
                let mut r = Rng::new(n);
                let dev = self.devs[self.cs[i].dev];
                let (special, wild) = (self.w.special, self.w.wild);
                let mut v = vec![];
                self.cs[i].m.all_mut(&mut v);
                if v.is_empty() {
                    return;
                }
                let k = r.below(v.len() as u64) as usize;
                let p = &mut v[k];
                let name = *r.pick(&["x", "", "a \"quoted\"\n name", "Adam.m1", "m", "é", "shape", "values"]);
                let d: &[u32] = *r.pick(&[&[][..], &[1], &[3], &[2, 3], &[1, 1, 2], &[1, 1, 1, 1, 1, 1, 1, 2]]);
                let s = Shape::new(d, r.u(1, 3));
                p.add_stat(name, s);
                let x: Vec<f32> = (0..s.size()).map(|_| if special && r.chance(1, 2) { special_value(&mut r, wild) } else { r.range(-999, 999) as f32 / 7. }).collect();
                dev.reset_tensor_by_slice(&mut p.stats[name].borrow_mut(), &x);
            }
        });
        let mut e = json!({"k": "act", "a": a, "ok": res.is_ok() as u8});
        if let Err(m) = res {
            e["err"] = json!(m);
        }
        self.log(e, Some(i), out);
    }
    fn save(&mut self, i: usize, fmt: &'static str, out: &mut Out) {
        let c = &mut self.cs[i];
        let f = File { b: c.m.save(fmt), fmt, c: c.c.note(&mut c.o), like: i };
        self.fs.push(f);
        self.log(json!({"k": "save", "fmt": fmt}), Some(i), out);
    }
    fn load(&mut self, f: usize, out: &mut Out) {
        let to = self.w.r.below(2) as usize;
        let file = &self.fs[f];
        let dev = self.devs[to];
        let mut m = self.cs[file.like].m.load(file.fmt, &file.b);
        m.go(dev);
        let c = file.c.clone();
        let mut v = vec![];
        m.all_mut(&mut v);
        for p in v {
            if !p.value.valid() {
                p.move_to_device(dev);
            }
        }
        self.cs.push(Copy { m, o: c.build(), c, dev: to });
        let n = self.cs.len() - 1;
        self.log(json!({"k": "load", "f": f + 1, "to": to + 1}), Some(n), out);
    }
}

pub fn run(args: &Args) {
    let mut out = Out::new(&args.out);
    let mut r = Rng::new(args.seed);
    let leak = || -> Dev { Box::leak(Box::new(devices::Naive::new())) };
    let devs = [leak(), leak()];
    let names: Vec<&str> = NAMES.iter().copied().filter(|n| *n != "Attr").collect();
    let fresh = |r: &mut Rng, special: bool, wild: bool, out: &mut Out| -> S {
        let w = World { dev: None, r: Rng::new(r.next()), integers: false, special, wild, host: vec![] };
        let mut s = S { devs, cs: vec![], fs: vec![], w };
        s.log(json!({"k": "begin"}), None, out);
        s
    };
    if let Some(file) = args.get("in") {
        let (shards, shard) = (args.num("shards", 1), args.num("shard", 0));
        let den = args.num("den", 1);
        for line in std::fs::read_to_string(file).unwrap().lines() {
            let h = line.bytes().fold(0xcbf29ce484222325 ^ (args.seed / 1009), |h: u64, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            let h = h ^ (h >> 29);
            if h % shards != shard || (h / shards) % den != 0 {
                continue;
            }
            let v: Value = serde_json::from_str(line).unwrap();
            let mut s = fresh(&mut r, false, false, &mut out);
            let name = *r.pick(&["Solo", "Leafy", "Skippy", "Lists", "Pair", "Wide"]);
            s.base(name, true, &mut out);
            for o in v["ops"].as_array().unwrap() {
                let c = o["c"].as_u64().unwrap() as usize - 1;
                match o["a"].as_str().unwrap() {
                    "save" => {
                        let f = *r.pick(&FORMATS);
                        s.save(c, f, &mut out)
                    }
                    "load" => s.load(c, &mut out),
                    a => s.act(c, a, &mut out),
                }
            }
        }
        return;
    }
    let len = args.num("len", 25);
    for _ in 0..args.num("n", 100) {
        let special = r.chance(1, 4);
        let wild = special && r.chance(1, 2);
        let mut s = fresh(&mut r, special, wild, &mut out);
        let name = *r.pick(&names);
        s.base(name, true, &mut out);
        if r.chance(1, 5) {
            let name = *r.pick(&names);
            s.base(name, true, &mut out);
        }
        // what one copy did is often what the others do next
        let mut script: Vec<String> = vec![];
        let mut at: Vec<usize> = vec![0; s.cs.len()];
        for _ in 0..len {
            let i = r.below(s.cs.len() as u64) as usize;
            match r.below(10) {
                0 if s.fs.len() < 6 => {
                    let f = if wild { "bin" } else { *r.pick(&FORMATS) };
                    s.save(i, f, &mut out);
                    if r.chance(1, 2) && s.cs.len() < 4 {
                        let n = s.fs.len() - 1;
                        s.load(n, &mut out);
                        let p = at[i];
                        at.push(p);
                    }
                }
                1 if !s.fs.is_empty() && s.cs.len() < 4 => {
                    let f = r.below(s.fs.len() as u64) as usize;
                    s.load(f, &mut out);
                    at.push(0);
                }
                _ => {
                    if at[i] >= script.len() {
                        let a = if special {
                            format!("stat:{}", r.below(1000))
                        } else {
                            match r.below(12) {
                                0..=4 => format!("back:{}", r.below(4)),
                                5..=8 => "step".to_string(),
                                9 => {
                                    let w = *r.pick(&["l2", "clip", "scale"]);
                                    format!("{}:{}", w, r.below(16))
                                }
                                10 => format!("stat:{}", r.below(1000)),
                                _ => "conf".to_string(),
                            }
                        };
                        let a = if script.is_empty() && !special { "conf".to_string() } else { a };
                        script.push(a);
                    }
                    let a = script[at[i]].clone();
                    at[i] += 1;
                    s.act(i, &a, &mut out);
                }
            }
        }
    }
}
