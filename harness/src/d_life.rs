//! Histories of tensors on two devices: who owns which storage.
use crate::guard::Guard;
use crate::util::*;
use crate::Args;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Parameter, Shape, Tensor};
use serde_json::{json, Value};

pub type T = Tensor<'static>;

#[derive(Clone, Debug)]
struct Op {
    a: String,
    s: usize, // slots and devices count from 1
    d: usize,
    sh: (Vec<u32>, u32),
    t: usize,
    vals: Vec<f32>,
}

struct World {
    guards: Vec<Guard>,
    devs: Vec<*mut Device<'static>>,
    slots: Vec<Option<Box<T>>>,
    // what the language knows about borrowing
    refs: Vec<usize>,
}

unsafe fn forever<'a, X>(x: &X) -> &'a X {
    &*(x as *const X)
}

impl World {
    fn new(nslots: usize) -> World {
        let guards: Vec<Guard> = (0..2).map(|_| Guard::new()).collect();
        let devs = guards.iter().map(|g| Box::into_raw(Box::new(g.device()))).collect();
        World { guards, devs, slots: (0..nslots).map(|_| None).collect(), refs: vec![0; nslots] }
    }
    fn dev(&self, d: usize) -> &'static Device<'static> {
        unsafe { &*self.devs[d - 1] }
    }
    fn borrowed(&self, s: usize) -> bool {
        (0..self.slots.len()).any(|j| self.slots[j].is_some() && self.refs[j] == s)
    }
    fn is_ref(&self, s: usize) -> bool {
        self.refs[s - 1] != 0
    }
    /// Performs one request.
    fn perform(&mut self, o: &Op, thread: bool) -> Result<(), String> {
        let s = o.s - 1;
        let sh = || Shape::new(&o.sh.0, o.sh.1);
        let other: Option<&'static T> = if o.t > 0 { self.slots[o.t - 1].as_ref().map(|b| unsafe { forever(&**b) }) } else { None };
        match o.a.as_str() {
            "new" | "host" | "const" | "slice" | "copy" | "from" | "fromparam" | "neg" | "reshape" | "flat" => {
                let d = || self.dev(o.d);
                let r = attempt(|| -> T {
                    match o.a.as_str() {
                        "new" => d().new_tensor(sh()),
                        "host" => Tensor::new_host_tensor(sh(), o.vals.clone()),
                        "const" => d().new_tensor_by_constant(sh(), o.vals[0]),
                        "slice" => d().new_tensor_by_slice(sh(), &o.vals),
                        "copy" => other.unwrap().device().copy_tensor(other.unwrap()),
                        "from" => Tensor::from(other.unwrap()),
                        "fromparam" => {
                            let mut p: Parameter<'static> =
                                Parameter::new(d().new_tensor_by_slice(sh(), &o.vals), d().new_tensor_by_constant(sh(), 0.));
                            let p2: &mut Parameter<'static> = unsafe { &mut *(&mut p as *mut _) };
                            let t = Tensor::from(p2);
                            // the parameter goes away: nothing of it may be needed any more
                            drop(p);
                            t
                        }
                        "neg" => -other.unwrap(),
                        "reshape" => other.unwrap().reshape(sh()),
                        _ => other.unwrap().flatten(),
                    }
                })?;
                self.refs[s] = if o.a == "from" { o.t } else { 0 };
                self.slots[s] = Some(Box::new(r));
                Ok(())
            }
            "alloc" => {
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| x.alloc()).map(|_| {
                    self.refs[s] = 0;
                })
            }
            "move" => {
                let d = self.dev(o.d);
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| x.move_to_device(d))
            }
            "update" => {
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| x.update_shape(sh()))
            }
            "reset" => {
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| x.reset(o.vals[0]))
            }
            "resetslice" => {
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| {
                    let d = x.device();
                    d.reset_tensor_by_slice(x, &o.vals)
                })
            }
            "resettensor" => {
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| {
                    let d = x.device();
                    d.reset_tensor_by_tensor(x, other.unwrap())
                })
            }
            "refer" => {
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| x.refer(other.unwrap())).map(|_| {
                    self.refs[s] = o.t;
                })
            }
            "replace" => {
                let y = *self.slots[o.t - 1].take().unwrap();
                self.refs[o.t - 1] = 0;
                let x = self.slots[s].as_mut().unwrap();
                attempt(|| x.replace(y)).map(|_| {
                    self.refs[s] = 0;
                })
            }
            "drop" => {
                let x = self.slots[s].take().unwrap();
                self.refs[s] = 0;
                if thread {
                    std::thread::spawn(move || attempt(|| drop(x))).join().unwrap()
                } else {
                    attempt(|| drop(x))
                }
            }
            a => panic!("HARNESS-ERROR unknown request {}", a),
        }
    }
    fn obs(&self) -> Value {
        let mut v = vec![];
        for (i, x) in self.slots.iter().enumerate() {
            if let Some(x) = x {
                let r = attempt(|| {
                    let shape = BasicFunctions::shape(&**x);
                    let d = attempt(|| x.device() as *const Device as usize).unwrap_or(0);
                    let d = self.devs.iter().position(|p| *p as usize == d).map(|p| p + 1).unwrap_or(0);
                    let b = if d > 0 { self.guards[d - 1].block_of(x).map(|b| b + 1).unwrap_or(0) } else { 0 };
                    // storage that was released, or is not there at all, is not read
                    let live = d > 0 && b > 0 && self.guards[d - 1].st().blocks[b - 1].returned == 0;
                    let x = if x.valid() && live { encs(&x.device().tensor_to_vector(x), 1., true) } else { vec![] };
                    json!({"d": d, "b": b, "sh": shape_json(&shape), "x": x})
                });
                let mut o = r.unwrap_or_else(|m| json!({"d": 9, "b": 0, "sh": {"d": [], "b": 0}, "x": [], "panic": m}));
                o["s"] = json!(i + 1);
                o["v"] = json!(x.valid() as u8);
                v.push(o);
            }
        }
        Value::Array(v)
    }
    fn exec(&mut self, o: &Op, thread: bool, out: &mut Out) {
        let mut e = json!({"k": "op", "a": o.a, "s": o.s, "d": o.d, "sh": {"d": o.sh.0, "b": o.sh.1}, "t": o.t,
                           "vals": encs(&o.vals, 1., true)});
        let r = self.perform(o, thread);
        e["ok"] = json!(r.is_ok() as u8);
        e["obs"] = self.obs();
        if let Err(m) = r {
            e["err"] = json!(m);
        }
        out.ev(e);
    }
    /// Everything goes away, references first, then the devices.
    fn end(mut self, rng: &mut Rng, out: &mut Out) {
        loop {
            let free: Vec<usize> = (1..=self.slots.len()).filter(|&s| self.slots[s - 1].is_some() && !self.borrowed(s)).collect();
            if free.is_empty() {
                break;
            }
            let s = *rng.pick(&free);
            let o = Op { a: "drop".into(), s, d: 0, sh: (vec![], 1), t: 0, vals: vec![] };
            self.exec(&o, false, out);
        }
        let mut devs = vec![];
        for (g, d) in self.guards.iter().zip(&self.devs) {
            let ok = attempt(|| unsafe { drop(Box::from_raw(*d)) }).is_ok();
            let (total, back, bad) = g.counts();
            devs.push(json!([total, back, bad + (!ok) as u64, g.zones_intact() as u8]));
        }
        out.ev(json!({"k": "end", "devs": devs}));
    }
}

fn parse(v: &Value) -> Op {
    let n = |k: &str| v[k].as_i64().unwrap() as usize;
    Op {
        a: v["a"].as_str().unwrap().into(),
        s: n("s"),
        d: n("d"),
        sh: (
            v["sh"]["d"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect(),
            v["sh"]["b"].as_u64().unwrap() as u32,
        ),
        t: n("t"),
        vals: v["vals"].as_array().unwrap().iter().map(|x| x.as_f64().unwrap() as f32).collect(),
    }
}

fn random_shape(r: &mut Rng) -> (Vec<u32>, u32) {
    match r.below(8) {
        0 => (vec![r.u(60, 70)], 1),
        1 => (vec![2, r.u(1, 3), r.u(1, 2)], r.u(1, 2)),
        2 => (vec![16, 8], r.u(1, 2)),
        _ => r.pick(&[(vec![], 1), (vec![2], 1), (vec![1, 2], 1), (vec![], 2), (vec![2, 2], 1), (vec![4], 1), (vec![2], 2), (vec![3], 1)]).clone(),
    }
}
fn size(sh: &(Vec<u32>, u32)) -> usize {
    (sh.0.iter().product::<u32>() * sh.1) as usize
}

/// A request the language allows, valid or not.
fn choose(w: &World, r: &mut Rng) -> Option<Op> {
    let n = w.slots.len();
    let s = r.range(1, n as i64) as usize;
    let t = r.range(1, n as i64) as usize;
    let live = w.slots[s - 1].is_some();
    let ramp = |r: &mut Rng, n: usize| -> Vec<f32> {
        let b = r.range(-50, 50);
        (0..n).map(|i| (b + i as i64) as f32).collect()
    };
    let mut o = Op { a: "".into(), s, d: 0, sh: (vec![], 1), t: 0, vals: vec![] };
    let shape = |r: &mut Rng| -> (Vec<u32>, u32) {
        // often the shape of some tensor
        let have: Vec<(Vec<u32>, u32)> =
            w.slots.iter().flatten().map(|x| { let s = BasicFunctions::shape(&**x); (s.dims().to_vec(), s.batch()) }).collect();
        if !have.is_empty() && r.chance(3, 5) { r.pick(&have).clone() } else { random_shape(r) }
    };
    if !live {
        let a = *r.pick(&["new", "new", "new", "host", "const", "slice", "slice", "copy", "from", "from", "fromparam", "neg", "reshape", "flat"]);
        o.a = a.into();
        match a {
            "new" | "const" | "slice" | "fromparam" => {
                o.d = r.range(1, 2) as usize;
                if r.chance(2, 3) { o.d = 1 }
                o.sh = shape(r);
                let mut k = size(&o.sh);
                if a == "fromparam" { o.sh.1 = 1; k = size(&o.sh); }
                if a == "slice" && r.chance(1, 6) { k = if r.chance(1, 2) { k + 1 } else { k - 1 } }
                if a == "const" { k = 1 }
                if a != "new" { o.vals = ramp(r, k) }
            }
            "host" => {
                o.sh = shape(r);
                let mut k = size(&o.sh);
                if r.chance(1, 6) { k = k.saturating_sub(1) }
                o.vals = ramp(r, k);
            }
            _ => {
                let y = w.slots[t - 1].as_ref()?;
                if s == t || attempt(|| y.device()).is_err() { return None }
                o.t = t;
                if a == "reshape" {
                    let ys = BasicFunctions::shape(&**y);
                    o.sh = if r.chance(1, 2) { (vec![ys.volume()], 1) } else { random_shape(r) };
                }
            }
        }
        return Some(o);
    }
    if w.borrowed(s) {
        return None;
    }
    let a = *r.pick(&["alloc", "alloc", "move", "move", "update", "reset", "resetslice", "resettensor", "refer", "refer", "refer",
                      "replace", "replace", "replace", "drop"]);
    o.a = a.into();
    let x = w.slots[s - 1].as_ref().unwrap();
    match a {
        "alloc" | "drop" => {}
        "move" => o.d = r.range(1, 2) as usize,
        "update" => {
            let xs = BasicFunctions::shape(&**x);
            o.sh = match r.below(3) { 0 => (vec![xs.size()], 1), 1 => (vec![1, xs.volume()], xs.batch()), _ => shape(r) };
        }
        "reset" | "resetslice" => {
            if w.is_ref(s) { return None }
            let mut k = size(&(BasicFunctions::shape(&**x).dims().to_vec(), BasicFunctions::shape(&**x).batch()));
            if r.chance(1, 5) { k = if r.chance(1, 2) { k + 1 } else { k - 1 } }
            o.vals = if a == "reset" { ramp(r, 1) } else { ramp(r, k) };
        }
        _ => {
            let y = w.slots[t - 1].as_ref()?;
            if s == t || w.refs[t - 1] == s { return None }
            o.t = t;
            let xd = attempt(|| x.device() as *const _ as usize).unwrap_or(0);
            let yd = attempt(|| y.device() as *const _ as usize).unwrap_or(0);
            if a == "resettensor" && (w.is_ref(s) || xd != yd) { return None }
            if a == "replace" && (w.borrowed(t) || (!y.valid() && w.is_ref(t))) { return None }
        }
    }
    Some(o)
}

pub fn run(args: &Args) {
    let mut out = Out::new(&args.out);
    let intent = format!("{}.intent", args.out);
    let mut rng = Rng::new(args.seed);
    if let Some(f) = args.get("in") {
        let (shards, shard) = (args.num("shards", 1), args.num("shard", 0));
        let (num, den) = (args.num("num", 1), args.num("den", 1));
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            // which histories are taken depends on the history, not on its place in the file
            let h = line.bytes().fold(args.seed / 1009, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
            let h = h ^ (h >> 29);
            if h % shards != shard || (h / shards) % den >= num {
                continue;
            }
            out.intent(&intent, &v);
            let n = 3;
            let mut w = World::new(n);
            out.ev(json!({"k": "begin", "n": n}));
            for o in v.as_array().unwrap() {
                w.exec(&parse(o), false, &mut out);
            }
            w.end(&mut rng, &mut out);
        }
        return;
    }
    let len = args.num("len", 40);
    let thread = args.num("thread", 5);
    for _ in 0..args.num("n", 100) {
        let n = rng.range(3, 6) as usize;
        let mut w = World::new(n);
        out.ev(json!({"k": "begin", "n": n}));
        for _ in 0..len {
            if let Some(o) = choose(&w, &mut rng) {
                out.intent(&intent, &json!(format!("{:?}", o)));
                let th = rng.below(100) < thread;
                w.exec(&o, th, &mut out);
            }
        }
        w.end(&mut rng, &mut out);
    }
}
