//! Random single operations: acceptance, values, gradients.
use crate::gen::*;
use crate::ops::*;
use crate::util::*;
use crate::Args;
use prima_undine::{devices, Device};

pub fn naive() -> Dev {
    Box::leak(Box::new(Device::from(devices::Naive::new())))
}

pub fn list(name: &str) -> Vec<&'static str> {
    match name {
        "exact" => EXACT_OPS.iter().chain(ASSIGN_OPS).cloned().collect(),
        "arg" => ARG_OPS.to_vec(),
        "real" => REAL_OPS.to_vec(),
        "contrib" => CONTRIB_OPS.to_vec(),
        "all" => EXACT_OPS.iter().chain(ASSIGN_OPS).chain(ARG_OPS).chain(REAL_OPS).chain(CONTRIB_OPS).cloned().collect(),
        "grad" => EXACT_OPS.iter().chain(REAL_OPS).cloned().collect(),
        _ => panic!("unknown list {}", name),
    }
}

/// Upstream weights for the outputs of the given sizes.
pub fn weights(r: &mut Rng, cap: usize, maxw: i64, always: bool) -> impl FnMut(&[usize]) -> Vec<Gy> + '_ {
    move |sizes| {
        let mut v: Vec<Gy> = sizes
            .iter()
            .map(|&n| {
                if sizes.len() > 1 && r.chance(1, 3) && !always {
                    return None;
                }
                let w = |r: &mut Rng| r.range(1, maxw) * if r.chance(1, 2) { 1 } else { -1 };
                Some(if n > cap {
                    let mut g: Vec<(usize, i64)> = (0..24).map(|_| (r.below(n as u64) as usize, w(r))).collect();
                    g.push((n - 1 - r.below(16) as usize, w(r)));
                    g.push((n - 1, w(r)));
                    g.push((0, w(r)));
                    g
                } else if r.chance(1, 4) {
                    vec![(r.below(n as u64) as usize, w(r))]
                } else {
                    (0..n).map(|p| (p, w(r))).collect()
                })
            })
            .collect();
        if v.iter().all(|g| g.is_none()) {
            v[0] = Some(vec![(0, 1)]);
        }
        v
    }
}

/// A fresh guarded device with bystanders and released blocks of several classes.
pub fn guarded(r: &mut Rng) -> Dev {
    WATCH.with(|w| *w.borrow_mut() = None);
    let g = crate::guard::Guard::new();
    let dev: Dev = Box::leak(Box::new(g.device()));
    let mut w = Watch::new(g);
    for _ in 0..4 {
        let n = r.u(1, 200);
        let v: Vec<f32> = (0..n).map(|i| i as f32 + 0.5).collect();
        w.by.push(dev.new_tensor_by_slice(prima_undine::Shape::new(&[n], 1), &v));
    }
    WATCH.with(|x| *x.borrow_mut() = Some(w));
    dev
}
/// Changes the poison, and leaves released blocks between and around live ones.
pub fn churn(r: &mut Rng, dev: Dev) {
    WATCH.with(|x| {
        let mut x = x.borrow_mut();
        let w = x.as_mut().unwrap();
        w.guard.set_poison(*r.pick(&[f32::NAN, 1e30, -1e30, 3.25, 0.]));
        let mut tmp = vec![];
        for _ in 0..r.u(0, 6) {
            let n = *r.pick(&[1u32, 20, 64, 65, 100, 128, 200, 256]);
            tmp.push(dev.new_tensor_by_constant(prima_undine::Shape::new(&[n], 1), 7.));
        }
        r.shuffle(&mut tmp);
        if r.chance(1, 3) {
            let i = r.below(w.by.len() as u64) as usize;
            let n = r.u(1, 200);
            w.by[i] = dev.new_tensor_by_constant(prima_undine::Shape::new(&[n], 1), -3.);
        }
    })
}

/// The configurations of MCCalls, each in every mode.
fn replay(a: &Args, path: &str, modes: &[&str]) {
    let (shards, shard, den) = (a.num("shards", 1), a.num("shard", 0), a.num("den", 1));
    let guard = a.num("guard", 0) == 1;
    let mut r = Rng::new(a.seed);
    let mut h = Rng::new(a.seed / 1009);
    let salt = h.next();
    let mut dev = naive();
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let ints = |v: &serde_json::Value| -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
    let size = |x: i64| if x >= 2_000_000_000 { u32::MAX } else { x as u32 };
    let mut done = 0;
    for (i, line) in std::fs::read_to_string(path).unwrap().lines().enumerate() {
        if i as u64 % shards != shard || Rng::new(salt ^ i as u64).below(den) != 0 {
            continue;
        }
        let v: serde_json::Value = serde_json::from_str(line).unwrap();
        let mut c = Case {
            op: v["op"].as_str().unwrap().into(),
            u: ints(&v["u"]).iter().map(|&x| size(x)).collect(),
            c: v["c"].as_i64().unwrap(),
            sx: v["sx"].as_f64().unwrap(),
            sy: v["sy"].as_f64().unwrap(),
            xs: vec![],
            alias: v["al"] == 1,
            exact: v["ex"] == 1,
            at: None,
            dense: 0,
        };
        for x in v["xs"].as_array().unwrap() {
            c.xs.push(T { d: ints(&x["d"]).iter().map(|&x| x as u32).collect(), b: x["b"].as_u64().unwrap() as u32, v: Data::V(ints(&x["v"])) });
        }
        for &m in modes {
            let assign = c.op.ends_with("assign");
            if v["ok"] == 0 && (m == "g" || m == "b") || assign && m != "t" {
                continue;
            }
            if guard {
                if done % 60 == 0 {
                    dev = guarded(&mut r);
                }
                churn(&mut r, dev);
            }
            done += 1;
            let form = r.u(0, 15);
            let mut head = c.head("intent", m);
            head.insert("form".into(), serde_json::json!(form));
            out.intent(&intent, &serde_json::Value::Object(head));
            let e = match m {
                "t" => run_t(&c, dev, form),
                "n" => run_n(&c, dev, form),
                "g" => run_g(&c, dev, form, &mut weights(&mut r, usize::MAX, 3, false)),
                _ => {
                    let gx0: Vec<T> = c.xs.iter().map(|x| any_tensor(&mut r, x.d.clone(), x.b, -5, 5)).collect();
                    match run_b(&c, dev, &gx0, &mut weights(&mut r, usize::MAX, 3, false)) {
                        Some(e) => e,
                        None => continue,
                    }
                }
            };
            out.ev(e);
        }
    }
    let _ = std::fs::remove_file(&intent);
}

pub fn run(a: &Args) {
    let mut dev = naive();
    let guard = a.num("guard", 0) == 1;
    let wide = a.num("wide", 0); // percent of cases with many samples, operands, or long lines
    let edge = a.num("edge", 0); // percent of cases that fill memory blocks exactly
    let ops = list(a.get("list").unwrap_or("all"));
    let n = a.num("n", 1000);
    let noise = a.num("noise", 0);
    let large = a.num("large", 0); // percent of large cases
    let grad = a.num("grad", 0) == 1;
    let modes: Vec<&str> = a.get("modes").unwrap_or("tn").split("").filter(|s| !s.is_empty()).collect();
    if let Some(p) = a.get("in") {
        return replay(a, p, &modes);
    }
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let mut r = Rng::new(a.seed);
    for i in 0..n {
        let op = ops[((i + a.seed) % ops.len() as u64) as usize];
        let size = if r.chance(large, 100) { Size::Large } else if r.chance(edge, 100) { Size::Edge } else if r.chance(wide, 100) { Size::Wide } else { Size::Small };
        if guard {
            if i % 60 == 0 {
                dev = guarded(&mut r);
            }
            churn(&mut r, dev);
        }
        let alias = matches!(op, "add" | "sub" | "mul" | "div" | "pow" | "matmul" | "concat" | "batch_concat" | "slice_sum") && r.chance(1, 5);
        let mut c = case(&mut r, op, Opts { size, grad, noise, alias });
        if !grad {
            ranks(&mut r, &mut c);
            magnify(&mut r, &mut c);
        }
        let form = r.u(0, 15);
        let m = *r.pick(&modes);
        GRADIENT_SCALE.with(|k| k.set(if r.chance(1, 4) { 2f64.powi(*r.pick(&[-40, -30, -20, 20, 30, 40])) } else { 1. }));
        let mut head = c.head("intent", m);
        head.insert("form".into(), serde_json::json!(form));
        out.intent(&intent, &serde_json::Value::Object(head));
        let big = matches!(size, Size::Large | Size::Wide);
        let cap = match size {
            Size::Large => 400,
            Size::Wide => 40,
            _ => usize::MAX,
        };
        match m {
            "t" => out.ev(run_t(&c, dev, form)),
            "n" => {
                if op.ends_with("assign") {
                    out.ev(run_t(&c, dev, form))
                } else {
                    out.ev(run_n(&c, dev, form))
                }
            }
            "g" => {
                let mut w = weights(&mut r, cap, 3, false);
                out.ev(run_g(&c, dev, form, &mut w))
            }
            "b" => {
                let gx0: Vec<T> = c.xs.iter().map(|x| if big { T { d: x.d.clone(), b: x.b, v: Data::F(1, 0, 7, 3) } } else { any_tensor(&mut r, x.d.clone(), x.b, -5, 5) }).collect();
                let mut w = weights(&mut r, cap, 3, false);
                let e = run_b(&c, dev, &gx0, &mut w);
                drop(w);
                match e {
                    Some(e) => out.ev(e),
                    None => {
                        let mut w = weights(&mut r, cap, 3, false);
                        out.ev(run_g(&c, dev, form, &mut w))
                    }
                }
            }
            _ => panic!("mode"),
        }
    }
    let _ = std::fs::remove_file(&intent);
}
