//! Functions at arguments of every magnitude, replayed from the enumeration of MCExt.
use crate::d_ops::naive;
use crate::ops::Dev;
use crate::util::*;
use crate::Args;
use prima_undine::functions::*;
use prima_undine::{Node, Shape, Tensor};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// <<sign, 24-bit mantissa, exponent>>
fn num(v: f32) -> Value {
    if v.is_nan() {
        return json!([0, -2, 0]);
    }
    let s = if v < 0. { -1 } else { 1 };
    if v.is_infinite() {
        return json!([s, -1, 0]);
    }
    if v == 0. {
        return json!([0, 0, 0]);
    }
    let b = v.to_bits();
    let (mut m, mut e) = (b & 0x7f_ffff, (b >> 23 & 255) as i32);
    if e == 0 {
        e = -149;
        while m < 1 << 23 {
            m <<= 1;
            e -= 1;
        }
    } else {
        m |= 1 << 23;
        e -= 150;
    }
    json!([s, m, e])
}
fn value(v: &Value) -> f32 {
    let q: Vec<i64> = v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    if q[1] == -1 {
        return q[0] as f32 * f32::INFINITY;
    }
    (q[0] as f64 * q[1] as f64 * 2f64.powi(q[2] as i32)) as f32
}
fn unary<F: BasicFunctions>(f: &str, p: i64, x: &F) -> F {
    let k = p as f32 / 4.;
    match f {
        "exp" => x.exp(),
        "ln" => x.ln(),
        "sqrt" => x.sqrt(),
        "sin" => x.sin(),
        "cos" => x.cos(),
        "tan" => x.tan(),
        "tanh" => x.tanh(),
        "sigmoid" => x.sigmoid(),
        "softplus" => x.softplus(),
        "abs" => x.abs(),
        "relu" => x.relu(),
        "lrelu" => x.lrelu(),
        "prelu" => x.prelu(k),
        "elu" => x.elu(k),
        "powf" => x.powf(k),
        "powi" => x.powi(p as i32),
        _ => panic!("HARNESS-ERROR function {}", f),
    }
}
/// a shape holding at least n elements
fn shape_for(r: &mut Rng, n: usize) -> Shape {
    let mut d = vec![];
    let mut left = n as u32;
    for _ in 0..r.below(4) {
        let k = r.u(1, 4.min(left));
        d.push(k);
        left = (left + k - 1) / k;
    }
    let b = if r.chance(1, 2) { r.u(1, left.min(4)) } else { 1 };
    let last = (left + b - 1) / b;
    d.push(last);
    Shape::new(&d, b)
}

fn funs(r: &mut Rng, dev: Dev, out: &mut Out, all: &[Value]) {
    let mut g: BTreeMap<(String, i64), Vec<(i64, f32)>> = BTreeMap::new();
    for v in all {
        g.entry((v["f"].as_str().unwrap().into(), v["p"].as_i64().unwrap())).or_default().push((v["i"].as_i64().unwrap(), value(&v["x"])));
    }
    for ((f, p), mut c) in g {
        r.shuffle(&mut c);
        let mut s = 0;
        while s < c.len() {
            let n = (1 + r.below(24) as usize).min(c.len() - s);
            let part = &c[s..s + n];
            s += n;
            let sh = shape_for(r, n);
            let at = |j: usize| part[j % n];
            let xs: Vec<f32> = (0..sh.size() as usize).map(|j| at(j).1).collect();
            for m in ["t", "n"] {
                let got = attempt(|| {
                    let x = dev.new_tensor_by_slice(sh, &xs);
                    if m == "t" {
                        (unary(&f, p, &x).to_vec(), vec![])
                    } else {
                        let l = Node::from(&x);
                        let y = unary(&f, p, &l);
                        let v = y.to_vec();
                        y.backward();
                        let g = l.inner_gradient().to_vec();
                        (v, g)
                    }
                });
                match got {
                    Ok((y, g)) if y.len() == xs.len() => {
                        for j in 0..xs.len() {
                            let mut e = json!({"k": "fun", "ok": 1, "i": at(j).0, "f": f, "p": p, "m": m, "y": num(y[j])});
                            if m == "n" {
                                e["g"] = num(g[j]);
                            }
                            out.ev(e);
                        }
                    }
                    Ok(_) => out.ev(json!({"k": "fun", "ok": 0, "f": f, "p": p, "err": "size"})),
                    Err(e) => out.ev(json!({"k": "fun", "ok": 0, "f": f, "p": p, "err": e.chars().take(120).collect::<String>()})),
                }
            }
        }
    }
}

struct Family {
    lse: Vec<f32>,
    ln: Vec<f32>,
    sm: Vec<f32>,
    sp: Vec<f32>,
    ce: Vec<f32>,
    g: Option<[Vec<f32>; 6]>,
}
fn family_t(x: &Tensor, t: &Tensor, ids: &[u32], d: u32) -> Family {
    Family {
        lse: x.logsumexp(d).to_vec(),
        ln: x.ln_softmax(d).to_vec(),
        sm: x.softmax(d).to_vec(),
        sp: x.sparse_softmax_cross_entropy(ids, d).to_vec(),
        ce: x.softmax_cross_entropy(t, d).to_vec(),
        g: None,
    }
}
fn back(l: &Node, y: Node, g: &mut Vec<f32>) -> Vec<f32> {
    let v = y.to_vec();
    y.backward();
    *g = l.inner_gradient().to_vec();
    v
}
fn family_n(x: &Tensor, t: &Tensor, ids: &[u32], d: u32) -> Family {
    let mut g: [Vec<f32>; 6] = Default::default();
    let l = Node::from(x);
    let lse = back(&l, l.logsumexp(d), &mut g[0]);
    let l = Node::from(x);
    let ln = back(&l, l.ln_softmax(d), &mut g[1]);
    let l = Node::from(x);
    let sm = back(&l, l.softmax(d), &mut g[2]);
    let l = Node::from(x);
    let sp = back(&l, l.sparse_softmax_cross_entropy(ids, d), &mut g[3]);
    let l = Node::from(x);
    let lt = Node::from(t);
    let ce = back(&l, l.softmax_cross_entropy(&lt, d), &mut g[4]);
    g[5] = lt.inner_gradient().to_vec();
    Family { lse, ln, sm, sp, ce, g: Some(g) }
}

/// Lines along an axis of a tensor, all of one length.
fn lines(r: &mut Rng, dev: Dev, out: &mut Out, mut all: Vec<Value>) {
    r.shuffle(&mut all);
    let key = |v: &Value| if v["k"] == "line" { "M" } else { "v" };
    let ints = |v: &Value| -> Vec<i64> { v[key(v)].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
    let floats = |v: &Value| -> Vec<f32> {
        ints(v)
            .iter()
            .map(|&q| match v["k"].as_str().unwrap() {
                "line" if q == -99 => f32::NEG_INFINITY,
                "line" => (q as f64 * 2f64.powi(v["E"].as_i64().unwrap() as i32)) as f32,
                _ => (2f64.powi(v["h"].as_i64().unwrap() as i32) + q as f64 / 16.) as f32,
            })
            .collect()
    };
    let mut s = 0;
    while s < all.len() {
        let (p, q, b) = (*r.pick(&[1, 1, 2, 3]), *r.pick(&[1, 1, 2]), *r.pick(&[1, 2, 3]));
        let n = ints(&all[s]).len();
        let k = (p * q * b).min(all.len() - s);
        let (p, q, b) = if k < p * q * b { (1, 1, k) } else { (p, q, b) };
        let part = &all[s..s + k];
        s += k;
        // the axis
        let d = r.below(7) as usize + (p > 1 || q > 1) as usize;
        let d = d.min(6);
        let mut dims = vec![1u32; d + 2];
        let low = if d == 0 { 1 } else { p };
        let high = p * q / low;
        if d > 0 {
            dims[r.below(d as u64) as usize] = low as u32;
        }
        dims[d] = n as u32;
        dims[d + 1] = high as u32;
        let sh = Shape::new(&dims, b as u32);
        let ids: Vec<u32> = (0..b).map(|_| r.below(n as u64) as u32).collect();
        let mut xs = vec![0f32; n * k];
        let mut ts = vec![0f32; n * k];
        let at = |j: usize, i: usize| -> usize {
            // line j: sample, upper, lower
            let (lo, hi) = (j % low, j / low);
            lo + low * (i + n * hi)
        };
        let id = |j: usize| ids[j / (p * q)];
        for j in 0..k {
            for (i, v) in floats(&part[j]).into_iter().enumerate() {
                xs[at(j, i)] = v;
                ts[at(j, i)] = (id(j) as usize == i) as u32 as f32;
            }
        }
        for m in ["t", "n"] {
            let got = attempt(|| {
                let x = dev.new_tensor_by_slice(sh, &xs);
                let t = dev.new_tensor_by_slice(sh, &ts);
                if m == "t" {
                    family_t(&x, &t, &ids, d as u32)
                } else {
                    family_n(&x, &t, &ids, d as u32)
                }
            });
            let f = match got {
                Ok(f) if f.lse.len() == k && f.ln.len() == n * k && f.sm.len() == n * k && f.sp.len() == k && f.ce.len() == k => f,
                Ok(_) => {
                    out.ev(json!({"k": "line", "ok": 0, "err": "size"}));
                    continue;
                }
                Err(e) => {
                    out.ev(json!({"k": "line", "ok": 0, "err": e.chars().take(120).collect::<String>()}));
                    continue;
                }
            };
            for j in 0..k {
                let v = &part[j];
                let line = v["k"] == "line";
                let base = if line { 0. } else { 2f64.powi(v["h"].as_i64().unwrap() as i32) };
                let tell = |x: f32| if line { num(x) } else { json!(enc(x, 16384., false)) };
                let of = |y: &Vec<f32>| -> Vec<Value> { (0..n).map(|i| tell(y[at(j, i)])).collect() };
                let mut e = json!({"k": v["k"], "ok": 1, "m": m, "dim": d, "id": id(j), key(v): ints(v), "ln": of(&f.ln), "sm": of(&f.sm), "sp": tell(f.sp[j])});
                if line {
                    e["E"] = v["E"].clone();
                    e["lse"] = num(f.lse[j]);
                } else {
                    e["B"] = json!(base as i64);
                    let z = (f.lse[j] as f64 - base) * 16384.;
                    e["lse"] = json!(if z.abs() < 1e9 { z.round() as i64 } else { S_BIG });
                }
                let finite = !ints(v).contains(&-99);
                if finite {
                    e["ce"] = tell(f.ce[j]);
                }
                if let Some(g) = &f.g {
                    for (name, y) in ["glse", "gln", "gsm", "gsp", "gce", "gct"].iter().zip(g.iter()) {
                        if finite || !name.starts_with("gc") {
                            e[*name] = json!(of(y));
                        }
                    }
                }
                out.ev(e);
            }
        }
    }
}

pub fn run(a: &Args) {
    let dev = naive();
    let mut r = Rng::new(a.seed);
    let mut out = Out::new(&a.out);
    let (shards, shard, den) = (a.num("shards", 1), a.num("shard", 0), a.num("den", 1));
    let mut h = Rng::new(a.seed / 1009);
    let salt = h.next();
    let mut fun = vec![];
    let mut line: BTreeMap<usize, Vec<Value>> = BTreeMap::new();
    for (i, s) in std::fs::read_to_string(a.get("in").unwrap()).unwrap().lines().enumerate() {
        if i as u64 % shards != shard || Rng::new(salt ^ i as u64).below(den) != 0 {
            continue;
        }
        let v: Value = serde_json::from_str(s).unwrap();
        match v["k"].as_str().unwrap() {
            "fun" => fun.push(v),
            "line" => line.entry(v["M"].as_array().unwrap().len()).or_default().push(v),
            _ => line.entry(v["v"].as_array().unwrap().len()).or_default().push(v),
        }
    }
    funs(&mut r, dev, &mut out, &fun);
    for (_, l) in line {
        lines(&mut r, dev, &mut out, l);
    }
}
