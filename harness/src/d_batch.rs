//! Calls and programs on a minibatch beside the same on each of its samples.
use crate::d_ops::naive;
use crate::gen::*;
use crate::ops::*;
use crate::util::*;
use crate::Args;
use prima_undine::functions::*;
use prima_undine::{Node, Shape, Tensor};
use serde_json::{json, Value};

const SINGLE: &[&str] = &[
    "add", "sub", "mul", "div", "addcr", "subcr", "mulcr", "divcr", "addcl", "subcl", "mulcl", "divcl", "neg", "powi", "abs", "sum", "max", "min",
    "broadcast", "matmul", "transpose", "flip", "permute", "tril", "triu", "relu", "prelu", "slice", "split", "pick", "concat", "flatten", "pow", "powf", "sqrt", "sin",
    "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus", "logsumexp", "ln_softmax", "softmax", "sce", "ssce", "lrelu", "elu", "mean", "slice_sum",
    "layer_norm", "addassign", "subassign", "mulassign", "argmax", "argmin",
];
const SHARING: &[&str] = &["add", "sub", "mul", "div", "pow", "matmul", "concat", "sce", "pick", "ssce", "slice_sum", "addassign", "subassign"];

fn picks(op: &str) -> bool {
    op == "pick" || op == "ssce"
}
/// batch sizes of everything that can differ by sample
fn batches(c: &Case) -> Vec<u32> {
    let mut b: Vec<u32> = c.xs.iter().map(|x| x.b).collect();
    if picks(&c.op) {
        b.push(c.u.len() as u32 - 1);
    }
    b
}
fn sample(x: &T, s: usize) -> T {
    let v = x.ints();
    let n = v.len() / x.b as usize;
    let o = if x.b == 1 { 0 } else { s * n };
    T { d: x.d.clone(), b: 1, v: Data::V(v[o..o + n].to_vec()) }
}
fn sample_case(c: &Case, s: usize) -> Case {
    let mut k = c.clone();
    k.xs = c.xs.iter().map(|x| sample(x, s)).collect();
    if picks(&c.op) && c.u.len() > 2 {
        k.u = vec![c.u[0], c.u[1 + s]];
    }
    k
}
fn ints_of(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
/// some places of a sample (all when there are few)
fn places(r: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 150 {
        return (0..n).collect();
    }
    let mut p: Vec<usize> = (0..50).map(|_| r.below(n as u64) as usize).collect();
    p.extend([0, 1, n - 2, n - 1]);
    p.sort();
    p.dedup();
    p
}
fn at(v: &[i64], n: usize, p: &[usize]) -> Vec<i64> {
    // n samples
    if v.len() % n != 0 {
        return v.to_vec();
    }
    let k = v.len() / n;
    (0..n).flat_map(|s| p.iter().filter(move |&&i| i < k).map(move |&i| v[s * k + i])).collect()
}

/// the results and gradients a run reported
struct Ran {
    ok: i64,
    ys: Vec<(Value, u32, Vec<i64>)>,
    gx: Vec<Vec<i64>>,
}
fn ran(v: &Value) -> Ran {
    let ok = v["ok"].as_i64().unwrap();
    if ok == 3 {
        panic!("HARNESS-ERROR operands: {}", v);
    }
    Ran {
        ok,
        ys: v.get("ys").map(|y| y.as_array().unwrap().iter().map(|y| (y["d"].clone(), y["b"].as_u64().unwrap() as u32, ints_of(&y["v"]))).collect()).unwrap_or_default(),
        gx: v.get("gx").map(|g| g.as_array().unwrap().iter().map(|g| ints_of(&g["v"])).collect()).unwrap_or_default(),
    }
}

/// One call and the calls on its samples.
pub fn one(r: &mut Rng, c: &Case, dev: Dev, m: &str, form: u32) -> Value {
    let mut c = c.clone();
    c.at = None;
    let bs = batches(&c);
    let b = *bs.iter().max().unwrap();
    let fits = bs.iter().all(|&x| x == 1 || x == b);
    let m = if c.op.ends_with("assign") || c.op.starts_with("arg") && m == "g" { "t" } else { m };
    let mut w: Vec<Option<Vec<i64>>> = vec![];
    let one = |c: &Case, gys: &mut dyn FnMut(&[usize]) -> Vec<Gy>| match m {
        "t" => run_t(c, dev, form),
        "n" => run_n(c, dev, form),
        _ => run_g(c, dev, form, gys),
    };
    let seed = r.next();
    let whole = ran(&one(&c, &mut |sizes| {
        let mut q = Rng::new(seed);
        w = sizes.iter().map(|&n| if sizes.len() > 1 && q.chance(1, 4) { None } else { Some((0..n).map(|_| q.range(1, 3) * if q.chance(1, 2) { 1 } else { -1 }).collect()) }).collect();
        if w.iter().all(|x| x.is_none()) {
            w[0] = Some(vec![1; sizes[0]]);
        }
        w.iter().map(|x| x.as_ref().map(|x| x.iter().cloned().enumerate().collect())).collect()
    }));
    let mut sm = vec![];
    if fits {
        for s in 0..b as usize {
            let k = sample_case(&c, s);
            sm.push(ran(&one(&k, &mut |sizes| {
                sizes
                    .iter()
                    .enumerate()
                    .map(|(i, &n)| match w.get(i) {
                        Some(None) => None,
                        Some(Some(x)) => Some((0..n).map(|p| (p, x[(s * n + p) % x.len()])).collect()),
                        None => Some((0..n).map(|p| (p, 1)).collect()),
                    })
                    .collect()
            })));
        }
    }
    let args = c.op.starts_with("arg");
    let tgt = c.op != "mulassign" && c.op.ends_with("assign") && c.xs[0].b == 1;
    // large tensors are sampled, everywhere at the same places
    let yp: Vec<Vec<usize>> = (0..whole.ys.len()).map(|k| places(r, whole.ys[k].2.len() / b as usize)).collect();
    let gp: Vec<Vec<usize>> = (0..whole.gx.len()).map(|k| places(r, whole.gx[k].len() / c.xs[k].b as usize)).collect();
    let none = vec![];
    let put = |q: &Ran, n: u32, whole: bool| {
        json!({
            "ok": (q.ok == 1) as u8,
            "ys": q.ys.iter().enumerate().map(|(k, y)| json!({"d": y.0, "b": if args { n } else { y.1 },
                "v": at(&y.2, if tgt { 1 } else { n as usize }, if tgt { &yp[k] } else { yp.get(k).unwrap_or(&none) })})).collect::<Vec<_>>(),
            "gx": q.gx.iter().enumerate().map(|(k, g)| at(g, if whole { c.xs[k].b as usize } else { 1 }, gp.get(k).unwrap_or(&none))).collect::<Vec<_>>(),
        })
    };
    let yp_t = places(&mut Rng::new(seed), c.xs[0].size());
    let put_t = |q: &Ran| {
        json!({"ok": (q.ok == 1) as u8, "gx": [], "ys": q.ys.iter().map(|y| json!({"d": y.0, "b": y.1, "v": at(&y.2, 1, &yp_t)})).collect::<Vec<_>>()})
    };
    let mut e = if tgt { put_t(&whole) } else { put(&whole, b, true) };
    let o = e.as_object_mut().unwrap();
    o.insert("k".into(), json!("one"));
    o.insert("op".into(), json!(c.op));
    o.insert("m".into(), json!(m));
    o.insert("u".into(), json!(c.u.iter().map(|&x| cl(x)).collect::<Vec<_>>()));
    o.insert("bs".into(), json!(bs));
    o.insert("ds".into(), json!(c.xs.iter().map(|x| canon(&x.d)).collect::<Vec<_>>()));
    o.insert("ex".into(), json!(c.exact as u8));
    o.insert("tgt".into(), json!(tgt as u8));
    o.insert("x0".into(), json!(if tgt { at(&c.xs[0].ints(), 1, &yp_t) } else { vec![] }));
    o.insert("yb".into(), json!(whole.ys.iter().map(|_| b).collect::<Vec<_>>()));
    o.insert("sm".into(), json!(sm.iter().map(|q| if tgt { put_t(q) } else { put(q, 1, false) }).collect::<Vec<_>>()));
    e
}

// ------------------------------------------------------------------------------------------
struct Step {
    op: String,
    u: Vec<u32>,
    k: f32,
    ki: i64,
    args: Vec<usize>,
}
const SC: f64 = 4096.;

fn program(r: &mut Rng, leaves: &[T], dev: Dev, len: usize, b: u32) -> (Vec<Step>, Vec<u32>) {
    // grown on the minibatch; what is rejected is not part of it
    let ts: Vec<Tensor<'static>> = leaves.iter().map(|x| x.tensor(dev, 16.)).collect();
    let mut all: Vec<Tensor> = ts;
    let mut yb: Vec<u32> = leaves.iter().map(|x| x.b).collect();
    let mut steps = vec![];
    for _ in 0..len * 8 {
        if steps.len() >= len {
            break;
        }
        let op = *r.pick(&[
            "add", "sub", "mul", "mul", "div", "addcr", "mulcr", "subcl", "neg", "abs", "sum", "max", "min", "broadcast", "matmul", "matmul", "transpose", "tril", "triu", "relu",
            "prelu", "slice", "split", "pick", "pick", "concat", "concat", "flatten", "sin", "cos", "exp", "tanh", "sigmoid", "softplus", "logsumexp", "ln_softmax", "softmax",
            "sce", "ssce", "lrelu", "elu", "mean", "slice_sum", "layer_norm", "powi", "sqrt", "pow",
        ]);
        let n = match op {
            "add" | "sub" | "mul" | "div" | "matmul" | "sce" | "pow" => 2,
            "concat" | "slice_sum" => r.u(1, 3) as usize,
            "layer_norm" => 3,
            _ => 1,
        };
        let args: Vec<usize> = (0..n).map(|_| if r.chance(1, 2) { all.len() - 1 - r.below((all.len() as u64).min(3)) as usize } else { r.below(all.len() as u64) as usize }).collect();
        let s = all[args[0]].shape();
        let i = r.u(0, 2);
        let ax = s[i];
        let u = match op {
            "sum" | "max" | "min" | "logsumexp" | "ln_softmax" | "softmax" | "sce" | "mean" | "concat" => vec![i],
            "broadcast" => vec![i, r.u(1, 3)],
            "slice" => {
                let lo = r.u(0, ax - 1);
                vec![i, lo, r.u(lo + 1, ax)]
            }
            "split" => vec![i, *r.pick(&[1, 2, ax])],
            "pick" | "ssce" => {
                let m = *r.pick(&[1, b, s.batch()]);
                let mut u = vec![i];
                u.extend((0..m).map(|_| r.u(0, ax - 1)));
                u
            }
            "tril" | "triu" => vec![r.u(0, 1)],
            _ => vec![],
        };
        let (k, ki) = (r.range(-8, 8) as f32 / 4., r.range(1, 3));
        let k = if op == "layer_norm" || op == "elu" { k.abs() + 0.25 } else { k };
        // inputs for which the results stay tame
        let big = args.iter().any(|&a| all[a].to_vec().iter().any(|x| !(x.abs() < 6.)));
        let tiny = args.iter().any(|&a| all[a].to_vec().iter().any(|x| !(*x > 0.2)));
        if big && matches!(op, "exp" | "mul" | "powi" | "matmul" | "pow" | "div") || tiny && matches!(op, "sqrt" | "pow" | "div") {
            continue;
        }
        let got = attempt(|| apply_ref_t(op, &u, k, ki, &args.iter().map(|&a| &all[a]).collect::<Vec<_>>()));
        if let Ok(ys) = got {
            if ys.iter().any(|y| y.shape().size() > 200 || y.shape().size() == 0) {
                continue;
            }
            let mut n = args.iter().map(|&a| yb[a]).max().unwrap();
            if picks(op) {
                n = n.max(u.len() as u32 - 1);
            }
            yb.extend(ys.iter().map(|_| n));
            all.extend(ys);
            steps.push(Step { op: op.into(), u, k, ki, args });
        }
    }
    (steps, yb)
}
fn step_u(st: &Step, s: Option<usize>) -> Vec<u32> {
    match s {
        Some(s) if picks(&st.op) && st.u.len() > 2 => vec![st.u[0], st.u[1 + s]],
        _ => st.u.clone(),
    }
}
fn play_n<'a>(steps: &[Step], mut all: Vec<Node<'a, 'static>>, s: Option<usize>) -> Vec<Node<'a, 'static>> {
    for st in steps {
        let ys = apply_ref_n(&st.op, &step_u(st, s), st.k, st.ki, &st.args.iter().map(|&a| &all[a]).collect::<Vec<_>>());
        all.extend(ys);
    }
    all
}
fn play_t(steps: &[Step], mut all: Vec<Tensor<'static>>, s: Option<usize>) -> Vec<Tensor<'static>> {
    for st in steps {
        let ys: Vec<Tensor<'static>> = apply_ref_t(&st.op, &step_u(st, s), st.k, st.ki, &st.args.iter().map(|&a| &all[a]).collect::<Vec<_>>());
        all.extend(ys);
    }
    all
}
fn enc_y(s: Shape, v: &[f32]) -> Value {
    json!({"d": s.dims(), "b": s.batch(), "v": encs(v, SC, false)})
}
/// weights of the results: per result, per sample
type W = Vec<(usize, Vec<Vec<f32>>)>;
fn target<'a>(ys: &[&Node<'a, 'static>], w: &W, dev: Dev, s: Option<usize>) -> Node<'a, 'static> {
    let mut t: Option<Node> = None;
    for (y, (_, w)) in ys.iter().zip(w) {
        let sh = y.shape();
        let v: Vec<f32> = match s {
            Some(s) => w[s].clone(),
            None => w.iter().flatten().cloned().collect(),
        };
        let wt = dev.new_tensor_by_slice(sh, &v[..sh.size() as usize]);
        let z = (*y * Node::from(wt)).flatten().sum(0).batch_sum();
        t = Some(match t {
            None => z,
            Some(t) => t + z,
        });
    }
    t.unwrap()
}
fn grads(leaves: &[Node], ts: &[T]) -> Vec<Vec<i64>> {
    leaves
        .iter()
        .zip(ts)
        .map(|(n, x)| {
            let g = attempt(|| n.inner_gradient().to_vec());
            encs(&g.unwrap_or(vec![0.; x.size()]), SC, false)
        })
        .collect()
}
fn leaf_nodes<'a>(ts: &'a [Tensor<'static>]) -> Vec<Node<'a, 'static>> {
    ts.iter().map(|x| Node::from(x)).collect()
}
fn again<'a>(ns: &[Node<'a, 'static>]) -> Vec<Node<'a, 'static>> {
    ns.iter().map(|n| n.split(0, 1).pop().unwrap()).collect()
}

fn prog(r: &mut Rng, dev: Dev, out: &mut Out) {
    let b = r.u(2, 4);
    let nl = r.u(2, 4) as usize;
    let ds: &[&[u32]] = &[&[], &[2], &[3], &[2, 2], &[2, 3], &[3, 2], &[1, 2], &[2, 1, 2]];
    let d0 = *r.pick(ds);
    let mut leaves: Vec<T> = (0..nl)
        .map(|_| {
            let d = if r.chance(1, 2) { d0 } else { *r.pick(ds) };
            let bb = if r.chance(1, 2) { 1 } else { b };
            any_tensor(r, d.to_vec(), bb, -40, 40)
        })
        .collect();
    let k = r.below(nl as u64) as usize;
    leaves[k] = any_tensor(r, leaves[k].d.clone(), b, -40, 40);
    let len = r.u(2, 10) as usize;
    let (steps, yb) = program(r, &leaves, dev, len, b);
    if steps.is_empty() {
        return;
    }
    let eager = r.chance(1, 4);
    let last = yb.len() - 1;
    let mut tg = vec![last];
    // and what nothing else uses
    let used: Vec<usize> = steps.iter().flat_map(|s| s.args.clone()).collect();
    if r.chance(3, 4) {
        tg.extend((nl..last).filter(|i| !used.contains(i)));
    }
    let run = |leaves: &[T], s: Option<usize>, w: &W| -> Value {
        let got = attempt(|| {
            let ts: Vec<Tensor<'static>> = leaves.iter().map(|x| x.tensor(dev, 16.)).collect();
            if eager {
                let ys = play_t(&steps, ts, s);
                return (ys[nl..].iter().map(|y| enc_y(y.shape(), &y.to_vec())).collect::<Vec<_>>(), vec![]);
            }
            let ns = leaf_nodes(&ts);
            let all = play_n(&steps, again(&ns), s);
            let t = target(&tg.iter().map(|&i| &all[i]).collect::<Vec<_>>(), w, dev, s);
            t.forward();
            t.backward();
            let ys = all[nl..].iter().map(|y| enc_y(y.shape(), &y.to_vec())).collect::<Vec<_>>();
            (ys, grads(&ns, leaves))
        });
        match got {
            Ok((ys, gx)) => json!({"ok": 1, "ys": ys, "gx": gx}),
            Err(e) => json!({"ok": 0, "ys": [], "gx": [], "err": e.chars().take(120).collect::<String>()}),
        }
    };
    // the same weights for every sample of a result that no batched leaf reaches: its target counts once per sample
    let vols: Vec<usize> = {
        let got = attempt(|| play_t(&steps, leaves.iter().map(|x| x.tensor(dev, 16.)).collect(), None));
        match got {
            Ok(ys) => ys.iter().map(|y| y.shape().volume() as usize).collect(),
            Err(_) => return,
        }
    };
    let w: W = tg
        .iter()
        .map(|&i| {
            let v: Vec<Vec<f32>> = (0..b as usize).map(|_| (0..vols[i]).map(|_| r.range(-3, 3) as f32).collect()).collect();
            (i, v)
        })
        .collect();
    // a result of one sample enters the whole target once, so only the first sample's target has it
    let w_of = |s: usize| -> W {
        w.iter().map(|(i, v)| (*i, v.iter().map(|x| if yb[*i] == 1 && s > 0 { vec![0.; x.len()] } else { x.clone() }).collect())).collect()
    };
    let whole = run(&leaves, None, &w);
    let sm: Vec<Value> = (0..b as usize)
        .map(|s| {
            let ls: Vec<T> = leaves.iter().map(|x| sample(x, s)).collect();
            run(&ls, Some(s), &w_of(s))
        })
        .collect();
    let mut e = whole.clone();
    let o = e.as_object_mut().unwrap();
    o.insert("k".into(), json!("prog"));
    o.insert("ops".into(), json!(steps.iter().map(|s| json!({"op": s.op, "u": s.u, "a": s.args})).collect::<Vec<_>>()));
    o.insert("m".into(), json!(if eager { "t" } else { "n" }));
    let mut bs: Vec<u32> = leaves.iter().map(|x| x.b).collect();
    bs.push(b);
    o.insert("bs".into(), json!(bs));
    o.insert("ex".into(), json!(0));
    o.insert("tgt".into(), json!(0));
    o.insert("x0".into(), json!([]));
    o.insert("yb".into(), json!(yb[nl..].to_vec()));
    o.insert("sm".into(), json!(sm));
    out.ev(e);
    if eager || whole["ok"] == json!(0) {
        return;
    }
    // the samples taken out of the minibatch and put together again within one graph
    let got = attempt(|| {
        let ts: Vec<Tensor<'static>> = leaves.iter().map(|x| x.tensor(dev, 16.)).collect();
        let ns = leaf_nodes(&ts);
        let alls: Vec<Vec<Node>> = (0..b)
            .map(|s| {
                let l = ns.iter().map(|n| if n.shape().batch() == 1 { n.split(0, 1).pop().unwrap() } else { n.batch_slice(s, s + 1) }).collect();
                play_n(&steps, l, Some(s as usize))
            })
            .collect();
        let ys: Vec<Node> = tg
            .iter()
            .map(|&i| {
                if yb[i] == 1 {
                    alls[0][i].split(0, 1).pop().unwrap()
                } else {
                    Node::batch_concat(&alls.iter().map(|a| &a[i]).collect::<Vec<_>>())
                }
            })
            .collect();
        let t = target(&ys.iter().collect::<Vec<_>>(), &w, dev, None);
        t.forward();
        t.backward();
        (enc_y(ys[0].shape(), &ys[0].to_vec()), grads(&ns, &leaves))
    });
    let x = &whole["ys"][last - nl];
    out.ev(match got {
        Ok((y, g)) => json!({"k": "join", "what": "samples", "ok": 1, "ex": 0, "x": x, "y": y, "gx": whole["gx"], "gy": g}),
        Err(e) => json!({"k": "join", "what": "samples", "ok": 0, "ex": 0, "err": e.chars().take(120).collect::<String>()}),
    });
}

// ------------------------------------------------------------------------------------------
fn cuts(r: &mut Rng, n: u32) -> Vec<(u32, u32)> {
    let mut c: Vec<u32> = (0..r.below(4)).map(|_| r.u(0, n)).collect();
    c.extend([0, n]);
    c.sort();
    c.dedup();
    c.windows(2).map(|w| (w[0], w[1])).collect()
}
/// takes x apart in a random way and puts it together again
fn there_and_back<X>(r: &mut Rng, ap: &dyn Fn(&str, &[u32], &[&X]) -> Vec<X>, sh: &dyn Fn(&X) -> Shape, x: &X, depth: u32) -> (String, X) {
    let s = sh(x);
    let i = r.u(0, 3);
    let n = s[i];
    let b = s.batch();
    let parts = |n: u32, r: &mut Rng| {
        let ds: Vec<u32> = (1..=n.min(8)).filter(|d| n % d == 0).collect();
        *r.pick(&ds)
    };
    let (name, ps, axis): (&str, Vec<X>, Option<u32>) = match r.below(9) {
        0 => ("split", ap("split", &[i, parts(n, r)], &[x]), Some(i)),
        1 => ("slice", cuts(r, n).iter().map(|&(lo, hi)| ap("slice", &[i, lo, hi], &[x]).pop().unwrap()).collect(), Some(i)),
        2 => ("batch_split", ap("batch_split", &[parts(b, r)], &[x]), None),
        3 => ("batch_slice", cuts(r, b).iter().map(|&(lo, hi)| ap("batch_slice", &[lo, hi], &[x]).pop().unwrap()).collect(), None),
        4 if n <= 16 => ("pick", (0..n).map(|k| ap("pick", &[i, k], &[x]).pop().unwrap()).collect(), Some(i)),
        5 => ("batch_pick", (0..b).map(|k| ap("batch_pick", &[k], &[x]).pop().unwrap()).collect(), None),
        6 => {
            // a permutation of the samples and its inverse
            let mut p: Vec<u32> = (0..b).collect();
            r.shuffle(&mut p);
            let mut q = vec![0; b as usize];
            for (i, &k) in p.iter().enumerate() {
                q[k as usize] = i as u32;
            }
            if b > 3 && r.chance(1, 2) {
                // nearly in order
                p = (0..b).collect();
                for _ in 0..2 {
                    let k = 1 + r.below(b as u64 - 3) as usize;
                    p.swap(k, k + 1);
                }
                for (i, &k) in p.iter().enumerate() {
                    q[k as usize] = i as u32;
                }
            }
            let y = if r.chance(2, 3) {
                ap("batch_pick", &p, &[x]).pop().unwrap()
            } else {
                let ps: Vec<X> = cuts(r, b).iter().map(|&(lo, hi)| ap("batch_pick", &p[lo as usize..hi as usize], &[x]).pop().unwrap()).collect();
                ap("batch_concat", &[], &ps.iter().collect::<Vec<_>>()).pop().unwrap()
            };
            if r.chance(1, 2) {
                let ps: Vec<X> = q.iter().map(|&k| ap("batch_slice", &[k, k + 1], &[&y]).pop().unwrap()).collect();
                return ("permute".into(), ap("batch_concat", &[], &ps.iter().collect::<Vec<_>>()).pop().unwrap());
            }
            return ("permute".into(), ap("batch_pick", &q, &[&y]).pop().unwrap());
        }
        7 => {
            let mut u = vec![s.batch()];
            u.extend(s.dims());
            let y = if r.chance(1, 2) { ap("flatten", &[], &[x]) } else { ap("reshape", &[1, s.size()], &[x]) }.pop().unwrap();
            return ("reshape".into(), ap("reshape", &u, &[&y]).pop().unwrap());
        }
        8 if s.is_matrix() => {
            let y = ap("transpose", &[], &[x]).pop().unwrap();
            return ("transpose".into(), ap("transpose", &[], &[&y]).pop().unwrap());
        }
        _ => ("batch_pick", vec![ap("batch_pick", &(0..b).collect::<Vec<_>>(), &[x]).pop().unwrap()], None),
    };
    let mut name = name.to_string();
    let ps: Vec<X> = ps
        .into_iter()
        .map(|p| {
            if depth > 0 && r.chance(1, 2) {
                let (m, q) = there_and_back(r, ap, sh, &p, depth - 1);
                name = format!("{}({})", name, m);
                q
            } else {
                p
            }
        })
        .collect();
    let refs: Vec<&X> = ps.iter().collect();
    let y = match axis {
        Some(i) => ap("concat", &[i], &refs),
        None => ap("batch_concat", &[], &refs),
    };
    (name, y.into_iter().next().unwrap())
}
fn join(r: &mut Rng, dev: Dev, out: &mut Out) {
    let big = r.chance(1, 6);
    let mut d: Vec<u32> = (0..r.below(5)).map(|_| r.u(1, 4)).collect();
    if big {
        let i = r.below(3) as usize;
        while d.len() <= i {
            d.push(1);
        }
        d[i] = *r.pick(&[16, 17, 33, 64]);
    }
    let b = *r.pick(&[1, 2, 3, 4, 5, 6, 8, 12]);
    let mut x = any_tensor(r, d.clone(), b, -999, 999);
    if x.size() > 600 {
        x = any_tensor(r, d, 1, -999, 999);
    }
    let depth = r.u(0, 2);
    let eager = r.chance(1, 3);
    let seed = r.next();
    let w: Vec<i64> = (0..x.size()).map(|_| r.range(-9, 9)).collect();
    let got = attempt(|| {
        let t = x.tensor(dev, 1.);
        let mut q = Rng::new(seed);
        if eager {
            let (n, y) = there_and_back(&mut q, &|op, u, xs| apply_ref_t(op, u, 1., 1, xs), &|x: &Tensor| x.shape(), &t, depth);
            (n, json!({"d": y.shape().dims(), "b": y.shape().batch(), "v": encs(&y.to_vec(), 1., true)}), vec![])
        } else {
            let l = Node::from(&t);
            let (n, y) = there_and_back(&mut q, &|op, u, xs| apply_ref_n(op, u, 1., 1, xs), &|x: &Node| x.shape(), &l, depth);
            let wt = dev.new_tensor_by_slice(y.shape(), &w.iter().map(|&x| x as f32).collect::<Vec<_>>());
            let z = (&y * Node::from(wt)).flatten().sum(0).batch_sum();
            z.forward();
            z.backward();
            let g = encs(&l.inner_gradient().to_vec(), 1., true);
            (n, json!({"d": y.shape().dims(), "b": y.shape().batch(), "v": encs(&y.to_vec(), 1., true)}), vec![g])
        }
    });
    let xj = json!({"d": canon(&x.d), "b": x.b, "v": x.ints()});
    out.ev(match got {
        Ok((n, y, g)) => json!({"k": "join", "what": n, "ok": 1, "ex": 1, "x": xj, "y": y, "gx": if eager { vec![] } else { vec![w] }, "gy": g}),
        Err(e) => json!({"k": "join", "what": "?", "ok": 0, "ex": 1, "x": xj, "err": e.chars().take(120).collect::<String>()}),
    });
}

// ------------------------------------------------------------------------------------------
fn replay(a: &Args, r: &mut Rng, dev: Dev, out: &mut Out, path: &str) {
    let (shards, shard, den) = (a.num("shards", 1), a.num("shard", 0), a.num("den", 1));
    let mut h = Rng::new(a.seed / 1009);
    let salt = h.next();
    for (i, line) in std::fs::read_to_string(path).unwrap().lines().enumerate() {
        if i as u64 % shards != shard || Rng::new(salt ^ i as u64).below(den) != 0 {
            continue;
        }
        let v: Value = serde_json::from_str(line).unwrap();
        let op = v["op"].as_str().unwrap();
        // scales as the generator has them
        let g = case(r, op, Opts { size: Size::Small, grad: true, noise: 0, alias: false });
        let mut c = Case { op: op.into(), u: ints_of(&v["u"]).iter().map(|&x| x as u32).collect(), c: v["c"].as_i64().unwrap(), sx: g.sx, sy: g.sy, xs: vec![], alias: false, exact: g.exact, at: None, dense: 0 };
        for (k, s) in v["S"].as_array().unwrap().iter().enumerate() {
            let d: Vec<u32> = ints_of(&s["d"]).iter().map(|&x| x as u32).collect();
            let mut t = any_tensor(r, d, s["b"].as_u64().unwrap() as u32, -9, 9);
            if op == "div" && k == 1 {
                t.v = Data::V((0..t.size()).map(|_| *r.pick(&[1, -1, 2, -2, 4, -4])).collect());
            } else if g.sx > 1. {
                t = any_tensor(r, t.d, t.b, if op == "sce" && k == 1 { 0 } else { -30 }, 30);
            }
            c.xs.push(t);
        }
        for m in ["t", "n", "g"] {
            let form = r.u(0, 15);
            let e = one(r, &c, dev, m, form);
            let assign = op.ends_with("assign");
            out.ev(e);
            if assign {
                break;
            }
        }
    }
}

pub fn run(a: &Args) {
    let dev = naive();
    let mut r = Rng::new(a.seed);
    let mut out = Out::new(&a.out);
    if let Some(p) = a.get("in") {
        return replay(a, &mut r, dev, &mut out, p);
    }
    let n = a.num("n", 500);
    match a.get("mode").unwrap_or("one") {
        "one" => {
            let large = a.num("large", 0);
            let wide = a.num("wide", 0);
            let mut i = 0;
            while i < n {
                let op = if r.chance(1, 3) { *r.pick(SHARING) } else { *r.pick(SINGLE) };
                let size = if r.chance(large, 100) { Size::Large } else if r.chance(wide, 100) { Size::Wide } else { Size::Small };
                let m = *r.pick(&["t", "n", "g", "g"]);
                let alias = matches!(op, "add" | "sub" | "mul" | "matmul" | "concat" | "slice_sum") && r.chance(1, 10);
                let noise = if r.chance(1, 4) { 30 } else { 0 };
                let c = case(&mut r, op, Opts { size, grad: m == "g", noise, alias });
                let bs = batches(&c);
                if bs.iter().all(|&b| b == 1) || bs.contains(&0) || size == Size::Large && c.xs.iter().any(|x| x.size() > 40000) {
                    continue;
                }
                i += 1;
                let form = r.u(0, 15);
                let e = one(&mut r, &c, dev, m, form);
                out.ev(e);
            }
        }
        "prog" => {
            for _ in 0..n {
                prog(&mut r, dev, &mut out);
            }
        }
        _ => {
            for _ in 0..n {
                join(&mut r, dev, &mut out);
            }
        }
    }
}
