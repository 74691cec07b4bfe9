//! The functions of a device, called directly: forwards, backwards and the assignments, with
//! operands, results, upstream and accumulated gradients of fitting and of unfitting shapes.
use crate::d_ops::{churn, guarded, naive};
use crate::gen::*;
use crate::ops::*;
use crate::util::*;
use crate::Args;
use prima_undine::functions::{ArithmeticDeviceFunctions, BasicDeviceFunctions, BasicFunctions};
use prima_undine::{Shape, Tensor};
use serde_json::{json, Value};

/// name, operation of the tables, how it is called:
/// f forward; x backward of one operand; a, b backward of the first, the second of two;
/// n backward without operands and results; s assignment; t a reset; v a reading
/// and the form of two operands: e equal axes, r the second is a scalar, l the first is one
const FUNCS: &[(&str, &str, char, char)] = &[
    ("neg_fw", "neg", 'f', ' '),
    ("add_fw", "add", 'f', 'e'),
    ("add_const_fw", "addcr", 'f', ' '),
    ("add_scalar_fw", "add", 'f', 'r'),
    ("sub_fw", "sub", 'f', 'e'),
    ("sub_const_l_fw", "subcl", 'f', ' '),
    ("sub_const_r_fw", "subcr", 'f', ' '),
    ("sub_scalar_l_fw", "sub", 'f', 'l'),
    ("sub_scalar_r_fw", "sub", 'f', 'r'),
    ("mul_fw", "mul", 'f', 'e'),
    ("mul_const_fw", "mulcr", 'f', ' '),
    ("mul_scalar_fw", "mul", 'f', 'r'),
    ("div_fw", "div", 'f', 'e'),
    ("div_const_l_fw", "divcl", 'f', ' '),
    ("div_const_r_fw", "divcr", 'f', ' '),
    ("div_scalar_l_fw", "div", 'f', 'l'),
    ("div_scalar_r_fw", "div", 'f', 'r'),
    ("powf_fw", "pow", 'f', 'e'),
    ("powf_const_l_fw", "pow", 'f', 'k'),
    ("powf_const_r_fw", "powf", 'f', ' '),
    ("powf_scalar_l_fw", "pow", 'f', 'l'),
    ("powf_scalar_r_fw", "pow", 'f', 'r'),
    ("powi_fw", "powi", 'f', ' '),
    ("sqrt_fw", "sqrt", 'f', ' '),
    ("abs_fw", "abs", 'f', ' '),
    ("sin_fw", "sin", 'f', ' '),
    ("cos_fw", "cos", 'f', ' '),
    ("tan_fw", "tan", 'f', ' '),
    ("exp_fw", "exp", 'f', ' '),
    ("ln_fw", "ln", 'f', ' '),
    ("tanh_fw", "tanh", 'f', ' '),
    ("sigmoid_fw", "sigmoid", 'f', ' '),
    ("softplus_fw", "softplus", 'f', ' '),
    ("sum_fw", "sum", 'f', ' '),
    ("logsumexp_fw", "logsumexp", 'f', ' '),
    ("max_fw", "max", 'f', ' '),
    ("min_fw", "min", 'f', ' '),
    ("broadcast_fw", "broadcast", 'f', ' '),
    ("matmul_fw", "matmul", 'f', ' '),
    ("transpose_fw", "transpose", 'f', ' '),
    ("triangular_l_fw", "tril", 'f', ' '),
    ("triangular_u_fw", "triu", 'f', ' '),
    ("prelu_fw", "prelu", 'f', ' '),
    ("elu_fw", "elu", 'f', ' '),
    ("slice_fw", "slice", 'f', ' '),
    ("pick_fw", "pick", 'f', ' '),
    ("concat_fw", "concat", 'f', ' '),
    ("batch_sum_fw", "batch_sum", 'f', ' '),
    ("batch_slice_fw", "batch_slice", 'f', ' '),
    ("batch_pick_fw", "batch_pick", 'f', ' '),
    ("batch_concat_fw", "batch_concat", 'f', ' '),
    ("argmax", "argmax", 'f', ' '),
    ("argmin", "argmin", 'f', ' '),
    ("argsort", "argsort", 'f', ' '),
    ("neg_bw", "neg", 'x', ' '),
    ("add_bw_a", "add", 'a', 'e'),
    ("add_bw_b", "add", 'b', 'e'),
    ("add_const_bw", "addcr", 'x', ' '),
    ("sub_bw_a", "sub", 'a', 'e'),
    ("sub_bw_b", "sub", 'b', 'e'),
    ("sub_const_l_bw", "subcl", 'x', ' '),
    ("sub_const_r_bw", "subcr", 'x', ' '),
    ("mul_bw_a", "mul", 'a', 'e'),
    ("mul_bw_b", "mul", 'b', 'e'),
    ("mul_const_bw", "mulcr", 'x', ' '),
    ("div_bw_a", "div", 'a', 'e'),
    ("div_bw_b", "div", 'b', 'e'),
    ("div_const_l_bw", "divcl", 'x', ' '),
    ("div_const_r_bw", "divcr", 'x', ' '),
    ("powf_bw_a", "pow", 'a', 'e'),
    ("powf_bw_b", "pow", 'b', 'e'),
    ("powf_const_l_bw", "pow", 'b', 'k'),
    ("powf_const_r_bw", "powf", 'x', ' '),
    ("powi_bw", "powi", 'x', ' '),
    ("sqrt_bw", "sqrt", 'x', ' '),
    ("abs_bw", "abs", 'x', ' '),
    ("sin_bw", "sin", 'x', ' '),
    ("cos_bw", "cos", 'x', ' '),
    ("tan_bw", "tan", 'x', ' '),
    ("exp_bw", "exp", 'x', ' '),
    ("ln_bw", "ln", 'x', ' '),
    ("tanh_bw", "tanh", 'x', ' '),
    ("sigmoid_bw", "sigmoid", 'x', ' '),
    ("max_bw", "max", 'x', ' '),
    ("min_bw", "min", 'x', ' '),
    ("matmul_bw_a", "matmul", 'a', ' '),
    ("matmul_bw_b", "matmul", 'b', ' '),
    ("transpose_bw", "transpose", 'x', ' '),
    ("triangular_l_bw", "tril", 'x', ' '),
    ("triangular_u_bw", "triu", 'x', ' '),
    ("prelu_bw", "prelu", 'x', ' '),
    ("elu_bw", "elu", 'x', ' '),
    ("slice_bw", "slice", 'n', ' '),
    ("pick_bw", "pick", 'n', ' '),
    ("batch_slice_bw", "batch_slice", 'n', ' '),
    ("batch_pick_bw", "batch_pick", 'n', ' '),
    ("slice_bw", "slice", 'n', ' '),
    ("pick_bw", "pick", 'n', ' '),
    ("batch_slice_bw", "batch_slice", 'n', ' '),
    ("batch_pick_bw", "batch_pick", 'n', ' '),
    ("add_assign", "addassign", 's', ' '),
    ("sub_assign", "subassign", 's', ' '),
    ("mul_assign_const", "mulassign", 's', ' '),
    ("reset_tensor", "reset", 't', ' '),
    ("reset_tensor_by_slice", "reset_slice", 't', ' '),
    ("reset_tensor_by_tensor", "reset_tensor", 't', ' '),
    ("tensor_to_float", "to_float", 'v', ' '),
    ("tensor_to_vector", "to_vector", 'v', ' '),
];

fn forward(f: &str, dev: Dev, x: &[&Tensor<'static>], u: &[u32], k: f32, ki: i64) -> Tensor<'static> {
    match f {
        "neg_fw" => dev.neg_fw(x[0]),
        "add_fw" => dev.add_fw(x[0], x[1]),
        "add_const_fw" => dev.add_const_fw(x[0], k),
        "add_scalar_fw" => dev.add_scalar_fw(x[0], x[1]),
        "sub_fw" => dev.sub_fw(x[0], x[1]),
        "sub_const_l_fw" => dev.sub_const_l_fw(x[0], k),
        "sub_const_r_fw" => dev.sub_const_r_fw(x[0], k),
        "sub_scalar_l_fw" => dev.sub_scalar_l_fw(x[1], x[0]),
        "sub_scalar_r_fw" => dev.sub_scalar_r_fw(x[0], x[1]),
        "mul_fw" => dev.mul_fw(x[0], x[1]),
        "mul_const_fw" => dev.mul_const_fw(x[0], k),
        "mul_scalar_fw" => dev.mul_scalar_fw(x[0], x[1]),
        "div_fw" => dev.div_fw(x[0], x[1]),
        "div_const_l_fw" => dev.div_const_l_fw(x[0], k),
        "div_const_r_fw" => dev.div_const_r_fw(x[0], k),
        "div_scalar_l_fw" => dev.div_scalar_l_fw(x[1], x[0]),
        "div_scalar_r_fw" => dev.div_scalar_r_fw(x[0], x[1]),
        "powf_fw" => dev.powf_fw(x[0], x[1]),
        "powf_const_l_fw" => dev.powf_const_l_fw(x[1], x[0].to_float()),
        "powf_const_r_fw" => dev.powf_const_r_fw(x[0], k),
        "powf_scalar_l_fw" => dev.powf_scalar_l_fw(x[1], x[0]),
        "powf_scalar_r_fw" => dev.powf_scalar_r_fw(x[0], x[1]),
        "powi_fw" => dev.powi_fw(x[0], ki as i32),
        "sqrt_fw" => dev.sqrt_fw(x[0]),
        "abs_fw" => dev.abs_fw(x[0]),
        "sin_fw" => dev.sin_fw(x[0]),
        "cos_fw" => dev.cos_fw(x[0]),
        "tan_fw" => dev.tan_fw(x[0]),
        "exp_fw" => dev.exp_fw(x[0]),
        "ln_fw" => dev.ln_fw(x[0]),
        "tanh_fw" => dev.tanh_fw(x[0]),
        "sigmoid_fw" => dev.sigmoid_fw(x[0]),
        "softplus_fw" => dev.softplus_fw(x[0]),
        "sum_fw" => dev.sum_fw(x[0], u[0]),
        "logsumexp_fw" => dev.logsumexp_fw(x[0], u[0]),
        "max_fw" => dev.max_fw(x[0], u[0]),
        "min_fw" => dev.min_fw(x[0], u[0]),
        "broadcast_fw" => dev.broadcast_fw(x[0], u[0], u[1]),
        "matmul_fw" => dev.matmul_fw(x[0], x[1]),
        "transpose_fw" => dev.transpose_fw(x[0]),
        "triangular_l_fw" => dev.triangular_l_fw(x[0], u[0]),
        "triangular_u_fw" => dev.triangular_u_fw(x[0], u[0]),
        "prelu_fw" => dev.prelu_fw(x[0], k),
        "elu_fw" => dev.elu_fw(x[0], k),
        "slice_fw" => dev.slice_fw(x[0], u[0], u[1], u[2]),
        "pick_fw" => dev.pick_fw(x[0], &u[1..], u[0]),
        "concat_fw" => dev.concat_fw(x, u[0]),
        "batch_sum_fw" => dev.batch_sum_fw(x[0]),
        "batch_slice_fw" => dev.batch_slice_fw(x[0], u[0], u[1]),
        "batch_pick_fw" => dev.batch_pick_fw(x[0], u),
        "batch_concat_fw" => dev.batch_concat_fw(x),
        _ => panic!("HARNESS-ERROR: no forward function {}", f),
    }
}

#[allow(clippy::too_many_arguments)]
fn backward(f: &str, dev: Dev, x: &[&Tensor], y: &Tensor, gy: &Tensor, u: &[u32], k: f32, ki: i64, g: &mut Tensor) {
    match f {
        "neg_bw" => dev.neg_bw(x[0], y, gy, g),
        "add_bw_a" => dev.add_bw_a(x[0], x[1], y, gy, g),
        "add_bw_b" => dev.add_bw_b(x[0], x[1], y, gy, g),
        "add_const_bw" => dev.add_const_bw(x[0], y, gy, k, g),
        "sub_bw_a" => dev.sub_bw_a(x[0], x[1], y, gy, g),
        "sub_bw_b" => dev.sub_bw_b(x[0], x[1], y, gy, g),
        "sub_const_l_bw" => dev.sub_const_l_bw(x[0], y, gy, k, g),
        "sub_const_r_bw" => dev.sub_const_r_bw(x[0], y, gy, k, g),
        "mul_bw_a" => dev.mul_bw_a(x[0], x[1], y, gy, g),
        "mul_bw_b" => dev.mul_bw_b(x[0], x[1], y, gy, g),
        "mul_const_bw" => dev.mul_const_bw(x[0], y, gy, k, g),
        "div_bw_a" => dev.div_bw_a(x[0], x[1], y, gy, g),
        "div_bw_b" => dev.div_bw_b(x[0], x[1], y, gy, g),
        "div_const_l_bw" => dev.div_const_l_bw(x[0], y, gy, k, g),
        "div_const_r_bw" => dev.div_const_r_bw(x[0], y, gy, k, g),
        "powf_bw_a" => dev.powf_bw_a(x[0], x[1], y, gy, g),
        "powf_bw_b" => dev.powf_bw_b(x[0], x[1], y, gy, g),
        "powf_const_l_bw" => dev.powf_const_l_bw(x[1], y, gy, x[0].to_float(), g),
        "powf_const_r_bw" => dev.powf_const_r_bw(x[0], y, gy, k, g),
        "powi_bw" => dev.powi_bw(x[0], y, gy, ki as i32, g),
        "sqrt_bw" => dev.sqrt_bw(x[0], y, gy, g),
        "abs_bw" => dev.abs_bw(x[0], y, gy, g),
        "sin_bw" => dev.sin_bw(x[0], y, gy, g),
        "cos_bw" => dev.cos_bw(x[0], y, gy, g),
        "tan_bw" => dev.tan_bw(x[0], y, gy, g),
        "exp_bw" => dev.exp_bw(x[0], y, gy, g),
        "ln_bw" => dev.ln_bw(x[0], y, gy, g),
        "tanh_bw" => dev.tanh_bw(x[0], y, gy, g),
        "sigmoid_bw" => dev.sigmoid_bw(x[0], y, gy, g),
        "max_bw" => dev.max_bw(x[0], y, gy, u[0], g),
        "min_bw" => dev.min_bw(x[0], y, gy, u[0], g),
        "matmul_bw_a" => dev.matmul_bw_a(x[0], x[1], y, gy, g),
        "matmul_bw_b" => dev.matmul_bw_b(x[0], x[1], y, gy, g),
        "transpose_bw" => dev.transpose_bw(x[0], y, gy, g),
        "triangular_l_bw" => dev.triangular_l_bw(x[0], y, gy, u[0], g),
        "triangular_u_bw" => dev.triangular_u_bw(x[0], y, gy, u[0], g),
        "prelu_bw" => dev.prelu_bw(x[0], y, gy, k, g),
        "elu_bw" => dev.elu_bw(x[0], y, gy, k, g),
        "slice_bw" => dev.slice_bw(gy, u[0], u[1], g),
        "pick_bw" => dev.pick_bw(gy, &u[1..], u[0], g),
        "batch_slice_bw" => dev.batch_slice_bw(gy, u[0], g),
        "batch_pick_bw" => dev.batch_pick_bw(gy, u, g),
        _ => panic!("HARNESS-ERROR: no backward function {}", f),
    }
}

/// Another shape, like the given one but for a detail.
fn other(r: &mut Rng, s: (Vec<u32>, u32)) -> (Vec<u32>, u32) {
    let (mut d, mut b) = s;
    let small = d.iter().product::<u32>() * b < 40;
    match r.below(7) {
        0 | 1 => b = if b == 1 { r.u(2, 3) } else if r.chance(1, 2) { 1 } else if small && r.chance(1, 2) { b + 1 } else { b - 1 },
        2 if !d.is_empty() => {
            let i = r.below(d.len() as u64) as usize;
            d[i] = if d[i] > 1 && (r.chance(1, 2) || !small) { d[i] - 1 } else { d[i] + 1 };
        }
        3 if !d.is_empty() => {
            let i = r.below(d.len() as u64) as usize;
            d[i] = 1;
        }
        4 => r.shuffle(&mut d),
        5 => {
            // batch and axis change places
            let n = d.last().cloned().unwrap_or(1);
            if let Some(l) = d.last_mut() {
                *l = b;
                b = n;
            }
        }
        _ => d.push(r.u(1, 2)),
    }
    d.truncate(8);
    (d, b)
}
fn shape_of(s: Shape) -> (Vec<u32>, u32) {
    (s.dims().to_vec(), s.batch())
}

fn bits(t: &Tensor) -> Vec<u32> {
    t.to_vec().iter().map(|v| v.to_bits()).collect()
}

pub fn run(a: &Args) {
    let mut dev = naive();
    let guard = a.num("guard", 0) == 1;
    let n = a.num("n", 1000);
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let mut r = Rng::new(a.seed);
    for i in 0..n {
        if guard {
            if i % 60 == 0 {
                dev = guarded(&mut r);
            }
            churn(&mut r, dev);
        }
        let &(f, op, kind, form) = &FUNCS[((i + a.seed) % FUNCS.len() as u64) as usize];
        out.intent(&intent, &json!({"f": f}));
        let e = one(&mut r, dev, f, op, kind, form);
        out.ev(e);
    }
    let _ = std::fs::remove_file(&intent);
}

fn one(r: &mut Rng, dev: Dev, f: &str, op: &str, kind: char, form: char) -> Value {
    let size = if r.chance(1, 12) { Size::Edge } else { Size::Small };
    let noise = if r.chance(1, 6) { 60 } else { 0 };
    let mut c = match op {
        "reset" | "reset_slice" | "reset_tensor" | "to_float" | "to_vector" => {
            let mut c = case(r, "neg", Opts { size, grad: false, noise: 0, alias: false });
            c.op = op.into();
            let s = shape_of(c.xs[0].shape());
            c.c = r.range(-9, 9);
            let s2 = if r.chance(1, 2) { other(r, s.clone()) } else { s.clone() };
            c.xs.push(any_tensor(r, s2.0.clone(), s2.1, -9, 9));
            if op == "to_float" || op == "to_vector" {
                c.xs.pop();
                if r.chance(1, 2) {
                    let ones = r.below(3) as usize;
                    c.xs[0] = any_tensor(r, vec![1; ones], 1, -9, 9);
                }
            }
            c
        }
        _ => case(r, op, Opts { size, grad: "xabn".contains(kind), noise, alias: false }),
    };
    if form == 'k' {
        // the constant stands in as a scalar
        let v = c.xs[0].ints()[0];
        c.xs[0] = T { d: vec![], b: 1, v: Data::V(vec![v]) };
    } else if form != ' ' && r.chance(1, 2) {
        // the form the function is for
        let b = c.xs[0].b.max(c.xs[1].b);
        let i = if form == 'l' { 0 } else { 1 };
        let (d, n) = if form == 'e' { (c.xs[0].d.clone(), c.xs[0].size()) } else { (vec![], c.xs[i].b as usize) };
        let old = c.xs[i].ints();
        let bn = if form == 'e' { c.xs[0].b } else { c.xs[i].b };
        let _ = b;
        c.xs[i] = T { d, b: bn, v: Data::V((0..n).map(|k| old[k % old.len()]).collect()) };
    }
    let mut o = c.head("dev", f);
    o.insert("f".into(), json!(f));
    o.insert("way".into(), json!(if "xabn".contains(kind) { "bw".to_string() } else { kind.to_string() }));
    o.insert("st".into(), json!(form.to_string().trim()));
    let which = match kind {
        'b' => 1,
        _ => 0,
    };
    o.insert("wh".into(), json!(which + 1));
    let (u, k, ki) = (c.u.clone(), c.k(), c.c);
    // no storage for one of them
    let bare = r.chance(1, 25);
    let mut kept = 1;
    let set = |o: &mut serde_json::Map<String, Value>, res: Result<Vec<Value>, String>| match res {
        Ok(ys) => {
            o.insert("ok".into(), json!(1));
            o.insert("ys".into(), json!(ys));
        }
        Err(e) => {
            o.insert("ok".into(), json!(0));
            o.insert("ys".into(), json!([]));
            o.insert("err".into(), json!(e.chars().take(120).collect::<String>()));
        }
    };
    let xs: Vec<Tensor<'static>> = c.xs.iter().map(|x| x.tensor(dev, c.sx)).collect();
    let x0: Vec<Vec<u32>> = xs.iter().map(bits).collect();
    match kind {
        'f' => {
            let xr: Vec<&Tensor<'static>> = xs.iter().collect();
            let empty = dev.new_tensor(xs[0].shape());
            let mut xr = xr;
            if bare && form != 'k' {
                xr[0] = &empty;
            }
            o.insert("bare".into(), json!((bare && form != 'k') as u8));
            watch_before(&xs.iter().collect::<Vec<_>>(), &[]);
            let got = attempt(|| {
                if op.starts_with("arg") {
                    let a = match op {
                        "argmax" => dev.argmax(xr[0], u[0]),
                        "argmin" => dev.argmin(xr[0], u[0]),
                        _ => dev.argsort(xr[0], u[0]),
                    };
                    let mut c2 = c.clone();
                    c2.exact = true;
                    c2.sy = 1.;
                    vec![out_json(&c2, Shape::new(&[], 1), &a.iter().map(|&x| x as f32).collect::<Vec<_>>())]
                } else {
                    let y = forward(f, dev, &xr, &u, k, ki);
                    watch_results(&[&y]);
                    vec![out_json(&c, y.shape(), &y.to_vec())]
                }
            });
            set(&mut o, got);
            watch_finish(&mut o);
        }
        's' | 't' => {
            let mut xs = xs;
            let rest = xs.split_off(1);
            let mut t = xs.pop().unwrap();
            if bare {
                t = dev.new_tensor(t.shape());
            }
            o.insert("bare".into(), json!(bare as u8));
            {
                watch_before(&rest.iter().collect::<Vec<_>>(), &[&t]);
            }
            let src: Vec<f32> = c.xs.get(1).map(|x| x.vals(c.sx)).unwrap_or_default();
            let got = attempt(|| match f {
                "add_assign" => dev.add_assign(&rest[0], &mut t),
                "sub_assign" => dev.sub_assign(&rest[0], &mut t),
                "mul_assign_const" => dev.mul_assign_const(k, &mut t),
                "reset_tensor" => dev.reset_tensor(&mut t, k),
                "reset_tensor_by_slice" => dev.reset_tensor_by_slice(&mut t, &src),
                _ => dev.reset_tensor_by_tensor(&mut t, &rest[0]),
            });
            watch_after();
            if got.is_err() && !bare && bits(&t) != x0[0] {
                kept = 0;
            }
            for (x, b) in rest.iter().zip(&x0[1..]) {
                if &bits(x) != b {
                    kept = 0;
                }
            }
            let got = got.map(|_| vec![out_json(&c, t.shape(), &t.to_vec())]);
            set(&mut o, got);
            watch_finish(&mut o);
            o.insert("kept".into(), json!(kept));
            return Value::Object(o);
        }
        'v' => {
            o.insert("bare".into(), json!(bare as u8));
            let empty = dev.new_tensor(xs[0].shape());
            let x = if bare { &empty } else { &xs[0] };
            watch_before(&[&xs[0]], &[]);
            let got = attempt(|| match f {
                "tensor_to_float" => vec![out_json(&c, Shape::new(&[], 1), &[dev.tensor_to_float(x)])],
                _ => {
                    let v = dev.tensor_to_vector(x);
                    vec![out_json(&c, x.shape(), &v)]
                }
            });
            set(&mut o, got);
            watch_finish(&mut o);
        }
        _ => {
            // results of the operation, if there are any
            let fw = FUNCS.iter().find(|g| g.1 == op && g.2 == 'f' && (g.3 == form || form == 'e' && g.3 == 'e')).unwrap().0;
            let made = attempt(|| {
                let y = forward(fw, dev, &xs.iter().collect::<Vec<_>>(), &u, k, ki);
                (shape_of(y.shape()), y.to_vec())
            });
            let mut ys = made.as_ref().map(|m| m.0.clone()).unwrap_or(shape_of(xs[which.min(xs.len() - 1)].shape()));
            let mut gys = ys.clone();
            let mut gs = shape_of(xs[which.min(xs.len() - 1)].shape());
            if r.chance(1, 2) {
                let twice = r.chance(1, 2);
                match r.below(4) {
                    0 if kind != 'n' => {
                        ys = other(r, ys);
                        if twice {
                            gys = ys.clone();
                        }
                    }
                    0 | 1 => gys = other(r, gys),
                    2 => gs = other(r, gs),
                    _ => {
                        // an operand of another shape than its gradient and its result
                        gs = other(r, gs);
                        gys = other(r, gys);
                        if kind != 'n' && twice {
                            ys = gys.clone();
                        }
                    }
                }
            }
            let right = made.as_ref().map(|m| canon(&m.0 .0) == canon(&ys.0) && m.0 .1 == ys.1).unwrap_or(false);
            let yt = T { d: ys.0.clone(), b: ys.1, v: Data::V(vec![1; ys.0.iter().product::<u32>() as usize * ys.1 as usize]) };
            let y = if right { dev.new_tensor_by_slice(Shape::new(&ys.0, ys.1), &made.unwrap().1) } else { yt.tensor(dev, 1.) };
            let gyt = any_tensor(r, gys.0, gys.1, -3, 3);
            let gy = gyt.tensor(dev, 1.);
            let gt = any_tensor(r, gs.0, gs.1, -5, 5);
            let mut g = gt.tensor(dev, 1.);
            let mut u2 = u.clone();
            if kind == 'n' {
                // the gradient is all it knows of the operand, the upstream gradient all of the result
                let dims = gyt.d.clone();
                match op {
                    "slice" => u2[2] = cl_add(u2[1], *dims.get(u2[0] as usize).unwrap_or(&1)),
                    "batch_slice" => u2[1] = cl_add(u2[0], gyt.b),
                    _ => {}
                }
                o.insert("u".into(), json!(u2.iter().map(|&x| cl(x)).collect::<Vec<_>>()));
                o.insert("xs".into(), json!([gt.json()]));
            }
            if bare {
                if r.chance(1, 2) || kind == 'n' {
                    g = dev.new_tensor(g.shape());
                }
            }
            let nog = !g.valid();
            o.insert("bare".into(), json!(nog as u8));
            o.insert("y".into(), if kind == 'n' { shape_json(&gy.shape()) } else { shape_json(&y.shape()) });
            o.insert("gy".into(), gyt.json());
            o.insert("g0".into(), gt.json());
            o.insert("gys".into(), json!([gyt.ints().iter().enumerate().map(|(p, &w)| vec![p as i64, w]).collect::<Vec<_>>()]));
            let before = if nog { vec![] } else { bits(&g) };
            let rest = [bits(&y), bits(&gy)];
            {
                let mut ro: Vec<&Tensor> = xs.iter().collect();
                ro.push(&y);
                ro.push(&gy);
                watch_before(&ro, &[&g]);
            }
            let xr: Vec<&Tensor> = xs.iter().collect();
            let got = attempt(|| backward(f, dev, &xr, &y, &gy, &u, k, ki, &mut g));
            watch_after();
            if got.is_err() && !nog && bits(&g) != before || rest[0] != bits(&y) || rest[1] != bits(&gy) {
                kept = 0;
            }
            let got = got.map(|_| vec![out_json(&c, g.shape(), &g.to_vec())]);
            set(&mut o, got);
            watch_finish(&mut o);
        }
    }
    for (x, b) in xs.iter().zip(&x0) {
        if &bits(x) != b {
            kept = 0;
        }
    }
    o.insert("kept".into(), json!(kept));
    Value::Object(o)
}
fn cl_add(a: u32, b: u32) -> u32 {
    a.saturating_add(b)
}
