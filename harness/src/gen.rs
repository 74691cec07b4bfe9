//! Random cases: operands, attributes, size classes, deliberately broken arguments.
use crate::ops::*;
use crate::util::*;

pub const EXACT_OPS: &[&str] = &[
    "add", "sub", "mul", "div", "addcr", "subcr", "mulcr", "divcr", "addcl", "subcl", "mulcl", "divcl", "neg", "powi", "abs", "sum", "max", "min",
    "broadcast", "matmul", "transpose", "tril", "triu", "relu", "prelu", "slice", "split", "pick", "concat", "reshape", "flatten", "batch_sum",
    "batch_slice", "batch_split", "batch_pick", "batch_concat", "flip", "permute",
];
pub const ASSIGN_OPS: &[&str] = &["addassign", "subassign", "mulassign"];
pub const ARG_OPS: &[&str] = &["argmax", "argmin", "argsort"];
pub const REAL_OPS: &[&str] = &[
    "pow", "powf", "sqrt", "sin", "cos", "tan", "exp", "ln", "tanh", "sigmoid", "softplus", "logsumexp", "ln_softmax", "softmax", "sce", "ssce", "lrelu",
    "elu",
];
pub const CONTRIB_OPS: &[&str] = &["mean", "batch_mean", "dropout", "dropout_dim", "slice_sum", "batch_norm", "layer_norm"];

#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Small,
    Large,
    Edge, // volumes that fill a memory block exactly
    Wide, // many samples, many operands, long lines
}
#[derive(Clone, Copy)]
pub struct Opts {
    pub size: Size,
    pub grad: bool, // avoid non-differentiable points
    pub noise: u64, // probability (percent) of broken arguments
    pub alias: bool,
}

/// Numbers below n in some order that is not accidental.
fn order(r: &mut Rng, ids: &mut [u32], n: u32) {
    let m = ids.len();
    if m < 2 || r.chance(1, 2) {
        return;
    }
    let from = r.u(0, n - 1);
    let step = *r.pick(&[0, 1, 1, 1, n - 1, 2]);
    for (k, id) in ids.iter_mut().enumerate() {
        *id = ((from as u64 + k as u64 * step as u64) % n as u64) as u32;
    }
    // almost a run
    for _ in 0..r.below(3) {
        let (i, j) = (r.below(m as u64) as usize, r.below(m as u64) as usize);
        ids.swap(i, j);
    }
    if m > 3 && r.chance(1, 2) {
        let k = 1 + r.below(m as u64 - 3) as usize;
        ids.swap(k, k + 1);
    }
    if r.chance(1, 6) {
        ids.sort();
    }
}

pub fn dims(r: &mut Rng, maxvol: u32) -> Vec<u32> {
    let depth = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 8]);
    let mut d = vec![];
    let mut vol = 1;
    for _ in 0..depth {
        let mut x = *r.pick(&[1, 1, 2, 2, 3, 4, 5, 7]);
        if vol * x > maxvol {
            x = 1;
        }
        vol *= x;
        d.push(x);
    }
    d
}
fn batch(r: &mut Rng) -> u32 {
    *r.pick(&[1, 1, 1, 2, 2, 3, 4, 5])
}
/// a large shape around the usual blocking boundaries
fn big_dims(r: &mut Rng, op: &str, grad: bool) -> (Vec<u32>, u32) {
    // sums of many fractions would leave the range of the specification's numbers
    let sums = ["mean", "batch_mean", "logsumexp", "softmax", "ln_softmax", "sce", "ssce", "batch_norm", "layer_norm"].contains(&op);
    // ... and the gradient of a sum reaches every element
    let dense = grad && (op == "sum" || op == "batch_sum");
    let sums = sums || dense;
    if !sums && r.chance(1, 40) {
        let n = *r.pick(&[16384, 32768, 65535, 65536, 65537, 131072]);
        return match r.below(7) {
            5 => (vec![], n),
            6 => (vec![2], n / 2),
            0 => (vec![n], 1),
            1 => (vec![2, n / 2], 1),
            2 => (vec![n / 4, 4], 1),
            3 => (vec![n / 8], 9),
            _ => (vec![4, n / 16, 4], r.u(1, 2)),
        };
    }
    let n = *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 2049, 4095, 4097]);
    let n = if dense && n > 1024 { 513 } else { n };
    match r.below(5) {
        0 => (vec![n], 1),
        1 => (vec![n], r.u(2, 4)),
        2 => (vec![r.u(1, 5), n], 1),
        3 => (vec![n, r.u(1, 6)], r.u(1, 3)),
        _ => (vec![r.u(1, 4), (n / 4).max(2), r.u(1, 5)], r.u(1, 3)),
    }
}
fn axis(r: &mut Rng, d: &[u32]) -> u32 {
    if !d.is_empty() && r.chance(3, 4) {
        r.u(0, d.len() as u32 - 1)
    } else {
        r.u(0, 7)
    }
}
fn ax(d: &[u32], i: u32) -> u32 {
    *d.get(i as usize).unwrap_or(&1)
}
fn with_ax(d: &[u32], i: u32, n: u32) -> Vec<u32> {
    let mut d = d.to_vec();
    while d.len() <= i as usize {
        d.push(1);
    }
    d[i as usize] = n;
    d
}
fn size_of(d: &[u32], b: u32) -> usize {
    d.iter().product::<u32>() as usize * b as usize
}
fn ints(r: &mut Rng, n: usize, lo: i64, hi: i64) -> Data {
    Data::V((0..n).map(|_| r.range(lo, hi)).collect())
}
fn nonzero(r: &mut Rng, n: usize, hi: i64) -> Data {
    Data::V((0..n).map(|_| r.range(1, hi) * if r.chance(1, 2) { 1 } else { -1 }).collect())
}
fn from(r: &mut Rng, n: usize, c: &[i64]) -> Data {
    Data::V((0..n).map(|_| *r.pick(c)).collect())
}
fn distinct(r: &mut Rng, n: usize) -> Data {
    let mut v: Vec<i64> = (0..n as i64).map(|i| i - n as i64 / 2).collect();
    r.shuffle(&mut v);
    Data::V(v)
}
fn formula(r: &mut Rng, span: i64) -> Data {
    // odd multiplier and prime modulus: neighbouring cells differ
    let m = *r.pick(&[13, 17, 19, 23, 29]);
    let m = if span < m { 11 } else { m };
    Data::F(r.range(2, m - 1), r.range(0, m - 1), m, r.range(0, m - 1))
}
pub fn any_tensor(r: &mut Rng, d: Vec<u32>, b: u32, lo: i64, hi: i64) -> T {
    let n = size_of(&d, b);
    T { d, b, v: ints(r, n, lo, hi) }
}

fn mutate_dims(r: &mut Rng, d: &[u32]) -> Vec<u32> {
    let i = axis(r, d).min(7);
    let n = r.u(1, 4);
    with_ax(d, i, n)
}

pub fn case(r: &mut Rng, op: &str, o: Opts) -> Case {
    let large = o.size == Size::Large;
    let noise = |r: &mut Rng| r.chance(o.noise, 100);
    let maxvol = if o.grad { 16 } else { 24 };
    let (mut d, mut b) = if large { big_dims(r, op, o.grad) } else { (dims(r, maxvol), batch(r)) };
    let wide = o.size == Size::Wide;
    let edge = o.size == Size::Edge || wide;
    if o.size == Size::Edge {
        let e: &[(&[u32], u32)] = &[(&[64], 1), (&[8, 8], 1), (&[4, 4, 4], 1), (&[32], 2), (&[16, 4], 1), (&[4, 16], 2), (&[8, 4], 2), (&[2, 2, 2, 2, 2, 2], 1), (&[16], 4), (&[8, 8], 2), (&[1, 64], 1), (&[64, 1, 1], 1), (&[], 64), (&[2, 32], 1), (&[128], 1)];
        let x = *r.pick(e);
        d = x.0.to_vec();
        b = x.1;
    } else if wide {
        if op != "matmul" {
            d = r.pick(&[&[][..], &[], &[1], &[2], &[3], &[2, 2], &[1, 2], &[1, 1, 3]]).to_vec();
        }
        b = r.many();
        if r.chance(1, 4) || ["softmax", "ln_softmax", "logsumexp", "layer_norm"].contains(&op) {
            // a long line instead
            let n = b;
            b = if r.chance(1, 3) { 2 } else { 1 };
            d = match r.below(3) {
                0 => vec![n],
                1 => vec![2, n],
                _ => vec![1, n, 2],
            };
        }
    } else if !large {
        while size_of(&d, b) > 48 {
            b -= 1;
        }
    }
    let mut c = Case { op: op.to_string(), u: vec![], c: 0, sx: 1., sy: 1., xs: vec![], alias: false, exact: true, at: None, dense: 0 };
    if large {
        c.at = Some((0..40).map(|_| r.below(1 << 20) as usize).collect());
        c.dense = if op == "matmul" { 300 } else if r.chance(1, 8) { 5000 } else { 300 };
    }
    // contents for one operand
    let fill = |r: &mut Rng, d: &[u32], b: u32, kind: u32| -> Data {
        let n = size_of(d, b);
        if large {
            return match kind {
                2 => Data::F(1, 0, 2, -1), // ones and twos: exact divisors
                _ => formula(r, 29),
            };
        }
        match kind {
            0 => ints(r, n, -9, 9),
            1 => nonzero(r, n, 9),
            2 => from(r, n, &[1, -1, 2, -2, 4, -4]),
            3 => distinct(r, n),
            _ => ints(r, n, -99, 99),
        }
    };
    match op {
        "add" | "sub" | "mul" | "div" | "pow" => {
            // equal axes or one scalar; equal or one batch
            let mut d2 = d.clone();
            let (mut b1, mut b2) = match r.below(4) {
                0 => (1, b),
                1 => (b, 1),
                _ => (b, b),
            };
            match r.below(6) {
                0 => d2 = vec![1; r.below(3) as usize],
                1 => d = vec![1; r.below(3) as usize],
                _ => {}
            }
            if noise(r) {
                match r.below(3) {
                    0 => d2 = mutate_dims(r, &d2),
                    1 => b1 = batch(r),
                    _ => b2 = batch(r),
                }
            }
            while !large && !edge && size_of(&d, b1).max(size_of(&d2, b2)) > 60 {
                b1 = b1.min(2);
                b2 = b2.min(2);
                if size_of(&d, b1).max(size_of(&d2, b2)) > 60 {
                    break;
                }
            }
            if o.alias {
                b2 = b1;
                d2 = d.clone();
            }
            let (mut x, mut y) = (fill(r, &d, b1, 0), fill(r, &d2, b2, if op == "div" { 2 } else { 0 }));
            if op == "div" {
                c.sy = 64.;
                if o.alias {
                    x = fill(r, &d, b1, 2);
                }
            }
            if op == "pow" {
                c.sx = 16.;
                c.sy = 16384.;
                c.exact = false;
                let n = size_of(&d, b1);
                x = from(r, n, if o.grad || o.alias { &[4, 8, 12, 16, 24, 32, 40, 48] } else { &[4, 8, 16, 20, 32, 40, 48, 0] });
                let n2 = size_of(&d2, b2);
                y = from(r, n2, if o.grad { &[-16, -8, 8, 16, 24, 32, 40, 48] } else { &[8, 16, 24, 32, 40, 48] });
            }
            c.xs = vec![T { d: d.clone(), b: b1, v: x }, T { d: d2, b: b2, v: y }];
            if o.alias {
                c.xs.pop();
                c.alias = true;
            }
        }
        "addcr" | "subcr" | "mulcr" | "addcl" | "subcl" | "mulcl" | "divcr" | "divcl" => {
            c.c = r.range(-9, 9);
            let k = match op {
                "divcr" => {
                    c.c = *r.pick(&[1, -1, 2, -2, 4, -4]);
                    c.sy = 64.;
                    0
                }
                "divcl" => {
                    c.sy = 64.;
                    2
                }
                _ => 0,
            };
            let v = fill(r, &d, b, k);
            c.xs = vec![T { d, b, v }];
        }
        "neg" | "abs" | "relu" | "flatten" | "batch_sum" => {
            let v = fill(r, &d, b, if (op == "abs" || op == "relu") && o.grad { 1 } else { 4 });
            c.xs = vec![T { d, b, v }];
        }
        "prelu" => {
            c.sx = 16.;
            c.sy = 256.;
            c.c = r.range(-20, 20);
            let v = fill(r, &d, b, if o.grad { 1 } else { 4 });
            c.xs = vec![T { d, b, v }];
        }
        "lrelu" => {
            c.sx = 16.;
            c.sy = 16384.;
            c.exact = false;
            let v = fill(r, &d, b, if o.grad { 1 } else { 4 });
            c.xs = vec![T { d, b, v }];
        }
        "powi" => {
            c.sy = 64.;
            let n = size_of(&d, b);
            let neg = r.chance(1, 3);
            c.c = if neg { r.range(-3, -1) } else { r.range(0, 5) };
            let mut v = if large {
                Data::F(3, 1, 5, if neg { -1 } else { 2 })
            } else if neg {
                from(r, n, if o.grad { &[1, -1, 2, -2] } else { &[1, -1, 2, -2] })
            } else {
                ints(r, n, -5, 5)
            };
            if neg && large {
                v = Data::F(1, 0, 2, -1);
            }
            if !neg && o.grad {
                // the derivative of x^0 is not formed at zero
                v = if large { Data::F(1, 0, 2, -1) } else if c.c > 0 { ints(r, n, -5, 5) } else { nonzero(r, n, 5) };
            }
            if r.chance(1, 12) && !large {
                c.c = r.range(-40, 40);
                v = from(r, n, &[1, -1]);
            }
            c.xs = vec![T { d, b, v }];
        }
        "sum" | "mean" | "max" | "min" | "argmax" | "argmin" | "argsort" => {
            let i = axis(r, &d);
            c.u = vec![if noise(r) && !op.starts_with("arg") { r.u(0, 9) } else { i }];
            let n = size_of(&d, b);
            if op.starts_with("arg") && r.chance(1, 5) {
                // integral values beyond the range of integers
                c.sx = 1. / (1u64 << *r.pick(&[26, 30, 40, 60])) as f64;
            }
            let v = if large {
                formula(r, 29)
            } else if (op == "max" || op == "min") && o.grad {
                distinct(r, n)
            } else if r.chance(1, 2) {
                ints(r, n, -3, 3)
            } else {
                ints(r, n, -99, 99)
            };
            if op == "mean" {
                c.sy = 16384.;
                c.exact = false;
            }
            c.xs = vec![T { d, b, v }];
        }
        "batch_mean" => {
            c.sy = 16384.;
            c.exact = false;
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "broadcast" => {
            let i = axis(r, &d);
            let mut n = r.u(1, 4);
            let mut dd = with_ax(&d, i, 1);
            let mut i = i;
            if noise(r) {
                match r.below(3) {
                    0 => dd = mutate_dims(r, &dd),
                    1 => n = *r.pick(&[0, 1, 4294967295]),
                    _ => i = r.u(0, 9),
                }
            }
            // never ask for a gigantic but legal result
            if n > 100 && dd.iter().product::<u32>() as u64 * (b as u64) < 3 {
                n = 0;
            }
            c.u = vec![i, n];
            let v = fill(r, &dd, b, 4);
            c.xs = vec![T { d: dd, b, v }];
        }
        "matmul" => {
            let s: &[u32] = if large { &[1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] } else { &[1, 1, 2, 3, 4, 5] };
            let (mut n, mut m, mut p) = (*r.pick(s), *r.pick(s), *r.pick(s));
            if !o.alias && r.chance(1, if large || wide { 3 } else { 6 }) {
                // vectors on one side or both
                let k = if large || wide { r.many() } else { r.u(5, 20) };
                let few = *r.pick(&[1, 2, 3, 5]);
                let (a, b, c) = *r.pick(&[(1, k, 1), (1, k, few), (few, k, 1), (k, few, 1), (1, few, k)]);
                n = a;
                m = b;
                p = c;
            }
            let mut d1 = vec![n, m];
            let mut d2 = vec![m, p];
            let (mut b1, mut b2) = match r.below(4) {
                0 => (1, b),
                1 => (b, 1),
                _ => (b, b),
            };
            if large || wide && n * m * p > 12 {
                b1 = b1.min(2);
                b2 = b2.min(2);
            }
            if noise(r) {
                match r.below(4) {
                    0 => d1 = mutate_dims(r, &d1),
                    1 => d2 = mutate_dims(r, &d2),
                    2 => b1 = batch(r),
                    _ => b2 = batch(r),
                }
            }
            if o.alias {
                d1 = vec![n, n];
                c.alias = true;
            }
            let v1 = fill(r, &d1, b1, 0);
            c.xs = vec![T { d: d1, b: b1, v: v1 }];
            if !o.alias {
                let v2 = fill(r, &d2, b2, 0);
                c.xs.push(T { d: d2, b: b2, v: v2 });
            }
        }
        "transpose" | "tril" | "triu" => {
            let s: &[u32] = if large { &[7, 8, 9, 31, 32, 33, 64, 65] } else { &[1, 2, 3, 4] };
            let n = *r.pick(s);
            let m = if op == "transpose" { *r.pick(s) } else { n };
            let mut dd = vec![n, m];
            if noise(r) {
                dd = mutate_dims(r, &dd);
                if r.chance(1, 3) {
                    dd = d.clone();
                }
            }
            if op != "transpose" {
                c.u = vec![*r.pick(&[0, 0, 1, 1, 2, 3, 5, 30, 4294967295, 4294967294, 2147483648])];
            }
            if large {
                b = b.min(3);
            }
            let v = fill(r, &dd, b, 0);
            c.xs = vec![T { d: dd, b, v }];
        }
        "slice" => {
            let i = axis(r, &d);
            let n = ax(&d, i);
            let lo = r.u(0, n - 1);
            let hi = r.u(lo + 1, n);
            c.u = vec![i, lo, hi];
            if noise(r) {
                let j = r.below(3) as usize;
                c.u[j] = match r.below(3) {
                    0 => r.u(0, 9),
                    1 => *r.pick(&[4294967295, 4294967294, 0]),
                    _ => n + 1,
                };
            }
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "split" | "batch_split" => {
            let n = r.u(1, 4);
            let i = axis(r, &d);
            let m = if size_of(&d, b) > 16000 { 4 } else if large { r.u(8, 200) } else { r.u(1, 3) };
            if op == "split" {
                if large {
                    d = vec![r.u(1, 5), 1, r.u(1, 3)];
                }
                d = with_ax(&d, i, n * m);
                if !large && !wide && size_of(&d, b) > 60 {
                    d = with_ax(&[], i, n * m);
                }
                c.u = vec![i, n];
            } else {
                b = n * if large || wide { r.u(2, 30) } else { m };
                if !large && !wide && size_of(&d, b) > 60 {
                    d = vec![2];
                }
                if large {
                    d = vec![r.u(1, 40), r.u(1, 7)];
                }
                c.u = vec![n];
            }
            if noise(r) {
                let l = c.u.len() - 1;
                c.u[l] = *r.pick(&[0, 2, 3, 5, 7, 4294967295]);
            }
            if noise(r) && op == "split" {
                c.u[0] = r.u(0, 9);
            }
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "pick" | "ssce" => {
            let labels = wide && r.chance(1, 2);
            if labels {
                // one sample, many labels of few classes
                d = r.pick(&[&[2][..], &[2], &[3], &[1, 2], &[2, 2], &[1]]).to_vec();
                b = 1;
            }
            let i = axis(r, &d);
            let n = ax(&d, i);
            let m = match r.below(3) {
                0 if !labels => 1,
                _ => {
                    if b == 1 && (labels || r.chance(1, 2)) {
                        if wide { r.many().min(if o.grad { 40 } else { 70 }) } else { r.u(1, 4) }
                    } else {
                        b
                    }
                }
            };
            c.u = vec![i];
            for _ in 0..m {
                c.u.push(r.u(0, n - 1));
            }
            order(r, &mut c.u[1..], n);
            if noise(r) {
                match r.below(4) {
                    0 => c.u[0] = r.u(0, 9),
                    1 => c.u.truncate(1),
                    2 => {
                        let l = c.u.len() - 1;
                        c.u[l] = *r.pick(&[n, n + 1, 4294967295]);
                    }
                    _ => c.u.push(0),
                }
            }
            if op == "ssce" {
                c.sx = 16.;
                c.sy = 16384.;
                c.exact = false;
                if large {
                    d = vec![3, 2];
                    b = 1;
                    c.u = vec![0, 1];
                    c.at = None;
                }
                let n = size_of(&d, b);
                let v = ints(r, n, -64, 64);
                c.xs = vec![T { d, b, v }];
            } else {
                let v = fill(r, &d, b, 4);
                c.xs = vec![T { d, b, v }];
            }
        }
        "concat" | "batch_concat" | "slice_sum" => {
            let n = if o.alias { 1 } else if wide { *r.pick(&[1, 2, 3, 5, 8, 9, 16, 17, 33]) } else { r.u(1, 5) };
            let i = axis(r, &d);
            if wide && n > 3 {
                d = r.pick(&[&[][..], &[2], &[1, 2]]).to_vec();
                b = b.min(3);
            }
            if large && op == "concat" {
                d = vec![r.u(1, 40), r.u(1, 12), r.u(1, 3)];
                b = r.u(1, 3);
            }
            for _ in 0..n {
                let mut dd = d.clone();
                let mut bb = b;
                match op {
                    "concat" => {
                        dd = with_ax(&d, i, r.u(1, if large { 9 } else { 3 }));
                        if r.chance(1, 3) {
                            bb = 1;
                        }
                    }
                    "batch_concat" => bb = r.u(1, 3),
                    _ => {
                        if r.chance(1, 3) {
                            bb = 1;
                        }
                    }
                }
                if noise(r) {
                    if r.chance(1, 2) {
                        dd = mutate_dims(r, &dd);
                    } else {
                        bb = batch(r);
                    }
                }
                if !large && !wide && size_of(&dd, bb) > 40 {
                    match op {
                        "concat" => {
                            dd = with_ax(&d, i, 1);
                            bb = 1;
                        }
                        "batch_concat" => bb = 1,
                        _ => {
                            dd = d.clone();
                            bb = 1;
                        }
                    }
                }
                let v = fill(r, &dd, bb, 4);
                c.xs.push(T { d: dd, b: bb, v });
            }
            if !o.alias && r.chance(1, 4) {
                // the same tensor several times
                for k in 1..c.xs.len() {
                    if r.chance(2, 3) {
                        c.xs[k] = c.xs[k - 1].clone();
                    }
                }
            }
            if op == "concat" {
                c.u = vec![if noise(r) { r.u(0, 9) } else { i }];
            }
            c.alias = o.alias;
        }
        "reshape" => {
            let n = size_of(&d, b) as u32;
            // another factorisation of the number of elements
            let mut rest = n;
            let mut nd = vec![];
            let nb = *r.pick(&[1, b, b]);
            rest /= nb;
            while rest > 1 && nd.len() < 7 {
                let fs: Vec<u32> = (1..=rest.min(8)).filter(|f| rest % f == 0).collect();
                let f = *r.pick(&fs);
                nd.push(f);
                rest /= f;
            }
            nd.push(rest);
            if noise(r) {
                nd = mutate_dims(r, &nd);
            }
            if noise(r) && r.chance(1, 3) {
                nd[0] = 0;
            }
            if noise(r) && r.chance(1, 3) {
                nd.extend(vec![1; 3]);
            }
            c.u = vec![nb];
            c.u.extend(nd);
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "batch_slice" => {
            if large {
                b = r.u(2, 9);
                d = vec![r.u(1, 40), r.u(1, 9)];
            }
            let lo = r.u(0, b - 1);
            let hi = r.u(lo + 1, b);
            c.u = vec![lo, hi];
            if noise(r) {
                let j = r.below(2) as usize;
                c.u[j] = *r.pick(&[b + 1, 0, 4294967295, b]);
            }
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "batch_pick" => {
            if !large && !wide && r.chance(1, 2) {
                b = r.u(2, 9);
                d.truncate(2);
            }
            let m = if wide { r.many() } else { *r.pick(&[b, 1, 2, 3, 4, 5]) };
            for _ in 0..m {
                c.u.push(r.u(0, b - 1));
            }
            order(r, &mut c.u, b);
            if noise(r) {
                match r.below(2) {
                    0 => c.u.clear(),
                    _ => c.u[0] = *r.pick(&[b, b + 1, 4294967295]),
                }
            }
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "sqrt" | "sin" | "cos" | "tan" | "exp" | "ln" | "tanh" | "sigmoid" | "softplus" | "elu" => {
            c.sx = 16.;
            c.sy = 16384.;
            c.exact = false;
            let (lo, hi): (i64, i64) = match op {
                "sqrt" => (if o.grad { 1 } else { 0 }, 320),
                "ln" => (1, 320),
                "sin" | "cos" => (-320, 320),
                "tan" => (-320, 320),
                "exp" => (-160, 96),
                "elu" => (-128, 128),
                _ => (-320, 320),
            };
            let n = size_of(&d, b);
            let v = if large {
                let m = *r.pick(&[97, 101, 103]);
                Data::F(r.range(2, 90), r.range(0, 50), m, if lo >= 0 { -1 } else { 50 })
            } else {
                ints(r, n, lo, hi)
            };
            let mut t = T { d, b, v };
            if op == "tan" {
                // stay where the tangent is moderate
                let w: Vec<i64> = t.ints().iter().map(|&x| if (x as f64 / 16.).tan().abs() > 7. { 3 } else { x }).collect();
                if !large {
                    t.v = Data::V(w);
                } else {
                    t.v = Data::F(3, 1, 41, 20);
                }
            }
            if op == "elu" {
                c.c = r.range(-24, 24);
                if o.grad {
                    if let Data::V(v) = &mut t.v {
                        for x in v.iter_mut() {
                            if *x == 0 {
                                *x = 5;
                            }
                        }
                    }
                }
            }
            c.xs = vec![t];
        }
        "powf" => {
            c.sx = 16.;
            c.sy = 16384.;
            c.exact = false;
            let n = size_of(&d, b);
            let kind = r.below(4);
            let v;
            if kind == 0 && !large {
                c.c = *r.pick(&[16, 32, 48]);
                v = from(r, n, &[-32, -16, 0, 16, 32, 8, -8]);
            } else {
                c.c = *r.pick(&[-16, -8, 8, 16, 20, 24, 32, 40, 48, 0]);
                v = if large { Data::F(3, 1, 40, -8) } else { from(r, n, &[4, 8, 12, 16, 20, 24, 32, 40, 48]) };
            }
            c.xs = vec![T { d, b, v }];
        }
        "logsumexp" | "ln_softmax" | "softmax" | "sce" => {
            c.sx = 16.;
            c.sy = 16384.;
            c.exact = false;
            c.at = None;
            if large {
                d = vec![r.u(1, 3), *r.pick(&[9, 16, 17])];
                b = 1;
            }
            let i = axis(r, &d);
            c.u = vec![if noise(r) { r.u(0, 9) } else { i }];
            let n = size_of(&d, b);
            let v = match r.below(3) {
                0 => ints(r, n, -64, 64),
                1 => ints(r, n, -8, 8),
                _ => from(r, n, &[0, 16, -16]),
            };
            c.xs = vec![T { d: d.clone(), b, v }];
            if op == "sce" {
                let mut d2 = d.clone();
                let mut b2 = if b > 1 && r.chance(1, 3) { 1 } else { b };
                if noise(r) {
                    if r.chance(1, 2) {
                        d2 = mutate_dims(r, &d2);
                    } else {
                        b2 = batch(r);
                    }
                }
                // every line of the target is a distribution
                let m = size_of(&d2, b2);
                let mut t = vec![0i64; m];
                let ln = if c.u[0] > 7 { 1 } else { ax(&d2, c.u[0]) as usize };
                let lower: usize = d2.iter().take(c.u[0] as usize).product::<u32>() as usize;
                for p in 0..m {
                    let k = (p / lower) % ln;
                    let base = p - k * lower;
                    if k == 0 {
                        let mut left = 16;
                        for q in 0..ln {
                            let w = if q + 1 == ln { left } else { r.range(0, left) };
                            t[base + q * lower] = w;
                            left -= w;
                        }
                    }
                }
                c.xs.push(T { d: d2, b: b2, v: Data::V(t) });
            }
        }
        "dropout" | "dropout_dim" => {
            c.sx = 4.;
            c.sy = 16384.;
            c.exact = false;
            c.c = *r.pick(&[0, 1, 2, 3, 4, 5, 2, 1]);
            c.u = vec![if r.chance(1, 5) { 0 } else { 1 }];
            if op == "dropout_dim" {
                let i = axis(r, &d);
                c.u.push(if noise(r) { r.u(0, 9) } else { i });
            }
            let v = if large { Data::F(3, 1, 17, -1) } else { fill(r, &d, b, 1) };
            c.xs = vec![T { d, b, v }];
        }
        "batch_norm" | "layer_norm" => {
            c.sx = 16.;
            c.sy = 4096.;
            c.exact = false;
            c.at = None;
            if large {
                d = vec![3, 2];
            }
            if wide && op == "layer_norm" {
                d = r.pick(&[&[32][..], &[17], &[4, 8], &[16], &[3, 9]]).to_vec();
            }
            while !(wide && op == "layer_norm") && d.iter().product::<u32>() > 12 {
                d.pop();
            }
            if op == "batch_norm" {
                b = if wide { *r.pick(&[8, 9, 16, 17, 31, 32]) } else { r.u(1, 4) };
                c.u = vec![if r.chance(1, 6) { 0 } else { 1 }];
            } else {
                b = b.min(3);
            }
            c.c = r.range(1, 16);
            let n = size_of(&d, b);
            let mut d2 = d.clone();
            let mut b2 = 1;
            if noise(r) {
                if r.chance(1, 2) {
                    d2 = mutate_dims(r, &d2);
                } else {
                    b2 = batch(r);
                }
            }
            let m = size_of(&d2, b2);
            let (mut v, g, s) = (ints(r, n, -48, 48), ints(r, m, -32, 32), ints(r, m, -32, 32));
            if r.chance(1, 3) && !wide {
                // far from zero, compared with how they differ
                let o = *r.pick(&[16384, -16384, 8192, -4096, 12288]);
                match &mut v {
                    Data::V(v) => v.iter_mut().for_each(|x| *x += o),
                    _ => (),
                }
            }
            c.xs = vec![T { d, b, v }, T { d: d2.clone(), b: b2, v: g }, T { d: d2, b: b2, v: s }];
        }
        "flip" => {
            c.u = vec![r.u(0, 7)];
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "permute" => {
            let n = r.u(canon(&d).len() as u32, 8).min(canon(&d).len() as u32 + 2);
            c.u = (0..n).collect();
            r.shuffle(&mut c.u);
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        "addassign" | "subassign" => {
            let mut d2 = d.clone();
            let (mut b1, mut b2) = match r.below(4) {
                0 => (1, b),
                1 => (b, 1),
                _ => (b, b),
            };
            if noise(r) {
                match r.below(3) {
                    0 => d2 = mutate_dims(r, &d2),
                    1 => b1 = batch(r),
                    _ => b2 = batch(r),
                }
            }
            let (x, y) = (fill(r, &d, b1, 4), fill(r, &d2, b2, 4));
            c.xs = vec![T { d, b: b1, v: x }, T { d: d2, b: b2, v: y }];
        }
        "mulassign" => {
            c.c = r.range(-9, 9);
            let v = fill(r, &d, b, 4);
            c.xs = vec![T { d, b, v }];
        }
        _ => panic!("no generator for {}", op),
    }
    c
}

/// Elements of every magnitude, infinite ones included, for operations that only move, compare
/// and negate them.
pub fn ranks(r: &mut Rng, c: &mut Case) {
    const MOVES: &[&str] = &[
        "max", "min", "argmax", "argmin", "argsort", "neg", "abs", "slice", "split", "pick", "concat", "transpose", "broadcast", "reshape", "flatten", "batch_slice",
        "batch_split", "batch_pick", "batch_concat", "flip", "permute", "tril", "triu",
    ];
    if !MOVES.contains(&c.op.as_str()) || !r.chance(1, 4) {
        return;
    }
    c.sx = RANKS;
    c.sy = RANKS;
    let top = *r.pick(&[12, 12, 12, 4]);
    let low = *r.pick(&[-top, -top, 8.min(top), -9]);
    let one = r.chance(1, 6);
    let nan = r.chance(1, 4) && !["max", "min", "argmax", "argmin", "argsort", "neg", "abs"].contains(&c.op.as_str());
    for x in c.xs.iter_mut() {
        let n = x.size();
        x.v = match x.v {
            Data::F(..) => Data::F(r.range(2, 18), r.range(0, 18), 19, *r.pick(&[6, 9, 12])),
            _ if one => from(r, n, &[-12, 12]),
            // 13: not a number
            _ if nan => from(r, n, &[13, 1, 13, 12, -12, 0, 7]),
            _ => ints(r, n, low.max(-12), top),
        };
    }
}

/// The same numbers many powers of two larger or smaller, for operations that are homogeneous.
pub fn magnify(r: &mut Rng, c: &mut Case) {
    let degree = match c.op.as_str() {
        "add" | "sub" | "addcr" | "subcr" | "addcl" | "subcl" | "neg" | "abs" | "sum" | "max" | "min" | "relu" | "batch_sum" | "addassign" | "subassign"
        | "transpose" | "tril" | "triu" | "pick" | "slice" | "concat" | "broadcast" => 1,
        "mul" | "mulcr" | "mulcl" | "matmul" | "mulassign" => 2,
        "div" | "divcr" | "divcl" => 0,
        _ => return,
    };
    if c.sx != 1. || c.sy != 1. || !c.exact || !r.chance(1, 5) {
        return;
    }
    let k = *r.pick(&[20, 24, 31, 33, 40, 50]) * if r.chance(1, 2) { 1 } else { -1 };
    c.sx = 2f64.powi(-k);
    c.sy = 2f64.powi(-k * degree);
}
