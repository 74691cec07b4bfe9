//! Big graphs: long chains, exponentially many paths, wide fans, on small stacks.
use crate::d_graph::{clear_log, take_log, Lin, Probe};
use crate::d_ops::naive;
use crate::ops::Dev;
use crate::util::*;
use crate::Args;
use prima_undine::functions::BasicFunctions;
use prima_undine::{shape, Node, Operator, Parameter};
use serde_json::json;
use std::rc::Rc;

type N = Node<'static, 'static>;
type P = Rc<N>;

struct Build {
    dev: Dev,
    probed: bool,
    ids: usize,
    keep: Option<Vec<P>>,
}
impl Build {
    fn note(&mut self, n: N) -> P {
        let n = Rc::new(n);
        if let Some(k) = &mut self.keep {
            k.push(n.clone());
        }
        n
    }
    fn one(&mut self, op: impl Operator<'static, 'static> + 'static, xs: &[&N]) -> P {
        self.ids += 1;
        let n = Node::create(Probe { inner: Box::new(op), id: self.ids }, xs).pop().unwrap();
        self.note(n)
    }
    /// sum of coef * argument, element-wise
    fn lin(&mut self, coef: &[i64], xs: &[&N]) -> P {
        if self.probed {
            let op = Lin { dev: self.dev, coef: vec![coef.to_vec()] };
            return self.one(op, xs);
        }
        let n = match coef {
            [1, 1] => xs[0] + xs[1],
            [1, -1] => xs[0] - xs[1],
            [-1] => -xs[0],
            [c] => xs[0] * *c as f32,
            _ => panic!("harness"),
        };
        self.note(n)
    }
    fn addc(&mut self, x: &N, c: f32) -> P {
        use prima_undine::operators as op;
        if self.probed {
            let o = op::AddConst::new(self.dev, c);
            self.one(o, &[x])
        } else {
            let n = x + c;
            self.note(n)
        }
    }
}

struct Spec {
    fam: &'static str,
    n: usize,
    probed: bool,
    keep: u32,  // 0: only the target, 1: all, dropped first to last, 2: last to first
    reqs: Vec<&'static str>,
    stack: usize,
    x: Vec<i64>,
    seed: u64,
}

fn program(s: &Spec, b: &mut Build, xs: &[N]) -> P {
    let id = |b: &mut Build, x: &N| b.addc(x, 0.);
    match s.fam {
        "chain" => {
            let mut y = id(b, &xs[0]);
            for k in 0..s.n {
                y = match k % 4 {
                    0 => b.addc(&y, 1.),
                    1 => b.lin(&[-1], &[&y]),
                    2 => b.addc(&y, -2.),
                    _ => b.addc(&y, 3.),
                };
            }
            y
        }
        "double" => {
            let mut y = id(b, &xs[0]);
            for _ in 0..s.n {
                let d = b.lin(&[1, 1], &[&y, &y]);
                y = b.lin(&[1, -1], &[&d, &y]);
            }
            y
        }
        "fib" => {
            let mut p = id(b, &xs[0]);
            let mut q = id(b, &xs[1]);
            for _ in 0..s.n {
                let r = b.lin(&[1, -1], &[&q, &p]);
                p = q;
                q = r;
            }
            q
        }
        "skip" => {
            // every node also depends on a node half as deep: paths of very different length
            let mut ys = vec![id(b, &xs[0])];
            for k in 1..=s.n {
                let d = b.lin(&[1, -1], &[&ys[k - 1], &ys[k / 2]]);
                let y = b.lin(&[1, 1], &[&d, &ys[k / 2]]);
                ys.push(y);
            }
            ys.pop().unwrap()
        }
        "wide" => {
            // every level has three to five arguments and one or two outputs
            let mut y = id(b, &xs[0]);
            let a = id(b, &xs[0]);
            for k in 0..s.n {
                let w = 3 + k % 3;
                let at = (k / 2) % w;
                let args: Vec<&N> = (0..w).map(|j| if j == at { &*y } else { &*a }).collect();
                y = if b.probed {
                    let coef: Vec<i64> = (0..w).map(|j| if j == at { 1 } else { [1, -1, 0, 0, 0][(j + w - at - 1) % w] }).collect();
                    let mut rows = vec![coef];
                    if k % 2 == 1 {
                        rows.insert(0, vec![2; w]);
                    }
                    let op = Lin { dev: b.dev, coef: rows };
                    b.one(op, &args)
                } else {
                    let all = N::concat(&args, 0);
                    let n = if k % 2 == 1 { all.split(0, w as u32).swap_remove(at) } else { all.slice(0, at as u32, at as u32 + 1) };
                    b.note(n)
                };
            }
            y
        }
        "fan" => {
            let ys: Vec<P> = (0..s.n).map(|k| b.addc(&xs[0], (k % 5) as f32 - 2.)).collect();
            let r: Vec<&N> = ys.iter().map(|y| &**y).collect();
            let mut coef = vec![];
            for k in 0..s.n {
                coef.push(if k % 3 == 0 { -1 } else { 1 });
            }
            let op = Lin { dev: b.dev, coef: vec![coef] };
            b.one(op, &r)
        }
        "concat" => {
            let ys: Vec<P> = (0..s.n).map(|k| b.lin(&[(k % 3) as i64 - 1], &[&xs[0]])).collect();
            let y = N::concat(&ys.iter().map(|y| &**y).collect::<Vec<&N>>(), 1);
            Rc::new(y.sum(1))
        }
        "split" => {
            // x has n rows; every third output is used, the last twice
            let ys = xs[0].split(0, s.n as u32);
            let mut y = b.addc(&ys[s.n - 1], 0.);
            for k in (0..s.n).step_by(3) {
                y = b.lin(&[1, -1], &[&ys[k], &y]);
            }
            y
        }
        "lattice" => {
            let w = 5;
            let mut row: Vec<P> = (0..w).map(|k| b.addc(&xs[0], k as f32)).collect();
            for _ in 0..s.n {
                let mut next = vec![];
                for i in 0..w {
                    let d = b.lin(&[1, 1], &[&row[(i + 1) % w], &row[i]]);
                    next.push(b.lin(&[1, -1], &[&d, &row[i]]));
                }
                row = next;
            }
            let mut y = b.lin(&[-1], &[&row[0]]);
            for r in &row[1..] {
                y = b.lin(&[1, 1], &[&y, r]);
            }
            y
        }
        _ => panic!("harness: family"),
    }
}

/// Runs one program on a thread with the given stack.
fn run_spec(s: Spec) -> serde_json::Value {
    let name = json!({"k": "deep", "fam": s.fam, "n": s.n, "probed": s.probed as u8, "keep": s.keep, "x": s.x, "reqs": s.reqs, "stack": s.stack});
    let dev = naive();
    let stack = s.stack;
    let r = std::thread::Builder::new()
        .stack_size(stack)
        .spawn(move || {
            let params: Vec<*mut Parameter<'static>> = s
                .x
                .iter()
                .map(|&x| {
                    let rows = if s.fam == "split" { s.n as u32 } else { 1 };
                    let v: Vec<f32> = (0..rows).map(|k| (x + (k % 7) as i64) as f32).collect();
                    let g = vec![10.; rows as usize];
                    Box::into_raw(Box::new(Parameter::new(dev.new_tensor_by_slice(shape![rows], &v), dev.new_tensor_by_slice(shape![rows], &g))))
                })
                .collect();
            let mut out = vec![];
            {
                let mut b = Build { dev, probed: s.probed, ids: 0, keep: if s.keep > 0 { Some(vec![]) } else { None } };
                let xs: Vec<N> = params.iter().map(|&p| Node::from(unsafe { &mut *p })).collect();
                clear_log();
                let y = program(&s, &mut b, &xs);
                out.push(json!({"r": "build", "ids": b.ids, "fw": summary(take_log(b'f')), "bw": summary(take_log(b'b')), "y": [], "g": []}));
                drop(xs);
                let mut kept = b.keep.take().unwrap_or(vec![]);
                let mut r = Rng::new(s.seed);
                for q in &s.reqs {
                    clear_log();
                    let mut v = vec![];
                    match *q {
                        "get" => v = encs(&y.to_vec(), 1., true),
                        "mid" if !kept.is_empty() => {
                            let i = r.below(kept.len() as u64) as usize;
                            kept[i].forward();
                        }
                        "back" => y.backward(),
                        _ => {}
                    }
                    let g: Vec<Vec<i64>> = params.iter().map(|&p| encs(&unsafe { &*p }.gradient.to_vec(), 1., true)).collect();
                    out.push(json!({"r": q, "fw": summary(take_log(b'f')), "bw": summary(take_log(b'b')), "y": v, "g": g}));
                }
                if s.keep == 1 {
                    drop(y);
                    for n in kept {
                        drop(n);
                    }
                } else {
                    while let Some(n) = kept.pop() {
                        drop(n);
                    }
                    drop(y);
                }
            }
            for p in params {
                drop(unsafe { Box::from_raw(p) });
            }
            out
        })
        .expect("HARNESS-ERROR thread")
        .join();
    let mut o = name;
    match r {
        Ok(v) => {
            o["ok"] = json!(1);
            o["st"] = json!(v);
        }
        Err(_) => {
            o["ok"] = json!(0);
            o["st"] = json!([]);
        }
    }
    o
}
/// <<calls, distinct operations, calls out of creation order>>
fn summary(log: Vec<usize>) -> Vec<usize> {
    let mut s = log.clone();
    s.sort();
    s.dedup();
    let down = log.windows(2).filter(|w| w[0] > w[1]).count();
    let up = log.windows(2).filter(|w| w[0] < w[1]).count();
    vec![log.len(), s.len(), down, up]
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let mut r = Rng::new(a.seed);
    let big = a.num("big", 20000) as u32;
    for k in 0..a.num("n", 40) {
        let fam = ["chain", "double", "fib", "skip", "fan", "concat", "split", "lattice", "wide"][((k + a.seed) % 9) as usize];
        let top = match fam {
            "concat" => big.min(2000),
            "fan" => big.min(6000),
            "split" => big.min(1500),
            "lattice" => big / 12,
            "wide" => big.min(40000),
            _ => big,
        };
        let n = if r.chance(1, 3) { r.u(1, 12) } else { r.u(top / 4, top) } as usize;
        let nx = if fam == "fib" { 2 } else { 1 };
        let x: Vec<i64> = (0..nx).map(|_| r.range(-9, 9)).collect();
        let keep = r.u(0, 2);
        let mut reqs = vec![];
        for _ in 0..r.u(2, 5) {
            reqs.push(*r.pick(&["get", "back", "back", "mid"]));
        }
        let s = Spec { fam, n, probed: r.chance(1, 2), keep, reqs, stack: *r.pick(&[256, 512, 2048]) * 1024, x, seed: r.next() };
        out.intent(&intent, &json!({"fam": s.fam, "n": s.n, "probed": s.probed, "keep": s.keep, "reqs": s.reqs}));
        let e = run_spec(s);
        out.ev(e);
    }
    let _ = std::fs::remove_file(&intent);
}
