//! Threads that share one device: each runs its own operations (eager, as nodes, backwards),
//! some on operands shared by all, freely or under a random schedule of the pool's locks.
use crate::d_ops::{list, weights};
use crate::gen::*;
use crate::guard::Guard;
use crate::ops::*;
use crate::sched;
use crate::util::*;
use crate::Args;
use prima_undine::functions::BasicFunctions;
use prima_undine::{Device, Node, Tensor};
use serde_json::{json, Value};
use std::sync::Barrier;

/// The case on operands that already exist (and stay).
fn run_shared(c: &Case, xs: &[Tensor<'static>], node: bool) -> Value {
    let mut o = c.head("op", if node { "n" } else { "t" });
    o.insert("form".into(), json!(99));
    let mut okc = 0;
    let mut cs = vec![];
    let r = attempt(|| {
        if node {
            let ns: Vec<Node> = xs.iter().map(Node::from).collect();
            let refs: Vec<&Node> = if c.alias { vec![&ns[0], &ns[0]] } else { ns.iter().collect() };
            let ys = apply_ref_n(&c.op, &c.u, c.k(), c.c, &refs);
            okc = 1;
            for y in &ys {
                cs.push(shape_json(&y.shape()));
            }
            ys.iter().map(|y| out_json(c, y.shape(), &y.to_vec())).collect::<Vec<_>>()
        } else {
            let refs: Vec<&Tensor> = if c.alias { vec![&xs[0], &xs[0]] } else { xs.iter().collect() };
            let ys = apply_ref_t(&c.op, &c.u, c.k(), c.c, &refs);
            ys.iter().map(|y| out_json(c, y.shape(), &y.to_vec())).collect::<Vec<_>>()
        }
    });
    o.insert("okc".into(), json!(okc));
    o.insert("cs".into(), json!(cs));
    match r {
        Ok(ys) => {
            o.insert("ok".into(), json!(1));
            o.insert("ys".into(), json!(ys));
        }
        Err(e) => {
            o.insert("ok".into(), json!(0));
            o.insert("ys".into(), json!([]));
            o.insert("err".into(), json!(e.chars().take(120).collect::<String>()));
        }
    }
    Value::Object(o)
}

struct Step {
    c: Case,
    mode: char,
    form: u32,
    shared: Option<usize>,
    seed: u64,
    gx0: Vec<T>,
}
fn step(s: &Step, dev: Dev, shared: &[(Case, Vec<Tensor<'static>>)]) -> Value {
    let mut r = Rng::new(s.seed);
    let most = if s.c.at.is_some() {
        400
    } else if s.c.xs.iter().any(|x| x.size() > 60) {
        30
    } else {
        usize::MAX
    };
    match (s.shared, s.mode) {
        (Some(i), m) => run_shared(&shared[i].0, &shared[i].1, m == 'n'),
        (_, 't') => run_t(&s.c, dev, s.form),
        (_, 'n') => run_n(&s.c, dev, s.form),
        (_, 'b') => {
            let e = run_b(&s.c, dev, &s.gx0, &mut weights(&mut r, most, 3, false));
            match e {
                Some(v) => v,
                None => run_g(&s.c, dev, s.form, &mut weights(&mut Rng::new(s.seed), most, 3, false)),
            }
        }
        _ => run_g(&s.c, dev, s.form, &mut weights(&mut r, most, 3, false)),
    }
}
/// Runs the step over and over for a while, next to the other threads doing the same.
/// The outcome is the first one that is not like the others.
fn hot(s: &Step, dev: Dev, budget: std::time::Duration) -> Value {
    let start = std::time::Instant::now();
    let first = step(s, dev, &[]);
    if first["ok"] != json!(1) || random(&s.c.op) {
        return first;
    }
    let c = &s.c;
    if s.mode == 't' && !c.op.ends_with("assign") && !c.op.starts_with("arg") {
        let xs: Vec<Tensor<'static>> = c.xs.iter().map(|x| x.tensor(dev, c.sx)).collect();
        let refs: Vec<&Tensor> = if c.alias { vec![&xs[0], &xs[0]] } else { xs.iter().collect() };
        let eval = || -> Vec<Vec<u32>> {
            apply_ref_t(&c.op, &c.u, c.k(), c.c, &refs).iter().map(|y| y.to_vec().iter().map(|v| v.to_bits()).collect()).collect()
        };
        let want = attempt(eval);
        while start.elapsed() < budget {
            for _ in 0..10 {
                if attempt(eval) != want {
                    let mut e = first;
                    e["unstable"] = json!(1);
                    return e;
                }
            }
        }
        return first;
    }
    while start.elapsed() < budget {
        let e = step(s, dev, &[]);
        if e != first {
            return e;
        }
    }
    first
}
fn random(op: &str) -> bool {
    op.starts_with("dropout")
}
fn make_step(r: &mut Rng, op: &str, size: Size, grads: bool, noise: u64) -> Step {
    let grad = grads && r.chance(1, 2) && list("grad").contains(&op);
    let alias = matches!(op, "add" | "sub" | "mul" | "div" | "pow" | "concat" | "batch_concat") && r.chance(1, 6);
    let c = case(r, op, Opts { size, grad, noise: if grad { 0 } else { noise }, alias });
    let big = c.at.is_some();
    let gx0 = c
        .xs
        .iter()
        .map(|x| if big { T { d: x.d.clone(), b: x.b, v: Data::F(1, 0, 7, 3) } } else { any_tensor(r, x.d.clone(), x.b, -5, 5) })
        .collect();
    let mode = if grad {
        *r.pick(&['g', 'b'])
    } else if op.ends_with("assign") || op.starts_with("arg") {
        't'
    } else {
        *r.pick(&['t', 't', 'n'])
    };
    Step { c, mode, form: r.u(0, 15), shared: None, seed: r.next(), gx0 }
}

/// The same call with the elements in another order.
fn other_data(r: &mut Rng, s: &Step) -> Step {
    let mut c = s.c.clone();
    if !matches!(c.op.as_str(), "sce" | "batch_norm" | "layer_norm") {
        for x in c.xs.iter_mut() {
            match &mut x.v {
                Data::V(v) => r.shuffle(v),
                Data::F(_, b, m, _) => *b = r.below(*m as u64) as i64,
            }
        }
    }
    Step { c, mode: s.mode, form: s.form, shared: None, seed: s.seed, gx0: s.gx0.clone() }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let mut r = Rng::new(a.seed);
    let rounds = a.num("n", 10);
    let len = a.num("len", 40);
    let scheduled = a.num("sched", 0) == 1;
    let storm = a.num("storm", 0) == 1;
    let large = a.num("large", 0);
    let heat = std::time::Duration::from_millis(a.num("heat", 0));
    let names = list(a.get("list").unwrap_or("all"));
    let mut turn = r.below(1000);
    for round in 0..rounds {
        let guard = Guard::new();
        let raw = Box::into_raw(Box::new(guard.device()));
        let dev: Dev = unsafe { &*(raw as *const Device<'static>) };
        let th = r.u(2, if scheduled || !heat.is_zero() { 4 } else { 8 }) as usize;
        let wide = a.num("wide", 0);
        let size = |r: &mut Rng| if r.chance(large, 100) { Size::Large } else if r.chance(wide, 100) { Size::Wide } else { Size::Small };
        // operands every thread reads
        let mut shared: Vec<(Case, Vec<Tensor<'static>>)> = vec![];
        while shared.len() < 5 {
            turn += 1;
            let op = names[(turn % names.len() as u64) as usize];
            if op.ends_with("assign") || op.starts_with("arg") || random(op) {
                continue;
            }
            let size = size(&mut r);
            let c = case(&mut r, op, Opts { size, grad: false, noise: 0, alias: false });
            let xs = c.xs.iter().map(|x| x.tensor(dev, c.sx)).collect();
            shared.push((c, xs));
        }
        let mut progs: Vec<Vec<Step>> = (0..th).map(|_| vec![]).collect();
        for _ in 0..len {
            turn += 1;
            let op = names[(turn % names.len() as u64) as usize];
            let sz = size(&mut r);
            let mut first: Option<Step> = None;
            for (t, p) in progs.iter_mut().enumerate() {
                let op = if storm { op } else { names[((turn + 7 * t as u64) % names.len() as u64) as usize] };
                let mut s = match &first {
                    Some(s) if !heat.is_zero() => other_data(&mut r, s),
                    _ => make_step(&mut r, op, sz, true, 8),
                };
                if first.is_none() {
                    first = Some(other_data(&mut r, &s));
                }
                if heat.is_zero() && r.chance(1, 4) {
                    let i = r.below(shared.len() as u64) as usize;
                    s.shared = Some(i);
                    s.c = shared[i].0.clone();
                    s.mode = *r.pick(&['t', 'n']);
                }
                p.push(s);
            }
        }
        out.intent(&intent, &json!({"round": round, "threads": th, "ops": progs.iter().map(|p| p.iter().map(|s| s.c.op.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()}));
        let mut sch = vec![];
        if scheduled {
            let burst = r.u(1, 12);
            while sch.len() < th * len as usize * 30 {
                let t = r.below(th as u64) as usize;
                for _ in 0..r.u(1, burst) {
                    sch.push(t);
                }
            }
            sched::prepare(th, sch);
        }
        let gate = Barrier::new(th);
        let got: Vec<Result<Vec<Value>, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = progs
                .iter()
                .enumerate()
                .map(|(t, p)| {
                    let (shared, gate) = (&shared, &gate);
                    sc.spawn(move || {
                        if scheduled {
                            sched::enter(t);
                        } else {
                            gate.wait();
                        }
                        let mut ev = vec![];
                        for s in p {
                            if storm && !scheduled {
                                gate.wait();
                            }
                            ev.push(if heat.is_zero() || s.shared.is_some() { step(s, dev, shared) } else { hot(s, dev, heat) });
                            if scheduled && sched::deadlocked() {
                                panic!("deadlock");
                            }
                        }
                        if scheduled {
                            sched::leave(t);
                        }
                        ev
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map_err(panic_text)).collect()
        });
        sched::finish();
        let mut hung = 0;
        for (p, g) in progs.iter().zip(got) {
            match g {
                Err(_) => hung += 1,
                Ok(evs) => {
                    for (s, mut e) in p.iter().zip(evs) {
                        // the same step alone
                        let same = random(&s.c.op) || step(s, dev, &shared) == e;
                        e["same"] = json!(same as u8);
                        out.ev(e);
                    }
                }
            }
        }
        // shared operands were only read
        let kept = shared.iter().all(|(c, xs)| c.xs.iter().zip(xs).all(|(x, t)| t.to_vec() == x.vals(c.sx)));
        drop(shared);
        if hung == 0 {
            drop(unsafe { Box::from_raw(raw) });
        }
        let (made, back, bad) = guard.counts();
        out.ev(json!({"k": "acct", "m": "", "op": "", "hung": hung, "made": made, "back": back, "bad": bad, "kept": kept as u8, "zones": guard.zones_intact() as u8}));
    }
    let _ = std::fs::remove_file(&intent);
}
