//! The memory pool alone: requests and releases by one or several threads, with a backend
//! that hands out addresses (never memory), under a given schedule or freely.
use crate::sched;
use crate::util::*;
use crate::Args;
use prima_undine::{Device, DeviceImpl};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::HashMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Default)]
struct Log {
    ev: Vec<Value>,
    ids: HashMap<usize, usize>, // address -> block number
    next: usize,
    fail: u32, // chance in 1000 that the backend refuses
    rng: u64,
}
#[derive(Clone)]
struct Fake(Arc<Mutex<Log>>, Arc<AtomicBool>);
thread_local! {
    static T: Cell<usize> = Cell::new(0);
}
fn me() -> usize {
    T.with(|t| t.get())
}
fn sz(x: u32) -> Value {
    json!([x >> 16, x & 0xffff])
}
impl Fake {
    fn log(&self, v: Value) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).ev.push(v);
    }
    fn id(&self, p: usize) -> i64 {
        *self.0.lock().unwrap_or_else(|e| e.into_inner()).ids.get(&p).unwrap_or(&0) as i64
    }
}
impl DeviceImpl for Fake {
    fn identifier(&self) -> String {
        "Fake".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        if self.1.load(Ordering::Relaxed) {
            sched::pause();
        }
        let mut g = self.0.lock().unwrap_or_else(|e| e.into_inner());
        g.rng = g.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        if g.fail > 0 && ((g.rng >> 33) % 1000) < g.fail as u64 {
            g.ev.push(json!({"k": "bf", "t": me()}));
            drop(g);
            panic!("out of device memory");
        }
        g.next += 1;
        let id = g.next;
        // addresses are never reused, and their order is not the order of creation
        let addr = ((id as u64).wrapping_mul(0x9E3779B97F4A7C15) as usize & 0x7fff_ffff_ff00) | 0x10;
        g.ids.insert(addr, id);
        g.ev.push(json!({"k": "bn", "t": me(), "b": id, "cap": sz(size)}));
        AtomicPtr::new(addr as *mut c_void)
    }
    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        if self.1.load(Ordering::Relaxed) {
            sched::pause();
        }
        let id = self.id(handle.load(Ordering::Acquire) as usize);
        self.log(json!({"k": "bd", "t": me(), "b": id}));
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    A(u32),
    F(usize), // which of the held blocks (modulo)
}

struct Hands {
    blocks: Vec<AtomicPtr<c_void>>,
}
fn alloc(dev: &Device, f: &Fake, h: &mut Hands, size: u32) {
    let t = me();
    f.log(json!({"k": "ab", "t": t, "size": sz(size)}));
    match attempt(|| dev.new_handle(size)) {
        Ok(p) => {
            let id = f.id(p.load(Ordering::Acquire) as usize);
            f.log(json!({"k": "ae", "t": t, "b": id}));
            h.blocks.push(p);
        }
        Err(e) => f.log(json!({"k": "ax", "t": t, "err": e})),
    }
}
fn release(dev: &Device, f: &Fake, h: &mut Hands, which: usize) {
    if h.blocks.is_empty() {
        return;
    }
    let t = me();
    let i = which % h.blocks.len();
    let p = h.blocks.remove(i);
    let id = f.id(p.load(Ordering::Acquire) as usize);
    f.log(json!({"k": "fb", "t": t, "b": id}));
    match attempt(|| dev.drop_handle(&p)) {
        Ok(_) => f.log(json!({"k": "fe", "t": t, "b": id})),
        Err(e) => f.log(json!({"k": "fx", "t": t, "b": id, "err": e})),
    }
}
fn exec(dev: &Device, f: &Fake, h: &mut Hands, op: Op) {
    match op {
        Op::A(s) => alloc(dev, f, h, s),
        Op::F(w) => release(dev, f, h, w),
    }
}

/// One device: `init` runs alone first, then every thread its program, then everything is
/// released except `keep` blocks, and the device goes away.
struct Job {
    init: Vec<Vec<Op>>,
    progs: Vec<Vec<Op>>,
    sched: Option<Vec<usize>>,
    pauses: bool,
    fail: u32,
    keep: usize,
}
static SERIAL: AtomicU64 = AtomicU64::new(1);

fn run_job(job: &Job) -> Vec<Value> {
    let n = job.progs.len();
    let fake = Fake(Arc::new(Mutex::new(Log::default())), Arc::new(AtomicBool::new(false)));
    fake.0.lock().unwrap().rng = SERIAL.fetch_add(1, Ordering::Relaxed);
    fake.log(json!({"k": "dev", "t": 0, "n": n}));
    let dev = Device::new(fake.clone());
    let mut hands: Vec<Hands> = (0..n).map(|_| Hands { blocks: vec![] }).collect();
    for (t, ops) in job.init.iter().enumerate() {
        T.with(|x| x.set(t + 1));
        for &o in ops {
            exec(&dev, &fake, &mut hands[t], o);
        }
    }
    T.with(|x| x.set(0));
    fake.0.lock().unwrap().fail = job.fail;
    let mut hung = false;
    if n == 1 && job.sched.is_none() {
        T.with(|x| x.set(1));
        for &o in &job.progs[0] {
            exec(&dev, &fake, &mut hands[0], o);
        }
    } else {
        let scheduled = job.sched.is_some();
        if let Some(s) = &job.sched {
            sched::prepare(n, s.clone());
            fake.1.store(job.pauses, Ordering::Relaxed);
        }
        let gate = std::sync::Barrier::new(n);
        let done: Vec<Result<(), String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = hands
                .iter_mut()
                .enumerate()
                .map(|(t, h)| {
                    let (dev, fake, prog, gate) = (&dev, &fake, &job.progs[t], &gate);
                    sc.spawn(move || {
                        T.with(|x| x.set(t + 1));
                        if scheduled {
                            sched::enter(t);
                        } else {
                            gate.wait();
                        }
                        for &o in prog {
                            exec(dev, fake, h, o);
                            if scheduled && sched::deadlocked() {
                                panic!("deadlock");
                            }
                        }
                        if scheduled {
                            sched::leave(t);
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map_err(panic_text)).collect()
        });
        sched::finish();
        fake.1.store(false, Ordering::Relaxed);
        if done.iter().any(|d| d.is_err()) {
            hung = true;
            fake.log(json!({"k": "hang", "t": 0}));
        }
    }
    fake.0.lock().unwrap().fail = 0;
    if hung {
        std::mem::forget(dev);
    } else {
        let mut keep = job.keep;
        for t in 0..n {
            T.with(|x| x.set(t + 1));
            while !hands[t].blocks.is_empty() {
                if keep > 0 && t == 0 {
                    keep -= 1;
                    hands[t].blocks.pop();
                    continue;
                }
                release(&dev, &fake, &mut hands[t], t);
            }
        }
        T.with(|x| x.set(0));
        fake.log(json!({"k": "db", "t": 0}));
        let r = attempt(move || drop(dev));
        fake.log(json!({"k": "de", "t": 0, "ok": r.is_ok() as u8}));
    }
    let mut g = fake.0.lock().unwrap_or_else(|e| e.into_inner());
    std::mem::take(&mut g.ev)
}

fn a_size(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[1, 63, 64, 65]),
        1 | 2 => r.u(1, 130),
        3 => r.u(60, 300),
        4 => {
            let k = r.u(6, 30);
            (1u32 << k) + r.u(0, 2) - 1
        }
        5 => 1u32 << r.u(0, 31),
        6 => r.u(1, 100000),
        _ => 100,
    }
}
fn program(r: &mut Rng, len: usize, held: usize, sizes: &[u32]) -> Vec<Op> {
    let mut h = held;
    (0..len)
        .map(|_| {
            if h > 0 && r.chance(1 + h.min(3) as u64, 5) {
                h -= 1;
                Op::F(r.below(8) as usize)
            } else {
                h += 1;
                Op::A(*r.pick(sizes))
            }
        })
        .collect()
}

/// Rises and falls of the number of blocks held, many of one size at a time.
fn waves(r: &mut Rng, sizes: &[u32], top: u32) -> Vec<Op> {
    let mut ops = vec![];
    let mut held = 0u32;
    for _ in 0..r.u(1, 4) {
        let high = r.u(4, top);
        let size = *r.pick(sizes);
        while held < high {
            ops.push(Op::A(if r.chance(1, 8) { *r.pick(sizes) } else { size }));
            held += 1;
        }
        // oldest first, newest first, or anyhow
        let order = r.below(3);
        let low = if r.chance(1, 2) { 0 } else { r.u(0, high) };
        while held > low {
            let w = match order {
                0 => 0,
                1 => held as usize - 1,
                _ => r.below(held as u64) as usize,
            };
            ops.push(Op::F(w));
            held -= 1;
        }
    }
    ops
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out);
    let intent = format!("{}.intent", a.out);
    let mut r = Rng::new(a.seed);
    let fail = a.num("fail", 0) as u32;
    let n = a.num("n", 100);
    let put = |out: &mut Out, ev: Vec<Value>| {
        let hung = ev.iter().any(|e| e["k"] == "hang");
        for e in ev {
            out.ev(e);
        }
        hung
    };
    match a.get("mode").unwrap() {
        // programs and schedules found by TLC
        "replay" => {
            let text = std::fs::read_to_string(a.get("in").unwrap()).unwrap();
            let shards = a.num("shards", 1) as usize;
            for (i, line) in text.lines().enumerate() {
                if i % shards != a.num("shard", 0) as usize {
                    continue;
                }
                out.intent(&intent, &json!(line));
                let b: Value = serde_json::from_str(line).unwrap();
                let progs: Vec<Vec<Op>> = b["progs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|p| {
                        p.as_array()
                            .unwrap()
                            .iter()
                            .map(|o| match o.as_str().unwrap() {
                                "a6" => Op::A(40),
                                "a7" => Op::A(100),
                                _ => Op::F(0),
                            })
                            .collect()
                    })
                    .collect();
                let stock = b["stock"].as_u64().unwrap() as usize;
                let mut init: Vec<Vec<Op>> = progs.iter().map(|_| vec![Op::A(60)]).collect();
                for _ in 0..stock {
                    init[0].push(Op::A(50));
                }
                for _ in 0..stock {
                    init[0].push(Op::F(1));
                }
                let sched: Vec<usize> = b["sched"].as_array().unwrap().iter().map(|t| t.as_u64().unwrap() as usize - 1).collect();
                let ev = run_job(&Job { init, progs, sched: Some(sched), pauses: false, fail: 0, keep: 0 });
                if put(&mut out, ev) {
                    break;
                }
            }
        }
        // random programs under random schedules
        "random" => {
            for _ in 0..n {
                let th = r.u(2, 5) as usize;
                let len = r.u(2, 14) as usize;
                let sizes: Vec<u32> = (0..r.u(1, 3)).map(|_| a_size(&mut r)).collect();
                let progs: Vec<Vec<Op>> = (0..th).map(|_| program(&mut r, len, 1, &sizes)).collect();
                let mut init: Vec<Vec<Op>> = (0..th).map(|_| vec![Op::A(*r.pick(&sizes))]).collect();
                for _ in 0..r.u(0, 3) {
                    init[0].push(Op::A(*r.pick(&sizes)));
                    if r.chance(2, 3) {
                        init[0].push(Op::F(r.below(4) as usize));
                    }
                }
                // either evenly mixed, or with long runs of one thread
                let burst = r.u(1, 6);
                let mut sched = vec![];
                while sched.len() < th * len * 3 {
                    let t = r.below(th as u64) as usize;
                    for _ in 0..r.u(1, burst) {
                        sched.push(t);
                    }
                }
                let keep = if r.chance(1, 6) { 1 } else { 0 };
                let fail = if r.chance(1, 2) { fail } else { 0 };
                let pauses = r.chance(2, 3);
                out.intent(&intent, &json!(format!("{:?} {:?} {:?}", init, progs, sched)));
                let ev = run_job(&Job { init, progs, sched: Some(sched), pauses, fail, keep });
                if put(&mut out, ev) {
                    break;
                }
            }
        }
        // free-running threads
        "threads" => {
            for _ in 0..n {
                let th = r.u(2, 8) as usize;
                let len = r.u(50, 300) as usize;
                let sizes: Vec<u32> = (0..r.u(1, 4)).map(|_| a_size(&mut r)).collect();
                let wavy = r.chance(1, 3);
                let progs: Vec<Vec<Op>> = (0..th)
                    .map(|_| if wavy { waves(&mut r, &sizes, 60) } else { program(&mut r, len, 0, &sizes) })
                    .collect();
                let init = vec![program(&mut r, 12, 0, &sizes)];
                out.intent(&intent, &json!("free-running threads"));
                let ev = run_job(&Job { init, progs, sched: None, pauses: false, fail, keep: 0 });
                if put(&mut out, ev) {
                    break;
                }
            }
        }
        // one thread: every size class, long histories
        _ => {
            for i in 0..n {
                let mut prog = vec![];
                if i % 8 == 0 {
                    // each boundary of each class, released and requested again
                    let mut ks: Vec<u32> = (0..32).collect();
                    r.shuffle(&mut ks);
                    for k in ks {
                        let p = 1u64 << k;
                        for s in [p - 1, p, p + 1, p + p / 2] {
                            prog.push(Op::A(s.min(u32::MAX as u64) as u32));
                            if r.chance(1, 2) {
                                prog.push(Op::F(r.below(50) as usize));
                            }
                        }
                    }
                    prog.push(Op::A(u32::MAX));
                } else if i % 8 < 3 {
                    let sizes: Vec<u32> = (0..r.u(1, 4)).map(|_| a_size(&mut r)).collect();
                    prog = waves(&mut r, &sizes, 150);
                } else {
                    let sizes: Vec<u32> = (0..r.u(1, 6)).map(|_| a_size(&mut r)).collect();
                    let len = r.u(20, 300) as usize;
                    prog = program(&mut r, len, 0, &sizes);
                    if r.chance(1, 6) {
                        prog.push(Op::A(0));
                    }
                }
                let keep = if r.chance(1, 4) { r.below(4) as usize } else { 0 };
                let fail = if r.chance(1, 2) { fail } else { 0 };
                out.intent(&intent, &json!(format!("{:?}", prog)));
                let ev = run_job(&Job { init: vec![], progs: vec![prog], sched: None, pauses: false, fail, keep });
                put(&mut out, ev);
            }
        }
    }
    let _ = std::fs::remove_file(&intent);
}
