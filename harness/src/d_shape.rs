//! Histories of shape objects.
use crate::util::*;
use crate::Args;
use prima_undine::Shape;
use serde_json::{json, Value};

fn num(n: u32) -> Value {
    json!([n % 4096, (n / 4096) % 4096, n / 16777216])
}
fn obs(s: &Shape) -> Value {
    let ser = serde_json::to_value(s).unwrap();
    let sd: Vec<Value> = ser["dims"].as_array().unwrap().iter().map(|x| num(x.as_u64().unwrap() as u32)).collect();
    json!({
        "depth": s.depth(), "dims": s.dims().iter().map(|&x| num(x)).collect::<Vec<_>>(), "b": num(s.batch()),
        "vol": num(s.volume()), "size": num(s.size()),
        "ax": (0..10).map(|i| num(s[i])).collect::<Vec<_>>(),
        "lower": (0..11).map(|i| num(s.lower_volume(i))).collect::<Vec<_>>(),
        "hasb": s.has_batch() as u8, "scalar": s.is_scalar() as u8, "col": s.is_column_vector() as u8, "mat": s.is_matrix() as u8,
        "sd": sd, "sb": num(ser["batch"].as_u64().unwrap() as u32),
    })
}
fn pair(s: &Shape, t: &Shape) -> Value {
    json!({"eq": (s == t) as u8, "same": s.has_same_dims(*t) as u8, "compat": s.has_compatible_batch(*t) as u8,
           "loo": (0..10).map(|i| s.has_same_loo_dims(*t, i) as u8).collect::<Vec<_>>()})
}

struct St {
    slots: Vec<Shape>,
    out: Out,
}
impl St {
    fn log(&mut self, mut e: Value, t: usize, ok: bool) {
        let s = self.slots[t];
        e["t"] = json!(t + 1);
        e["ok"] = json!(ok as u8);
        e["o"] = attempt(|| obs(&s)).unwrap_or_else(|m| json!({ "panic": m }));
        e["p"] = attempt(|| Value::Array(self.slots.iter().map(|x| pair(&s, x)).collect())).unwrap_or(json!([0, 0, 0, 0, 0]));
        self.out.ev(e);
    }
    fn new(&mut self, d: &[u32], b: u32, t: usize, serde: bool) {
        let e = json!({"k": "new", "d": d.iter().map(|&x| num(x)).collect::<Vec<_>>(), "b": num(b), "s": t + 1, "serde": serde});
        let r = if serde {
            attempt(|| serde_json::from_value::<Shape>(json!({"dims": d, "batch": b})).unwrap())
        } else {
            attempt(|| Shape::new(d, b))
        };
        if let Ok(x) = &r {
            self.slots[t] = *x;
        }
        self.log(e, t, r.is_ok());
    }
    fn dim(&mut self, s: usize, i: u32, m: u32, t: usize) {
        let e = json!({"k": "dim", "s": s + 1, "i": i, "m": num(m)});
        let ok = if s == t {
            attempt(|| self.slots[t].update_dim(i, m)).is_ok()
        } else {
            match attempt(|| self.slots[s].resize_dim(i, m)) {
                Ok(x) => {
                    self.slots[t] = x;
                    true
                }
                Err(_) => false,
            }
        };
        self.log(e, t, ok);
    }
    fn batch(&mut self, s: usize, m: u32, t: usize) {
        let e = json!({"k": "batch", "s": s + 1, "m": num(m)});
        let ok = if s == t {
            attempt(|| self.slots[t].update_batch(m)).is_ok()
        } else {
            match attempt(|| self.slots[s].resize_batch(m)) {
                Ok(x) => {
                    self.slots[t] = x;
                    true
                }
                Err(_) => false,
            }
        };
        self.log(e, t, ok);
    }
    fn copy(&mut self, s: usize, t: usize) {
        // through its serialised form
        let e = json!({"k": "copy", "s": s + 1});
        let x = self.slots[s];
        let r = attempt(|| serde_json::from_str::<Shape>(&serde_json::to_string(&x).unwrap()).unwrap());
        if let Ok(x) = &r {
            self.slots[t] = *x;
        }
        self.log(e, t, r.is_ok());
    }
}

fn size(r: &mut Rng) -> u32 {
    *r.pick(&[
        0, 1, 1, 1, 1, 2, 2, 3, 3, 4, 5, 7, 16, 255, 256, 257, 65535, 65536, 65537, 46341, 1 << 20, 1 << 30, 1 << 31, u32::MAX, u32::MAX - 1, 641, 6700417,
    ])
}

pub fn run(a: &Args) {
    let mut st = St { slots: vec![Shape::new(&[], 1); 5], out: Out::new(&a.out) };
    let mut r = Rng::new(a.seed);
    if let Some(f) = a.get("in") {
        // behaviours enumerated from the specification
        let (shard, shards) = (a.num("shard", 0), a.num("shards", 1));
        for (i, line) in std::fs::read_to_string(f).unwrap().lines().enumerate() {
            if i as u64 % shards != shard {
                continue;
            }
            let h: Vec<Value> = serde_json::from_str(line).unwrap();
            let u = |v: &Value| v.as_u64().unwrap() as u32;
            st.new(&[], 1, 0, false);
            for op in &h {
                match op["a"].as_str().unwrap() {
                    "new" => st.new(&op["d"].as_array().unwrap().iter().map(u).collect::<Vec<_>>(), u(&op["b"]), 0, i % 5 == 4),
                    "dim" => st.dim(0, u(&op["i"]), u(&op["m"]), 0),
                    _ => st.batch(0, u(&op["m"]), 0),
                }
            }
            // the same shape built directly
            let s = st.slots[0];
            let d: Vec<u32> = s.dims().to_vec();
            st.new(&d, s.batch(), 1 + (i / 8) % 4, false);
        }
        return;
    }
    for _ in 0..a.num("n", 1000) {
        let (s, mut t) = (r.below(5) as usize, r.below(5) as usize);
        if r.chance(1, 2) {
            t = s;
        }
        match r.below(10) {
            0 | 1 => {
                let n = *r.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 8, 9]);
                let big = r.chance(1, 3);
                let d: Vec<u32> = (0..n).map(|_| if big { size(&mut r) } else { r.u(1, 4) }).collect();
                let b = if r.chance(1, 3) { size(&mut r) } else { r.u(1, 3) };
                let serde = r.chance(1, 4);
                st.new(&d, b, t, serde);
            }
            2..=5 => {
                let (i, m) = (r.u(0, 9), if r.chance(1, 3) { size(&mut r) } else { r.u(1, 4) });
                st.dim(s, i.min(if r.chance(1, 2) { 3 } else { 9 }), m, t);
            }
            6 => {
                // back to one: the shape loses its last axis
                let d = st.slots[s].depth();
                st.dim(s, if d > 0 { d - 1 } else { r.u(0, 7) }, 1, t);
            }
            7 | 8 => {
                let m = if r.chance(1, 3) { size(&mut r) } else { r.u(1, 4) };
                st.batch(s, m, t);
            }
            _ => st.copy(s, t),
        }
    }
}
