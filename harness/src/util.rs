//! Random numbers, value encoding, panic capture, event output.
use serde_json::{json, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.next() % n
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn u(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as i64, hi as i64) as u32
    }
    /// a count around the sizes at which things are usually blocked
    pub fn many(&mut self) -> u32 {
        *self.pick(&[8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257])
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

/// As a scale: an integer stands for the magnitude of that rank (for operations that only move,
/// compare and negate elements, every monotone odd map of the integers does).
pub const RANKS: f64 = -1.;
pub const MAGNITUDES: [f32; 13] =
    [0., 1e-45, 1e-39, f32::MIN_POSITIVE, 1e-20, 0.3333333, 1., 3.141592, 16777216., 1e20, 3e38, f32::MAX, f32::INFINITY];
pub fn dec(k: i64, scale: f64) -> f32 {
    if scale == RANKS {
        let m = *MAGNITUDES.get(k.unsigned_abs() as usize).unwrap_or(&f32::NAN);
        return if k < 0 { -m } else { m };
    }
    (k as f64 / scale) as f32
}

pub const S_NAN: i64 = 2_000_000_001;
pub const S_PINF: i64 = 2_000_000_002;
pub const S_NINF: i64 = 2_000_000_003;
pub const S_BIG: i64 = 2_000_000_004;
pub const S_NONINT: i64 = 2_000_000_007;

/// Encodes a float as an integer at the given scale.  `exact`: not representable -> sentinel.
pub fn enc(v: f32, scale: f64, exact: bool) -> i64 {
    if v.is_nan() {
        return if scale == RANKS { MAGNITUDES.len() as i64 } else { S_NAN };
    }
    if scale == RANKS {
        let k = MAGNITUDES.iter().position(|&m| m == v.abs()).map(|k| k as i64).unwrap_or(S_NONINT);
        return if v < 0. && k != S_NONINT { -k } else { k };
    }
    if v == f32::INFINITY {
        return S_PINF;
    }
    if v == f32::NEG_INFINITY {
        return S_NINF;
    }
    let r = v as f64 * scale;
    if r.abs() > 1.9e9 {
        return S_BIG;
    }
    let q = r.round();
    if exact && q != r {
        return S_NONINT;
    }
    q as i64
}
pub fn encs(v: &[f32], scale: f64, exact: bool) -> Vec<i64> {
    v.iter().map(|&x| enc(x, scale, exact)).collect()
}
/// The bit pattern of a float as two 16-bit halves (for bit-exact comparison in 32-bit arithmetic).
pub fn bits(v: f32) -> i64 {
    // TLC integers are signed 32 bit
    v.to_bits() as i32 as i64
}

pub static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
pub fn install_quiet_panics() {
    if std::env::var("VERIF_PANICS").is_ok() {
        return;
    }
    // the last panic is told when nobody caught it
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut l) = LAST.lock() {
            *l = info.to_string();
        }
    }));
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

pub fn attempt<R, F: FnOnce() -> R>(f: F) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_text)
}

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
    flush: bool,
}
impl Out {
    pub fn new(path: &str) -> Out {
        Out {
            w: std::io::BufWriter::new(std::fs::File::create(path).unwrap()),
            n: 0,
            flush: true,
        }
    }
    pub fn ev(&mut self, v: Value) {
        serde_json::to_writer(&mut self.w, &v).unwrap();
        self.w.write_all(b"\n").unwrap();
        // every event reaches the file even if the next call crashes the process
        if self.flush {
            self.w.flush().unwrap();
        }
        self.n += 1;
    }
    /// Announces what is about to be executed; the runner reports it when the process dies.
    pub fn intent(&mut self, path: &str, v: &Value) {
        let _ = std::fs::write(path, serde_json::to_vec(v).unwrap());
    }
}

pub fn shape_json(s: &prima_undine::Shape) -> Value {
    json!({"d": s.dims(), "b": s.batch()})
}
