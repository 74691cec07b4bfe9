//! Drivers for models: a program of its own, because it uses the derive macro.
mod d_model;
mod d_resume;
#[allow(dead_code)]
mod util;
mod zoo;

use std::collections::HashMap;

pub struct Args {
    pub map: HashMap<String, String>,
    pub seed: u64,
    pub out: String,
}
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.map.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let driver = it.next().expect("driver");
    let mut map = HashMap::new();
    for a in it {
        let (k, v) = a.split_once('=').expect("key=value");
        map.insert(k.to_string(), v.to_string());
    }
    let seed = map.get("seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let out = map.get("out").cloned().unwrap_or("/dev/stdout".into());
    let args = Args { map, seed, out };
    util::install_quiet_panics();
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match driver.as_str() {
        "model" => d_model::run(&args),
        "resume" => d_resume::run(&args),
        _ => panic!("unknown driver {}", driver),
    }));
    if let Err(e) = done {
        eprintln!("{}", util::LAST.lock().map(|l| l.clone()).unwrap_or_default());
        std::panic::resume_unwind(e);
    }
}
