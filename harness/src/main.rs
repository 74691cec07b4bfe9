mod d_batch;
mod d_deep;
mod d_dev;
mod d_devices;
mod d_ext;
mod d_faults;
mod d_graph;
mod d_life;
mod d_ops;
mod d_optim;
mod d_pool;
mod d_random;
mod d_shape;
mod d_threads;
mod gen;
#[allow(dead_code)]
mod guard;
mod ops;
mod sched;
mod util;

use std::collections::HashMap;

pub struct Args {
    pub map: HashMap<String, String>,
    pub seed: u64,
    pub out: String,
}
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.map.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map(|s| s.parse().unwrap()).unwrap_or(d)
    }
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}
/// A program that needs more memory than any run here ends instead of troubling the others.
fn limit_memory(bytes: u64) {
    const AS: i32 = 9;
    unsafe {
        setrlimit(AS, &[bytes, bytes]);
    }
}

fn main() {
    let mut it = std::env::args().skip(1);
    let driver = it.next().expect("driver");
    let mut map = HashMap::new();
    for a in it {
        let (k, v) = a.split_once('=').expect("key=value");
        map.insert(k.to_string(), v.to_string());
    }
    let seed = map.get("seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let out = map.get("out").cloned().unwrap_or("/dev/stdout".into());
    let args = Args { map, seed, out };
    limit_memory(args.num("mem", 3000) << 20);
    util::install_quiet_panics();
    let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match driver.as_str() {
        "batch" => d_batch::run(&args),
        "deep" => d_deep::run(&args),
        "dev" => d_dev::run(&args),
        "devices" => d_devices::run(&args),
        "ext" => d_ext::run(&args),
        "faults" => d_faults::run(&args),
        "graph" => d_graph::run(&args),
        "life" => d_life::run(&args),
        "optim" => d_optim::run(&args),
        "ops" => d_ops::run(&args),
        "pool" => d_pool::run(&args),
        "random" => d_random::run(&args),
        "threads" => d_threads::run(&args),
        "shape" => d_shape::run(&args),
        _ => panic!("unknown driver {}", driver),
    }));
    if let Err(e) = done {
        eprintln!("{}", util::LAST.lock().map(|l| l.clone()).unwrap_or_default());
        std::panic::resume_unwind(e);
    }
}
