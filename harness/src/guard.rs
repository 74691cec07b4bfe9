//! Instrumented backend: every block sits between guard zones, is filled with a poison
//! pattern when obtained, and is kept (poisoned) after it was returned.
use prima_undine::{Device, DeviceImpl, Tensor};
use std::collections::HashSet;
use std::ffi::c_void;
use std::sync::atomic::{AtomicPtr, Ordering};
use std::sync::{Arc, Mutex};

pub const ZONE: usize = 2048;
const PAGE: usize = 4096;

/// Whole pages of its own, so that they can be write-protected.
pub struct Store {
    p: *mut f32,
    n: usize,
}
unsafe impl Send for Store {}
impl Store {
    fn layout(n: usize) -> std::alloc::Layout {
        std::alloc::Layout::from_size_align((n * 4).div_ceil(PAGE) * PAGE, PAGE).unwrap()
    }
    fn new(n: usize) -> Store {
        let p = unsafe { std::alloc::alloc_zeroed(Store::layout(n)) } as *mut f32;
        if p.is_null() {
            panic!("HARNESS-ERROR: no memory for a block");
        }
        Store { p, n }
    }
}
impl Drop for Store {
    fn drop(&mut self) {
        watch::release(self);
        unsafe { std::alloc::dealloc(self.p as *mut u8, Store::layout(self.n)) }
    }
}
impl std::ops::Deref for Store {
    type Target = [f32];
    fn deref(&self) -> &[f32] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
}
impl std::ops::DerefMut for Store {
    fn deref_mut(&mut self) -> &mut [f32] {
        unsafe { std::slice::from_raw_parts_mut(self.p, self.n) }
    }
}

/// Write protection of blocks for the time of a call: a write into one of them is noted
/// (even when the old contents are back at the end) and then let through.
pub mod watch {
    use super::{Store, PAGE};
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::sync::Once;

    const MOST: usize = 1024;
    // block number, first address, length in bytes; a length of zero is a free place
    static FROM: [AtomicUsize; MOST] = [const { AtomicUsize::new(0) }; MOST];
    static LEN: [AtomicUsize; MOST] = [const { AtomicUsize::new(0) }; MOST];
    static BLOCK: [AtomicUsize; MOST] = [const { AtomicUsize::new(0) }; MOST];
    static USED: AtomicUsize = AtomicUsize::new(0);
    static HITS: AtomicUsize = AtomicUsize::new(0);
    static HIT: [AtomicUsize; 16] = [const { AtomicUsize::new(0) }; 16];

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    }
    static mut OLD: SigAction = SigAction { handler: 0, mask: [0; 16], flags: 0, restorer: 0 };

    extern "C" fn on_fault(_sig: i32, info: *const u8, _ctx: *const u8) {
        let addr = unsafe { *(info.add(16) as *const usize) };
        for i in 0..USED.load(SeqCst) {
            let (f, n) = (FROM[i].load(SeqCst), LEN[i].load(SeqCst));
            if addr >= f && addr < f + n {
                let h = HITS.fetch_add(1, SeqCst);
                if h < HIT.len() {
                    HIT[h].store(BLOCK[i].load(SeqCst), SeqCst);
                }
                LEN[i].store(0, SeqCst);
                unsafe {
                    mprotect(f as *mut u8, n, 3);
                }
                return;
            }
        }
        // not ours: as before
        unsafe {
            sigaction(11, &raw const OLD, std::ptr::null_mut());
        }
    }
    fn install() {
        static ONCE: Once = Once::new();
        ONCE.call_once(|| unsafe {
            const INFO: i32 = 4;
            const ON_STACK: i32 = 0x0800_0000;
            let new = SigAction { handler: on_fault as *const () as usize, mask: [0; 16], flags: INFO | ON_STACK, restorer: 0 };
            if sigaction(11, &new, &raw mut OLD) != 0 {
                panic!("HARNESS-ERROR: no handler for writes into protected blocks");
            }
        });
    }
    /// Protects the blocks (number, storage) until `end` or until they are released.
    pub fn begin(blocks: &[(usize, &Store)]) {
        install();
        USED.store(0, SeqCst);
        HITS.store(0, SeqCst);
        for (i, (b, s)) in blocks.iter().take(MOST).enumerate() {
            let n = (s.n * 4).div_ceil(PAGE) * PAGE;
            BLOCK[i].store(*b, SeqCst);
            FROM[i].store(s.p as usize, SeqCst);
            LEN[i].store(n, SeqCst);
            USED.store(i + 1, SeqCst);
            if unsafe { mprotect(s.p as *mut u8, n, 1) } != 0 {
                panic!("HARNESS-ERROR: a block cannot be protected");
            }
        }
    }
    pub fn release(s: &Store) {
        for i in 0..USED.load(SeqCst) {
            let n = LEN[i].load(SeqCst);
            if n > 0 && FROM[i].load(SeqCst) == s.p as usize {
                LEN[i].store(0, SeqCst);
                unsafe {
                    mprotect(s.p as *mut u8, n, 3);
                }
            }
        }
    }
    /// Ends the protection; the blocks that were written to meanwhile.
    pub fn end() -> Vec<usize> {
        for i in 0..USED.load(SeqCst) {
            let n = LEN[i].swap(0, SeqCst);
            if n > 0 {
                unsafe {
                    mprotect(FROM[i].load(SeqCst) as *mut u8, n, 3);
                }
            }
        }
        USED.store(0, SeqCst);
        let h = HITS.swap(0, SeqCst).min(HIT.len());
        (0..h).map(|k| HIT[k].load(SeqCst)).collect()
    }
}

pub struct Block {
    pub vecp: usize,      // *mut Vec<f32>, the handle
    pub store: Store,     // ZONE + cap + ZONE, never reallocated
    pub cap: usize,
    pub returned: u32,    // how often it was given back
}

#[derive(Default)]
pub struct State {
    pub blocks: Vec<Block>,
    pub poison: f32,
    pub fail_in: Option<u32>, // fail the n-th next allocation request
    pub requests: u64,
    pub failures: u64,
    pub bad_returns: u64, // unknown handle or returned twice
    pub log: Vec<(u8, usize, usize)>, // (b'N'|b'F', block, size)
}

#[derive(Clone)]
pub struct Guard(pub Arc<Mutex<State>>);

fn canary(i: usize, poison: f32) -> f32 {
    // distinguishable pattern that stays a poison value
    if poison.is_nan() {
        f32::from_bits(0x7fc0_0000 | (i as u32 & 0xffff))
    } else {
        poison
    }
}

impl Guard {
    pub fn new() -> Guard {
        let mut st = State::default();
        st.poison = f32::NAN;
        Guard(Arc::new(Mutex::new(st)))
    }
    pub fn st(&self) -> std::sync::MutexGuard<'_, State> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn device<'dev>(&self) -> Device<'dev> {
        prima_undine::verif_hooks::with_backend(prima_undine::devices::Naive::new(), Backend(self.clone()))
    }
    pub fn block_of(&self, t: &Tensor) -> Option<usize> {
        let h = t.handle().load(Ordering::Acquire) as usize;
        if h == 0 {
            return None;
        }
        self.st().blocks.iter().position(|b| b.vecp == h)
    }
    pub fn set_poison(&self, p: f32) {
        self.st().poison = p;
    }
    /// Fills all guard zones, all unowned blocks and all padding behind owned data with poison.
    pub fn repoison(&self, live: &[&Tensor]) {
        let mut st = self.st();
        let p = st.poison;
        let own: std::collections::HashMap<usize, usize> = live
            .iter()
            .map(|t| (t.handle().load(Ordering::Acquire) as usize, prima_undine::functions::BasicFunctions::shape(*t).size() as usize))
            .collect();
        for b in st.blocks.iter_mut() {
            let used = *own.get(&b.vecp).unwrap_or(&0);
            let n = b.store.len();
            for i in 0..n {
                if i < ZONE || i >= ZONE + used {
                    b.store[i] = canary(i, p);
                }
            }
        }
    }
    /// Write-protects the blocks until `watch::end`.
    pub fn protect(&self, blocks: &[usize]) {
        let st = self.st();
        let b: Vec<(usize, &Store)> = blocks.iter().map(|&i| (i, &st.blocks[i].store)).collect();
        watch::begin(&b);
    }
    pub fn snapshot(&self) -> Vec<Vec<u32>> {
        self.st()
            .blocks
            .iter()
            .map(|b| b.store.iter().map(|x| x.to_bits()).collect())
            .collect()
    }
    /// Ranges of cells changed since the snapshot: (block, first, last) relative to the data start.
    pub fn dirty(&self, snap: &[Vec<u32>]) -> Vec<(usize, i64, i64)> {
        let st = self.st();
        let mut out = vec![];
        for (bi, old) in snap.iter().enumerate() {
            let b = &st.blocks[bi];
            let mut lo = None;
            let mut hi = 0;
            // report the changed extent per zone: before, inside, behind
            for (zlo, zhi) in [(0, ZONE), (ZONE, ZONE + b.cap), (ZONE + b.cap, ZONE * 2 + b.cap)] {
                for i in zlo..zhi {
                    if b.store[i].to_bits() != old[i] {
                        if lo.is_none() {
                            lo = Some(i);
                        }
                        hi = i;
                    }
                }
                if let Some(l) = lo.take() {
                    out.push((bi, l as i64 - ZONE as i64, hi as i64 - ZONE as i64));
                }
            }
        }
        out
    }
    /// All guard zones intact w.r.t. the current poison?
    pub fn zones_intact(&self) -> bool {
        let st = self.st();
        st.blocks.iter().all(|b| {
            let n = b.store.len();
            (0..ZONE)
                .chain(ZONE + b.cap..n)
                .all(|i| b.store[i].to_bits() == canary(i, st.poison).to_bits())
        })
    }
    pub fn counts(&self) -> (usize, usize, u64) {
        let st = self.st();
        (
            st.blocks.len(),
            st.blocks.iter().filter(|b| b.returned > 0).count(),
            st.bad_returns,
        )
    }
    pub fn live_set(&self) -> HashSet<usize> {
        self.st().blocks.iter().filter(|b| b.returned == 0).map(|b| b.vecp).collect()
    }
}

impl Drop for State {
    fn drop(&mut self) {
        for b in &self.blocks {
            unsafe {
                let v = Box::from_raw(b.vecp as *mut Vec<f32>);
                std::mem::forget(*v);
            }
        }
    }
}

pub struct Backend(pub Guard);

impl DeviceImpl for Backend {
    fn identifier(&self) -> String {
        "Guarded".to_string()
    }
    fn new_handle(&self, size: u32) -> AtomicPtr<c_void> {
        let mut st = self.0.st();
        st.requests += 1;
        if let Some(n) = st.fail_in {
            if n == 0 {
                st.fail_in = None;
                st.failures += 1;
                drop(st);
                panic!("out of device memory");
            }
            st.fail_in = Some(n - 1);
        }
        let cap = size as usize;
        let p = st.poison;
        let mut store = Store::new(ZONE * 2 + cap);
        for i in 0..ZONE * 2 + cap {
            store[i] = canary(i, p);
        }
        let v = unsafe { Vec::from_raw_parts(store.as_mut_ptr().add(ZONE), cap, cap) };
        let h = Box::into_raw(Box::new(v));
        let id = st.blocks.len();
        st.blocks.push(Block {
            vecp: h as usize,
            store,
            cap,
            returned: 0,
        });
        st.log.push((b'N', id, cap));
        AtomicPtr::new(h as *mut c_void)
    }
    fn drop_handle(&self, handle: &AtomicPtr<c_void>) {
        let mut st = self.0.st();
        let h = handle.load(Ordering::Acquire) as usize;
        match st.blocks.iter().position(|b| b.vecp == h) {
            Some(i) => {
                st.blocks[i].returned += 1;
                if st.blocks[i].returned > 1 {
                    st.bad_returns += 1;
                }
                let cap = st.blocks[i].cap;
                st.log.push((b'F', i, cap));
                let p = st.poison;
                watch::release(&st.blocks[i].store);
                for x in st.blocks[i].store[ZONE..ZONE + cap].iter_mut() {
                    *x = p;
                }
            }
            None => {
                st.bad_returns += 1;
                st.log.push((b'F', usize::MAX >> 33, 0));
            }
        }
    }
}
