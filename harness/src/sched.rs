//! A deterministic scheduler for the lock operations of the code under test: exactly one of
//! the registered threads runs at a time, and a schedule says which one goes on next.
use prima_undine::verif_hooks::{self, Point};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Th {
    NotHere,
    Ready,
    Done,
}
#[derive(Default)]
struct State {
    th: Vec<Option<Th>>,
    cur: Option<usize>,
    sched: Vec<usize>,
    pos: usize,
    starting: usize, // threads still to be brought to their first lock
    stuck: usize,    // consecutive turns in which nobody got a lock
    turns: u64,
    dead: bool, // everybody blocked: let all threads die
}
static ST: Mutex<State> = Mutex::new(State { th: vec![], cur: None, sched: vec![], pos: 0, starting: 0, stuck: 0, turns: 0, dead: false });
static CV: Condvar = Condvar::new();
thread_local! {
    static ME: Cell<usize> = Cell::new(usize::MAX);
}

impl State {
    fn live(&self, t: usize) -> bool {
        t < self.th.len() && self.th[t] == Some(Th::Ready)
    }
    /// The next thread; `after`: somebody who could not go on.
    fn choose(&mut self, after: Option<usize>) {
        let n = self.th.len();
        self.turns += 1;
        if let Some(t) = after {
            self.cur = (1..=n).map(|k| (t + k) % n).find(|&u| self.live(u));
            return;
        }
        if self.starting > 0 {
            let t = n - self.starting;
            self.starting -= 1;
            self.cur = Some(t);
            return;
        }
        while self.pos < self.sched.len() {
            let t = self.sched[self.pos];
            self.pos += 1;
            if self.live(t) {
                self.cur = Some(t);
                return;
            }
        }
        let last = self.cur.unwrap_or(0);
        self.cur = (1..=n).map(|k| (last + k) % n).find(|&u| self.live(u));
    }
}

/// Prepares a run of `n` threads.
pub fn prepare(n: usize, sched: Vec<usize>) {
    let mut st = ST.lock().unwrap();
    *st = State { th: vec![Some(Th::NotHere); n], cur: None, sched, pos: 0, starting: n, stuck: 0, turns: 0, dead: false };
    verif_hooks::set_scheduler(Some(callback));
}
pub fn finish() {
    verif_hooks::set_scheduler(None);
}
pub fn deadlocked() -> bool {
    ST.lock().unwrap().dead
}

fn wait(mut st: std::sync::MutexGuard<'_, State>, me: usize) {
    let mut idle = 0;
    while st.cur != Some(me) && !st.dead {
        let (s, to) = CV.wait_timeout(st, Duration::from_secs(10)).unwrap();
        st = s;
        if to.timed_out() {
            idle += 1;
            if idle >= 3 {
                // the running thread neither finishes nor reaches a lock
                st.dead = true;
                CV.notify_all();
            }
        }
    }
    let dead = st.dead;
    drop(st);
    if dead {
        std::panic::resume_unwind(Box::new("deadlock"));
    }
}

/// A registered thread starts: it waits for its first turn.
pub fn enter(me: usize) {
    ME.with(|m| m.set(me));
    let mut st = ST.lock().unwrap();
    st.th[me] = Some(Th::Ready);
    if st.th.iter().all(|t| *t == Some(Th::Ready)) {
        st.choose(None);
        CV.notify_all();
    }
    wait(st, me);
}
/// The thread is done with its program.
pub fn leave(me: usize) {
    ME.with(|m| m.set(usize::MAX));
    let mut st = ST.lock().unwrap();
    st.th[me] = Some(Th::Done);
    st.stuck = 0;
    st.choose(None);
    CV.notify_all();
}
/// A point at which the thread may lose its turn.
pub fn pause() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let mut st = ST.lock().unwrap();
    if st.dead {
        return;
    }
    st.stuck = 0;
    st.choose(None);
    CV.notify_all();
    wait(st, me);
}

fn callback(p: Point, _lock: usize) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    match p {
        Point::Before => {
            if std::thread::panicking() {
                return;
            }
            let mut st = ST.lock().unwrap();
            if st.dead {
                return;
            }
            st.choose(None);
            CV.notify_all();
            wait(st, me);
        }
        Point::Blocked => {
            let mut st = ST.lock().unwrap();
            st.stuck += 1;
            if st.stuck > 4 * st.th.len() {
                st.dead = true;
                CV.notify_all();
            }
            if st.dead {
                drop(st);
                if std::thread::panicking() {
                    std::thread::sleep(Duration::from_millis(1));
                    return;
                }
                std::panic::resume_unwind(Box::new("deadlock"));
            }
            st.choose(Some(me));
            CV.notify_all();
            wait(st, me);
        }
        Point::After => {
            ST.lock().unwrap().stuck = 0;
        }
    }
}
