//! Cooperative scheduler over real threads: exactly one task runs at a time; who runs
//! next is decided here, from the seed or from a recorded list of switches.
use crate::rng::Rng;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};

/// Simulated time, nanoseconds.
pub static CLOCK: AtomicU64 = AtomicU64::new(0);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<State>> = Mutex::new(None);

thread_local! {
    static TASK: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

pub fn in_sim() -> bool {
    IN_SIM.try_with(|c| c.get()).unwrap_or(false)
}
pub fn set_in_sim(v: bool) -> bool {
    IN_SIM.try_with(|c| c.replace(v)).unwrap_or(false)
}

/// Leaves simulation mode for the duration of a hook body.
pub struct Outside(bool);
impl Outside {
    pub fn enter() -> Self {
        Outside(set_in_sim(false))
    }
}
impl Drop for Outside {
    fn drop(&mut self) {
        set_in_sim(self.0);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Runnable,
    Futex(usize),
    Sleep(u64),
    Done,
}

#[derive(Clone, Debug)]
pub enum Policy {
    /// Switch to a uniformly chosen runnable task with probability num/den at each point.
    Random { num: u64, den: u64 },
    /// Priorities with change points (PCT): highest priority runnable task runs.
    Pct { prio: Vec<u64>, changes: Vec<u64> },
    /// Replays the recorded switches (point index, task), otherwise keeps the current task.
    Replay(Vec<(u64, usize)>),
}

struct State {
    tasks: Vec<St>,
    cvs: Vec<Arc<Condvar>>,
    cur: usize,
    point: u64,
    rng: Rng,
    policy: Policy,
    switches: Vec<(u64, usize)>,
    fatal: bool,
}

impl State {
    fn refresh(&mut self) {
        let now = CLOCK.load(Ordering::Relaxed);
        for t in self.tasks.iter_mut() {
            if let St::Sleep(u) = t {
                if *u <= now {
                    *t = St::Runnable;
                }
            }
        }
    }
    fn candidates(&mut self) -> Vec<usize> {
        self.refresh();
        loop {
            let c: Vec<usize> = (0..self.tasks.len())
                .filter(|i| self.tasks[*i] == St::Runnable)
                .collect();
            if !c.is_empty() {
                return c;
            }
            let next = self
                .tasks
                .iter()
                .filter_map(|t| if let St::Sleep(u) = t { Some(*u) } else { None })
                .min();
            match next {
                Some(u) => {
                    CLOCK.store(u, Ordering::Relaxed);
                    self.refresh();
                }
                None => return c,
            }
        }
    }
    fn choose(&mut self, cands: &[usize], me: usize) -> usize {
        self.point += 1;
        let me_ok = cands.contains(&me);
        let default = if me_ok { me } else { cands[0] };
        let next = if cands.len() == 1 {
            cands[0]
        } else {
            match &mut self.policy {
                Policy::Random { num, den } => {
                    if !me_ok || self.rng.chance(*num, *den) {
                        *self.rng.pick(cands)
                    } else {
                        me
                    }
                }
                Policy::Pct { prio, changes } => {
                    if changes.contains(&self.point) {
                        // The running task drops below everybody else.
                        let low = prio.iter().min().copied().unwrap_or(1);
                        prio[default] = low.saturating_sub(1);
                    }
                    *cands.iter().max_by_key(|c| (prio[**c], usize::MAX - **c)).unwrap()
                }
                Policy::Replay(list) => match list.iter().find(|(p, _)| *p == self.point) {
                    Some((_, t)) if cands.contains(t) => *t,
                    _ => default,
                },
            }
        };
        if next != default {
            self.switches.push((self.point, next));
        }
        next
    }
}

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed) && TASK.with(|t| t.get()) != usize::MAX
}

fn reschedule(set: Option<St>) {
    let me = TASK.with(|t| t.get());
    let mut g = STATE.lock().unwrap();
    let cv = {
        let s = g.as_mut().unwrap();
        if let Some(st) = set {
            s.tasks[me] = st;
        }
        let cands = s.candidates();
        if cands.is_empty() {
            s.fatal = true;
            drop(g);
            // Every task waits for another one: a deadlock of the system under test.
            crate::world::fatal_exit(78, "deadlock: every task is blocked");
        }
        let next = s.choose(&cands, me);
        if next == me {
            return;
        }
        s.cur = next;
        s.cvs[next].notify_one();
        s.cvs[me].clone()
    };
    while g.as_ref().unwrap().cur != me {
        g = cv.wait(g).unwrap();
    }
}

/// A point where the scheduler may hand control to another task.
pub fn yield_point() {
    if active() {
        reschedule(None);
    }
}

/// Sleeps in simulated time.
pub fn sleep(ns: u64) {
    let until = CLOCK.load(Ordering::Relaxed) + ns;
    if active() {
        reschedule(Some(St::Sleep(until)));
    } else {
        CLOCK.store(until, Ordering::Relaxed);
    }
}

/// Blocks the current task on an address until woken.
pub fn block(addr: usize) {
    if active() {
        reschedule(Some(St::Futex(addr)));
    } else {
        crate::world::fatal_exit(78, "deadlock: the only thread waits on a lock it holds");
    }
}

/// Wakes up to `n` tasks blocked on an address; returns how many.
pub fn wake(addr: usize, n: usize) -> usize {
    if !ACTIVE.load(Ordering::Relaxed) {
        return 0;
    }
    let mut g = STATE.lock().unwrap();
    let mut k = 0;
    if let Some(s) = g.as_mut() {
        for t in s.tasks.iter_mut() {
            if k < n && *t == St::Futex(addr) {
                *t = St::Runnable;
                k += 1;
            }
        }
    }
    k
}

pub struct Outcome {
    pub switches: Vec<(u64, usize)>,
    pub points: u64,
}

/// Runs the tasks to completion under the policy. Each task body runs on its own thread
/// with a large stack; the closure itself toggles simulation mode as it needs.
pub fn run_tasks(bodies: Vec<Box<dyn FnOnce() + Send>>, seed: u64, policy: Policy) -> Outcome {
    let n = bodies.len();
    {
        let mut g = STATE.lock().unwrap();
        *g = Some(State {
            tasks: vec![St::Runnable; n],
            cvs: (0..n).map(|_| Arc::new(Condvar::new())).collect(),
            cur: usize::MAX,
            point: 0,
            rng: Rng::new(seed),
            policy,
            switches: vec![],
            fatal: false,
        });
    }
    let mut handles = vec![];
    for (i, body) in bodies.into_iter().enumerate() {
        handles.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    TASK.with(|t| t.set(i));
                    {
                        let mut g = STATE.lock().unwrap();
                        let cv = g.as_ref().unwrap().cvs[i].clone();
                        while g.as_ref().unwrap().cur != i {
                            g = cv.wait(g).unwrap();
                        }
                    }
                    body();
                    TASK.with(|t| t.set(usize::MAX));
                    let mut g = STATE.lock().unwrap();
                    let s = g.as_mut().unwrap();
                    s.tasks[i] = St::Done;
                    let c = s.candidates();
                    if c.is_empty() {
                        if s.tasks.iter().any(|t| *t != St::Done) {
                            drop(g);
                            crate::world::fatal_exit(78, "deadlock: every remaining task is blocked");
                        }
                        s.cur = usize::MAX - 1;
                    } else {
                        let next = s.choose(&c, i);
                        s.cur = next;
                        s.cvs[next].notify_one();
                    }
                })
                .expect("spawn task"),
        );
    }
    ACTIVE.store(true, Ordering::Relaxed);
    {
        let mut g = STATE.lock().unwrap();
        let s = g.as_mut().unwrap();
        let c = s.candidates();
        let next = s.choose(&c, usize::MAX);
        s.cur = next;
        s.cvs[next].notify_one();
    }
    for h in handles {
        let _ = h.join();
    }
    ACTIVE.store(false, Ordering::Relaxed);
    let s = STATE.lock().unwrap().take().unwrap();
    Outcome {
        switches: s.switches,
        points: s.point,
    }
}
