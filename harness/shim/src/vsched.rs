//! Deterministic cooperative scheduler: exactly one managed thread runs at a time.
use crate::RawRwLock;
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Shared,
    SharedRec,
    Excl,
    ExclWait,
    Upgradable,
    UpgradeWait,
    Try,
    Yield,
    Turn,
}
#[derive(Clone, Copy)]
pub struct Req {
    pub(crate) kind: Kind,
    pub(crate) lock: *const RawRwLock,
}
unsafe impl Send for Req {}
impl Req {
    fn enabled(&self) -> bool {
        self.kind == Kind::Yield || self.kind == Kind::Turn || unsafe { (*self.lock).grantable(self.kind) }
    }
}

/// Panic payload: the acquisition can never be granted (sequential mode).
pub struct WouldBlock;
/// Panic payload: all managed threads were blocked.
pub struct Deadlock;

thread_local! {
    static TID: Cell<Option<usize>> = const { Cell::new(None) };
    static SEQLOG: RefCell<Option<Vec<(&'static str, usize)>>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub enabled: Vec<usize>,
    pub cur: Option<usize>, // the running thread, when it could have gone on
    pub chosen: usize,
    pub turn: bool, // the running thread is between two operations
}
#[derive(Clone, Debug)]
pub enum LogEv {
    Lock(usize, &'static str, usize),
    Mark(usize, String),
}

struct State {
    n: usize,
    running: Option<usize>,
    req: Vec<Option<Req>>,
    done: Vec<bool>,
    prefix: Vec<usize>,
    policy: Box<dyn FnMut(&[usize], Option<usize>) -> usize + Send>,
    choices: Vec<Choice>,
    log: Vec<LogEv>,
    log_locks: bool,
    release_points: bool,
    dead: bool,
    blocked: Vec<(usize, String)>,
    steps: usize,
}
struct Sched {
    st: Mutex<State>,
    cvs: Vec<Condvar>,
    fin: Condvar,
}
static CUR: Mutex<Option<Arc<Sched>>> = Mutex::new(None);
fn cur() -> Option<Arc<Sched>> {
    CUR.lock().unwrap().clone()
}
thread_local! { static MYS: RefCell<Option<Arc<Sched>>> = const { RefCell::new(None) }; }

impl Sched {
    // choose who runs next; the caller holds the state lock
    fn pick(&self, s: &mut State, me: Option<usize>) {
        let enabled: Vec<usize> = (0..s.n)
            .filter(|&t| !s.done[t] && s.req[t].map_or(false, |r| r.enabled()))
            .collect();
        if enabled.is_empty() {
            s.running = None;
            if s.done.iter().all(|d| *d) {
                self.fin.notify_all();
                return;
            }
            s.dead = true;
            s.blocked = (0..s.n)
                .filter(|&t| !s.done[t])
                .map(|t| (t, s.req[t].map_or("?".into(), |r| format!("{:?}@{:x}", r.kind, r.lock as usize))))
                .collect();
            for c in &self.cvs {
                c.notify_all();
            }
            return;
        }
        s.steps += 1;
        let cur = me.filter(|m| enabled.contains(m));
        let i = s.choices.len();
        let chosen = if i < s.prefix.len() && enabled.contains(&s.prefix[i]) {
            s.prefix[i]
        } else {
            (s.policy)(&enabled, cur)
        };
        let turn = me.map_or(true, |m| s.req[m].map_or(true, |r| r.kind == Kind::Turn));
        s.choices.push(Choice { enabled, cur, chosen, turn });
        s.running = Some(chosen);
        if Some(chosen) != me {
            self.cvs[chosen].notify_all();
        }
    }
    fn wait_turn(&self, mut s: std::sync::MutexGuard<'_, State>, me: usize) {
        while s.running != Some(me) && !s.dead {
            s = self.cvs[me].wait(s).unwrap();
        }
        if s.dead {
            drop(s);
            if std::thread::panicking() {
                return;
            }
            std::panic::panic_any(Deadlock);
        }
        s.req[me] = None;
    }
}

pub(crate) fn point(r: Req) {
    if FREE.with(|f| f.borrow().is_some()) {
        return free_point(r);
    }
    let me = TID.with(|t| t.get());
    match me {
        None => {
            if !r.enabled() {
                if std::thread::panicking() {
                    return;
                }
                std::panic::panic_any(WouldBlock);
            }
        }
        Some(me) => {
            let sc = MYS.with(|m| m.borrow().clone()).unwrap();
            let mut s = sc.st.lock().unwrap();
            if s.dead {
                drop(s);
                if std::thread::panicking() {
                    return;
                }
                std::panic::panic_any(Deadlock);
            }
            s.req[me] = Some(r);
            sc.pick(&mut s, Some(me));
            sc.wait_turn(s, me);
        }
    }
}

/// A scheduling point between two operations.
pub fn turn() {
    if FREE.with(|f| f.borrow().is_some()) {
        return free_jitter();
    }
    if TID.with(|t| t.get()).is_some() {
        point(Req { kind: Kind::Turn, lock: std::ptr::null() });
    }
}

/// A scheduling point after a release.
pub(crate) fn released() {
    if FREE.with(|f| f.borrow().is_some()) {
        return free_jitter();
    }
    if std::thread::panicking() || TID.with(|t| t.get()).is_none() {
        return;
    }
    let me = TID.with(|t| t.get()).unwrap();
    let sc = MYS.with(|m| m.borrow().clone()).unwrap();
    let mut s = sc.st.lock().unwrap();
    if s.dead || !s.release_points {
        return;
    }
    s.req[me] = Some(Req { kind: Kind::Yield, lock: std::ptr::null() });
    sc.pick(&mut s, Some(me));
    while s.running != Some(me) && !s.dead {
        s = sc.cvs[me].wait(s).unwrap();
    }
    s.req[me] = None;
}

/// A scheduling point that is not a lock operation.
pub fn yield_now() {
    if TID.with(|t| t.get()).is_some() {
        point(Req { kind: Kind::Yield, lock: std::ptr::null() });
    }
}

pub(crate) fn log_lock(e: &'static str, addr: usize) {
    free_settled();
    match TID.with(|t| t.get()) {
        None => SEQLOG.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push((e, addr))
            }
        }),
        Some(me) => {
            let sc = MYS.with(|m| m.borrow().clone()).unwrap();
            let mut s = sc.st.lock().unwrap();
            if s.log_locks {
                s.log.push(LogEv::Lock(me, e, addr));
            }
        }
    }
}
/// Add a mark to the log of the current execution, in execution order.
pub fn mark(text: String) {
    let free = FREE.with(|f| f.borrow().clone());
    if let Some(f) = free {
        f.log.lock().unwrap().push((f.me(), text));
        return;
    }
    if let Some(me) = TID.with(|t| t.get()) {
        let sc = MYS.with(|m| m.borrow().clone()).unwrap();
        sc.st.lock().unwrap().log.push(LogEv::Mark(me, text));
    }
}
/// Record lock operations of an ordinary thread.
pub fn seq_log_start() {
    SEQLOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn seq_log_take() -> Vec<(&'static str, usize)> {
    SEQLOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}

pub struct Outcome {
    pub choices: Vec<Choice>,
    pub log: Vec<LogEv>,
    pub deadlock: bool,
    pub blocked: Vec<(usize, String)>,
    pub steps: usize,
}

/// Run the closures as managed threads. `prefix` forces the first choices, `policy` makes the others.
pub fn run(
    bodies: Vec<Box<dyn FnOnce() + Send>>,
    prefix: Vec<usize>,
    policy: Box<dyn FnMut(&[usize], Option<usize>) -> usize + Send>,
    log_locks: bool,
    release_points: bool,
) -> Outcome {
    let n = bodies.len();
    let sc = Arc::new(Sched {
        st: Mutex::new(State {
            n,
            running: None,
            req: vec![Some(Req { kind: Kind::Yield, lock: std::ptr::null() }); n],
            done: vec![false; n],
            prefix,
            policy,
            choices: vec![],
            log: vec![],
            log_locks,
            release_points,
            dead: false,
            blocked: vec![],
            steps: 0,
        }),
        cvs: (0..n).map(|_| Condvar::new()).collect(),
        fin: Condvar::new(),
    });
    *CUR.lock().unwrap() = Some(sc.clone());
    std::thread::scope(|scope| {
        for (me, body) in bodies.into_iter().enumerate() {
            let sc = sc.clone();
            scope.spawn(move || {
                TID.with(|t| t.set(Some(me)));
                MYS.with(|m| *m.borrow_mut() = Some(sc.clone()));
                struct Fin(Arc<Sched>, usize);
                impl Drop for Fin {
                    fn drop(&mut self) {
                        let mut s = self.0.st.lock().unwrap_or_else(|e| e.into_inner());
                        s.done[self.1] = true;
                        s.req[self.1] = None;
                        if !s.dead {
                            self.0.pick(&mut s, None);
                        }
                    }
                }
                let _fin = Fin(sc.clone(), me);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    sc.wait_turn(sc.st.lock().unwrap(), me);
                    body();
                }));
                if let Err(e) = r {
                    if !e.is::<Deadlock>() {
                        mark(format!("escaped panic in thread {me}"));
                    }
                }
            });
        }
        let mut s = sc.st.lock().unwrap();
        sc.pick(&mut s, None);
    });
    let _ = cur;
    let mut s = sc.st.lock().unwrap();
    Outcome {
        choices: std::mem::take(&mut s.choices),
        log: std::mem::take(&mut s.log),
        deadlock: s.dead,
        blocked: std::mem::take(&mut s.blocked),
        steps: s.steps,
    }
}

// ---------------------------------------------------------------- threads that really run at the same time
// Every lock is looked at and changed under one spin lock, so that waiting and taking are one step; everything else runs freely.
static SPIN: AtomicBool = AtomicBool::new(false);
struct Free {
    log: Mutex<Vec<(usize, String)>>,
    dead: AtomicBool,
    until: std::time::Instant,
    ready: AtomicUsize,
}
impl Free {
    fn me(&self) -> usize {
        FREE_ME.with(|m| m.get())
    }
}
thread_local! {
    static FREE: RefCell<Option<Arc<Free>>> = const { RefCell::new(None) };
    static FREE_ME: Cell<usize> = const { Cell::new(0) };
    static HELD: Cell<bool> = const { Cell::new(false) };
    static JIT: Cell<u64> = const { Cell::new(1) };
}
fn free_jitter() {
    let x = JIT.with(|j| {
        let mut x = j.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        j.set(x);
        x >> 20
    });
    if x % 3 == 0 {
        for _ in 0..(x / 3) % 200 {
            std::hint::spin_loop();
        }
    }
}
/// The lock that was waited for has been taken, or given up.
pub(crate) fn free_settled() {
    if HELD.with(|h| h.replace(false)) {
        SPIN.store(false, SeqCst);
    }
}
fn free_point(r: Req) {
    free_settled();
    free_jitter();
    if r.kind == Kind::Yield || r.kind == Kind::Turn {
        return;
    }
    let f = FREE.with(|f| f.borrow().clone()).unwrap();
    let mut n = 0u32;
    loop {
        if SPIN.compare_exchange(false, true, SeqCst, SeqCst).is_ok() {
            if r.enabled() {
                HELD.with(|h| h.set(true));
                return;
            }
            SPIN.store(false, SeqCst);
        }
        n += 1;
        if n % 64 == 0 {
            std::thread::yield_now();
            if f.dead.load(SeqCst) || std::time::Instant::now() > f.until {
                f.dead.store(true, SeqCst);
                if std::thread::panicking() {
                    return;
                }
                std::panic::panic_any(Deadlock);
            }
        }
        std::hint::spin_loop();
    }
}
/// Run the closures in threads that nobody schedules. Gives up (deadlock) when nothing has come of it after a while.
pub fn run_free(bodies: Vec<Box<dyn FnOnce() + Send>>, seed: u64) -> Outcome {
    let n = bodies.len();
    let free = Arc::new(Free {
        log: Mutex::new(vec![]),
        dead: AtomicBool::new(false),
        until: std::time::Instant::now() + std::time::Duration::from_secs(5),
        ready: AtomicUsize::new(0),
    });
    std::thread::scope(|scope| {
        for (me, body) in bodies.into_iter().enumerate() {
            let free = free.clone();
            scope.spawn(move || {
                FREE_ME.with(|m| m.set(me));
                JIT.with(|j| j.set((seed ^ (me as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)) | 1));
                FREE.with(|f| *f.borrow_mut() = Some(free.clone()));
                free.ready.fetch_add(1, SeqCst);
                let mut k = 0u32;
                while free.ready.load(SeqCst) < n {
                    k += 1;
                    if k % 256 == 0 {
                        std::thread::yield_now();
                    }
                    std::hint::spin_loop();
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
                free_settled();
                if let Err(e) = r {
                    if !e.is::<Deadlock>() {
                        mark(format!("escaped panic in thread {me}"));
                    }
                }
                FREE.with(|f| *f.borrow_mut() = None);
            });
        }
    });
    let log = std::mem::take(&mut *free.log.lock().unwrap());
    Outcome {
        choices: vec![],
        log: log.into_iter().map(|(t, m)| LogEv::Mark(t, m)).collect(),
        deadlock: free.dead.load(SeqCst),
        blocked: vec![],
        steps: 0,
    }
}
