//! Deterministic simulation runtime.
//!
//! Real OS threads run one at a time: exactly one thread holds the baton, and at every intercepted point (lock
//! acquire/release, atomic access, user callback, future poll) the scheduler - a pure function of the seed, or of a
//! recorded list of decisions - decides who continues.  Time is simulated: it advances one tick per step and jumps to
//! the next timer when nothing is runnable.  Outside a simulated thread every hook is a no-op.
//!
//! `choose` is the only source of nondeterminism: it is used for thread choice and for weak-memory read choice, and
//! every decision with more than one alternative is recorded, so a run is exactly replayable from the list.

pub mod atomic;
pub mod os;
pub mod rng;

use rng::Rng;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use os::{park_forever, Cv, Fm, FmG, Parker};
use std::task::{Context, Poll, Wake, Waker};

pub type Clock = Vec<u32>;

/// What kind of point a yield is (goes into the interleaving fingerprint).
pub mod kind {
    pub const START: u16 = 1;
    pub const LOCK: u16 = 2;
    pub const UNLOCK: u16 = 3;
    pub const ATOMIC: u16 = 4;
    pub const POLL: u16 = 5;
    pub const USER: u16 = 6;
    pub const SLEEP: u16 = 7;
    pub const BLOCK: u16 = 8;
    pub const DONE: u16 = 9;
    pub const ACQ: u16 = 10;
    pub const SEMREL: u16 = 11;
    pub const CALLBACK: u16 = 12;
}

#[derive(Clone, Debug)]
pub enum Strategy {
    Random,
    /// keep running the current thread with probability num/8
    Sticky(u8),
    /// probabilistic concurrency testing: random priorities, `depth` priority change points among the first `len` steps
    Pct { depth: u8, len: u16 },
    /// run-to-block, with `n` forced preemptions among the first `len` steps
    Preempt { n: u8, len: u16 },
    /// switch at every step in turn
    RoundRobin,
    /// decisions given; beyond the end (or if impossible) the lowest runnable thread continues
    Replay(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    /// nothing can run and no timer is pending; the strings say what each blocked thread waits for
    Deadlock(Vec<(usize, &'static str)>),
    StepCap,
    /// a thread kept the baton without reaching a yield point for too long in real time
    Hang(usize),
    /// a client closure let a panic escape
    ClientPanic(usize, String),
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Runnable,
    Blocked(usize, &'static str, Option<u64>),
    Sleeping(u64),
    Done,
}

struct Th {
    st:     St,
    parker: Arc<Parker>,
    prio:   u64,
    vc:     Clock,
}

struct Inner {
    running:     bool,
    epoch:       u64,
    th:          Vec<Th>,
    rng:         Rng,
    strat:       Strategy,
    replay_pos:  usize,
    diverged:    bool,
    change_at:   Vec<u64>,
    decisions:   Vec<u8>,
    steps:       u64,
    now:         u64,
    jumped:      u64,
    max_steps:   u64,
    switches:    u64,
    hash:        u64,
    fail:        Option<Fail>,
    live:        usize,
    cur:         usize,
    /// steps made by one thread in a row
    row:         u64,
    weak:        bool,
    stale_reads: u64,
    sync_vc:     BTreeMap<usize, Clock>,
    atoms:       BTreeMap<u64, atomic::Hist>,
    base_vc:     Clock,
    events:      u64,
}

struct Global {
    m:  Fm<Option<Inner>>,
    cv: Cv,
}

static G: Global = Global { m: Fm::new(None), cv: Cv::new() };
static EPOCH: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}

const NONE: usize = usize::MAX;

/// A thread that makes more steps than this in a row while others could run is made to let them.
const UNFAIR: u64 = 400;

fn lk() -> FmG<'static, Option<Inner>> {
    G.m.lock()
}

/// Simulated thread id of the caller, if it is a simulated thread.
pub fn tid() -> Option<usize> {
    let t = TID.with(|c| c.get());
    (t != NONE).then_some(t)
}

pub fn in_sim() -> bool {
    TID.with(|c| c.get()) != NONE
}

impl Inner {
    fn mix(&mut self, v: u64) {
        self.hash = (self.hash ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(5);
    }

    /// The single source of nondeterminism.
    fn choose_raw(&mut self, n: usize, prefer: impl FnOnce(&mut Inner) -> usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let c = if let Strategy::Replay(list) = &self.strat {
            let pos = self.replay_pos;
            let got = list.get(pos).copied();
            self.replay_pos += 1;
            match got {
                Some(x) if (x as usize) < n => x as usize,
                Some(_) => {
                    self.diverged = true;
                    0
                }
                None => 0,
            }
        }
        else {
            prefer(self)
        };
        self.decisions.push(c as u8);
        c
    }

    /// Choose the next thread among the runnable ones. None: nothing runnable.
    fn pick(&mut self, me: Option<usize>) -> Option<usize> {
        loop {
            let now = self.now;
            for t in self.th.iter_mut() {
                match t.st {
                    St::Sleeping(u) if u <= now => t.st = St::Runnable,
                    St::Blocked(_, _, Some(u)) if u <= now => t.st = St::Runnable,
                    _ => (),
                }
            }
            let run: Vec<usize> = (0..self.th.len()).filter(|i| self.th[*i].st == St::Runnable).collect();
            if run.is_empty() {
                // jump the clock to the next timer
                let next = self
                    .th
                    .iter()
                    .filter_map(|t| match t.st {
                        St::Sleeping(u) => Some(u),
                        St::Blocked(_, _, Some(u)) => Some(u),
                        _ => None,
                    })
                    .min();
                match next {
                    Some(u) => {
                        self.jumped += u - self.now;
                        self.now = u;
                        continue;
                    }
                    None => return None,
                }
            }
            let me_pos = me.and_then(|m| run.iter().position(|r| *r == m));
            let r2 = run.clone();
            // Canonical order of alternatives: the current thread first (so that decision 0 always means "no
            // preemption"), then the others by id.
            let mut order: Vec<usize> = Vec::with_capacity(run.len());
            if let Some(p) = me_pos {
                order.push(run[p]);
            }
            order.extend(r2.iter().copied().filter(|r| Some(*r) != me_pos.map(|p| run[p])));
            let n = order.len();
            let o2 = order.clone();
            let c = self.choose_raw(n, move |s| {
                let steps = s.steps;
                if me_pos.is_some() && s.row > UNFAIR {
                    // Somebody spins, waiting for the others: no strategy may be unfair for ever.
                    let m = me.unwrap();
                    s.th[m].prio = s.th.iter().map(|t| t.prio).min().unwrap_or(0).saturating_sub(1);
                    return 1 + s.rng.below(n - 1);
                }
                match s.strat.clone() {
                    Strategy::Random => s.rng.below(n),
                    Strategy::Sticky(p) => {
                        if me_pos.is_some() && s.rng.chance(p as usize, 8) {
                            0
                        }
                        else {
                            s.rng.below(n)
                        }
                    }
                    Strategy::Pct { .. } => {
                        if let Some(m) = me {
                            if let Some(ix) = s.change_at.iter().position(|x| *x == steps) {
                                // lower the current thread below all others
                                s.th[m].prio = ix as u64;
                            }
                        }
                        let mut best = 0;
                        for i in 1..n {
                            if s.th[o2[i]].prio > s.th[o2[best]].prio {
                                best = i;
                            }
                        }
                        best
                    }
                    Strategy::Preempt { .. } => {
                        if me_pos.is_some() {
                            if s.change_at.contains(&steps) {
                                1 + s.rng.below(n - 1)
                            }
                            else {
                                0
                            }
                        }
                        else {
                            s.rng.below(n)
                        }
                    }
                    Strategy::RoundRobin => {
                        let m = me.unwrap_or(NONE);
                        // next higher id, cyclically
                        let mut best = 0;
                        let mut best_key = usize::MAX;
                        for (i, t) in o2.iter().enumerate() {
                            let key = if m == NONE { *t } else { (*t + 128 - m - 1) % 128 };
                            if key < best_key {
                                best_key = key;
                                best = i;
                            }
                        }
                        best
                    }
                    Strategy::Replay(_) => unreachable!(),
                }
            });
            let next = order[c];
            if Some(next) != me {
                self.switches += 1;
                self.row = 0;
            }
            else {
                self.row += 1;
            }
            return Some(next);
        }
    }

    fn set_fail(&mut self, f: Fail) {
        if self.fail.is_none() {
            self.fail = Some(f);
        }
        self.running = false;
        G.cv.notify_all();
    }

    fn step(&mut self, tid: usize, kind: u16) -> bool {
        self.steps += 1;
        self.now += 1;
        self.mix(((tid as u64) << 16) | kind as u64);
        if self.steps > self.max_steps {
            self.set_fail(Fail::StepCap);
            return false;
        }
        true
    }
}

fn switch_from(mut g: FmG<'static, Option<Inner>>, me: usize) {
    let inner = g.as_mut().unwrap();
    match inner.pick(Some(me)) {
        Some(next) if next == me => {
            inner.cur = me;
        }
        Some(next) => {
            inner.cur = next;
            let mine = inner.th[me].parker.clone();
            let p = inner.th[next].parker.clone();
            drop(g);
            p.unpark();
            mine.park();
        }
        None => {
            let blocked = inner
                .th
                .iter()
                .enumerate()
                .filter_map(|(i, t)| match t.st {
                    St::Blocked(_, l, _) => Some((i, l)),
                    _ => None,
                })
                .collect();
            inner.set_fail(Fail::Deadlock(blocked));
            drop(g);
            park_forever();
        }
    }
}

/// A scheduling point: the simulator may switch to any other runnable thread here.
pub fn yield_point(kind: u16) {
    let me = TID.with(|c| c.get());
    if me == NONE {
        return;
    }
    let mut g = lk();
    let inner = g.as_mut().unwrap();
    if !inner.step(me, kind) {
        drop(g);
        park_forever();
    }
    switch_from(g, me);
}

/// Block until `wake_all(addr)` (or the deadline passes). Outside the simulation this panics: it could never end.
pub fn block_on_addr(addr: usize, label: &'static str, deadline: Option<u64>) {
    let me = TID.with(|c| c.get());
    if me == NONE {
        panic!("simrt: {label} would block outside of a simulated thread");
    }
    let mut g = lk();
    let inner = g.as_mut().unwrap();
    if !inner.step(me, kind::BLOCK) {
        drop(g);
        park_forever();
    }
    inner.th[me].st = St::Blocked(addr, label, deadline);
    switch_from(g, me);
}

pub fn wake_all(addr: usize) {
    if !in_sim() {
        return;
    }
    let mut g = lk();
    let inner = g.as_mut().unwrap();
    for t in inner.th.iter_mut() {
        if matches!(t.st, St::Blocked(a, _, _) if a == addr) {
            t.st = St::Runnable;
        }
    }
}

/// Sleep for `n` ticks of simulated time.
pub fn sleep(n: u64) {
    let me = TID.with(|c| c.get());
    if me == NONE {
        return;
    }
    let mut g = lk();
    let inner = g.as_mut().unwrap();
    if !inner.step(me, kind::SLEEP) {
        drop(g);
        park_forever();
    }
    inner.th[me].st = St::Sleeping(inner.now + n);
    switch_from(g, me);
}

/// A recorded choice of one out of `n`, made by the code driving the simulation (which ready task to poll, say).
pub fn choose(n: usize) -> usize {
    if !in_sim() {
        return 0;
    }
    let mut g = lk();
    match g.as_mut() {
        Some(i) => {
            let c = i.choose_raw(n, |s| if s.rng.chance(1, 3) { 0 } else { s.rng.below(n) });
            i.mix(0x7a5c_0000 | c as u64);
            c
        }
        None => 0,
    }
}

/// Simulated time.
pub fn now() -> u64 {
    lk().as_ref().map_or(0, |i| i.now)
}

/// Global event sequence number: strictly increasing over the whole run; stamps are never equal.
pub fn stamp() -> u64 {
    let mut g = lk();
    match g.as_mut() {
        Some(i) => {
            i.events += 1;
            i.events
        }
        None => 0,
    }
}

/// Mix harness-level information (operation kinds, field numbers) into the interleaving fingerprint.
pub fn fingerprint(v: u64) {
    if let Some(i) = lk().as_mut() {
        i.mix(v)
    }
}

// --- happens-before bookkeeping (only active in weak-memory runs) ---------------------------------------------------

fn join(a: &mut Clock, b: &Clock) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b.iter()) {
        *x = (*x).max(*y);
    }
}

pub fn clock_le(a: &Clock, b: &Clock) -> bool {
    a.iter().enumerate().all(|(i, x)| *x <= b.get(i).copied().unwrap_or(0))
}

/// The caller acquired the synchronisation object at `addr`.
pub fn hb_acquire(addr: usize) {
    let me = TID.with(|c| c.get());
    if me == NONE {
        return;
    }
    let mut g = lk();
    let i = g.as_mut().unwrap();
    if !i.weak {
        return;
    }
    if let Some(c) = i.sync_vc.get(&addr).cloned() {
        join(&mut i.th[me].vc, &c);
    }
}

/// The caller releases the synchronisation object at `addr`.
pub fn hb_release(addr: usize) {
    let me = TID.with(|c| c.get());
    if me == NONE {
        return;
    }
    let mut g = lk();
    let i = g.as_mut().unwrap();
    if !i.weak {
        return;
    }
    let c = i.th[me].vc.clone();
    join(i.sync_vc.entry(addr).or_default(), &c);
    i.th[me].vc[me] += 1;
}

/// Current vector clock of the calling simulated thread (empty outside weak-memory runs).
pub fn my_clock() -> Clock {
    let me = TID.with(|c| c.get());
    if me == NONE {
        return vec![];
    }
    let g = lk();
    let i = g.as_ref().unwrap();
    if i.weak {
        i.th[me].vc.clone()
    }
    else {
        vec![]
    }
}

// --- the pool of OS threads -----------------------------------------------------------------------------------------

type Job = Box<dyn FnOnce() + Send>;

struct Worker {
    parker: Arc<Parker>,
    job:    Arc<Fm<Option<(usize, Job)>>>,
}

static POOL: Fm<Vec<Worker>> = Fm::new(Vec::new());

fn new_worker() -> Worker {
    let parker = Arc::new(Parker::new());
    let job: Arc<Fm<Option<(usize, Job)>>> = Arc::new(Fm::new(None));
    let (p2, j2) = (parker.clone(), job.clone());
    std::thread::Builder::new()
        .stack_size(1 << 20)
        .spawn(move || loop {
            p2.park();
            let Some((tid, f)) = j2.lock().take()
            else {
                continue;
            };
            TID.with(|c| c.set(tid));
            let r = catch_unwind(AssertUnwindSafe(f));
            finish(tid, r.err());
            TID.with(|c| c.set(NONE));
        })
        .expect("spawn");
    Worker { parker, job }
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    }
    else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    }
    else {
        "<non-string panic payload>".into()
    }
}

fn finish(tid: usize, err: Option<Box<dyn std::any::Any + Send>>) {
    let mut g = lk();
    let inner = g.as_mut().unwrap();
    if let Some(e) = err {
        inner.th[tid].st = St::Done;
        inner.set_fail(Fail::ClientPanic(tid, panic_text(&*e)));
        drop(g);
        park_forever();
    }
    let ok = inner.step(tid, kind::DONE);
    inner.th[tid].st = St::Done;
    let vc = inner.th[tid].vc.clone();
    join(&mut inner.base_vc, &vc);
    inner.live -= 1;
    if inner.live == 0 {
        inner.running = false;
        G.cv.notify_all();
        return;
    }
    if !ok {
        drop(g);
        park_forever();
    }
    match inner.pick(None) {
        Some(next) => {
            inner.cur = next;
            let p = inner.th[next].parker.clone();
            drop(g);
            p.unpark();
        }
        None => {
            let blocked = inner
                .th
                .iter()
                .enumerate()
                .filter_map(|(i, t)| match t.st {
                    St::Blocked(_, l, _) => Some((i, l)),
                    _ => None,
                })
                .collect();
            inner.set_fail(Fail::Deadlock(blocked));
            drop(g);
            park_forever();
        }
    }
}

// --- runs -----------------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct SimCfg {
    pub seed:      u64,
    pub strategy:  Strategy,
    pub max_steps: u64,
    pub weak:      bool,
    /// real-time limit without reaching a yield point
    pub hang_ms:   u64,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps:       u64,
    pub sim_time:    u64,
    pub jumped:      u64,
    pub switches:    u64,
    pub hash:        u64,
    pub decisions:   Vec<u8>,
    pub diverged:    bool,
    pub fail:        Option<Fail>,
    pub stale_reads: u64,
}

/// One simulated run; may consist of several phases, each a set of client threads run to completion.
pub struct Run {
    dead: bool,
}

impl Run {
    pub fn new(cfg: &SimCfg) -> Run {
        let mut rng = Rng::new(cfg.seed ^ 0x5eed_5c4e_d01e);
        let mut change_at: Vec<u64> = vec![];
        match &cfg.strategy {
            Strategy::Pct { depth, len } => {
                for _ in 0..*depth {
                    change_at.push(1 + rng.below(*len as usize) as u64);
                }
            }
            Strategy::Preempt { n, len } => {
                for _ in 0..*n {
                    change_at.push(1 + rng.below(*len as usize) as u64);
                }
            }
            _ => (),
        }
        let mut g = lk();
        *g = Some(Inner {
            running: false,
            epoch: EPOCH.fetch_add(1, Ordering::Relaxed) + 1,
            th: vec![],
            rng,
            strat: cfg.strategy.clone(),
            replay_pos: 0,
            diverged: false,
            change_at,
            decisions: vec![],
            steps: 0,
            now: 0,
            jumped: 0,
            max_steps: cfg.max_steps,
            switches: 0,
            hash: 0xcbf2_9ce4_8422_2325,
            fail: None,
            live: 0,
            cur: 0,
            row: 0,
            weak: cfg.weak,
            stale_reads: 0,
            sync_vc: BTreeMap::new(),
            atoms: BTreeMap::new(),
            base_vc: vec![],
            events: 0,
        });
        Run { dead: false }
    }

    /// Run the clients to completion under the scheduler. Returns false if the run failed (see stats().fail); the
    /// threads involved are then abandoned where they are.
    pub fn phase(&mut self, clients: Vec<Job>, hang_ms: u64) -> bool {
        if self.dead {
            return false;
        }
        let n = clients.len();
        assert!(n > 0 && n < 128);
        let mut pool = POOL.lock();
        while pool.len() < n {
            pool.push(new_worker());
        }
        let first;
        {
            let mut g = lk();
            let inner = g.as_mut().unwrap();
            inner.th.clear();
            let base = inner.base_vc.clone();
            // PCT change points count steps of the whole run; shift unused ones so that later phases see some too.
            for i in 0..n {
                let mut vc = base.clone();
                vc.resize(n.max(base.len()), 0);
                vc[i] += 1;
                let prio = 1000 + inner.rng.next() % 1_000_000;
                inner.th.push(Th { st: St::Runnable, parker: pool[i].parker.clone(), prio, vc });
            }
            inner.live = n;
            inner.running = true;
            for (i, j) in clients.into_iter().enumerate() {
                *pool[i].job.lock() = Some((i, j));
            }
            first = inner.pick(None).unwrap();
            inner.cur = first;
        }
        pool[first].parker.unpark();
        let mut last = u64::MAX;
        let mut idle = 0u64;
        let mut g = lk();
        loop {
            if !g.as_ref().unwrap().running {
                break;
            }
            let t0 = os::real_ms();
            g = G.cv.wait_ms(g, 500);
            if os::real_ms() - t0 >= 490 {
                let i = g.as_mut().unwrap();
                if !i.running {
                    break;
                }
                if i.steps == last {
                    idle += 500;
                    if idle >= hang_ms {
                        let c = i.cur;
                        i.set_fail(Fail::Hang(c));
                        break;
                    }
                }
                else {
                    idle = 0;
                    last = i.steps;
                }
            }
        }
        if g.as_ref().unwrap().fail.is_some() {
            // Abandon the threads: they are parked for ever (or hung).
            self.dead = true;
            pool.clear();
            return false;
        }
        true
    }

    pub fn stats(&self) -> Stats {
        let g = lk();
        let i = g.as_ref().unwrap();
        Stats {
            steps:       i.steps,
            sim_time:    i.now,
            jumped:      i.jumped,
            switches:    i.switches,
            hash:        i.hash,
            decisions:   i.decisions.clone(),
            diverged:    i.diverged,
            fail:        i.fail.clone(),
            stale_reads: i.stale_reads,
        }
    }
}

// --- async ----------------------------------------------------------------------------------------------------------

struct TaskWaker {
    tid:   usize,
    epoch: u64,
    woken: AtomicBool,
}

impl TaskWaker {
    fn addr(&self) -> usize {
        self as *const _ as usize
    }
    fn fire(&self) {
        self.woken.store(true, Ordering::SeqCst);
        if self.tid == NONE {
            return;
        }
        let me = TID.with(|c| c.get());
        let mut g = lk();
        let Some(i) = g.as_mut()
        else {
            return;
        };
        if i.epoch != self.epoch {
            return;
        }
        if i.weak && me != NONE {
            let c = i.th[me].vc.clone();
            join(i.sync_vc.entry(self.addr()).or_default(), &c);
            i.th[me].vc[me] += 1;
        }
        let a = self.addr();
        if let Some(t) = i.th.get_mut(self.tid) {
            if matches!(t.st, St::Blocked(x, _, _) if x == a) {
                t.st = St::Runnable;
            }
        }
    }
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.fire()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.fire()
    }
}

/// How a future is driven.
#[derive(Clone, Debug, Default)]
pub struct Drive {
    /// drop the future at its n-th Pending (1-based); 0 = never
    pub cancel_at: u32,
    /// number of times to poll again without having been woken
    pub spurious:  u32,
    /// after a wake-up, stay away for this many ticks before polling again
    pub late:      u32,
}

pub enum Driven<T> {
    Ready(T, u32),
    Cancelled(u32),
}

/// Drive a future to completion (or cancellation) on the calling simulated thread.
pub fn drive<F: Future>(fut: F, d: &Drive) -> Driven<F::Output> {
    let me = TID.with(|c| c.get());
    let epoch = lk().as_ref().map_or(0, |i| i.epoch);
    let tw = Arc::new(TaskWaker { tid: me, epoch, woken: AtomicBool::new(false) });
    let waker: Waker = Waker::from(tw.clone());
    let mut cx = Context::from_waker(&waker);
    // Boxed so that dropping it happens here, inside the simulation, and not on unwinding only
    let mut fut: Pin<Box<F>> = Box::pin(fut);
    let mut pend = 0u32;
    let mut spurious = d.spurious;
    loop {
        yield_point(kind::POLL);
        tw.woken.store(false, Ordering::SeqCst);
        match fut.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Driven::Ready(v, pend),
            Poll::Pending => {
                pend += 1;
                if d.cancel_at != 0 && pend == d.cancel_at {
                    yield_point(kind::POLL);
                    drop(fut);
                    return Driven::Cancelled(pend);
                }
                if spurious > 0 {
                    spurious -= 1;
                    continue;
                }
                while !tw.woken.load(Ordering::SeqCst) {
                    block_on_addr(tw.addr(), "task wake-up", None);
                }
                hb_acquire(tw.addr());
                if d.late > 0 {
                    sleep(d.late as u64);
                }
            }
        }
    }
}

pub fn block_on<F: Future>(fut: F) -> F::Output {
    match drive(fut, &Drive::default()) {
        Driven::Ready(v, _) => v,
        Driven::Cancelled(_) => unreachable!(),
    }
}

/// A future that is Pending `n` times (waking itself immediately) before completing.
pub struct YieldFut(pub u32);

impl Future for YieldFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        }
        else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// A one-shot gate clients can wait on (blocking or async is the same thing: a thread).
pub struct Gate {
    open: AtomicBool,
}

impl Default for Gate {
    fn default() -> Self {
        Self::new()
    }
}

impl Gate {
    pub const fn new() -> Gate {
        Gate { open: AtomicBool::new(false) }
    }
    pub fn is_open(&self) -> bool {
        self.open.load(Ordering::SeqCst)
    }
    pub fn open(&self) {
        hb_release(self as *const _ as usize);
        self.open.store(true, Ordering::SeqCst);
        wake_all(self as *const _ as usize);
        yield_point(kind::USER);
    }
    pub fn wait(&self, label: &'static str) {
        yield_point(kind::USER);
        while !self.is_open() {
            block_on_addr(self as *const _ as usize, label, None);
        }
        hb_acquire(self as *const _ as usize);
    }
}

/// Pin the calling process to one CPU (context switches between baton holders are then cheap). Best effort.
pub fn pin_to_cpu(cpu: usize) {
    extern "C" {
        fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    }
    let mut mask = [0u64; 16];
    mask[(cpu / 64) % 16] = 1 << (cpu % 64);
    unsafe {
        sched_setaffinity(0, std::mem::size_of_val(&mask), mask.as_ptr());
    }
}
