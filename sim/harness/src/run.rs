//! Runs one plan from construction to destruction and judges it.
use crate::catalog;
use crate::exec::*;
use crate::model::*;
use crate::obj::*;
use crate::plan::*;
use crate::state::*;
use simrt::atomic::AtomicWord;
use simrt::{Fail, Gate, Run, SimCfg};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::AtomicU32;
use std::sync::{Arc, Mutex};

pub const MAX_STEPS: u64 = 60_000;
pub const HANG_MS: u64 = 8_000;

pub fn meta(name: &str) -> Option<&'static Meta> {
    catalog::ALL.iter().copied().find(|m| m.name == name)
}

pub struct Outcome {
    pub viols:     Vec<Viol>,
    pub stats:     simrt::Stats,
    pub fired:     BTreeMap<String, u64>,
    pub probes:    BTreeMap<String, u64>,
    pub ops:       u64,
    pub atts:      u64,
    pub contended: u64,
    pub skipped:   u64,
    pub hang:      bool,
    pub trace:     Vec<String>,
}

fn construct(m: &'static Meta, init: &Init) -> Option<Handle> {
    match init {
        Init::New => {
            let sub = sub_begin(0, 0, H::Make, M::ObjClone, FrameKind::NoBuild, &[]);
            let h = (m.new)();
            sub.end(Res::Unit);
            register(h.o(), |i| default_init(m, i));
            Some(h)
        }
        Init::Make(mk) => do_make(m, mk),
        Init::De(vals) => {
            let de = m.deser?;
            let text = json_of(m, vals);
            let js: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
            let want = expect_de(m, &js);
            let sub = sub_begin(0, 0, H::De, M::ObjClone, FrameKind::NoBuild, &[]);
            let r = de(&text);
            sub.end(Res::Unit);
            match (r, want) {
                (Ok(h), Some(v)) => {
                    register(h.o(), |i| v[i]);
                    Some(h)
                }
                (Err(_), None) => None,
                (Ok(h), None) => {
                    viol(Class::De, format!("deserialising {text} should fail"));
                    drop(h);
                    None
                }
                (Err(e), Some(_)) => {
                    viol(Class::De, format!("deserialising {text} failed: {e}"));
                    None
                }
            }
        }
    }
}

/// The last look at every field of a surviving object.
fn final_ops(m: &Meta, obj: u8, serial: u64) -> Vec<Op> {
    let mut v = vec![];
    for (i, fm) in m.fields.iter().enumerate() {
        let i = i as u8;
        if fm.ops & ops::HAS != 0 {
            v.push(Op::new(H::Has, obj, i));
        }
        // alternately demand and remove the content
        let demand = (serial + i as u64) % 3 == 0;
        if fm.k == K::Lazy && !demand && fm.ops & ops::CLEAR != 0 {
            v.push(Op::new(H::Clear, obj, i));
            if fm.ops & ops::HAS != 0 {
                v.push(Op::new(H::Has, obj, i));
            }
        }
        else if fm.ops & ops::GET != 0 {
            v.push(Op::new(H::Get, obj, i));
        }
        else if fm.ops & ops::READER != 0 {
            v.push(Op::new(H::Reader, obj, i));
        }
        else if fm.ops & ops::CLEAR != 0 {
            v.push(Op::new(H::Clear, obj, i));
        }
    }
    v
}

fn fired_pool(n: u8) {
    probe(if n == 1 { "clients as tasks of one thread" } else { "clients as tasks of several threads" })
}

fn fresh_world(me: usize, m: &'static Meta, shared: Vec<Rc<SlotC>>, sh: &Arc<Shared_>) -> World {
    World {
        me,
        meta: m,
        shared,
        local: RefCell::new(vec![]),
        weaks: RefCell::new(vec![]),
        text: RefCell::new(None),
        sh: sh.clone(),
    }
}

pub fn run_plan(p: &Plan, trace: bool) -> Outcome {
    run_plan_with(p, trace, HANG_MS)
}

pub fn run_plan_with(p: &Plan, trace: bool, hang_ms: u64) -> Outcome {
    let m = meta(&p.subj).expect("subject");
    reset();
    crate::arena::start(p.seed);
    let strategy = match &p.decisions {
        Some(d) => simrt::Strategy::Replay(d.clone()),
        None => p.strat.real(),
    };
    // a bound on progress: far above what so many operations take, whoever they wait for
    let max_steps = MAX_STEPS.max(1_000 * p.clients.iter().map(|c| c.len() as u64).sum::<u64>());
    let cfg = SimCfg { seed: p.seed, strategy, max_steps, weak: p.weak, hang_ms };
    let mut run = Run::new(&cfg);
    let n = p.clients.len();
    let sh = Arc::new(Shared_ {
        gate: Gate::new(),
        waiting: AtomicU32::new(0),
        remaining: AtomicU32::new(n as u32),
        words: (0..n.max(1)).map(|_| AtomicWord::new(0)).collect(),
        weak: p.weak,
        wakers: Mutex::new(vec![]),
    });
    let setup_sh = Arc::new(Shared_ {
        gate: Gate::new(),
        waiting: AtomicU32::new(0),
        remaining: AtomicU32::new(1),
        words: vec![],
        weak: false,
        wakers: Mutex::new(vec![]),
    });
    // phase 0: construction and set-up by one client
    let objs: Arc<Mutex<Vec<SendBox<Handle>>>> = Arc::new(Mutex::new(vec![]));
    let job: Box<dyn FnOnce() + Send> = {
        let (p, objs, sh) = (p.clone(), objs.clone(), setup_sh.clone());
        Box::new(move || {
            let mut slots = vec![];
            for i in &p.init {
                if let Some(h) = construct(m, i) {
                    slots.push(SlotC::new(h));
                }
            }
            let w = fresh_world(0, m, slots.clone(), &sh);
            run_client(&w, &p.setup);
            drop(w);
            let mut v = vec![];
            for s in slots {
                if let Some(h) = s.take() {
                    v.push(SendBox(h));
                }
            }
            *objs.lock().unwrap() = v;
        })
    };
    let mut ok = run.phase(vec![job], hang_ms);
    let mut mains: Vec<Rc<SlotC>> = vec![];
    let mut final_slots: Option<Vec<Rc<SlotC>>> = None;
    if ok {
        let hs: Vec<Handle> = std::mem::take(&mut *objs.lock().unwrap()).into_iter().map(|b| b.0).collect();
        mains = hs.into_iter().map(SlotC::new).collect();
    }
    if ok && n > 0 {
        rs().phase = 1;
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let back: Arc<Mutex<Vec<SendBox<Handle>>>> = Arc::new(Mutex::new(vec![]));
        let plain = m.plain;
        let mut per: Vec<Vec<Rc<SlotC>>> = vec![];
        for k in 0..n {
            let mut v = vec![];
            for s in &mains {
                if plain {
                    if k == 0 {
                        if let Some(h) = s.take() {
                            v.push(SlotC::new(h));
                        }
                    }
                }
                else if let Some(h) = s.handle().and_then(|h| h.share()) {
                    v.push(SlotC::new(h));
                }
            }
            per.push(v);
        }
        if p.release && m.rc && !plain {
            for s in &mains {
                s.drop_handle();
            }
        }
        if p.pool > 0 {
            fired_pool(p.pool);
            let tasks = per
                .into_iter()
                .enumerate()
                .map(|(k, v)| (fresh_world(k, m, v, &sh), p.clients[k].clone()))
                .collect();
            let pool = Arc::new(Pool::new(tasks));
            for _ in 0..p.pool {
                let pool = pool.clone();
                jobs.push(Box::new(move || pool.work()));
            }
            per = vec![];
        }
        for (k, v) in per.into_iter().enumerate() {
            let opsl = p.clients[k].clone();
            let sh = sh.clone();
            let back = back.clone();
            let v = SendBox(v);
            jobs.push(Box::new(move || {
                let v = v;
                let slots = v.0;
                let w = fresh_world(k, m, slots.clone(), &sh);
                run_client(&w, &opsl);
                if plain {
                    // single client: hand the objects back for the last look
                    let mut out = vec![];
                    drop(w);
                    for s in &slots {
                        if let Some(h) = s.take() {
                            out.push(SendBox(h));
                        }
                    }
                    *back.lock().unwrap() = out;
                }
                else {
                    drop(w);
                }
                drop(slots);
            }));
        }
        ok = run.phase(jobs, hang_ms);
        if ok && plain {
            let hs: Vec<Handle> = std::mem::take(&mut *back.lock().unwrap()).into_iter().map(|b| b.0).collect();
            mains = hs.into_iter().map(SlotC::new).collect();
        }
    }
    if ok {
        // last phase: one client looks at everything, then everything goes away
        rs().phase = 2;
        let v = SendBox(std::mem::take(&mut mains));
        let seed = p.seed;
        let sh = setup_sh.clone();
        let job: Box<dyn FnOnce() + Send> = Box::new(move || {
            let v = v;
            let slots = v.0;
            let w = fresh_world(0, m, slots.clone(), &sh);
            let mut o = vec![];
            for (k, s) in slots.iter().enumerate() {
                if s.handle().is_some() {
                    o.extend(final_ops(m, k as u8, seed));
                }
            }
            sh.remaining.store(1, std::sync::atomic::Ordering::SeqCst);
            run_client(&w, &o);
            drop(w);
            drop(slots);
        });
        ok = run.phase(vec![job], hang_ms);
        final_slots = Some(vec![]);
    }
    let stats = run.stats();
    drop(run);
    let _ = final_slots;
    let mut hang = false;
    if !ok {
        match &stats.fail {
            Some(Fail::Deadlock(b)) => {
                let l: Vec<String> = b.iter().map(|(t, w)| format!("t{t} waits for {w}")).collect();
                let gate = b.iter().any(|(_, w)| *w == "gate") || sh.waiting.load(std::sync::atomic::Ordering::SeqCst) > 0;
                let c = if gate { Class::Isolation } else { Class::Deadlock };
                viol(c, format!("no client can go on: {}", l.join(", ")));
                // an isolation failure is also a failure to complete
                if gate {
                    viol(Class::Deadlock, format!("no client can go on while a guard or builder elsewhere is held: {}", l.join(", ")));
                }
            }
            Some(Fail::StepCap) => viol(Class::StepCap, format!("clients did not finish within {max_steps} steps")),
            Some(Fail::Hang(t)) => {
                hang = true;
                viol(Class::Hang, format!("t{t} spins without end outside of any lock, atomic, callback or await"));
            }
            Some(Fail::ClientPanic(t, s)) => viol(Class::Panic, format!("t{t} died: {s}")),
            None => viol(Class::Panic, "run failed".to_string()),
        }
        // threads are abandoned: whatever main still holds must not be dropped on top of them
        for s in mains.drain(..) {
            std::mem::forget(s);
        }
    }
    // let whatever the runtime still owns go before the ledger is judged
    let mut r = take();
    let failed = !ok;
    if !failed {
        if !r.live.is_empty() {
            let l: Vec<String> = r.live.values().take(6).map(|v| v.to_string()).collect();
            let t = format!("{} value(s) never destroyed: {}", r.live.len(), l.join(", "));
            r.viols.push(Viol { class: Class::Leak, text: t, f: None });
        }
        let undead: Vec<u32> = r.oids.iter().filter(|(_, o)| o.drops == 0).map(|(n, _)| *n).collect();
        if !undead.is_empty() {
            r.viols.push(Viol { class: Class::Rc, text: format!("object(s) {undead:?} never destroyed"), f: None });
            r.viols.push(Viol { class: Class::Leak, text: format!("object(s) {undead:?} never destroyed"), f: None });
        }
    }
    let mf: &dyn Fn(&str) -> Option<&'static Meta> = &meta;
    let mut lines = vec![];
    {
        let mut j = Judge::new(&mut r, mf, failed, p.weak);
        j.run();
        if trace {
            for i in 0..j.r.hist.len() {
                lines.push(j.describe(i));
            }
        }
    }
    // concurrency actually exercised: operations overlapping another client's on the same field
    let mut contended = 0;
    let h1: Vec<&Sub> = r.hist.iter().filter(|s| s.phase == 1).collect();
    for (i, a) in h1.iter().enumerate() {
        if h1[i + 1..].iter().take(24).any(|b| a.tid != b.tid && a.oid == b.oid && a.f == b.f && a.inv < b.ret && b.inv < a.ret) {
            contended += 1;
        }
    }
    Outcome {
        viols: std::mem::take(&mut r.viols),
        stats,
        fired: std::mem::take(&mut r.fired),
        probes: std::mem::take(&mut r.probes),
        ops: r.hist.len() as u64,
        atts: r.atts.len() as u64,
        contended,
        skipped: r.skipped,
        hang,
        trace: lines,
    }
}
