//! The oracle: a sequential reference model of one cell, a linearizability check of recorded histories against it, and
//! the monitors over recorded guard lifetimes, builder runs and weak-memory observations.
use crate::obj::*;
use crate::plan::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

pub type St = Option<u32>;

/// One operation as the model sees it.
#[derive(Clone, Debug)]
pub struct Ev {
    pub inv: u64,
    pub ret: u64,
    pub sub: usize,
    pub k:   EvK,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EvK {
    /// state.is_some() == .0
    Has(bool),
    /// state == .0
    Is(St),
    /// state was None, becomes Some(.0)
    Fill(u32),
    /// like Fill, but the value may have been discarded
    MayFill(u32),
    /// state == .0, becomes .1
    Swap(St, St),
    /// any state, becomes .0, or nothing happens
    MayPut(St),
}

impl EvK {
    fn next(&self, s: St, out: &mut Vec<St>) {
        out.clear();
        match *self {
            EvK::Has(b) => {
                if s.is_some() == b {
                    out.push(s)
                }
            }
            EvK::Is(x) => {
                if s == x {
                    out.push(s)
                }
            }
            EvK::Fill(x) => {
                if s.is_none() {
                    out.push(Some(x))
                }
            }
            EvK::MayFill(x) => {
                if s.is_none() {
                    out.push(Some(x));
                    out.push(None)
                }
            }
            EvK::Swap(a, b) => {
                if s == a {
                    out.push(b)
                }
            }
            EvK::MayPut(b) => {
                out.push(b);
                out.push(s)
            }
        }
    }
}

/// Wing & Gong / Lowe search with memoisation, cut at quiescent points: no event before a cut overlaps one after it.
thread_local! { static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }

pub fn linearizable(evs: &[Ev], init: St) -> bool {
    let mut v: Vec<&Ev> = evs.iter().collect();
    v.sort_by_key(|e| e.inv);
    let mut states = vec![init];
    let mut i = 0;
    while i < v.len() {
        let mut end = v[i].ret;
        let mut j = i + 1;
        while j < v.len() && v[j].inv < end {
            end = end.max(v[j].ret);
            j += 1;
        }
        let last = j == v.len();
        if j - i == 1 {
            let mut next = vec![];
            let mut nx = vec![];
            for s in &states {
                v[i].k.next(*s, &mut nx);
                for x in &nx {
                    if !next.contains(x) {
                        next.push(*x)
                    }
                }
            }
            states = next;
        }
        else {
            match segment(&v[i..j], &states, last) {
                Some(x) => states = x,
                None => {
                    // too wide to decide: never an accusation
                    WIDE.with(|w| w.set(true));
                    return true;
                }
            }
        }
        if states.is_empty() {
            return false;
        }
        i = j;
    }
    true
}

/// The states a stretch of overlapping events may end in (one of them if `any`).
fn segment(evs: &[&Ev], init: &[St], any: bool) -> Option<Vec<St>> {
    let n = evs.len();
    if n > 128 {
        return None;
    }
    let full: u128 = if n == 128 { u128::MAX } else { (1 << n) - 1 };
    let mut seen: HashSet<(u128, St)> = HashSet::new();
    let mut stack: Vec<(u128, St)> = init.iter().map(|s| (0, *s)).collect();
    let mut nx = vec![];
    let mut out: Vec<St> = vec![];
    while let Some((done, st)) = stack.pop() {
        if done == full {
            if !out.contains(&st) {
                out.push(st)
            }
            if any {
                return Some(out);
            }
            continue;
        }
        if !seen.insert((done, st)) {
            continue;
        }
        if seen.len() > 30_000 {
            return None;
        }
        // earliest return among the pending ones: nothing invoked after it may come first
        let mut lim = u64::MAX;
        for (i, e) in evs.iter().enumerate() {
            if done & (1 << i) == 0 {
                lim = lim.min(e.ret);
            }
        }
        // a mere look that fits may as well come now: it changes nothing, and going first never hurts anybody
        let mut now = done;
        for (i, e) in evs.iter().enumerate() {
            if done & (1 << i) == 0 && e.inv < lim && matches!(e.k, EvK::Has(_) | EvK::Is(_)) {
                e.k.next(st, &mut nx);
                if !nx.is_empty() {
                    now |= 1 << i;
                }
            }
        }
        if now != done {
            stack.push((now, st));
            continue;
        }
        for (i, e) in evs.iter().enumerate() {
            if done & (1 << i) == 0 && e.inv < lim {
                e.k.next(st, &mut nx);
                for s in &nx {
                    stack.push((done | (1 << i), *s));
                }
            }
        }
    }
    Some(out)
}

/// Linearizable together with an extra look at the state during an interval?
fn feasible(evs: &[Ev], init: St, inv: u64, ret: u64, v: St) -> bool {
    let mut x = evs.to_vec();
    x.push(Ev { inv, ret, sub: usize::MAX, k: EvK::Is(v) });
    linearizable(&x, init)
}

fn rid(r: &Option<crate::val::Rd>) -> St {
    r.map(|x| x.id)
}

pub struct Judge<'a> {
    pub r:     &'a mut Rs,
    pub metas: &'a dyn Fn(&str) -> Option<&'static Meta>,
    /// the scenario is judged up to the point the run failed
    pub failed: bool,
    pub weak:  bool,
    cells:     BTreeMap<(u32, u8), Vec<Ev>>,
    /// the field a complaint is about
    cur:       Option<u8>,
}

impl<'a> Judge<'a> {
    pub fn new(r: &'a mut Rs, metas: &'a dyn Fn(&str) -> Option<&'static Meta>, failed: bool, weak: bool) -> Judge<'a> {
        Judge { r, metas, failed, weak, cells: BTreeMap::new(), cur: None }
    }

    fn bad(&mut self, class: Class, text: String) {
        if self.r.viols.len() < 32 {
            self.r.viols.push(Viol { class, text, f: self.cur });
        }
    }

    fn meta_of(&self, oid: u32) -> Option<&'static Meta> {
        self.r.subj_of.get(&oid).and_then(|n| (self.metas)(n))
    }

    fn fm(&self, oid: u32, f: u8) -> Option<&'static FieldMeta> {
        self.meta_of(oid).and_then(|m| m.fields.get(f as usize))
    }

    pub fn describe(&self, i: usize) -> String {
        let s = &self.r.hist[i];
        let nm = self.fm(s.oid, s.f).map_or("?", |f| f.name);
        let at: Vec<String> = s.atts.iter().map(|a| format!("builder {:?}", self.r.atts[*a].out)).collect();
        format!(
            "[{}..{}] p{}t{} {:?}({:?}) obj{}.{} -> {}{}{}",
            s.inv,
            if s.ret == u64::MAX { "?".to_string() } else { s.ret.to_string() },
            s.phase,
            s.tid,
            s.h,
            s.m,
            s.oid,
            nm,
            match &s.res {
                _ if s.cut => "dropped".into(),
                None => "unfinished".into(),
                Some(r) => format!("{r:?}"),
            },
            if at.is_empty() { String::new() } else { format!(" {at:?}") },
            if s.fired.is_empty() { String::new() } else { format!(" fault {:?}", s.fired) }
        )
    }

    /// The event(s) of the model one recorded operation stands for.
    fn event(&mut self, i: usize) -> Option<EvK> {
        let s = self.r.hist[i].clone();
        let att = s.atts.last().map(|a| self.r.atts[*a].out.clone());
        let unfinished = s.res.is_none() && !s.cut;
        self.cur = Some(s.f);
        if unfinished || s.cut {
            return match s.m {
                M::Set(id) | M::Put(id) => Some(EvK::MayPut(Some(id))),
                M::Clear => Some(EvK::MayPut(None)),
                M::Read | M::Touch => match att {
                    Some(AttOut::Ok(id)) => Some(EvK::MayFill(id)),
                    Some(_) => Some(EvK::Is(None)),
                    None => None,
                },
                _ => None,
            };
        }
        let res = s.res.clone().unwrap();
        match (&s.m, &res) {
            (M::Has, Res::Bool(b)) => {
                if self.weak && self.fm(s.oid, s.f).map_or(false, |f| f.k == K::Lazy) {
                    None
                }
                else {
                    Some(EvK::Has(*b))
                }
            }
            (M::Read, Res::Val(v)) => match (v, att) {
                (Some(r), Some(AttOut::Ok(id))) => {
                    if r.id != id {
                        let d = self.describe(i);
                        self.bad(Class::Lin, format!("the access that built {id} returned {}: {d}", r.id));
                    }
                    Some(EvK::Fill(id))
                }
                (None, Some(AttOut::Ok(id))) => {
                    let d = self.describe(i);
                    self.bad(Class::Lin, format!("the access that built {id} returned nothing: {d}"));
                    None
                }
                (v, None) => Some(EvK::Is(rid(v))),
                (_, Some(o)) => {
                    let d = self.describe(i);
                    self.bad(Class::Error, format!("an access whose builder ended with {o:?} returned a value: {d}"));
                    None
                }
            },
            (M::Read, Res::Err(e)) => match att {
                Some(AttOut::Err(x)) if x == *e => Some(EvK::Is(None)),
                o => {
                    let d = self.describe(i);
                    self.bad(Class::Error, format!("an access returned error {e}, its builder: {o:?}: {d}"));
                    None
                }
            },
            (M::Touch, Res::Unit) => match att {
                Some(AttOut::Ok(id)) => Some(EvK::Fill(id)),
                // the error goes nowhere
                Some(AttOut::Err(_)) => Some(EvK::Is(None)),
                Some(o) => {
                    let d = self.describe(i);
                    self.bad(Class::Error, format!("an initialisation whose builder ended with {o:?} succeeded: {d}"));
                    None
                }
                None => Some(EvK::Has(true)),
            },
            (M::Read | M::Touch, Res::Panic) => match att {
                Some(AttOut::Ok(id)) => Some(EvK::Fill(id)),
                Some(_) => Some(EvK::Is(None)),
                None => None,
            },
            (M::Set(id), Res::Old(o)) | (M::Put(id), Res::Old(o)) => Some(EvK::Swap(rid(o), Some(*id))),
            (M::Clear, Res::Old(o)) => Some(EvK::Swap(rid(o), None)),
            (M::Snap(v), _) => Some(EvK::Is(*v)),
            // panicked: conversions happen before anything is stored; conflicting borrows store nothing
            _ => None,
        }
    }

    pub fn run(&mut self) {
        // histories per cell
        let n = self.r.hist.len();
        let mut snaps: BTreeMap<(u32, u8), Vec<(Ev, H)>> = BTreeMap::new();
        for i in 0..n {
            let s = &self.r.hist[i];
            if matches!(s.m, M::WAcq | M::ObjClone | M::ObjEq | M::ObjDbg | M::ObjSer) {
                continue;
            }
            let (key, inv, ret, snap, h) = ((s.oid, s.f), s.inv, s.ret, matches!(s.m, M::Snap(_)), s.h);
            if let Some(k) = self.event(i) {
                let e = Ev { inv, ret, sub: i, k };
                if snap {
                    snaps.entry(key).or_default().push((e, h));
                    self.cells.entry(key).or_default();
                }
                else {
                    self.cells.entry(key).or_default().push(e);
                }
            }
        }
        let keys: Vec<(u32, u8)> = self.cells.keys().copied().collect();
        let mut broken: BTreeSet<(u32, u8)> = BTreeSet::new();
        for key in keys {
            let Some(init) = self.r.init.get(&key).copied()
            else {
                *self.r.probes.entry("cell without known start".into()).or_insert(0) += 1;
                broken.insert(key);
                continue;
            };
            self.cur = Some(key.1);
            let evs = self.cells[&key].clone();
            let sn = snaps.remove(&key).unwrap_or_default();
            if evs.len() + sn.len() > 4000 {
                *self.r.probes.entry("history too long to judge".into()).or_insert(0) += 1;
                broken.insert(key);
                continue;
            }
            WIDE.with(|w| w.set(false));
            let fine = linearizable(&evs, init);
            if WIDE.with(|w| w.get()) {
                *self.r.probes.entry("history too wide to judge".into()).or_insert(0) += 1;
                broken.insert(key);
                continue;
            }
            if !fine {
                broken.insert(key);
                let t = self.cell_text(key, init, &evs);
                self.bad(Class::Lin, t);
                continue;
            }
            // clone / serialisation snapshots, each one and all together
            let mut all = evs.clone();
            for (e, h) in &sn {
                all.push(e.clone());
                if !linearizable(&all, init) {
                    broken.insert(key);
                    let t = self.cell_text(key, init, &all);
                    let c = if *h == H::Ser { Class::Ser } else { Class::Clone };
                    self.bad(c, format!("snapshot not explained: {t}"));
                    break;
                }
            }
            self.cells.insert(key, all);
        }
        self.cur = None;
        self.values();
        self.eq_dbg(&broken);
        self.guards();
        if self.weak {
            self.visibility();
        }
    }

    fn cell_text(&self, key: (u32, u8), init: St, evs: &[Ev]) -> String {
        let mut ix: Vec<usize> = evs.iter().map(|e| e.sub).collect();
        ix.sort_by_key(|i| self.r.hist[*i].inv);
        let l: Vec<String> = ix.iter().map(|i| self.describe(*i)).collect();
        format!(
            "field {} of object {} (starting as {init:?}) is not a linearizable cell: {}",
            self.fm(key.0, key.1).map_or("?", |f| f.name),
            key.0,
            l.join("; ")
        )
    }

    /// Values are moved, not copied: what comes back is the very instance put in, and only copies are copies.
    fn values(&mut self) {
        let mut stored: BTreeMap<(u32, u8), BTreeSet<u32>> = BTreeMap::new();
        for s in &self.r.hist {
            if let M::Set(id) | M::Put(id) = s.m {
                stored.entry((s.oid, s.f)).or_default().insert(id);
            }
        }
        for a in &self.r.atts {
            if let AttOut::Ok(id) = a.out {
                stored.entry((a.oid, a.f)).or_default().insert(id);
            }
        }
        let mut out = vec![];
        let mut back: BTreeMap<u32, usize> = BTreeMap::new();
        for (i, s) in self.r.hist.iter().enumerate() {
            let Some(fm) = self.fm(s.oid, s.f)
            else {
                continue;
            };
            let here = stored.get(&(s.oid, s.f));
            match &s.res {
                Some(Res::Old(Some(rd))) => {
                    if fm.tracked && here.map_or(false, |h| h.contains(&rd.id)) && rd.gen != 0 {
                        out.push((i, format!("value {} came back as a copy of what was stored", rd.id)));
                    }
                    if fm.tracked && rd.inst != 0 {
                        if let Some(j) = back.insert(rd.inst, i) {
                            out.push((i, format!("value {} was handed back twice, also by {}", rd.id, self.describe(j))));
                        }
                    }
                }
                Some(Res::Val(Some(rd))) if fm.tracked && here.map_or(false, |h| h.contains(&rd.id)) => {
                    let owned = s.h == H::Get && fm.owned;
                    if owned && rd.gen == 0 {
                        out.push((i, format!("value {} read by copy is no copy", rd.id)));
                    }
                    if !owned && rd.gen != 0 {
                        out.push((i, format!("value {} seen in place is a copy", rd.id)));
                    }
                }
                _ => (),
            }
        }
        for (i, t) in out {
            let d = self.describe(i);
            self.cur = Some(self.r.hist[i].f);
            self.bad(Class::Leak, format!("{t}: {d}"));
            self.cur = None;
        }
    }

    fn candidates(&self, key: (u32, u8)) -> Vec<St> {
        let mut c: BTreeSet<St> = BTreeSet::new();
        c.insert(None);
        c.insert(self.r.init.get(&key).copied().flatten());
        for e in self.cells.get(&key).map_or(&[][..], |v| v.as_slice()) {
            match e.k {
                EvK::Fill(x) | EvK::MayFill(x) => {
                    c.insert(Some(x));
                }
                EvK::Swap(a, b) => {
                    c.insert(a);
                    c.insert(b);
                }
                EvK::MayPut(b) | EvK::Is(b) => {
                    c.insert(b);
                }
                EvK::Has(_) => (),
            }
        }
        c.into_iter().collect()
    }

    fn feas_set(&self, key: (u32, u8), inv: u64, ret: u64) -> Option<Vec<St>> {
        let init = self.r.init.get(&key).copied()?;
        let none = vec![];
        let evs = self.cells.get(&key).unwrap_or(&none);
        if evs.len() > 400 {
            return None;
        }
        Some(self.candidates(key).into_iter().filter(|v| feasible(evs, init, inv, ret, *v)).collect())
    }

    fn eq_dbg(&mut self, broken: &BTreeSet<(u32, u8)>) {
        let n = self.r.hist.len();
        for i in 0..n {
            let s = self.r.hist[i].clone();
            if s.cut || s.res.is_none() {
                continue;
            }
            match (&s.m, &s.res) {
                (M::ObjEq, Some(Res::Bool(b))) => {
                    let Some(m) = self.meta_of(s.oid)
                    else {
                        continue;
                    };
                    let mut any_diff = false;
                    let mut unknown = false;
                    for f in 0..m.fields.len() as u8 {
                        let (ka, kb) = ((s.oid, f), (s.other, f));
                        if broken.contains(&ka) || broken.contains(&kb) {
                            unknown = true;
                            continue;
                        }
                        let (Some(a), Some(c)) = (self.feas_set(ka, s.inv, s.ret), self.feas_set(kb, s.inv, s.ret))
                        else {
                            unknown = true;
                            continue;
                        };
                        if *b && !a.iter().any(|x| c.contains(x)) {
                            let d = self.describe(i);
                            let t = format!(
                                "comparison said equal, but field {} was one of {a:?} in object {} and {c:?} in object {}: {d}",
                                m.fields[f as usize].name, s.oid, s.other
                            );
                            self.bad(Class::Eq, t);
                        }
                        if a.iter().any(|x| c.iter().any(|y| x != y)) {
                            any_diff = true;
                        }
                    }
                    if !*b && !any_diff && !unknown {
                        let d = self.describe(i);
                        self.bad(Class::Eq, format!("comparison said different, but no field can have differed: {d}"));
                    }
                }
                (M::ObjDbg, Some(Res::Unit)) => {
                    let Some(m) = self.meta_of(s.oid)
                    else {
                        continue;
                    };
                    // what is set and left alone must show
                    for f in 0..m.fields.len() as u8 {
                        let k = (s.oid, f);
                        if s.note.starts_with(crate::exec::CUT_SHORT) || !m.fields[f as usize].tracked || m.fields[f as usize].cell || broken.contains(&k) {
                            continue;
                        }
                        let busy = |a: u64, b: u64| a < s.ret && b > s.inv;
                        let touched = self.r.hist.iter().enumerate().any(|(j, x)| {
                            j != i && x.oid == s.oid && x.f == f && busy(x.inv, x.ret) && !matches!(x.m, M::ObjDbg)
                        }) || self.r.holds.iter().any(|h| h.oid == s.oid && h.f == f && busy(h.start, h.end))
                            || self.r.hist.iter().any(|x| {
                                (x.oid == s.oid || x.other == s.oid)
                                    && busy(x.inv, x.ret)
                                    && matches!(x.m, M::ObjClone | M::ObjEq | M::ObjSer)
                            });
                        if touched {
                            continue;
                        }
                        if let Some(v) = self.feas_set(k, s.inv, s.ret) {
                            let v: Vec<_> = v.into_iter().collect();
                            if let [Some(id)] = v.as_slice() {
                                if !s.note.contains(&format!("V<{id}>")) {
                                    let d = self.describe(i);
                                    let t = format!(
                                        "debug output does not show {id}, which field {} held undisturbed: {} {d}",
                                        m.fields[f as usize].name, s.note
                                    );
                                    self.bad(Class::Debug, t);
                                }
                            }
                        }
                    }
                    for part in s.note.split("V<").skip(1) {
                        let Some(id) = part.split_once('>').and_then(|x| x.0.parse::<u32>().ok())
                        else {
                            continue;
                        };
                        let mut ok = false;
                        for f in 0..m.fields.len() as u8 {
                            if broken.contains(&(s.oid, f)) {
                                ok = true;
                                break;
                            }
                            match self.feas_set((s.oid, f), s.inv, s.ret) {
                                Some(v) if !v.contains(&Some(id)) => (),
                                _ => {
                                    ok = true;
                                    break;
                                }
                            }
                        }
                        if !ok {
                            let d = self.describe(i);
                            self.bad(
                                Class::Debug,
                                format!("debug output shows {id}, which no field held during the call: {} {d}", s.note),
                            );
                        }
                    }
                }
                _ => (),
            }
        }
    }

    /// Guard lifetimes against each other, against operations and against builder runs.
    fn guards(&mut self) {
        let holds = self.r.holds.clone();
        let mut out = vec![];
        for (i, a) in holds.iter().enumerate() {
            for b in &holds[i + 1..] {
                if a.oid == b.oid
                    && a.f == b.f
                    && (a.mode == HMode::W || b.mode == HMode::W)
                    && a.start < b.end
                    && b.start < a.end
                {
                    out.push((a.f, format!(
                        "guards overlap on field {} of object {}: {:?} by t{} [{}..{}] and {:?} by t{} [{}..{}]",
                        a.f, a.oid, a.mode, a.tid, a.start, a.end, b.mode, b.tid, b.start, b.end
                    )));
                }
            }
            for x in &self.r.atts {
                if x.oid == a.oid && x.f == a.f && x.begin > a.start && x.begin < a.end {
                    out.push((a.f, format!(
                        "builder of field {} of object {} ran (t{}) while t{} held a guard of it",
                        a.f, a.oid, x.tid, a.tid
                    )));
                }
            }
        }
        for (j, s) in self.r.hist.iter().enumerate() {
            if s.cut || s.res.is_none() {
                continue;
            }
            for a in &holds {
                if a.oid != s.oid || a.tid == s.tid || s.inv < a.start || s.ret > a.end {
                    continue;
                }
                let done = match (&s.m, &s.res) {
                    (M::Set(_) | M::Put(_) | M::Clear, Some(Res::Old(_))) => a.f == s.f,
                    (M::WAcq, Some(Res::Unit)) => a.f == s.f,
                    (M::Read, Some(Res::Val(_))) => a.f == s.f && a.mode == HMode::W,
                    (M::Touch, Some(Res::Unit)) => a.f == s.f && a.mode == HMode::W,
                    (M::ObjClone, Some(Res::Unit)) if s.h == H::Clone => a.mode == HMode::W,
                    _ => false,
                };
                if done {
                    out.push((a.f, format!(
                        "{} completed while t{} held a {:?} guard [{}..{}] of field {}",
                        self.describe(j),
                        a.tid,
                        a.mode,
                        a.start,
                        a.end,
                        a.f
                    )));
                }
            }
        }
        for (f, t) in out {
            self.cur = Some(f);
            self.bad(Class::Guard, t);
        }
        self.cur = None;
    }

    /// Weak-memory observations of the lock-free predicate.
    fn visibility(&mut self) {
        let le = simrt::clock_le;
        let hist = self.r.hist.clone();
        let msgs: BTreeMap<usize, Vec<u64>> = self.r.msgs.iter().cloned().collect();
        // b certainly saw everything a did
        let hb = |a: &Sub, b: &Sub| -> bool {
            if a.phase != b.phase {
                return a.phase < b.phase;
            }
            if a.tid == b.tid {
                return a.ret < b.inv;
            }
            let mut c = a.c_ret.clone();
            // the last thing a setter or clearer does is to release the lock: who saw that release saw the effect
            if matches!((a.h, &a.m), (H::Set, M::Set(_)) | (H::Clear, M::Clear)) {
                if let Some(k) = c.get_mut(a.tid) {
                    *k = k.saturating_sub(1)
                }
            }
            !c.is_empty() && le(&c, &b.c_inv)
        };
        let mut out = vec![];
        for (i, x) in hist.iter().enumerate() {
            let (M::Has, Some(Res::Bool(b))) = (&x.m, &x.res)
            else {
                continue;
            };
            let Some(fm) = self.fm(x.oid, x.f)
            else {
                continue;
            };
            if fm.k != K::Lazy {
                continue;
            }
            let Some(init) = self.r.init.get(&(x.oid, x.f)).copied()
            else {
                continue;
            };
            let mut stores: Vec<&Sub> = vec![];
            let mut clears: Vec<&Sub> = vec![];
            for s in hist.iter() {
                if s.oid != x.oid || s.f != x.f {
                    continue;
                }
                let maybe = s.cut || s.res.is_none();
                match s.m {
                    M::Set(_) | M::Put(_) if maybe || matches!(s.res, Some(Res::Old(_))) => stores.push(s),
                    M::Clear if maybe || matches!(s.res, Some(Res::Old(_))) => clears.push(s),
                    M::Read | M::Touch => {
                        if s.atts.iter().any(|a| matches!(self.r.atts[*a].out, AttOut::Ok(_))) {
                            stores.push(s)
                        }
                    }
                    _ => (),
                }
            }
            let sure = |s: &&&Sub| !(s.cut || s.res.is_none() || s.res == Some(Res::Panic));
            if *b {
                // some store (or the initial value) must explain it
                let words = msgs.get(&i);
                let init_ok = init.is_some() && !clears.iter().filter(sure).any(|c| hb(c, x));
                let ok = init_ok
                    || stores.iter().any(|s| {
                        s.inv < x.ret
                            && !clears.iter().filter(sure).any(|c| hb(s, c) && hb(c, x))
                            && words.map_or(true, |w| s.phase < x.phase || w.get(s.tid).map_or(true, |v| *v >= s.data))
                    });
                if !ok {
                    out.push((i, format!("predicate said yes, and the observer saw {words:?}; no store explains that")));
                }
            }
            else {
                let init_ok = init.is_none() && !stores.iter().filter(sure).any(|s| hb(s, x));
                let ok = init_ok
                    || clears
                        .iter()
                        .any(|c| c.inv < x.ret && !stores.iter().filter(sure).any(|s| hb(c, s) && hb(s, x)));
                if !ok {
                    out.push((i, "predicate said no although a value had been stored before, and nobody cleared it".into()));
                }
            }
            // a later read by an observer that knows finds a value without building
            if *b {
                for y in hist.iter() {
                    if y.oid == x.oid && y.f == x.f && matches!(y.m, M::Read | M::Touch) && !y.atts.is_empty() && hb(x, y) {
                        let excuse = clears.iter().any(|c| !hb(c, x) && c.inv < y.ret);
                        if !excuse {
                            out.push((i, "predicate said yes, then a read ran the builder although nobody cleared".into()));
                        }
                    }
                }
            }
        }
        for (i, t) in out {
            let d = self.describe(i);
            self.cur = Some(self.r.hist[i].f);
            self.bad(Class::Vis, format!("{t}: {d}"));
        }
    }
}
