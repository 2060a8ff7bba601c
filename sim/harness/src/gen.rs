//! Seeded generation of plans. A plan only ever contains legal use: nested operations and builder dependencies follow one
//! global order of (object, field), so no cycle of waiting is of the clients' own making; everything else - which struct,
//! how many clients and objects, which helpers, how long guards are held, which faults hit where - is up to the seed.
use crate::catalog;
use crate::exec::{LOCAL, NULL_ID, OWNER};
use crate::obj::*;
use crate::plan::*;
use crate::state::Cb;
use simrt::rng::Rng;

#[derive(Clone)]
pub struct Prof {
    pub subs:     Vec<&'static Meta>,
    pub clients:  (usize, usize),
    pub ops:      (usize, usize),
    pub objs:     (usize, usize),
    pub setup:    (usize, usize),
    pub w:        Vec<(H, usize)>,
    /// per cent
    pub b_err:    usize,
    pub b_panic:  usize,
    pub b_pre:    usize,
    pub b_dep:    usize,
    pub cb:       usize,
    pub cancel:   usize,
    pub spurious: usize,
    pub late:     usize,
    pub body:     usize,
    pub nested:   usize,
    pub g_panic:  usize,
    pub hot:      usize,
    pub make:     usize,
    pub de:       usize,
    pub locals:   usize,
    pub gate:     bool,
    pub weak:     bool,
    pub release:  usize,
    pub bad_io:   usize,
    pub fields:   fn(&FieldMeta) -> bool,
    pub conflict: usize,
    /// format the object from inside builders and with guards held
    pub dbg_in:   usize,
    /// how deep operations nest inside builders and under guards
    pub deep:     u8,
    /// gate families: what is held are read guards, and others read the same cells
    pub share:    bool,
}

const FIELD_W: &[(H, usize)] =
    &[(H::Has, 12), (H::Get, 26), (H::Reader, 14), (H::GetMut, 12), (H::Writer, 12), (H::Set, 14), (H::Clear, 14), (H::Touch, 12)];

fn any(_: &FieldMeta) -> bool {
    true
}
fn lazy(f: &FieldMeta) -> bool {
    f.k == K::Lazy
}
fn locked_value(f: &FieldMeta) -> bool {
    f.k != K::Lazy && f.lock
}

fn has_lazy(m: &Meta) -> bool {
    m.fields.iter().any(lazy)
}
fn is_async(m: &Meta) -> bool {
    m.fields.iter().any(|f| f.a)
}
fn is_sync(m: &Meta) -> bool {
    !m.plain && m.fields.iter().any(|f| !f.a)
}

fn subs(f: impl Fn(&'static Meta) -> bool) -> Vec<&'static Meta> {
    catalog::ALL.iter().copied().filter(|m| f(m)).collect()
}

fn base() -> Prof {
    Prof {
        subs: subs(|m| !m.plain),
        clients: (2, 4),
        ops: (1, 5),
        objs: (1, 2),
        setup: (0, 2),
        w: FIELD_W.to_vec(),
        b_err: 8,
        b_panic: 6,
        b_pre: 45,
        b_dep: 15,
        cb: 4,
        cancel: 8,
        spurious: 15,
        late: 10,
        body: 30,
        nested: 10,
        g_panic: 3,
        hot: 65,
        make: 20,
        de: 20,
        locals: 10,
        gate: false,
        weak: false,
        release: 0,
        bad_io: 20,
        fields: any,
        conflict: 0,
        dbg_in: 4,
        deep: 2,
        share: false,
    }
}

fn plus(b: &[(H, usize)], x: &[(H, usize)]) -> Vec<(H, usize)> {
    let mut v = b.to_vec();
    v.extend_from_slice(x);
    v
}

/// Scenario families per property; the seed picks one of them. The last family uses everything the property's structs offer.
pub fn profiles(id: &str) -> Vec<Prof> {
    let mut v = focused(id);
    let mut all: Vec<&'static Meta> = vec![];
    for p in &v {
        for m in &p.subs {
            if !all.iter().any(|x| x.name == m.name) {
                all.push(m)
            }
        }
    }
    if all.is_empty() {
        return v;
    }
    let f0 = v[0].fields;
    let w = plus(
        FIELD_W,
        &[
            (H::Clone, 12),
            (H::Eq, 14),
            (H::Dbg, 8),
            (H::Ser, 8),
            (H::De, 6),
            (H::Make, 6),
            (H::Myself, 4),
            (H::Weak, 4),
            (H::DropLocal, 4),
        ],
    );
    v.push(Prof {
        subs: all.clone(),
        w: w.clone(),
        fields: f0,
        objs: (1, 3),
        clients: (2, 4),
        ops: (1, 6),
        hot: 75,
        locals: 20,
        make: 30,
        de: 30,
        conflict: 15,
        ..base()
    });
    // objects compared and copied while their fields are read: what whole-object operations do to the others
    let whole: Vec<&'static Meta> = all.iter().copied().filter(|m| !m.plain && (m.eq || m.clone || m.ser)).collect();
    if !whole.is_empty() {
        v.push(Prof {
            subs: whole,
            w: plus(
                &[(H::Has, 4), (H::Get, 40), (H::Reader, 20), (H::GetMut, 8), (H::Set, 6), (H::Clear, 10), (H::Touch, 15)],
                &[(H::Eq, 60), (H::Clone, 35), (H::Ser, 20), (H::Dbg, 10)],
            ),
            fields: f0,
            objs: (1, 2),
            clients: (2, 4),
            ops: (1, 3),
            setup: (0, 2),
            hot: 85,
            locals: 5,
            cb: 2,
            ..base()
        });
    }
    v
}

fn focused(id: &str) -> Vec<Prof> {
    let b = base();
    let reads: Vec<(H, usize)> = vec![(H::Get, 45), (H::Reader, 20), (H::GetMut, 8), (H::Has, 6), (H::Clear, 14), (H::Set, 7), (H::Touch, 15)];
    let storm: Vec<(H, usize)> = vec![(H::Get, 60), (H::Reader, 30), (H::Clear, 10), (H::Touch, 15)];
    match id {
        "C01" => {
            let s = subs(|m| is_sync(m) && m.fields.iter().any(|f| lazy(f) && !f.a));
            let p = Prof { subs: s, fields: |f| lazy(f) && !f.a, w: reads, objs: (1, 1), cancel: 0, make: 15, ..b };
            vec![
                Prof { w: storm.clone(), ops: (1, 2), setup: (0, 1), b_err: 0, b_panic: 0, cb: 0, body: 5, hot: 95, ..p.clone() },
                Prof { clients: (3, 5), ..p.clone() },
                Prof { w: FIELD_W.to_vec(), ..p.clone() },
            ]
        }
        "C02" => {
            let s = subs(|m| m.fields.iter().any(|f| lazy(f) && f.a));
            let p = Prof {
                subs: s,
                fields: |f| lazy(f) && f.a,
                w: reads,
                objs: (1, 1),
                spurious: 35,
                late: 25,
                cancel: 12,
                b_pre: 70,
                ..b
            };
            vec![
                Prof { w: storm.clone(), ops: (1, 2), setup: (0, 1), b_err: 0, b_panic: 0, cb: 0, body: 5, hot: 95, ..p.clone() },
                Prof { clients: (3, 5), ..p.clone() },
                Prof { w: FIELD_W.to_vec(), ..p.clone() },
            ]
        }
        "C03" => {
            let x = plus(FIELD_W, &[(H::Clone, 10), (H::Eq, 8), (H::Dbg, 8), (H::Make, 8), (H::Ser, 8), (H::De, 6)]);
            let p = Prof { subs: subs(has_lazy), w: x, make: 40, de: 40, locals: 30, b_dep: 40, ..b };
            let rich = subs(|m| has_lazy(m) && (m.clone || m.make.is_some() || m.deser.is_some()));
            vec![
                Prof { subs: rich, ..p.clone() },
                Prof { fields: lazy, ..p.clone() },
                Prof { subs: subs(|m| m.plain && has_lazy(m)), clients: (1, 1), ops: (4, 10), ..p.clone() },
                p,
            ]
        }
        "C04" => {
            let s = subs(|m| m.fields.iter().any(|f| lazy(f) && !f.a && f.lock));
            let p = Prof { subs: s, fields: |f| lazy(f) && !f.a, ops: (2, 5), objs: (1, 1), cancel: 2, ..b };
            vec![Prof { hot: 95, ..p.clone() }, Prof { clients: (2, 3), ops: (3, 7), hot: 80, ..p.clone() }, p]
        }
        "C05" => {
            let s = subs(|m| m.fields.iter().any(|f| lazy(f) && f.a));
            let p = Prof { subs: s, fields: |f| lazy(f) && f.a, ops: (2, 5), objs: (1, 1), cancel: 12, spurious: 25, late: 20, ..b };
            vec![Prof { hot: 95, ..p.clone() }, Prof { clients: (2, 3), ops: (3, 7), hot: 80, ..p.clone() }, p]
        }
        "C06" => {
            let s = subs(|m| m.fields.iter().any(locked_value));
            let p = Prof { subs: s, fields: locked_value, ops: (2, 5), objs: (1, 1), ..b };
            vec![Prof { hot: 95, ..p.clone() }, Prof { clients: (2, 3), ops: (3, 7), hot: 80, ..p.clone() }, p]
        }
        "C07" => {
            let p = Prof { body: 85, g_panic: 10, cancel: 15, nested: 15, clients: (2, 3), ..b.clone() };
            let x = plus(FIELD_W, &[(H::GetMut, 15), (H::Writer, 15), (H::Reader, 10)]);
            vec![
                Prof { w: x.clone(), hot: 90, objs: (1, 1), ..p.clone() },
                Prof { w: plus(&x, &[(H::Clone, 6)]), ..p.clone() },
                Prof { w: x, gate: true, share: true, hot: 0, body: 30, g_panic: 3, cancel: 5, objs: (1, 2), ..b },
            ]
        }
        "C08" => {
            let p = Prof { subs: subs(has_lazy), fields: lazy, b_err: 35, b_panic: 25, g_panic: 1, cancel: 4, ..b };
            vec![
                Prof { subs: subs(|m| !m.plain && m.fields.iter().any(|f| lazy(f) && f.fallible)), hot: 90, ..p.clone() },
                Prof { subs: subs(|m| !m.plain && has_lazy(m)), ..p.clone() },
                Prof { subs: subs(|m| m.plain && has_lazy(m)), clients: (1, 1), ops: (4, 10), ..p.clone() },
            ]
        }
        "C09" => {
            let s = subs(is_async);
            let p = Prof { subs: s, cancel: 45, spurious: 20, late: 15, b_pre: 75, body: 45, fields: |f| f.a, ..b };
            vec![Prof { hot: 92, objs: (1, 1), ..p.clone() }, Prof { fields: any, ..p.clone() }, Prof { fields: lazy, nested: 25, b_dep: 35, ..p }]
        }
        "C10" => {
            let p = Prof { nested: 30, b_dep: 40, late: 25, body: 45, clients: (2, 5), ..b };
            let x = plus(FIELD_W, &[(H::Clone, 8), (H::Eq, 20), (H::Dbg, 14)]);
            let y = plus(FIELD_W, &[(H::Clone, 8), (H::Dbg, 14)]);
            vec![
                Prof { w: x.clone(), subs: subs(|m| m.eq && !m.plain), objs: (1, 2), ..p.clone() },
                Prof { w: y, subs: subs(|m| (m.dbg || m.clone) && !m.plain), ..p.clone() },
                Prof { b_err: 15, b_panic: 15, cancel: 20, cb: 10, g_panic: 6, ..p.clone() },
                Prof { objs: (2, 3), ..p },
            ]
        }
        "C11" => {
            let p = Prof { objs: (1, 2), locals: 35, cancel: 2, setup: (1, 4), cb: 6, ..b.clone() };
            let cl = plus(FIELD_W, &[(H::Clone, 40), (H::Dbg, 6)]);
            vec![
                Prof { w: cl.clone(), subs: subs(|m| m.clone && !m.plain), ..p.clone() },
                Prof { w: plus(FIELD_W, &[(H::Eq, 50), (H::Clone, 8)]), subs: subs(|m| m.eq && !m.plain), objs: (1, 2), ..p.clone() },
                Prof {
                    w: plus(FIELD_W, &[(H::Dbg, 50)]),
                    subs: subs(|m| m.dbg && !m.plain),
                    dbg_in: 40,
                    body: 50,
                    ..p.clone()
                },
                Prof {
                    w: plus(FIELD_W, &[(H::Dbg, 50)]),
                    subs: subs(|m| m.dbg && !m.plain),
                    gate: true,
                    hot: 0,
                    cancel: 3,
                    ..b.clone()
                },
                Prof {
                    w: plus(&cl, &[(H::Eq, 30), (H::Dbg, 20)]),
                    subs: subs(|m| m.clone && m.plain),
                    clients: (1, 1),
                    ops: (4, 10),
                    objs: (1, 2),
                    ..p.clone()
                },
            ]
        }
        "C12" => {
            let s = subs(|m| m.ser);
            let p = Prof {
                subs: subs(|m| m.ser && !m.plain),
                w: plus(FIELD_W, &[(H::Ser, 40), (H::De, 35)]),
                de: 50,
                locals: 25,
                cb: 8,
                setup: (1, 4),
                bad_io: 35,
                objs: (1, 2),
                b_err: 12,
                ..b
            };
            vec![
                p.clone(),
                Prof { clients: (1, 2), ops: (3, 8), ..p.clone() },
                Prof { subs: subs(|m| m.ser && m.plain), clients: (1, 1), ops: (4, 10), ..p.clone() },
                Prof { subs: s, clients: (1, 1), ops: (4, 9), b_err: 0, b_panic: 0, cb: 0, bad_io: 0, ..p },
            ]
        }
        "C13" => {
            let s = subs(|m| m.make.is_some());
            let p = Prof {
                subs: s,
                w: plus(FIELD_W, &[(H::Make, 60)]),
                make: 100,
                locals: 40,
                clients: (1, 2),
                ops: (2, 7),
                cb: 10,
                ..b
            };
            vec![
                Prof { subs: subs(|m| m.make.is_some() && !m.plain), ..p.clone() },
                Prof { subs: subs(|m| m.make.is_some() && m.plain), clients: (1, 1), ..p.clone() },
                Prof { subs: subs(|m| m.post), clients: (1, 1), ..p },
            ]
        }
        "C14" => {
            let w = plus(FIELD_W, &[(H::Myself, 25), (H::Weak, 25), (H::DropRef, 14), (H::DropLocal, 14)]);
            let p = Prof { subs: subs(|m| m.rc && !m.plain), w, locals: 30, release: 60, make: 45, objs: (1, 2), ops: (2, 6), ..b };
            vec![
                p.clone(),
                Prof { objs: (1, 1), ..p.clone() },
                Prof { subs: subs(|m| m.rc && m.plain), clients: (1, 1), ops: (4, 10), ..p },
            ]
        }
        "C15" => {
            let all = plus(
                FIELD_W,
                &[(H::Clone, 8), (H::Eq, 3), (H::Dbg, 3), (H::Make, 6), (H::Ser, 5), (H::De, 5), (H::DropLocal, 5)],
            );
            let p = Prof {
                w: all,
                b_err: 20,
                b_panic: 18,
                cb: 22,
                cancel: 18,
                body: 45,
                g_panic: 10,
                make: 35,
                de: 30,
                locals: 20,
                bad_io: 40,
                ..b
            };
            vec![
                p.clone(),
                Prof { subs: subs(is_async), cancel: 35, ..p.clone() },
                Prof { subs: subs(|m| m.fields.iter().any(|f| f.into) && !m.plain), ..p.clone() },
                Prof { subs: subs(|m| m.plain), clients: (1, 1), ops: (4, 10), ..p },
            ]
        }
        "C16" => {
            let p = Prof { gate: true, subs: subs(|m| !m.plain), objs: (1, 3), hot: 0, cancel: 4, setup: (0, 3), ..b.clone() };
            vec![
                p.clone(),
                Prof { subs: subs(|m| !m.plain && m.fields.len() > 1), objs: (1, 1), ..p.clone() },
                Prof { subs: subs(|m| !m.plain && m.fields.len() > 2), hot: 10, objs: (1, 2), ..b.clone() },
                Prof { subs: subs(|m| m.plain && m.fields.len() > 1), hot: 10, clients: (1, 1), ops: (4, 10), nested: 30, ..b },
            ]
        }
        "C17" => {
            let s = subs(|m| m.plain);
            let p = Prof {
                subs: s,
                clients: (1, 1),
                ops: (4, 14),
                objs: (1, 2),
                setup: (0, 3),
                b_err: 15,
                b_panic: 15,
                b_dep: 40,
                cb: 18,
                nested: 30,
                conflict: 25,
                hot: 40,
                ..b
            };
            vec![
                p.clone(),
                Prof { subs: subs(|m| m.plain && m.fields.iter().any(|f| f.cell)), conflict: 60, body: 70, ..p.clone() },
                Prof { subs: subs(|m| m.plain && m.fields.iter().any(|f| f.into)), cb: 40, ..p.clone() },
                Prof { b_err: 0, b_panic: 0, cb: 0, hot: 85, ..p },
            ]
        }
        "C18" => {
            let s = subs(|m| !m.plain && m.fields.iter().any(|f| lazy(f) && f.ops & ops::HAS != 0));
            let w = vec![
                (H::Has, 8),
                (H::MsgGet, 40),
                (H::Get, 16),
                (H::Reader, 5),
                (H::GetMut, 4),
                (H::Writer, 10),
                (H::Set, 14),
                (H::Clear, 12),
                (H::Touch, 8),
                (H::Clone, 4),
            ];
            let p = Prof {
                subs: s,
                fields: |f| lazy(f) && f.ops & ops::HAS != 0,
                w,
                weak: true,
                objs: (1, 1),
                hot: 95,
                ops: (1, 4),
                make: 30,
                de: 30,
                cb: 2,
                cancel: 6,
                ..b
            };
            vec![
                p.clone(),
                Prof { subs: subs(|m| is_async(m) && m.fields.iter().any(|f| lazy(f) && f.a && f.ops & ops::HAS != 0)), ..p.clone() },
                Prof { clients: (2, 2), ops: (1, 3), setup: (0, 1), b_err: 0, b_panic: 0, ..p },
            ]
        }
        _ => vec![],
    }
}

struct G<'a> {
    r:    Rng,
    p:    &'a Prof,
    m:    &'static Meta,
    n:    usize,
    hot:  (u8, u8),
    eq:   bool,
    /// cells nobody but the gate holders may touch, and how much of their object is off limits
    taboo: Vec<(u8, u8)>,
    pool:  bool,
}

#[derive(Clone, Copy)]
struct Ctx {
    depth: u8,
    /// only cells above this one
    above: Option<(u8, u8)>,
    /// inside a builder: the owner's fields above this are fair game
    owner: Option<u8>,
    /// in the set-up phase or plain: handles are unique
    unique: bool,
    top:   bool,
}

impl<'a> G<'a> {
    fn pct(&mut self, n: usize) -> bool {
        n > 0 && self.r.below(100) < n
    }

    fn field_ops(&self, f: u8, unique: bool) -> Vec<H> {
        let fm = &self.m.fields[f as usize];
        let mut v = vec![];
        for (h, b) in [
            (H::Has, ops::HAS),
            (H::Get, ops::GET),
            (H::Reader, ops::READER),
            (H::GetMut, ops::GET_MUT),
            (H::Writer, ops::WRITER),
            (H::Set, ops::SET),
            (H::Clear, ops::CLEAR),
            (H::Touch, ops::TOUCH),
        ] {
            if fm.ops & b != 0 && (unique || fm.excl & b == 0) {
                v.push(h)
            }
        }
        v
    }

    fn builds(&mut self, obj: u8, f: u8, c: Ctx) -> Vec<Build> {
        let fm = &self.m.fields[f as usize];
        if fm.k != K::Lazy {
            return vec![];
        }
        let fallible = fm.fallible;
        let mut b = Build { field: None, pre: vec![], out: BOut::Ok };
        if self.pct(self.p.b_pre) {
            for _ in 0..self.r.range(1, 2) {
                let x = self.r.below(10);
                b.pre.push(if x < 6 {
                    Step::Yield(self.r.range(1, 3) as u32)
                }
                else {
                    Step::Sleep(self.ticks(60))
                });
            }
        }
        if c.depth < self.p.deep && self.pct(self.p.b_dep) {
            let far = self.p.deep > 2 && self.pct(96);
            let x = if self.pct(75) && !far || obj >= LOCAL || self.eq {
                Ctx { depth: c.depth + 1, above: None, owner: Some(f), unique: false, top: false }
            }
            else {
                Ctx { depth: c.depth + 1, above: Some((obj, f)), owner: None, unique: false, top: false }
            };
            if let Some(o) = self.field_op(x) {
                let at = self.r.below(b.pre.len() + 1);
                b.pre.insert(at, Step::Op(Box::new(o)));
            }
        }
        if self.pct(self.p.dbg_in) && self.m.dbg {
            let at = self.r.below(b.pre.len() + 1);
            let o = if obj >= LOCAL || self.pct(60) { OWNER } else { obj };
            b.pre.insert(at, Step::Op(Box::new(Op::new(H::Dbg, o, 0))));
        }
        if fallible && self.pct(self.p.b_err) {
            b.out = BOut::Err
        }
        else if self.pct(self.p.b_panic) {
            b.out = BOut::Panic;
            let x = Ctx { depth: c.depth + 1, above: None, owner: Some(f), unique: false, top: false };
            if let Some(o) = self.cleanup(x) {
                b.pre.push(Step::Unwind(Box::new(o)))
            }
        }
        if b.pre.is_empty() && b.out == BOut::Ok {
            return vec![];
        }
        vec![b]
    }

    fn body(&mut self, obj: u8, f: u8, h: H, c: Ctx) -> Vec<Step> {
        let mut v = vec![];
        if !self.pct(self.p.body) {
            return v;
        }
        for _ in 0..self.r.range(1, 3) {
            let w = matches!(h, H::GetMut | H::Writer);
            let x = self.r.below(100);
            if w && x < 40 {
                v.push(if self.pct(70) { Step::Put } else { Step::Take })
            }
            else if x < 65 {
                v.push(Step::Yield(self.r.range(1, 3) as u32))
            }
            else if x < 75 {
                v.push(Step::Sleep(self.ticks(80)))
            }
            else {
                v.push(Step::Peek)
            }
        }
        let fm = &self.m.fields[f as usize];
        if fm.cell && c.depth < self.p.deep && self.pct(self.p.conflict) {
            // touch the very same interior-mutable field: conflicting borrows must be reported, shared ones granted
            let l = self.field_ops(f, false);
            if !l.is_empty() {
                let h2 = *self.r.pick(&l);
                let mut o = Op::new(h2, obj, f);
                if self.pct(30) {
                    o.body = vec![Step::Peek]
                }
                v.push(Step::Op(Box::new(o)));
                v.push(Step::Peek);
            }
        }
        if c.depth < self.p.deep && self.pct(self.p.nested) && obj < LOCAL {
            let x = Ctx { depth: c.depth + 1, above: Some((obj, f)), owner: None, unique: false, top: false };
            if let Some(o) = self.field_op(x) {
                v.push(Step::Op(Box::new(o)));
            }
        }
        if self.pct(self.p.dbg_in) && self.m.dbg && obj != OWNER {
            let at = self.r.below(v.len() + 1);
            v.insert(at, Step::Op(Box::new(Op::new(H::Dbg, obj, 0))));
        }
        if self.pct(self.p.g_panic) {
            let x = Ctx { depth: c.depth + 1, above: Some((obj, f)), owner: None, unique: false, top: false };
            let o = if obj < LOCAL { self.cleanup(x) } else { None };
            v.push(o.map_or(Step::Panic, |o| Step::Unwind(Box::new(o))))
        }
        v
    }

    /// what a destructor does while a panic passes by
    fn cleanup(&mut self, x: Ctx) -> Option<Op> {
        if self.pool || !self.pct(35) {
            return None;
        }
        let mut o = self.field_op(x)?;
        if self.m.fields[o.f as usize].cell {
            return None;
        }
        o.fault = None;
        o.drv = Drv::default();
        Some(o)
    }

    /// how long a step takes; now and then far longer than any wait could be meant to last
    fn ticks(&mut self, max: usize) -> u32 {
        if self.pct(4) {
            *self.r.pick(&[3_000u32, 150_000, 2_500_000, 90_000_000])
        }
        else {
            self.r.range(1, max) as u32
        }
    }

    fn pick_h(&mut self, l: &[H]) -> H {
        let w: Vec<usize> = l
            .iter()
            .map(|h| self.p.w.iter().filter(|(x, _)| x == h).map(|(_, n)| *n).sum::<usize>().max(1))
            .collect();
        l[self.r.weighted(&w)]
    }

    fn field_op(&mut self, c: Ctx) -> Option<Op> {
        let nf = self.m.fields.len() as u8;
        let (obj, f, unique) = if let Some(of) = c.owner {
            if of + 1 >= nf {
                return None;
            }
            let mut f = of + 1 + self.r.below((nf - of - 1) as usize) as u8;
            if self.p.deep > 2 {
                // chains: the very next lazy field
                f = (of + 1..nf).find(|f| self.m.fields[*f as usize].k == K::Lazy).unwrap_or(f)
            }
            (OWNER, f, false)
        }
        else {
            let mut cells: Vec<(u8, u8)> = vec![];
            for o in 0..self.n as u8 {
                for f in 0..nf {
                    if let Some(a) = c.above {
                        if (o, f) <= a || (self.eq && o != a.0) {
                            continue;
                        }
                    }
                    if self.taboo.contains(&(o, f)) {
                        continue;
                    }
                    if c.top && !(self.p.fields)(&self.m.fields[f as usize]) && !self.pct(6) {
                        continue;
                    }
                    cells.push((o, f));
                }
            }
            if c.top && self.pct(self.p.locals) {
                // a local object: unique, nobody else knows it
                let fs: Vec<u8> = (0..nf).filter(|f| (self.p.fields)(&self.m.fields[*f as usize])).collect();
                let f = if fs.is_empty() { self.r.below(nf as usize) as u8 } else { *self.r.pick(&fs) };
                (LOCAL + self.r.below(2) as u8, f, true)
            }
            else if cells.is_empty() {
                return None;
            }
            else if c.top && cells.contains(&self.hot) && self.pct(self.p.hot) {
                (self.hot.0, self.hot.1, c.unique)
            }
            else if self.p.deep > 2 && c.above.is_some() {
                let next = cells.iter().copied().find(|x| self.m.fields[x.1 as usize].k == K::Lazy);
                let x = next.unwrap_or(cells[0]);
                (x.0, x.1, c.unique)
            }
            else {
                let x = *self.r.pick(&cells);
                (x.0, x.1, c.unique)
            }
        };
        let l = self.field_ops(f, unique);
        if l.is_empty() {
            return None;
        }
        let mut l2 = l.clone();
        if c.top && self.p.w.iter().any(|(h, _)| *h == H::MsgGet) && l.contains(&H::Has) {
            l2.push(H::MsgGet);
        }
        let h = self.pick_h(&l2);
        let mut op = Op::new(h, obj, f);
        let fm = &self.m.fields[f as usize];
        if matches!(h, H::Get | H::Reader | H::GetMut | H::Touch) && !(obj == OWNER) {
            op.build = self.builds(obj, f, c);
        }
        else if obj == OWNER && matches!(h, H::Get | H::Reader | H::GetMut | H::Touch) && c.depth < self.p.deep {
            op.build = self.builds(OWNER, f, c);
        }
        if matches!(h, H::Get | H::Reader | H::GetMut | H::Writer) && obj != OWNER {
            op.body = self.body(obj, f, h, c);
        }
        if self.pct(self.p.cb) && fm.tracked {
            op.fault = match h {
                H::Get if fm.owned => Some((Cb::Clone, 0)),
                H::Set if fm.into => Some((Cb::Into, 0)),
                _ => None,
            };
        }
        Some(op)
    }

    fn make(&mut self) -> Make {
        let sett: Vec<u8> = (0..self.m.fields.len() as u8).filter(|f| self.m.fields[*f as usize].b_set).collect();
        let req: Vec<u8> = sett.iter().copied().filter(|f| self.m.fields[*f as usize].b_req).collect();
        let mut first: Vec<u8> = vec![];
        let keep = 30 + self.r.below(70);
        for f in &sett {
            if self.pct(keep) {
                first.push(*f)
            }
        }
        if self.pct(60) {
            for f in &req {
                if !first.contains(f) {
                    first.push(*f)
                }
            }
        }
        // set one twice now and then: the later value counts, the earlier goes away
        if !first.is_empty() && self.pct(15) {
            let f = *self.r.pick(&first);
            first.push(f)
        }
        for i in (1..first.len()).rev() {
            let j = self.r.below(i + 1);
            first.swap(i, j)
        }
        let mut second: Vec<u8> = vec![];
        if self.pct(70) {
            let all = self.pct(75);
            for f in &req {
                if !first.contains(f) && (all || self.pct(50)) {
                    second.push(*f)
                }
            }
            if self.pct(30) && !sett.is_empty() {
                let f = *self.r.pick(&sett);
                if !second.contains(&f) {
                    second.push(f)
                }
            }
        }
        let into: Vec<u8> = first.iter().copied().filter(|f| self.m.fields[*f as usize].b_into).collect();
        let into_panic = if !into.is_empty() && self.pct(self.p.cb) { Some(*self.r.pick(&into)) } else { None };
        let post = if self.m.post && self.pct(30) {
            Some(if self.pct(50) && self.m.post_fallible { BOut::Err } else { BOut::Panic })
        }
        else {
            None
        };
        Make { first, second, into_panic, post, again: self.pct(20) }
    }

    fn op(&mut self, c: Ctx) -> Option<Op> {
        // object-level operations only at top level
        let objl: Vec<(H, usize)> = self
            .p
            .w
            .iter()
            .copied()
            .filter(|(h, _)| match h {
                H::Clone => self.m.clone && !self.pool,
                H::Eq => self.m.eq && !self.pool,
                H::Dbg => self.m.dbg,
                H::Ser => self.m.ser && !self.pool,
                H::De => self.m.deser.is_some(),
                H::Make => true,
                H::Myself | H::Weak | H::DropRef => self.m.rc,
                H::DropLocal => true,
                _ => false,
            })
            .collect();
        let fw: usize = 100;
        let only_dbg = !self.taboo.is_empty();
        let objl: Vec<(H, usize)> = objl.into_iter().filter(|(h, _)| !only_dbg || *h == H::Dbg).collect();
        let ow: usize = objl.iter().map(|x| x.1).sum();
        if ow == 0 || self.r.below(ow + fw) < fw {
            let mut op = self.field_op(c)?;
            let fm = &self.m.fields[op.f as usize];
            let can_pend = fm.a || !op.body.is_empty();
            if can_pend && self.pct(self.p.cancel) {
                op.drv.cancel = self.r.range(1, 5) as u32
            }
            if can_pend && self.pct(self.p.spurious) {
                op.drv.spurious = self.r.range(1, 4) as u32
            }
            if can_pend && self.pct(self.p.late) {
                op.drv.late = self.r.range(1, 50) as u32
            }
            return Some(op);
        }
        let w: Vec<usize> = objl.iter().map(|x| x.1).collect();
        let h = objl[self.r.weighted(&w)].0;
        let obj = if self.pct(self.p.locals) { LOCAL + self.r.below(2) as u8 } else { self.r.below(self.n) as u8 };
        let mut op = Op::new(h, obj, 0);
        let nf = self.m.fields.len();
        match h {
            H::Clone => {
                if self.pct(self.p.cb) {
                    op.fault = Some((Cb::Clone, self.r.below(nf) as u32))
                }
            }
            H::Eq => {
                op.aux = if self.pct(25) {
                    obj as u32
                }
                else if self.pct(self.p.locals) {
                    (LOCAL + self.r.below(2) as u8) as u32
                }
                else {
                    self.r.below(self.n) as u32
                };
                if self.pct(self.p.cb) {
                    op.fault = Some((Cb::Eq, self.r.below(nf) as u32))
                }
            }
            H::Dbg => {
                op.aux = self.r.below(1600) as u32;
                if self.pct(50) {
                    op.aux &= !1
                }
                if self.pct(self.p.cb) {
                    op.fault = Some((Cb::Debug, self.r.below(nf) as u32))
                }
            }
            H::Ser => {
                if self.pct(self.p.cb) {
                    op.fault = Some((if self.pct(50) { Cb::Ser } else { Cb::Clone }, self.r.below(nf) as u32))
                }
                else if self.pct(self.p.bad_io) {
                    op.aux = 1 + self.r.below(60) as u32
                }
                // scripts for the builders that run on the private copy
                for f in 0..nf as u8 {
                    let x = Ctx { depth: 1, above: None, owner: Some(f), unique: false, top: false };
                    for mut b in self.builds(OWNER, f, x) {
                        // they may read their private owner but not change it: what they change goes to nobody
                        b.pre.retain(|s| match s {
                            Step::Op(o) | Step::Unwind(o) => read_only(o),
                            _ => true,
                        });
                        b.field = Some(f);
                        op.build.push(b)
                    }
                }
            }
            H::De => {
                if self.pct(self.p.bad_io) {
                    op.aux = 1 + self.r.below(400) as u32
                }
            }
            H::Make => {
                if self.m.make.is_some() && self.pct(80) {
                    op.make = Some(self.make())
                }
            }
            H::Myself => {
                if self.pct(40) {
                    op.body = vec![Step::Yield(self.r.range(1, 3) as u32)]
                }
            }
            H::Weak => {
                if self.pct(50) {
                    op.aux = 1
                }
            }
            _ => (),
        }
        let _ = c;
        Some(op)
    }

    fn init(&mut self) -> Init {
        if self.m.make.is_some() && self.pct(self.p.make) {
            let mut mk = self.make();
            // objects have to come to be: give whatever is required
            if self.pct(85) || self.p.gate {
                for f in 0..self.m.fields.len() as u8 {
                    if self.m.fields[f as usize].b_req && !mk.first.contains(&f) {
                        mk.first.push(f)
                    }
                }
                mk.post = None;
                mk.into_panic = None;
            }
            return Init::Make(mk);
        }
        if self.m.deser.is_some() && self.pct(self.p.de) {
            let mut v = vec![];
            for (i, fm) in self.m.fields.iter().enumerate() {
                let need = fm.k == K::Eager && fm.de_dflt.is_none() && !self.m.de_struct_default;
                let x = self.r.below(10);
                v.push(if x < 2 && fm.k != K::Eager {
                    Some(NULL_ID)
                }
                else if need || x < 6 {
                    Some(7_000_000 + i as u32)
                }
                else {
                    None
                });
            }
            return Init::De(v);
        }
        Init::New
    }
}

fn strategy(r: &mut Rng) -> Strat {
    match r.below(100) {
        0..=27 => Strat::Random,
        28..=47 => Strat::Sticky(*r.pick(&[2u8, 4, 6])),
        48..=71 => Strat::Pct(r.range(1, 4) as u8, *r.pick(&[60u16, 150, 400])),
        72..=94 => Strat::Preempt(r.range(1, 4) as u8, *r.pick(&[40u16, 120, 300])),
        _ => Strat::RoundRobin,
    }
}

/// Hundreds of operations, mostly of a few kinds and mostly on one field.
fn long(p: &mut Prof, r: &mut Rng) {
    p.clients = (1, 2);
    p.ops = *r.pick(&[(150, 300), (300, 600), (700, 1200)]);
    p.objs = (1, 1);
    p.hot = 97;
    p.locals = 0;
    p.nested = 1;
    p.body = 5;
    p.b_pre = 5;
    p.b_dep = 1;
    p.cancel = if r.chance(1, 3) { 20 } else { 0 };
    p.spurious = 3;
    p.late = 1;
    p.g_panic = 1;
    p.cb = 1;
    p.dbg_in = 0;
    p.conflict = 1;
    for (h, w) in &mut p.w {
        *w *= match h {
            H::Clone | H::Eq | H::Dbg | H::Ser | H::De | H::Make | H::Myself | H::Weak => *r.pick(&[0usize, 0, 1]),
            H::DropRef | H::DropLocal | H::MsgGet | H::MsgPut => 0,
            _ => *r.pick(&[1usize, 1, 8, 30]),
        }
    }
}

pub fn plan(id: &str, seed: u64) -> Plan {
    let ps = profiles(id);
    let mut shape = Rng::new(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5AFE);
    let mut r = Rng::new(seed ^ 0xF1E1_D000_0000_0000 ^ id.bytes().fold(0u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let mut p = ps[r.below(ps.len())].clone();
    let mut m: &'static Meta = p.subs[r.below(p.subs.len())];
    match shape.below(3000) {
        _ if p.gate || p.weak => (),
        // long histories of few clients: whatever counts, wraps around or wears out
        0..=1 => long(&mut p, &mut shape),
        // many clients at once: whatever has room for so many and no more
        2..=21 => {
            p.clients = (8, 20);
            p.ops = (1, 2);
            p.objs = (1, 1);
            p.hot = 92;
            p.nested = 2;
            p.cancel /= 2;
            for (h, w) in &mut p.w {
                if matches!(h, H::Get | H::Reader) {
                    *w *= 4
                }
            }
        }
        // a crowd
        47..=48 => {
            p.clients = (33, 90);
            p.ops = (1, 1);
            p.objs = (1, 1);
            p.setup = (0, 1);
            p.hot = 97;
            p.nested = 0;
            p.b_dep = 0;
            p.cancel = if shape.chance(1, 3) { 20 } else { 0 };
            for (h, w) in &mut p.w {
                *w = match h {
                    H::Get | H::Reader => 20 * *w,
                    H::Clone | H::Eq | H::Ser | H::De | H::Make => *w / 8,
                    _ => *w,
                }
            }
        }
        // many clients, each busy somewhere else
        22..=31 => {
            p.clients = (6, 14);
            p.ops = (1, 2);
            p.objs = (3, 8);
            p.setup = (0, 1);
            p.hot = 10;
            p.b_pre = 70;
            p.b_dep = 50;
            p.body = 50;
            p.nested = 30;
        }
        // builders that need fields whose builders need fields
        32..=46 => {
            p.deep = 40;
            for _ in 0..4 {
                let x = p.subs[r.below(p.subs.len())];
                if x.fields.iter().filter(|f| f.k == K::Lazy).count() > m.fields.iter().filter(|f| f.k == K::Lazy).count() {
                    m = x
                }
            }
            p.b_dep = 97;
            p.b_pre = 20;
            p.b_err = 1;
            p.b_panic = 1;
            p.ops = (1, 3);
            p.objs = (2, 6);
            p.setup = (0, 0);
            p.nested = 2;
            for (h, w) in &mut p.w {
                *w = match h {
                    H::Get | H::Reader | H::Touch => 4 * *w + 10,
                    H::GetMut => 1 + *w / 2,
                    _ => *w / 8,
                }
            }
        }
        _ => (),
    }
    if p.gate && shape.chance(1, 20) {
        p.objs = (3, 6)
    }
    // a crowd of guards on one field
    let crowd = if p.gate && p.share && shape.chance(1, 60) { shape.range(33, 90) } else { 0 };
    let n = r.range(p.objs.0, p.objs.1);
    let strat = strategy(&mut r);
    let eq = p.w.iter().any(|(h, _)| *h == H::Eq) && m.eq;
    let cells: Vec<u8> = (0..m.fields.len() as u8).filter(|f| (p.fields)(&m.fields[*f as usize])).collect();
    let hot_f = if cells.is_empty() { r.below(m.fields.len()) as u8 } else { *r.pick(&cells) };
    let hot_f = if p.deep > 2 { cells.iter().copied().find(|f| m.fields[*f as usize].k == K::Lazy).unwrap_or(hot_f) } else { hot_f };
    // clients as tasks: nothing they do may block a thread
    let pool = !p.weak && !m.plain && m.fields.iter().all(|f| f.a || !f.lock && !f.cell) && r.chance(2, 5);
    let mut g = G { r, p: &p, m, n, hot: (0, hot_f), eq, taboo: vec![], pool };
    let init: Vec<Init> = (0..n).map(|_| g.init()).collect();
    let top = Ctx { depth: 0, above: None, owner: None, unique: m.plain, top: true };
    let mut setup = vec![];
    for _ in 0..g.r.range(p.setup.0, p.setup.1) {
        if let Some(mut o) = g.field_op(Ctx { unique: true, ..top }) {
            if o.h == H::MsgGet {
                o.h = H::Has
            }
            setup.push(o)
        }
    }
    let nc = if m.plain { 1 } else { g.r.range(p.clients.0, p.clients.1) };
    let mut clients: Vec<Vec<Op>> = vec![];
    if p.gate {
        // some clients hold a guard or a builder of one cell until all others have finished
        let holders = if g.r.chance(1, 10) { g.r.range(3, 10) } else { 1 + g.r.below(2) };
        let holders = if crowd > 0 { 1 } else { holders };
        let mut held: Vec<(u8, u8)> = vec![];
        let mut gate_ops = vec![];
        for _ in 0..holders {
            for _ in 0..20 {
                let (o, f) = (g.r.below(n) as u8, g.r.below(m.fields.len()) as u8);
                let fm = &m.fields[f as usize];
                if held.contains(&(o, f)) || !fm.lock {
                    continue;
                }
                let l: Vec<H> = g
                    .field_ops(f, false)
                    .into_iter()
                    .filter(|h| matches!(h, H::Get | H::Reader | H::GetMut | H::Writer))
                    .filter(|h| !(*h == H::Get && fm.owned && fm.k != K::Lazy))
                    .filter(|h| !p.share || *h == H::Reader || *h == H::Get && !fm.owned)
                    .collect();
                // readers of async lazy fields exclude one another by construction
                let l = if p.share && fm.a && fm.k == K::Lazy { vec![] } else { l };
                if l.is_empty() {
                    continue;
                }
                let h = *g.r.pick(&l);
                let mut op = Op::new(h, o, f);
                let builder = !p.share && fm.k == K::Lazy && h != H::Writer && (g.pct(55) || fm.owned);
                if builder {
                    op.build = vec![Build { field: None, pre: vec![Step::WaitGate], out: BOut::Ok }]
                }
                else {
                    op.body = vec![Step::WaitGate, Step::Peek]
                }
                held.push((o, f));
                gate_ops.push(op);
                break;
            }
        }
        g.taboo = held;
        if let (Some(o), true) = (gate_ops.last().cloned(), crowd > 0) {
            for _ in 1..crowd {
                gate_ops.push(o.clone())
            }
        }
        for op in gate_ops {
            clients.push(vec![op]);
        }
        let others = nc.max(2) - 1;
        for _ in 0..others {
            let mut v = vec![];
            for _ in 0..g.r.range(p.ops.0, p.ops.1) {
                if let Some(mut o) = g.op(top) {
                    // nested steps might reach a held cell through the owner: keep them away
                    strip_owner(&mut o);
                    v.push(o)
                }
                if p.share && g.pct(60) && !g.taboo.is_empty() {
                    let (o, f) = *g.r.pick(&g.taboo);
                    let l: Vec<H> =
                        g.field_ops(f, false).into_iter().filter(|h| matches!(h, H::Get | H::Reader | H::Has | H::Touch)).collect();
                    if !l.is_empty() {
                        let mut op = Op::new(*g.r.pick(&l), o, f);
                        op.body = vec![Step::Peek];
                        v.push(op)
                    }
                }
            }
            clients.push(v);
        }
        strip_setup(&mut setup, &g.taboo);
    }
    else {
        for _ in 0..nc {
            let mut v = vec![];
            for _ in 0..g.r.range(p.ops.0, p.ops.1) {
                if let Some(o) = g.op(top) {
                    v.push(o)
                }
            }
            clients.push(v);
        }
    }
    let release = g.pct(p.release);
    let pool = match (pool, clients.len()) {
        (false, _) => 0,
        (true, n) if n < 2 || g.pct(55) => 1,
        (true, n) => g.r.range(2, n) as u8,
    };
    Plan { subj: m.name.into(), seed, strat, weak: p.weak, init, setup, clients, release, pool, decisions: None }
}

fn read_only(o: &Op) -> bool {
    o.obj != OWNER
        || (matches!(o.h, H::Has | H::Get | H::Reader | H::Touch)
            && o.build.iter().all(|b| b.pre.iter().all(|s| !matches!(s, Step::Op(x) | Step::Unwind(x) if !read_only(x))))
            && o.body.iter().all(|s| !matches!(s, Step::Op(x) | Step::Unwind(x) if !read_only(x))))
}

fn strip_owner(o: &mut Op) {
    for b in &mut o.build {
        b.pre.retain(|s| !matches!(s, Step::Op(_) | Step::Unwind(_)));
    }
    for s in &mut o.body {
        if let Step::Op(x) | Step::Unwind(x) = s {
            strip_owner(x)
        }
    }
}
fn strip_setup(_s: &mut [Op], _t: &[(u8, u8)]) {}
