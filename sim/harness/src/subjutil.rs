//! Bits the generated catalogue needs.
pub use crate::arena::{arc, boxed};
use crate::obj::*;
use crate::val::*;
use fieldx::error::FieldXError;
use std::fmt::Debug;

/// Bound of generic subjects.
pub trait GenV: FxV + Peek + Slot + IntoOld + Clone + Debug + Default + Send + Sync + 'static {}
impl GenV for Val {}
impl GenV for Big {}

/// A declared default.
pub fn vd(id: u32) -> Val {
    Val::mk(id)
}
pub fn bd(id: u32) -> Big {
    Big::mk(id)
}
pub fn cd(id: u32) -> Cid {
    Cid(id)
}

/// Defaults named by path in `serde(default("..."))`.
pub fn sd_val() -> Val {
    Val::mk(9_000_143)
}
pub fn sd_opt() -> Option<Val> {
    Some(Val::mk(9_000_144))
}

/// Error type of struct builders with a custom error.
#[derive(Debug)]
pub enum BErr {
    Fx(FieldXError),
    Post(u32),
    Unset(String),
}
impl From<FieldXError> for BErr {
    fn from(e: FieldXError) -> BErr {
        BErr::Fx(e)
    }
}

pub trait MakeErr {
    fn txt(&self) -> String;
}
impl MakeErr for FieldXError {
    fn txt(&self) -> String {
        match self {
            FieldXError::UninitializedField(f) => format!("missing:{f}"),
            FieldXError::PostBuild(p) => format!("post:{p}"),
        }
    }
}
impl MakeErr for BErr {
    fn txt(&self) -> String {
        match self {
            BErr::Fx(e) => e.txt(),
            BErr::Post(n) => format!("post:{n}"),
            BErr::Unset(f) => format!("missing:{f}"),
        }
    }
}

#[macro_export]
macro_rules! make_body {
    ($mk:ident, $b:expr, |$bb:ident, $f:ident| $set:expr, |$x:ident| $h:expr) => {{
        let mut calls = vec![];
        let mut bld = $b;
        for fl in &$mk.first {
            let ($bb, $f) = (bld, *fl);
            bld = $set;
        }
        let r = bld.build().map(|$x| $h).map_err(|e| $crate::subjutil::MakeErr::txt(&e));
        let failed = r.is_err();
        calls.push(r);
        if failed && !$mk.second.is_empty() {
            for fl in &$mk.second {
                let ($bb, $f) = (bld, *fl);
                bld = $set;
            }
            calls.push(bld.build().map(|$x| $h).map_err(|e| $crate::subjutil::MakeErr::txt(&e)));
        }
        if $mk.again {
            calls.push(bld.build().map(|$x| $h).map_err(|e| $crate::subjutil::MakeErr::txt(&e)));
        }
        $crate::obj::Made { calls }
    }};
}
