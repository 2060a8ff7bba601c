//! A plan is everything one simulated run depends on: which struct, how objects come to be, what every client does,
//! which faults are injected, and the scheduler seed/strategy (or recorded decisions). It is the replay file.
use crate::state::Cb;
use serde::{Deserialize, Serialize};

/// Helpers and object-level operations.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum H {
    Has,
    Get,
    Reader,
    GetMut,
    Writer,
    Set,
    Clear,
    /// initialise a lazy field without looking at it (container method)
    Touch,
    Clone,
    Eq,
    Dbg,
    Ser,
    /// serialise, then deserialise what came out (possibly damaged on the way)
    De,
    Myself,
    Weak,
    DropRef,
    /// construct a new local object with `new()`, the builder, or Default
    Make,
    /// drop the last local object
    DropLocal,
    /// publish data through a relaxed word, then go on (message passing)
    MsgPut,
    /// predicate, and if it is true read the published word
    MsgGet,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Yield(u32),
    Sleep(u32),
    Peek,
    /// store through the guard
    Put,
    /// empty through the guard (optional and lazy writer guards)
    Take,
    Op(Box<Op>),
    Panic,
    /// panic, with an operation performed while unwinding (cleanup in a destructor)
    Unwind(Box<Op>),
    WaitGate,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum BOut {
    Ok,
    Err,
    Panic,
}

/// What a lazy builder run does.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Build {
    /// only used for serialisation, where several builders may run
    #[serde(default)]
    pub field: Option<u8>,
    #[serde(default)]
    pub pre:   Vec<Step>,
    pub out:   BOut,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Drv {
    #[serde(default)]
    pub cancel:   u32,
    #[serde(default)]
    pub spurious: u32,
    #[serde(default)]
    pub late:     u32,
}

/// How a struct builder is used.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Make {
    /// fields given a value before the first build()
    pub first: Vec<u8>,
    /// fields given before the second build(), if the first failed
    pub second: Vec<u8>,
    /// panic in the conversion of this field's value
    #[serde(default)]
    pub into_panic: Option<u8>,
    /// what the post-build hook does
    #[serde(default)]
    pub post: Option<BOut>,
    /// build once more after success
    #[serde(default)]
    pub again: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Op {
    pub h:     H,
    /// shared object index, or 100 + n: the client's n-th newest local object
    #[serde(default)]
    pub obj:   u8,
    #[serde(default)]
    pub f:     u8,
    #[serde(default)]
    pub build: Vec<Build>,
    #[serde(default)]
    pub fault: Option<(Cb, u32)>,
    #[serde(default)]
    pub drv:   Drv,
    #[serde(default)]
    pub body:  Vec<Step>,
    /// second object of a comparison; byte position of a serialisation fault
    #[serde(default)]
    pub aux:   u32,
    #[serde(default)]
    pub make:  Option<Make>,
}

impl Op {
    pub fn new(h: H, obj: u8, f: u8) -> Op {
        Op { h, obj, f, build: vec![], fault: None, drv: Drv::default(), body: vec![], aux: 0, make: None }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Init {
    New,
    Make(Make),
    /// serialised by hand from these values and read back
    De(Vec<Option<u32>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Strat {
    Random,
    Sticky(u8),
    Pct(u8, u16),
    Preempt(u8, u16),
    RoundRobin,
}

impl Strat {
    pub fn real(&self) -> simrt::Strategy {
        match *self {
            Strat::Random => simrt::Strategy::Random,
            Strat::Sticky(n) => simrt::Strategy::Sticky(n),
            Strat::Pct(depth, len) => simrt::Strategy::Pct { depth, len },
            Strat::Preempt(n, len) => simrt::Strategy::Preempt { n, len },
            Strat::RoundRobin => simrt::Strategy::RoundRobin,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub subj:    String,
    pub seed:    u64,
    pub strat:   Strat,
    #[serde(default)]
    pub weak:    bool,
    pub init:    Vec<Init>,
    /// done by one client before the objects are shared
    #[serde(default)]
    pub setup:   Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    /// drop the main strong handle of reference-counted objects before the clients start
    #[serde(default)]
    pub release: bool,
    /// 0: every client is a thread; n: clients are tasks polled by n worker threads, moving between them
    #[serde(default)]
    pub pool: u8,
    #[serde(default)]
    pub decisions: Option<Vec<u8>>,
}
