//! Which observation speaks about which property.
use crate::obj::*;
use crate::state::Class::{self, *};

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
    "C18",
];

const LIVE: &[Class] = &[Deadlock, StepCap, Hang, Crash];

pub fn classes(id: &str) -> Vec<Class> {
    let c: &[Class] = match id {
        "C01" | "C02" => &[Overlap, Builder, Unexpected, Lin, Panic, Error, Make, Guard],
        "C03" => &[Unexpected, Builder, Overlap, Ser, Clone, De, Make],
        "C04" | "C05" => &[Lin, Overlap, Builder, Unexpected, Panic, Error, Guard, Leak],
        "C06" => &[Lin, Panic, Error, Guard, Leak],
        "C07" => &[Guard, Lin, Overlap, Panic, Builder, Error, Isolation],
        "C08" => &[Error, Panic, Lin, Builder, Unexpected, Overlap, Leak, Guard],
        "C09" => &[Lin, Panic, Overlap, Unexpected, Guard, Leak, Error, Builder],
        "C10" => &[Isolation, Panic],
        "C11" => &[Clone, Eq, Debug, Lin, Unexpected, Builder, Panic, Isolation, Leak],
        "C12" => &[Ser, De, Lin, Unexpected, Builder, Panic, Leak, Error],
        "C13" => &[Make, Lin, Unexpected, Builder, Panic, Error, Leak],
        "C14" => &[Rc, Lin, Unexpected, Builder, Panic, Leak, Make],
        "C15" => &[Leak, Lin, Clone, De, Make, Rc, Error],
        "C16" => &[Isolation, Lin, Unexpected, Builder, Guard, Overlap, Panic, Error],
        "C17" => &[
            Lin, Overlap, Unexpected, Builder, Panic, Error, Borrow, Leak, Clone, Eq, Guard, Make,
        ],
        "C18" => &[Vis, Lin, Unexpected, Clone, De, Make],
        _ => &[],
    };
    let mut v = c.to_vec();
    v.extend_from_slice(LIVE);
    v
}

/// Fields a property speaks about.
pub fn field(id: &str, f: &FieldMeta) -> bool {
    let lazy = f.k == K::Lazy;
    match id {
        "C01" | "C04" => lazy && !f.a,
        "C02" | "C05" => lazy && f.a,
        "C03" | "C08" | "C18" => lazy,
        "C06" => !lazy && f.lock,
        "C09" => f.a,
        _ => true,
    }
}

pub fn counts(id: &str, class: Class, f: Option<&FieldMeta>) -> bool {
    classes(id).contains(&class) && f.map_or(true, |f| field(id, f))
}

/// What each property's scenario families are about, for the evidence file.
pub fn about(id: &str) -> &'static str {
    match id {
        "C01" => "storms of readers and writers on lazy fields of sync structs; builder runs counted and timed per field",
        "C02" => "storms of tasks on lazy fields of async structs, late and spurious polls, cancellations; builder runs counted",
        "C03" => "every helper and object-level operation on structs with lazy fields; where a builder runs is monitored",
        "C04" => "histories of all helpers on lazy fields of sync structs, checked for linearizability against a cell model",
        "C05" => "histories of all helpers on lazy fields of async structs, checked for linearizability against a cell model",
        "C06" => "histories of all helpers on locked eager/optional fields, checked for linearizability against a cell model",
        "C07" => "guards held across pauses, panics and cancellations; overlap of guards, builders and completed operations",
        "C08" => "lazy builders failing and panicking under contention; the error, the state left behind and the retry",
        "C09" => "async operations dropped at arbitrary suspension points, with and without a suspended builder",
        "C10" => "nested access, dependent builders, comparison, clone, debug, faults; deadlock and livelock detection",
        "C11" => "clone, comparison and debug output of objects in use; snapshots checked against the cell histories",
        "C12" => "serialisation of objects in use into failing sinks; reading back intact, truncated, corrupted input",
        "C13" => "struct builders with every subset of values, repeated build(), failing hooks and conversions",
        "C14" => "reference-counted structs: self-handles and weak handles racing with the last drop",
        "C15" => "ledger of every value created: moves, copies and drops across all helpers and faults",
        "C16" => "guards and builders of one cell held until everything else has finished",
        "C17" => "single-threaded histories on plain structs with faults, nested access and conflicting borrows",
        "C18" => "lock-free predicate as a message-passing flag on simulated weak memory",
        _ => "",
    }
}
