//! Search over seeds by several worker processes, confirmation and minimisation of what they find, evidence.
use crate::gen;
use crate::obj::Meta;
use crate::plan::*;
use crate::run::{meta, run_plan_with, Outcome, HANG_MS};
use crate::scope;
use crate::state::{Class, Viol};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Found {
    pub index: u64,
    #[serde(default)]
    pub first: u64,
    pub seed:  u64,
    pub class: Class,
    pub subj:  String,
    pub text:  String,
}

#[derive(Default, Serialize, Deserialize)]
struct Sum {
    runs:       u64,
    /// runs in which clients really met, or a fault really fired, or (one client) something was checked
    nontrivial: u64,
    steps:      u64,
    sim_time:   u64,
    jumped:     u64,
    switches:   u64,
    decisions:  u64,
    ops:        u64,
    atts:       u64,
    contended:  u64,
    skipped:    u64,
    stale:      u64,
    rechecked:  u64,
    diverged:   u64,
    fired:      BTreeMap<String, u64>,
    probes:     BTreeMap<String, u64>,
    subjects:   BTreeMap<String, u64>,
    strategies: BTreeMap<String, u64>,
    clients:    BTreeMap<String, u64>,
    found:      Vec<Found>,
    other:      BTreeMap<String, u64>,
    next:       u64,
    hang:       Option<u64>,
    samples:    Vec<Value>,
}

impl Sum {
    fn add(&mut self, o: Sum) {
        self.runs += o.runs;
        self.nontrivial += o.nontrivial;
        self.steps += o.steps;
        self.sim_time += o.sim_time;
        self.jumped += o.jumped;
        self.switches += o.switches;
        self.decisions += o.decisions;
        self.ops += o.ops;
        self.atts += o.atts;
        self.contended += o.contended;
        self.skipped += o.skipped;
        self.stale += o.stale;
        self.rechecked += o.rechecked;
        self.diverged += o.diverged;
        for (a, b) in [
            (&mut self.fired, o.fired),
            (&mut self.probes, o.probes),
            (&mut self.subjects, o.subjects),
            (&mut self.strategies, o.strategies),
            (&mut self.clients, o.clients),
            (&mut self.other, o.other),
        ] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.found.extend(o.found);
        if self.samples.len() < 4 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
    }
}

pub fn field_of<'a>(m: &'a Meta, v: &Viol) -> Option<&'a crate::obj::FieldMeta> {
    v.f.and_then(|f| m.fields.get(f as usize))
}

/// The violations of this run that speak about this property.
pub fn relevant<'a>(id: &str, p: &Plan, o: &'a Outcome) -> Vec<&'a Viol> {
    let Some(m) = meta(&p.subj)
    else {
        return vec![];
    };
    o.viols.iter().filter(|v| scope::counts(id, v.class, field_of(m, v))).collect()
}

pub fn seed_of(base: u64, index: u64) -> u64 {
    base.wrapping_mul(0x1_0000_0000).wrapping_add(index)
}

fn bump(m: &mut BTreeMap<String, u64>, k: impl Into<String>) {
    *m.entry(k.into()).or_insert(0) += 1;
}

// --- worker ----------------------------------------------------------------------------------------------------------

/// `fxsim worker ID base first stride last seconds dir name`
pub fn worker(a: &[String]) {
    let id = &a[0];
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, first, stride, last, secs) = (n(1), n(2), n(3), n(4), n(5));
    let dir = PathBuf::from(&a[6]);
    let name = &a[7];
    let cpu = n(8) as usize;
    simrt::pin_to_cpu(cpu);
    let until = Instant::now() + Duration::from_secs(secs);
    let mut cur = std::fs::File::create(dir.join(format!("{name}.cur"))).unwrap();
    let mut s = Sum::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut ix = first;
    let stop = dir.join("stop");
    let mut k = 0u64;
    while ix < last && Instant::now() < until {
        k += 1;
        if k % 256 == 0 && stop.exists() {
            break;
        }
        use std::io::Seek;
        let _ = cur.rewind();
        let _ = cur.write_all(&ix.to_le_bytes());
        let seed = seed_of(base, ix);
        let p = gen::plan(id, seed);
        let o = run_plan_with(&p, false, HANG_MS);
        s.runs += 1;
        s.steps += o.stats.steps;
        s.sim_time += o.stats.sim_time;
        s.jumped += o.stats.jumped;
        s.switches += o.stats.switches;
        s.decisions += o.stats.decisions.len() as u64;
        s.ops += o.ops;
        s.atts += o.atts;
        s.contended += o.contended;
        s.skipped += o.skipped;
        s.stale += o.stats.stale_reads;
        bump(&mut s.subjects, p.subj.clone());
        bump(&mut s.strategies, format!("{:?}", p.strat).split('(').next().unwrap().to_string());
        bump(&mut s.clients, p.clients.len().to_string());
        for (k, v) in &o.fired {
            *s.fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *s.probes.entry(k.clone()).or_insert(0) += v;
        }
        let interesting = o.contended > 0 || !o.fired.is_empty() || (p.clients.len() == 1 && o.ops >= 4);
        if interesting {
            s.nontrivial += 1;
            hashes.insert(o.stats.hash ^ seed_shape(&p));
        }
        if s.samples.is_empty() && interesting && p.clients.len() > 1 {
            s.samples.push(json!({
                "seed": seed, "subject": p.subj, "strategy": format!("{:?}", p.strat), "clients": p.clients,
                "decisions": o.stats.decisions.iter().take(80).collect::<Vec<_>>(), "steps": o.stats.steps,
                "operations": o.ops, "builder_runs": o.atts
            }));
        }
        let rel = relevant(id, &p, &o);
        if let Some(v) = rel.first() {
            s.found.push(Found { index: ix, first, seed, class: v.class, subj: p.subj.clone(), text: v.text.clone() });
        }
        else {
            for v in &o.viols {
                bump(&mut s.other, format!("{:?}", v.class));
            }
        }
        ix += stride;
        if o.hang {
            s.hang = Some(ix - stride);
            break;
        }
        // the same seed again gives the same run
        if rechecked(k) && o.stats.fail.is_none() {
            let o2 = run_plan_with(&p, false, HANG_MS);
            s.rechecked += 1;
            let t = |o: &Outcome| o.viols.iter().map(|v| v.text.clone()).collect::<Vec<_>>();
            if o2.stats.hash != o.stats.hash || o2.stats.decisions != o.stats.decisions || t(&o) != t(&o2) {
                s.diverged += 1;
            }
            if o2.hang {
                break;
            }
        }
        if s.found.len() >= 3 {
            break;
        }
        // runs that failed leave their threads behind
        if s.found.len() + s.other.values().sum::<u64>() as usize > 60 {
            break;
        }
    }
    s.next = ix;
    let mut h: Vec<u8> = Vec::with_capacity(hashes.len() * 8);
    for x in &hashes {
        h.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(dir.join(format!("{name}.hash")), h).unwrap();
    std::fs::write(dir.join(format!("{name}.sum")), serde_json::to_vec(&s).unwrap()).unwrap();
    // threads of failed runs are parked for ever
    std::process::exit(0);
}

/// Fingerprint of what the clients do, without the seed.
fn seed_shape(p: &Plan) -> u64 {
    let t = serde_json::to_string(&(&p.subj, &p.init, &p.setup, &p.clients)).unwrap();
    t.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3))
}

// --- parent ----------------------------------------------------------------------------------------------------------

struct W {
    child: Child,
    name:  String,
    first: u64,
    cpu:   usize,
    last:  u64,
}

fn spawn(id: &str, base: u64, first: u64, stride: u64, last: u64, secs: u64, dir: &Path, name: &str, cpu: usize) -> W {
    let child = Command::new(std::env::current_exe().unwrap())
        .arg("worker")
        .args([id, &base.to_string(), &first.to_string(), &stride.to_string(), &last.to_string(), &secs.to_string()])
        .arg(dir)
        .arg(name)
        .arg(cpu.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var("FXSIM_PANICS").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .expect("worker");
    W { child, name: name.into(), first, cpu, last }
}

/// Runs a subcommand of ourselves with a time limit; None: killed or died.
fn sub(args: &[String], secs: u64) -> (Option<i32>, String) {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("subcommand");
    let mut out = c.stdout.take().unwrap();
    let th = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = out.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    let end = Instant::now() + Duration::from_secs(secs);
    let code = loop {
        if let Ok(Some(st)) = c.try_wait() {
            break st.code();
        }
        if Instant::now() > end {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    (code, th.join().unwrap_or_default())
}

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub class:    Class,
    pub text:     String,
    /// the seed the search found it with
    pub seed:     u64,
    pub hash:     String,
    pub plan:     Plan,
    #[serde(default)]
    pub trace:    Vec<String>,
    #[serde(default)]
    pub note:     String,
    /// the runs to make first, in the same process: the code under test keeps something between them
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub prelude:  Option<Prelude>,
}

/// Runs `from`, `from + stride`, ... below `to` of a worker that started with `first`.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prelude {
    pub base:   u64,
    pub first:  u64,
    pub from:   u64,
    pub stride: u64,
    pub to:     u64,
}

impl Prelude {
    fn run(&self, id: &str) {
        let mut ix = self.from;
        while ix < self.to {
            let p = gen::plan(id, seed_of(self.base, ix));
            let o = run_plan_with(&p, false, HANG_MS);
            if rechecked((ix - self.first) / self.stride + 1) && o.stats.fail.is_none() {
                run_plan_with(&p, false, HANG_MS);
            }
            ix += self.stride;
        }
    }
}

/// Does a worker make its k-th run twice?
fn rechecked(k: u64) -> bool {
    k % 97 == 0
}

struct Known {
    property: String,
    class:    String,
    subj:     String,
    needle:   String,
    line:     String,
}

fn known(root: &Path, id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(rest) = l.trim().strip_prefix("known:")
        else {
            continue;
        };
        // known: property=<id> class=<Class> subj=<name or *> match="<text>" <description>
        let get = |k: &str| {
            rest.split_whitespace().find_map(|w| w.strip_prefix(&format!("{k}="))).unwrap_or("").to_string()
        };
        let needle = rest.split("match=\"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
        let k = Known { property: get("property"), class: get("class"), subj: get("subj"), needle, line: rest.trim().into() };
        if k.property == id {
            v.push(k)
        }
    }
    v
}

impl Known {
    fn covers(&self, f: &Found) -> bool {
        self.class == format!("{:?}", f.class)
            && (self.subj == "*" || self.subj == f.subj)
            && !self.needle.is_empty()
            && f.text.contains(&self.needle)
    }
}

pub fn check(a: &[String]) -> i32 {
    let id = a[0].clone();
    if !scope::IDS.contains(&id.as_str()) {
        eprintln!("no such property: {id}");
        return 2;
    }
    let tier = a.get(1).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let root = PathBuf::from(std::env::var("FXSIM_ROOT").unwrap_or("/verif".into()));
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let quick = tier != "thorough";
    let max_runs = env("FXSIM_RUNS", if quick { 800_000 } else { 40_000_000 });
    let secs = env("FXSIM_SECS", if quick { 45 } else { 600 });
    let ncpu = std::thread::available_parallelism().map_or(1, |n| n.get()).min(16);
    let nw = env("FXSIM_WORKERS", ncpu as u64) as usize;
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("fxsim-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("work dir");
    let known = known(&root, &id);
    let mut sum = Sum::default();
    let mut stalls = 0u64;
    let mut names: Vec<String> = vec![];
    let mut serial = 0;
    let mut ws: Vec<W> = (0..nw)
        .map(|k| {
            let n = format!("w{k}");
            names.push(n.clone());
            spawn(&id, base, k as u64, nw as u64, max_runs, secs, &dir, &n, k)
        })
        .collect();
    let mut hits: Vec<Found> = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut notes: Vec<String> = vec![];
    while !ws.is_empty() {
        let mut i = 0;
        let mut again: Vec<W> = vec![];
        while i < ws.len() {
            match ws[i].child.try_wait() {
                Ok(None) => i += 1,
                Ok(Some(st)) => {
                    let w = ws.remove(i);
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    let s: Option<Sum> = std::fs::read(dir.join(format!("{}.sum", w.name)))
                        .ok()
                        .filter(|_| st.success())
                        .and_then(|b| serde_json::from_slice(&b).ok());
                    let next;
                    match s {
                        Some(mut s) => {
                            next = s.next;
                            if let Some(ix) = s.hang {
                                // was it really stuck, or is this machine just busy?
                                s.found.retain(|f| f.index != ix);
                                match confirm(&id, seed_of(base, ix), 60) {
                                    Some(f) => hits.push(Found { index: ix, ..f }),
                                    None => stalls += 1,
                                }
                            }
                            for f in std::mem::take(&mut s.found) {
                                if let Some(k) = known.iter().find(|k| k.covers(&f)) {
                                    *known_hits.entry(k.line.clone()).or_insert(0) += 1;
                                }
                                else {
                                    hits.push(f)
                                }
                            }
                            sum.add(s);
                        }
                        None => {
                            // the process died in the middle of a run
                            let ix = std::fs::read(dir.join(format!("{}.cur", w.name)))
                                .ok()
                                .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
                                .unwrap_or(w.first);
                            next = ix + nw as u64;
                            notes.push(format!("worker {} ended with {st} in run {ix}", w.name));
                            match confirm(&id, seed_of(base, ix), 60) {
                                Some(f) => hits.push(Found { index: ix, ..f }),
                                None => stalls += 1,
                            }
                        }
                    }
                    if hits.is_empty() && next < w.last && left > 1 && stalls < 20 {
                        serial += 1;
                        let n = format!("x{serial}");
                        names.push(n.clone());
                        again.push(spawn(&id, base, next, nw as u64, w.last, left, &dir, &n, w.cpu));
                    }
                    if !hits.is_empty() {
                        let _ = std::fs::write(dir.join("stop"), b"");
                    }
                }
                Err(_) => {
                    ws.remove(i);
                }
            }
        }
        ws.extend(again);
        std::thread::sleep(Duration::from_millis(10));
    }
    let explore = t0.elapsed().as_secs_f64();
    // distinct interleavings over all workers
    let mut all: HashSet<u64> = HashSet::new();
    for n in &names {
        if let Ok(b) = std::fs::read(dir.join(format!("{n}.hash"))) {
            all.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    hits.sort_by_key(|f| f.index);
    let mut replay = None;
    if let Some(f) = hits.first().cloned() {
        let rdir = root.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-{}.json", f.seed));
        println!("{id}: seed {} on {}: {:?}: {}", f.seed, f.subj, f.class, f.text);
        write_plain_replay(&id, &f, &path);
        if !matches!(f.class, Class::Hang | Class::Crash) {
            let secs = if quick { 45 } else { 120 };
            let _ = sub(
                &["shrink".into(), id.clone(), path.to_string_lossy().into_owned(), secs.to_string()],
                secs + 30,
            );
        }
        let (code, out) = sub(&["replay".into(), path.to_string_lossy().into_owned()], 120);
        if code == Some(1) {
            if let Some(l) = out.lines().find(|l| l.starts_with("reproduced:")) {
                println!("{id}: minimised: {l}");
            }
        }
        else {
            // minimisation went wrong: fall back to the run as found
            write_plain_replay(&id, &f, &path);
            let again = |secs| sub(&["replay".into(), path.to_string_lossy().into_owned()], secs).0 == Some(1);
            if again(120) || matches!(f.class, Class::Hang | Class::Crash) {
                notes.push("minimised file did not reproduce; the unminimised run is given".into());
            }
            else {
                // The code under test carries something from one run to the next: replay with the runs before it.
                let stride = nw as u64;
                let before = (f.index - f.first) / stride;
                let mut done = false;
                for m in [1, 10, 100, 1000, 10_000, before] {
                    let m = m.min(before);
                    let pre = Prelude { base, first: f.first, from: f.index - m * stride, stride, to: f.index };
                    write_prelude_replay(&id, &f, pre, &path);
                    done = again(60 + 3 * secs);
                    if done || m == before {
                        notes.push(format!("reproduced: {done}, with the {m} runs before it in the same process"));
                        break;
                    }
                }
                if done {
                    println!("{id}: reproduced together with the runs before it");
                }
                else {
                    println!("{id}: found, but not met again when replayed");
                }
            }
        }
        replay = Some(path);
    }
    for (l, n) in &known_hits {
        println!("KNOWN-FINDING: {l} ({n} run(s) this time)");
    }
    for k in &known {
        if !known_hits.contains_key(&k.line) {
            println!("KNOWN-FINDING: {} (not met in this run)", k.line);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let per_hour = |n: u64| (n as f64 / explore * 3600.0) as u64;
    let ev = json!({
        "property": id,
        "tier": if quick { "quick" } else { "thorough" },
        "seed": base,
        "level": "exploration",
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": hits.len(),
        "assumptions": [
            "one simulated thread runs at a time; switches happen at lock, atomic, await and callback points only",
            "parking_lot is replaced by a simulated lock with the same rules (queue-less choice of who gets it is the scheduler's)",
            "tokio::sync is the real source, with scheduling points added and OS blocking replaced",
            "plans contain legal use only: nested access follows one global order of cells"
        ],
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": all.len(),
            "rule": format!("one evaluation = one simulated run of a seeded plan ({}). Non-trivial: operations of different clients \
                overlapped on one field, or an injected fault fired, or (single client) at least 4 operations were judged. \
                Distinct: by hash of plan and of the sequence of (client, scheduling point) of the run", scope::about(&id)),
            "samples": sum.samples,
            "seeds": sum.runs,
            "nontrivial_runs": sum.nontrivial,
            "runs_per_hour": per_hour(sum.runs),
            "workers": nw,
            "simulated_steps": sum.steps,
            "simulated_time_ticks": sum.sim_time,
            "simulated_time_jumped_ticks": sum.jumped,
            "context_switches": sum.switches,
            "scheduling_decisions": sum.decisions,
            "operations_judged": sum.ops,
            "builder_runs": sum.atts,
            "operations_contended": sum.contended,
            "operations_skipped_not_applicable": sum.skipped,
            "stale_reads_chosen": sum.stale,
            "faults_injected": sum.fired,
            "probes": sum.probes,
            "runs_per_subject": sum.subjects,
            "runs_per_strategy": sum.strategies,
            "runs_per_client_count": sum.clients,
            "determinism_rechecks": sum.rechecked,
            "determinism_mismatches": sum.diverged,
            "unconfirmed_stalls": stalls,
            "observations_about_other_properties": sum.other,
            "real_code": ["fieldx (all of /repo/fieldx/src, built from the working tree)", "fieldx_derive expansion of every subject struct",
                          "tokio::sync::RwLock and its semaphore", "lock_api", "serde, serde_json", "std cells, Rc, Arc"],
            "stubs": ["parking_lot raw locks (simulated)", "atomics of FXProxy* (simulated, weak memory where the property needs it)",
                      "threads, clock, executor (simulated)", "values, builders, sinks (instrumented test doubles)"],
            "shapes_this_tree_does_not_compile": env!("FXSIM_EXCLUDED").split_whitespace().collect::<Vec<_>>(),
            "notes": notes,
        }
    });
    let edir = root.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    let _ = std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    let _ = std::fs::remove_dir_all(&dir);
    println!(
        "{id}: {} runs in {:.1} s ({} distinct non-trivial), {} operations judged, {} faults fired, {} violation(s)",
        sum.runs,
        explore,
        all.len(),
        sum.ops,
        sum.fired.values().sum::<u64>(),
        hits.len()
    );
    if let Some(p) = replay {
        println!("VIOLATION property={id} replay={}", p.display());
        return 1;
    }
    if sum.runs == 0 {
        eprintln!("{id}: nothing was explored");
        return 2;
    }
    0
}

fn write_prelude_replay(id: &str, f: &Found, pre: Prelude, path: &Path) {
    write_plain_replay(id, f, path);
    let Some(mut r) = std::fs::read(path).ok().and_then(|b| serde_json::from_slice::<ReplayFile>(&b).ok())
    else {
        return;
    };
    r.prelude = Some(pre);
    r.note = "depends on the runs before it; not minimised".into();
    let _ = std::fs::write(path, serde_json::to_string_pretty(&r).unwrap());
}

fn write_plain_replay(id: &str, f: &Found, path: &Path) {
    let r = ReplayFile {
        property: id.into(),
        class:    f.class,
        text:     f.text.clone(),
        seed:     f.seed,
        hash:     String::new(),
        plan:     gen::plan(id, f.seed),
        trace:    vec![],
        note:     "not minimised: the plan and schedule follow from the seed".into(),
        prelude:  None,
    };
    let _ = std::fs::write(path, serde_json::to_string_pretty(&r).unwrap());
}

/// Run one seed in a process of its own, with patience.
fn confirm(id: &str, seed: u64, patience: u64) -> Option<Found> {
    let (code, out) = sub(&["one".into(), id.into(), seed.to_string(), (patience * 1000).to_string()], patience * 3);
    for l in out.lines() {
        if let Some(x) = l.strip_prefix("FOUND ") {
            return serde_json::from_str(x).ok();
        }
    }
    if code == Some(0) {
        return None;
    }
    let p = gen::plan(id, seed);
    Some(Found { index: 0, first: 0, seed, class: Class::Crash, subj: p.subj, text: format!("the process died ({code:?})") })
}

/// `fxsim one ID seed hang_ms`
pub fn one(a: &[String]) {
    let p = gen::plan(&a[0], a[1].parse().unwrap());
    let o = run_plan_with(&p, false, a[2].parse().unwrap());
    if let Some(v) = relevant(&a[0], &p, &o).first() {
        let f = Found { index: 0, first: 0, seed: p.seed, class: v.class, subj: p.subj.clone(), text: v.text.clone() };
        println!("FOUND {}", serde_json::to_string(&f).unwrap());
    }
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

/// `fxsim replay FILE`: 1 if the violation came out again, exactly as recorded.
pub fn replay(a: &[String]) -> i32 {
    let t = std::fs::read_to_string(&a[0]).expect("replay file");
    let r: ReplayFile = serde_json::from_str(&t).expect("replay file");
    if let Some(pre) = &r.prelude {
        pre.run(&r.property);
    }
    let o = run_plan_with(&r.plan, true, 30_000);
    for l in &o.trace {
        println!("  {l}");
    }
    let rel = relevant(&r.property, &r.plan, &o);
    let hit = rel.iter().find(|v| v.class == r.class);
    match hit {
        Some(v) => {
            println!("reproduced: {:?}: {}", v.class, v.text);
            let exact = v.text == r.text && (r.hash.is_empty() || r.hash == format!("{:016x}", o.stats.hash));
            println!("{}", if exact { "identical to the recorded run" } else { "NOT identical to the recorded run" });
            println!("VIOLATION property={} replay={}", r.property, a[0]);
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

// --- minimisation ----------------------------------------------------------------------------------------------------

struct Shrink<'a> {
    id:    &'a str,
    class: Class,
    path:  PathBuf,
    seed:  u64,
    best:  Plan,
    until: Instant,
    /// failed runs leave threads behind
    budget: u32,
    tried: u32,
}

impl Shrink<'_> {
    fn test(&mut self, p: &Plan) -> Option<(Plan, String, Outcome)> {
        self.tried += 1;
        let o = run_plan_with(p, true, HANG_MS);
        if o.hang {
            std::process::exit(0);
        }
        if o.stats.fail.is_some() {
            self.budget = self.budget.saturating_sub(1);
        }
        let t = relevant(self.id, p, &o).into_iter().find(|v| v.class == self.class)?.text.clone();
        let mut q = p.clone();
        q.decisions = Some(o.stats.decisions.clone());
        Some((q, t, o))
    }
    fn over(&self) -> bool {
        self.budget == 0 || Instant::now() > self.until
    }
    fn accept(&mut self, q: Plan) -> bool {
        // exactly what will be replayed
        let Some((q2, text, o)) = self.test(&q)
        else {
            return false;
        };
        self.best = q2.clone();
        let r = ReplayFile {
            property: self.id.into(),
            class: self.class,
            text,
            seed: self.seed,
            hash: format!("{:016x}", o.stats.hash),
            plan: q2,
            trace: o.trace,
            note: format!("minimised; {} candidate runs", self.tried),
            prelude: None,
        };
        let tmp = self.path.with_extension("tmp");
        let _ = std::fs::write(&tmp, serde_json::to_string_pretty(&r).unwrap());
        let _ = std::fs::rename(&tmp, &self.path);
        true
    }
    /// Does this smaller plan fail under some schedule?
    fn attempt(&mut self, c: &Plan) -> bool {
        if self.over() {
            return false;
        }
        let mut c = c.clone();
        c.decisions = self.best.decisions.clone();
        if let Some((q, ..)) = self.test(&c) {
            return self.accept(q);
        }
        c.decisions = None;
        let s0 = c.seed;
        let strats = [
            self.best.strat,
            Strat::Random,
            Strat::Preempt(1, 40),
            Strat::Preempt(2, 60),
            Strat::Pct(2, 60),
            Strat::Sticky(4),
            Strat::Preempt(2, 120),
            Strat::Random,
        ];
        for k in 0..28u64 {
            if self.over() {
                return false;
            }
            c.strat = strats[(k % 8) as usize];
            c.seed = if k == 0 { s0 } else { s0.wrapping_add(k.wrapping_mul(0x9E37_79B9)) };
            if let Some((q, ..)) = self.test(&c) {
                return self.accept(q);
            }
        }
        false
    }
}

fn smaller_ops(v: &[Op]) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        w.remove(i);
        out.push(w);
    }
    for i in 0..v.len() {
        for o in smaller_op(&v[i]) {
            let mut w = v.to_vec();
            w[i] = o;
            out.push(w);
        }
    }
    out
}

fn smaller_steps(v: &[Step]) -> Vec<Vec<Step>> {
    let mut out = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        w.remove(i);
        out.push(w);
        let simpler: Vec<Step> = match &v[i] {
            Step::Op(o) => smaller_op(o).into_iter().map(|o| Step::Op(Box::new(o))).collect(),
            Step::Unwind(o) => {
                let mut w: Vec<Step> = smaller_op(o).into_iter().map(|o| Step::Unwind(Box::new(o))).collect();
                w.push(Step::Panic);
                w
            }
            Step::Yield(n) if *n > 1 => vec![Step::Yield(1)],
            Step::Sleep(_) => vec![Step::Yield(1)],
            _ => vec![],
        };
        for s in simpler {
            let mut w = v.to_vec();
            w[i] = s;
            out.push(w);
        }
    }
    out
}

fn smaller_op(o: &Op) -> Vec<Op> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Op)| {
        let mut x = o.clone();
        f(&mut x);
        if x != *o {
            out.push(x)
        }
    };
    push(&|x| x.body.clear());
    push(&|x| x.build.clear());
    push(&|x| x.fault = None);
    push(&|x| x.drv = Drv::default());
    push(&|x| x.drv.spurious = 0);
    push(&|x| x.drv.late = 0);
    push(&|x| x.make = None);
    for b in smaller_steps(&o.body) {
        let mut x = o.clone();
        x.body = b;
        out.push(x);
    }
    for i in 0..o.build.len() {
        for s in smaller_steps(&o.build[i].pre) {
            let mut x = o.clone();
            x.build[i].pre = s;
            out.push(x);
        }
        if o.build[i].out != BOut::Ok {
            let mut x = o.clone();
            x.build[i].out = BOut::Ok;
            out.push(x);
        }
    }
    out
}

fn smaller(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let mut push = |f: &mut dyn FnMut(&mut Plan)| {
        let mut x = p.clone();
        f(&mut x);
        if x != *p {
            out.push(x)
        }
    };
    for i in 0..p.clients.len() {
        push(&mut |x| {
            x.clients.remove(i);
        });
    }
    push(&mut |x| x.setup.clear());
    push(&mut |x| x.release = false);
    push(&mut |x| x.pool = 0);
    push(&mut |x| x.pool = x.pool.min(1));
    push(&mut |x| x.weak = false);
    for i in 0..p.init.len() {
        push(&mut |x| x.init[i] = Init::New);
    }
    if p.init.len() > 1 {
        push(&mut |x| {
            x.init.pop();
        });
    }
    for v in smaller_ops(&p.setup) {
        let mut v = Some(v);
        push(&mut |x| x.setup = v.take().unwrap());
    }
    for i in 0..p.clients.len() {
        for v in smaller_ops(&p.clients[i]) {
            let mut v = Some(v);
            push(&mut |x| x.clients[i] = v.take().unwrap());
        }
    }
    out
}

/// `fxsim shrink ID file seconds`
pub fn shrink(a: &[String]) {
    let path = PathBuf::from(&a[1]);
    let r: ReplayFile = serde_json::from_str(&std::fs::read_to_string(&path).unwrap()).unwrap();
    let secs: u64 = a[2].parse().unwrap();
    let mut s = Shrink {
        id: &a[0],
        class: r.class,
        path,
        seed: r.seed,
        best: r.plan.clone(),
        until: Instant::now() + Duration::from_secs(secs),
        budget: 400,
        tried: 0,
    };
    let Some((q, ..)) = s.test(&r.plan)
    else {
        std::process::exit(0);
    };
    if !s.accept(q) {
        std::process::exit(0);
    }
    // the plan
    'outer: loop {
        if s.over() {
            break;
        }
        let cur = s.best.clone();
        for c in smaller(&cur) {
            if s.over() {
                break 'outer;
            }
            if s.attempt(&c) {
                continue 'outer;
            }
        }
        break;
    }
    // the schedule
    let mut changed = true;
    while changed && !s.over() {
        changed = false;
        let d = s.best.decisions.clone().unwrap_or_default();
        // as many trailing decisions as possible left to the default
        let mut lo = 0;
        let mut hi = d.len();
        while lo < hi && !s.over() {
            let mid = (lo + hi) / 2;
            let mut c = s.best.clone();
            c.decisions = Some(d[..mid].to_vec());
            if s.test(&c).is_some() {
                hi = mid;
            }
            else {
                lo = mid + 1;
            }
        }
        let mut c = s.best.clone();
        c.decisions = Some(d[..hi].to_vec());
        if s.test(&c).is_some() {
            s.accept(c);
        }
        let n = s.best.decisions.clone().unwrap_or_default().len();
        for i in 0..n {
            if s.over() {
                break;
            }
            let mut c = s.best.clone();
            let dd = c.decisions.as_mut().unwrap();
            if i >= dd.len() || dd[i] == 0 {
                continue;
            }
            dd[i] = 0;
            if let Some((q, ..)) = s.test(&c) {
                if preemptions(&q) < preemptions(&s.best) && s.accept(q) {
                    changed = true;
                }
            }
        }
    }
    std::process::exit(0);
}

fn preemptions(p: &Plan) -> usize {
    p.decisions.as_ref().map_or(0, |d| d.iter().filter(|x| **x != 0).count())
}
