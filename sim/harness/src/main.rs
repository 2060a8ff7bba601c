mod arena;
mod catalog;
mod check;
mod exec;
#[macro_use]
mod obj;
mod gen;
mod model;
mod plan;
mod run;
mod scope;
mod state;
#[macro_use]
mod subjutil;
mod val;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("FXSIM_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
    if !simrt::os::self_test() {
        eprintln!("the standard library does not go through the simulation seam");
        std::process::exit(2);
    }
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => std::process::exit(check::check(&a[2..])),
        Some("worker") => return check::worker(&a[2..]),
        Some("one") => return check::one(&a[2..]),
        Some("replay") => std::process::exit(check::replay(&a[2..])),
        Some("shrink") => return check::shrink(&a[2..]),
        Some(_) if a.len() >= 4 => (),
        _ => {
            eprintln!("usage: fxsim check ID [quick|thorough] | replay FILE | ID FROM TO [trace]");
            std::process::exit(2);
        }
    }
    let id = &a[1];
    let from: u64 = a[2].parse().unwrap();
    let to: u64 = a[3].parse().unwrap();
    let trace = a.len() > 4;
    let t0 = std::time::Instant::now();
    let mut bad = 0;
    let mut fired = std::collections::BTreeMap::new();
    let mut probes = std::collections::BTreeMap::new();
    let (mut steps, mut ops_, mut atts, mut cont, mut skip) = (0, 0, 0, 0, 0);
    simrt::pin_to_cpu(0);
    for s in from..to {
        let p = gen::plan(id, s);
        if trace {
            println!("{}", serde_json::to_string(&p).unwrap());
        }
        let o = run::run_plan(&p, trace);
        for (k, v) in &o.fired {
            *fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *probes.entry(k.clone()).or_insert(0) += v;
        }
        steps += o.stats.steps;
        ops_ += o.ops;
        atts += o.atts;
        cont += o.contended;
        skip += o.skipped;
        if trace {
            for l in &o.trace {
                println!("  {l}");
            }
        }
        if !o.viols.is_empty() {
            bad += 1;
            println!("seed {s} subj {}:", p.subj);
            for v in o.viols.iter().take(3) {
                println!("   {:?}: {}", v.class, v.text);
            }
            if bad > 8 || o.hang {
                break;
            }
        }
    }
    println!("{id}: {} bad; {:?}; steps {steps} ops {ops_} atts {atts} contended {cont} skipped {skip}", bad, t0.elapsed());
    println!("{fired:?}\n{probes:?}");
}
