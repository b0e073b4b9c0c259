mod alloc;
mod campaign;
mod conc;
mod drive;
mod exec;
mod gen;
mod graph;
mod interpose;
mod load;
mod mesh;
mod model;
mod run;
mod simstorage;
mod spec;
mod prov;
mod store;
mod trans;
mod views;
use simcore::rng::derive;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn env(n: &str) -> Option<String> {
    std::env::var(n).ok().filter(|s| !s.is_empty())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let code = match s(1).as_str() {
        "check" => {
            let tier = env("VERIF_TIER").unwrap_or("quick".into());
            let tier = if s(3).is_empty() { tier } else { s(3) };
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            if !drive::PROPS.contains(&s(2).as_str()) {
                eprintln!("unknown property {}", s(2));
                2
            } else {
                campaign::check(&s(2), &tier, seed)
            }
        }
        "replay" => campaign::replay(&s(2)),
        "exec-case" => campaign::exec_case(&s(2), &s(3), s(4) == "1"),
        "worker" => campaign::worker(campaign::WorkerArgs {
            prop: s(2),
            seed: n(3),
            start: n(4),
            step: n(5).max(1),
            total: n(6),
            secs: s(7).parse().unwrap_or(60.0),
            mult: n(8).max(1) as usize,
            dir: s(9).into(),
            verify: env("OCASIM_VERIFY").is_some(),
        }),
        // Prints a case of the campaign: property, campaign seed, index, variant.
        "show" => {
            let base = drive::base_spec(&s(2), derive(n(3), &format!("{}/{}", s(2), n(4))));
            let v = n(5) as usize;
            let case = if v == 0 {
                drive::Case { spec: base, twin: None }
            } else {
                let t = run::run_spec(&base, false, true);
                drive::Case { spec: drive::variant_spec(&s(2), &base, &t, v), twin: Some(base) }
            };
            println!("{}", serde_json::to_string(&case).unwrap());
            0
        }
        // All findings of a slice of the campaign, for developing the machinery.
        "survey" => survey(&s(2), n(3), n(4), n(5)),
        _ => {
            eprintln!("usage: ocasim check ID [quick|thorough] | replay FILE | show ID SEED INDEX VARIANT | survey ID SEED FROM TO");
            2
        }
    };
    std::process::exit(code);
}

fn survey(prop: &str, seed: u64, from: u64, to: u64) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let mut kinds: std::collections::BTreeMap<String, Vec<String>> = Default::default();
    let (mut runs, mut fired) = (0, std::collections::BTreeMap::<String, u64>::new());
    let t0 = std::time::Instant::now();
    for i in from..to {
        let base = drive::base_spec(prop, derive(seed, &format!("{prop}/{i}")));
        let twin = run::run_spec(&base, false, true);
        runs += 1;
        let mut note = |v: usize, fs: &[exec::Finding]| {
            for f in fs {
                kinds
                    .entry(format!("{} {:?} {}", f.kind, f.props, f.known.clone().unwrap_or_default()))
                    .or_default()
                    .push(format!("{i}.{v} {}: {}", f.subject, f.detail));
            }
        };
        note(0, &twin.findings);
        for v in 1..=drive::variants(prop) {
            let s = drive::variant_spec(prop, &base, &twin, v);
            let mut r = run::run_spec(&s, false, false);
            drive::compare(&s, &mut r, &twin);
            runs += 1;
            for (k, n) in &r.fired {
                *fired.entry(k.clone()).or_insert(0) += n;
            }
            note(v, &r.findings);
        }
    }
    for (k, v) in &kinds {
        eprintln!("{} x {k}", v.len());
        for e in v.iter().take(3) {
            eprintln!("      {e}");
        }
    }
    eprintln!("{runs} runs, {:?}, {fired:?}", t0.elapsed());
    0
}
