pub mod book;
pub mod engine;
pub mod feat;
pub mod opc;
pub mod opt;
pub mod props;
pub mod schema;
pub mod sched;
pub mod xml;
pub mod zipr;

use engine::{jstr, Run};

fn load_known(prop: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    let text = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    for l in text.lines() {
        // known: property=C01 family=<f> case=<description> :: <what fails>
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((p, r)) = r.split_once(" family=") else { continue };
        let Some((f, r)) = r.split_once(" case=") else { continue };
        let Some((c, w)) = r.split_once(" :: ") else { continue };
        if p == prop {
            v.push((f.to_string(), c.to_string(), w.to_string()));
        }
    }
    v
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for p in props::all() {
            println!("{} {}", p.id, p.level);
        }
        return;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    if args.get(1).map(|s| s.as_str()) == Some("replay") {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| -> String {
            let i = t.find(&format!("\"{k}\":")).expect("field") + k.len() + 3;
            let r = t[i..].trim_start();
            if let Some(r) = r.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_string()
            } else {
                r.chars().take_while(|c| c.is_ascii_digit()).collect()
            }
        };
        let id = get("property");
        let p = props::all().into_iter().find(|p| p.id == id).expect("property");
        let mut run = Run::new(p.id, get("tier") == "thorough", seed, vec![]);
        rust_xlsxwriter::mc_hooks::set_store_only(true);
        run.replay = Some((get("family"), get("index").parse().unwrap()));
        (p.run)(&mut run);
        std::process::exit(if run.total_violations > 0 { 1 } else { 0 });
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = args.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let known = load_known(p.id);
    let mut run = Run::new(p.id, tier == "thorough", seed, known);
    rust_xlsxwriter::mc_hooks::set_store_only(true);
    (p.run)(&mut run);
    for (k, hit) in run.known.iter().zip(&run.known_hit) {
        if *hit {
            println!("KNOWN-FINDING: property={} {} [{} {}]", p.id, k.2, k.0, k.1);
        }
    }
    let wall = run.start.elapsed().as_secs_f64();
    // Evidence.
    let mut cov: Vec<(String, String)> = vec![];
    let rule = format!("{} A case is non-trivial when it reached the comparison of the written package with the expected state, and is counted once per distinct observation.", p.rule);
    if p.level == "model_checking" {
        cov.push(("states".into(), run.states.len().to_string()));
        cov.push(("transitions".into(), run.transitions.to_string()));
        cov.push(("traces_validated_against_impl".into(), run.traces.to_string()));
    }
    if p.level != "model_checking" {
        cov.push(("distinct_nontrivial".into(), run.distinct.len().to_string()));
    }
    cov.push(("evaluations".into(), run.evals.to_string()));
    cov.push(("rule".into(), jstr(&rule)));
    cov.push(("exhaustive".into(), (run.total_violations == 0).to_string()));
    let fam: Vec<String> = run.families.iter().map(|f| format!("{}:{}", jstr(&f.0), f.1)).collect();
    cov.push(("cases_per_family".into(), format!("{{{}}}", fam.join(","))));
    for (k, v) in &run.extra {
        cov.push((k.to_string(), v.to_string()));
    }
    cov.push(("samples".into(), format!("[{}]", run.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","))));
    let cov: Vec<String> = cov.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let ass: Vec<String> = p.assumes.iter().map(|s| jstr(s)).collect();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        jstr(p.id),
        jstr(if run.thorough { "thorough" } else { "quick" }),
        seed,
        jstr(p.level),
        cov.join(","),
        ass.join(","),
        wall,
        run.total_violations
    );
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", p.id), ev).expect("evidence");
    println!("{}: {} cases, {} model states, {} transitions, {} traces, {} distinct, {:.1} s", p.id, run.evals, run.states.len(), run.transitions, run.traces, run.distinct.len(), wall);
    for f in &run.families {
        println!("  {}: {} cases, {:.1} s", f.0, f.1, f.2);
    }
    if run.total_violations > 0 {
        let _ = std::fs::create_dir_all("/verif/replays");
        for (n, v) in run.violations.iter().enumerate() {
            let path = format!("/verif/replays/{}-{}.json", p.id, n);
            let t = format!(
                "{{\"property\":{},\"tier\":{},\"family\":{},\"index\":{},\"case\":{},\"message\":{}}}\n",
                jstr(p.id),
                jstr(if run.thorough { "thorough" } else { "quick" }),
                jstr(&v.family),
                v.index,
                jstr(&v.desc),
                jstr(&v.msg)
            );
            let _ = std::fs::write(&path, t);
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {} #{}: {}\n    {}", v.family, v.index, v.desc, v.msg);
        }
        println!("{} violating cases", run.total_violations);
        std::process::exit(1);
    }
    if run.evals == 0 {
        eprintln!("no cases were run");
        std::process::exit(2);
    }
}
