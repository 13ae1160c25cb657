mod core;
mod drive;
mod env;
mod props;
mod sched;

use crate::core::*;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// pick a bound by tier
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub scenarios: fn(Tier) -> Vec<Scenario>,
    pub assumptions: &'static [&'static str],
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| {
        std::env::current_exe()
            .ok()
            .and_then(|p| p.ancestors().find(|a| a.join("MANIFEST.json").exists()).map(|p| p.to_path_buf()))
            .unwrap_or_else(|| "/verif".into())
    })
}

fn parse_choices(v: &Value) -> Vec<Ch> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| Ch {
            chosen: x[0].as_u64().unwrap() as u16,
            n: x[1].as_u64().unwrap() as u16,
            dev: x[2].as_bool().unwrap(),
        })
        .collect()
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => cmd_check(&args[1..]),
        Some("replay") => cmd_replay(&args[1..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <property> <quick|thorough> [scenario-filter] | mc replay <file> | mc list");
            2
        }
    };
    // leave without running destructors of possibly hung worker threads
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn cmd_replay(a: &[String]) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[0]).expect("replay file")).expect("json");
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let prop = props::all().into_iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("property");
    let sc = (prop.scenarios)(tier)
        .into_iter()
        .find(|s| s.name == v["scenario"].as_str().unwrap())
        .expect("scenario");
    let mut rt = mk_rt();
    let r = run_one(&mut rt, &sc, parse_choices(&v["choices"]), true);
    for l in r.trace.unwrap() {
        println!("{l}");
    }
    println!("=> {:?}", r.outcome);
    match r.outcome {
        Outcome::Violation(_) => 1,
        Outcome::Harness(_) => 2,
        _ => 0,
    }
}

/// Add what the thread-interleaving engine has just covered for the same property.
fn merge(ev: &mut Value, path: &std::path::Path) {
    let other: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("evidence of the other engine")).expect("json");
    let o = &other["coverage"];
    for k in ["states", "transitions", "traces_validated_against_impl", "distinct_outcomes"] {
        ev["coverage"][k] = json!(ev["coverage"][k].as_u64().unwrap_or(0) + o[k].as_u64().unwrap_or(0));
    }
    ev["coverage"]["exhaustive"] = json!(ev["coverage"]["exhaustive"] == true && o["exhaustive"] == true);
    for k in ["scenarios", "samples"] {
        let mut v = o[k].as_array().cloned().unwrap_or_default();
        v.extend(ev["coverage"][k].as_array().cloned().unwrap_or_default());
        ev["coverage"][k] = json!(v);
    }
    ev["coverage"]["explanation"] = json!(format!(
        "{} Scenarios named 'threads: ...': {}",
        ev["coverage"]["explanation"].as_str().unwrap_or(""),
        o["explanation"].as_str().unwrap_or("")
    ));
    let mut a = other["assumptions"].as_array().cloned().unwrap_or_default();
    a.extend(ev["assumptions"].as_array().cloned().unwrap_or_default());
    ev["assumptions"] = json!(a);
    ev["wall_s"] = json!(ev["wall_s"].as_f64().unwrap_or(0.0) + other["wall_s"].as_f64().unwrap_or(0.0));
}

fn cmd_check(a: &[String]) -> i32 {
    let id = a[0].as_str();
    let tier = match a.get(1).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let filter = a.get(2).cloned();
    let prop = match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            return 2;
        }
    };
    let nthreads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let total = Duration::from_secs(
        std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(420, 1500)),
    );
    let t0 = Instant::now();
    let mut per = vec![];
    let mut sum = Stats::default();
    let mut all_samples: Vec<Value> = vec![];
    let mut violation: Option<Found> = None;
    let dir = verif_dir();
    let scs = (prop.scenarios)(tier);
    let nsc = scs.len();
    for (i, sc) in scs.into_iter().enumerate() {
        if let Some(f) = &filter {
            if !sc.name.contains(f.as_str()) {
                continue;
            }
        }
        let left = total.saturating_sub(t0.elapsed());
        // every scenario gets at least a share of what is left
        let budget = (left / 2).max(left / ((nsc - i) as u32)).max(Duration::from_secs(2));
        let (st, res, samples) = explore(&sc, nthreads, budget);
        println!(
            "{id} {}: executions={} transitions={} states={} outcomes={} depth={} dev_bound={} {}wall={:.2}s",
            sc.name, st.executions, st.transitions, st.states, st.outcomes, st.max_depth, sc.dev_bound,
            if st.capped { "CAPPED " } else { "" }, st.wall_s
        );
        sum.executions += st.executions;
        sum.transitions += st.transitions;
        sum.states += st.states;
        sum.outcomes += st.outcomes;
        sum.capped |= st.capped;
        per.push(json!({
            "scenario": sc.name, "executions": st.executions, "transitions": st.transitions,
            "distinct_states": st.states, "distinct_outcomes": st.outcomes, "max_choice_depth": st.max_depth,
            "deviation_bound": sc.dev_bound, "completed": !st.capped, "wall_s": st.wall_s,
        }));
        if all_samples.len() < 6 {
            for s in samples.into_iter().rev().take(1) {
                let mut rt = mk_rt();
                let r = run_one(&mut rt, &sc, s.clone(), true);
                all_samples.push(json!({"scenario": sc.name, "choices": fmt_choices(&s), "history": r.trace}));
            }
        }
        match res {
            None => {}
            Some(Err(m)) => {
                eprintln!("CHECK ERROR {id}: {m}");
                return 2;
            }
            Some(Ok(f)) => {
                violation = Some(f);
                break;
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum.states,
            "transitions": sum.transitions,
            "traces_validated_against_impl": sum.executions,
            "distinct_outcomes": sum.outcomes,
            "exhaustive": !sum.capped && violation.is_none() && filter.is_none(),
            "scenarios": per,
            "samples": all_samples,
            "explanation": "Stateless exhaustive exploration of the real tower code: every execution is one complete run of the implementation compared step by step with the oracle / reference model (hence traces_validated_against_impl = complete executions). states = distinct observable histories at decision points; transitions = distinct edges of the decision tree."
        },
        "assumptions": prop.assumptions,
        "wall_s": wall,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    let mut code = 0;
    if let Some(f) = violation {
        code = 1;
        let rd = dir.join("replay");
        let _ = std::fs::create_dir_all(&rd);
        let path = rd.join(format!("{id}.json"));
        let rep = json!({
            "property": id,
            "engine": "mc",
            "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "scenario": f.scenario,
            "message": f.message,
            "choices": f.choices.iter().map(|c| json!([c.chosen, c.n, c.dev])).collect::<Vec<_>>(),
            "trace": f.trace,
            "how_to_replay": format!("cd /verif && ./check.sh replay {}", path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("write replay");
        println!("scenario: {}", f.scenario);
        for l in &f.trace {
            println!("    {l}");
        }
        println!("{}", f.message);
        println!("VIOLATION property={id} replay={}", path.display());
        ev["coverage"]["violation"] = rep;
    }
    let ed = dir.join("evidence");
    if std::env::var_os("MC_MERGE").is_some() && filter.is_none() {
        merge(&mut ev, &ed.join(format!("{id}.json")));
    }
    let _ = std::fs::create_dir_all(&ed);
    if filter.is_none() {
        std::fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!(
        "{id}: {} executions={} transitions={} states={} wall={:.1}s{}",
        if code == 0 { "held on everything explored" } else { "VIOLATED" },
        sum.executions, sum.transitions, sum.states, wall,
        if sum.capped { " (time cap reached: not exhaustive)" } else { "" }
    );
    code
}
