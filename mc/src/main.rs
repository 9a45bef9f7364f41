//! Bounded model checker for the gvas library. See ../DESIGN.md.
#![allow(dead_code)]

mod bridge;
mod checks;
mod decode;
#[macro_use]
mod explore;
mod gen;
mod mem;
mod model;
mod sched;
mod streams;

use explore::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[global_allocator]
static METER: mem::Meter = mem::Meter;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    fn parse(s: &str) -> Tier {
        match s {
            "thorough" => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
    fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// `quick` in the quick tier, `thorough` in the thorough tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

const CASE_LIMIT: Duration = Duration::from_secs(60);
const CONFIRM_LIMIT: Duration = Duration::from_secs(60);
const RSS_LIMIT: u64 = 20 << 30;
const SINGLE_RSS_LIMIT: u64 = 4 << 30;
const EXIT_HANG: i32 = 97;
const EXIT_RSS: i32 = 98;

fn root() -> PathBuf {
    std::env::var_os("MC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .clamp(1, 16)
}

/// Resident memory of this process in bytes.
fn resident() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1)?.parse::<u64>().ok())
        .unwrap_or(0)
        * 4096
}

fn known_findings(id: &str) -> Vec<(String, Vec<u32>, String)> {
    let path = root().join("known-findings.json");
    let Ok(text) = std::fs::read_to_string(&path) else {
        return Vec::new();
    };
    let v: Value = serde_json::from_str(&text).expect("known-findings.json");
    let mut out = Vec::new();
    for f in v["known"].as_array().into_iter().flatten() {
        if f["property"] == id {
            out.push((
                f["phase"].as_str().expect("phase").to_string(),
                f["choices"]
                    .as_array()
                    .expect("choices")
                    .iter()
                    .map(|x| x.as_u64().expect("choice") as u32)
                    .collect(),
                f["what"].as_str().unwrap_or("").to_string(),
            ));
        }
    }
    out
}

fn worker(id: &str, tier: Tier, dir: &Path, budget: u64) -> ! {
    install_hook();
    let check = checks::find(id).expect("unknown check");
    let phases = (check.phases)(tier);
    let known = Known(
        known_findings(id)
            .into_iter()
            .map(|(p, c, _)| (p, c))
            .collect(),
    );
    let n = threads();
    let slots = Arc::new(Slots::new(n, Some(dir)));
    {
        let slots = slots.clone();
        let dir = dir.to_path_buf();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = slots.t0.elapsed().as_millis() as u64 + 1;
            for s in &slots.started {
                let t = s.load(std::sync::atomic::Ordering::Relaxed);
                if t != 0 && now.saturating_sub(t) > CASE_LIMIT.as_millis() as u64 {
                    let _ = std::fs::write(dir.join("hang"), b"");
                    exit(EXIT_HANG);
                }
            }
            if resident() > RSS_LIMIT {
                exit(EXIT_RSS);
            }
        });
    }
    let only = std::env::var("MC_PHASE").ok();
    let deadline = Instant::now() + Duration::from_secs(budget);
    let mut list = Vec::new();
    for (i, p) in phases.iter().enumerate() {
        if let Some(o) = &only {
            if !p.name.starts_with(o.as_str()) {
                continue;
            }
        }
        let st = explore(i as u32, p, n, &slots, deadline, &known);
        if std::env::var_os("MC_VERBOSE").is_some() {
            eprintln!(
                "{:28} k={} cases={} pruned={} states={} transitions={} calls={} validated={} {:?} {:.1}s slowest {:.2}s{}",
                st.name,
                st.k,
                st.cases,
                st.pruned,
                st.states,
                st.transitions,
                st.calls,
                st.validated,
                st.outcomes,
                st.wall,
                st.slowest,
                if st.complete { "" } else { " INCOMPLETE" }
            );
        }
        let mut samples = st.samples;
        samples.sort();
        samples.dedup();
        samples.truncate(2);
        let found = !st
            .violations
            .iter()
            .all(|v| known.0.contains(&(v.phase.clone(), v.choices.clone())));
        list.push(json!({
            "name": st.name,
            "deviations": st.k,
            "cases": st.cases,
            "pruned": st.pruned,
            "states": st.states,
            "transitions": st.transitions,
            "calls": st.calls,
            "validated": st.validated,
            "longest_choice_sequence": st.deepest,
            "outcomes": st.outcomes,
            "complete": st.complete,
            "wall_s": (st.wall * 100.0).round() / 100.0,
            "samples": samples
                .iter()
                .map(|(c, s)| json!({"phase": p.name, "choices": c, "case": s}))
                .collect::<Vec<_>>(),
            "violations": st.violations
                .iter()
                .map(|v| json!({"phase": v.phase, "choices": v.choices, "what": v.what}))
                .collect::<Vec<_>>(),
        }));
        if found {
            break;
        }
    }
    let rss = std::fs::read_to_string("/proc/self/status")
        .ok()
        .and_then(|s| {
            s.lines()
                .find(|l| l.starts_with("VmHWM"))
                .and_then(|l| l.split_whitespace().nth(1).map(|x| x.to_string()))
        })
        .and_then(|x| x.parse::<u64>().ok())
        .unwrap_or(0);
    std::fs::write(
        dir.join("result.json"),
        serde_json::to_vec(&json!({"phases": list, "threads": n, "peak_rss_kb": rss})).unwrap(),
    )
    .expect("result");
    exit(0)
}

/// Runs exactly one case in this process. 0: holds, 1: fails.
fn single(id: &str, tier: Tier, phase: &str, choices: &[u32]) -> ! {
    install_hook();
    let check = checks::find(id).expect("unknown check");
    let phases = (check.phases)(tier);
    let p = phases
        .iter()
        .find(|p| p.name == phase)
        .expect("unknown phase");
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(10));
        if resident() > SINGLE_RSS_LIMIT {
            exit(EXIT_RSS);
        }
    });
    let code = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || {
                let mut obs = Obs {
                    want_show: true,
                    ..Default::default()
                };
                let r = run_case(p, choices, &mut obs);
                if let Some(s) = obs.show {
                    println!("case: {s}");
                }
                match r.out {
                    Ok(()) => {
                        println!("holds");
                        0
                    }
                    Err(Stop::Prune) => {
                        println!("not a case");
                        0
                    }
                    Err(Stop::Fail(m)) => {
                        println!("fails: {m}");
                        1
                    }
                }
            })
            .expect("thread")
            .join()
            .unwrap_or(2)
    });
    exit(code)
}

/// Confirms a crash or hang by running the case alone.
fn confirm(bin: &Path, id: &str, tier: Tier, phase: &str, choices: &[u32]) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let list: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let mut child = Command::new(bin)
        .args(["single", id, tier.name(), phase, &list.join(",")])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let end = Instant::now() + CONFIRM_LIMIT;
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            if let Some(sig) = st.signal() {
                return Some(format!("process ended by signal {sig}"));
            }
            if st.code() == Some(1) {
                return Some("fails when run alone".into());
            }
            if st.code() == Some(EXIT_RSS) {
                return Some(format!("needs more than {} GB", SINGLE_RSS_LIMIT >> 30));
            }
            return None;
        }
        if Instant::now() > end {
            let _ = child.kill();
            let _ = child.wait();
            return Some(format!("no result after {} s", CONFIRM_LIMIT.as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn supervise(bin: &Path, id: &str, tier: Tier, budget: u64) -> Value {
    use std::os::unix::process::ExitStatusExt;
    let dir = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let st = Command::new(bin)
        .args([
            "worker",
            id,
            tier.name(),
            dir.to_str().unwrap(),
            &budget.to_string(),
        ])
        .status()
        .expect("worker");
    let mut slots = Vec::new();
    for i in 0..64 {
        if let Ok(b) = std::fs::read(dir.join(format!("cur-{i}"))) {
            slots.extend(read_slot(&b));
        }
    }
    let result = std::fs::read(dir.join("result.json")).ok();
    let _ = std::fs::remove_dir_all(&dir);
    if st.success() {
        return serde_json::from_slice(&result.expect("result")).expect("result");
    }
    if st.signal().is_none() && ![Some(EXIT_HANG), Some(EXIT_RSS)].contains(&st.code()) {
        eprintln!("mc: worker ended with {st}");
        exit(2);
    }
    let phases = (checks::find(id).unwrap().phases)(tier);
    slots.sort();
    slots.dedup();
    // Cases that may each take a lot of memory are not confirmed side by side.
    let memory = st.code() == Some(EXIT_RSS) || st.signal() == Some(9);
    let turn = std::sync::Mutex::new(());
    let alone: Vec<_> = std::thread::scope(|s| {
        let all: Vec<_> = slots
            .iter()
            .filter_map(|(p, choices)| Some((phases.get(*p as usize)?, choices)))
            .map(|(ph, choices)| {
                let name = ph.name.clone();
                let turn = &turn;
                s.spawn(move || {
                    let _turn = memory.then(|| turn.lock());
                    let what = confirm(bin, id, tier, &name, choices);
                    (name, choices, what)
                })
            })
            .collect();
        all.into_iter()
            .map(|h| h.join().expect("confirm"))
            .collect()
    });
    let v: Vec<Value> = alone
        .iter()
        .filter_map(|(name, choices, what)| {
            Some(json!({"phase": name, "choices": choices, "what": what.as_ref()?}))
        })
        .collect();
    if v.is_empty() {
        eprintln!("mc: worker ended with {st}, not reproduced by any running case");
        for (name, choices, _) in &alone {
            eprintln!("mc: running was {name} {choices:?}");
        }
        exit(2);
    }
    json!({"phases": [{
        "name": v[0]["phase"], "cases": 0, "states": 0, "transitions": 0, "calls": 0,
        "validated": 0, "complete": false, "samples": [], "violations": v,
    }]})
}

fn run(id: &str, tier: Tier, second: Option<PathBuf>) -> ! {
    let t0 = Instant::now();
    let check = match checks::find(id) {
        Some(c) => c,
        None => {
            eprintln!("mc: no such check: {id}");
            exit(2)
        }
    };
    let budget = tier.pick(600, 10800);
    let me = std::env::current_exe().expect("exe");
    let mut results = vec![("checked", supervise(&me, id, tier, budget))];
    let bad = |r: &Value| {
        r["phases"]
            .as_array()
            .unwrap()
            .iter()
            .any(|p| !p["violations"].as_array().unwrap().is_empty())
    };
    if let Some(b) = second {
        if !bad(&results[0].1) || !known_findings(id).is_empty() {
            results.push(("shipping", supervise(&b, id, tier, budget)));
        }
    }

    let evidence = root().join("evidence");
    let replays = evidence.join("replays");
    std::fs::create_dir_all(&replays).expect("evidence dir");
    for e in std::fs::read_dir(&replays).expect("replays").flatten() {
        if e.file_name()
            .to_string_lossy()
            .starts_with(&format!("{id}-"))
        {
            let _ = std::fs::remove_file(e.path());
        }
    }

    let known = known_findings(id);
    let sum = |k: &str| -> u64 {
        results
            .iter()
            .flat_map(|(_, r)| r["phases"].as_array().unwrap())
            .map(|p| p[k].as_u64().unwrap_or(0))
            .sum()
    };
    let mut violations = Vec::new();
    let mut complete = true;
    let mut samples = Vec::new();
    let mut phases = Vec::new();
    let mut seen_known = Vec::new();
    for (build, r) in &results {
        for p in r["phases"].as_array().unwrap() {
            complete &= p["complete"].as_bool().unwrap_or(false);
            for s in p["samples"].as_array().unwrap() {
                if *build == "checked" {
                    samples.push(s.clone());
                }
            }
            let mut q = p.clone();
            q["build"] = json!(build);
            q.as_object_mut().unwrap().shift_remove("samples");
            q.as_object_mut().unwrap().shift_remove("violations");
            phases.push(q);
            for v in p["violations"].as_array().unwrap() {
                let choices: Vec<u32> = v["choices"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| x.as_u64().unwrap() as u32)
                    .collect();
                match known
                    .iter()
                    .find(|(ph, c, _)| v["phase"] == ph.as_str() && *c == choices)
                {
                    Some(k) => {
                        if !seen_known.contains(&k.2) {
                            seen_known.push(k.2.clone());
                        }
                    }
                    None => violations.push((build, v.clone())),
                }
            }
        }
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    for (n, (build, v)) in violations.iter().take(5).enumerate() {
        let path = replays.join(format!("{id}-{n}.json"));
        let mut r = v.clone();
        r["property"] = json!(id);
        r["tier"] = json!(tier.name());
        r["build"] = json!(build);
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("replay");
        println!("VIOLATION property={id} replay={}", path.display());
        let what: String = v["what"].as_str().unwrap_or("").chars().take(600).collect();
        println!("  [{}] {}", v["phase"].as_str().unwrap_or(""), what);
    }
    let mut coverage = json!({
        "states": sum("states"),
        "transitions": sum("transitions"),
        "traces_validated_against_impl": sum("validated"),
        "samples": samples,
        "cases": sum("cases"),
        "library_calls": sum("calls"),
        "phases": phases,
        "known_findings_met": seen_known.len(),
    });
    if check.level == "fault_enumeration" {
        coverage["evaluations"] = json!(sum("cases"));
        coverage["distinct_nontrivial"] = json!(sum("states"));
        coverage["rule"] = json!(check.rule);
        coverage.as_object_mut().unwrap().shift_remove("cases");
        coverage.as_object_mut().unwrap().shift_remove("states");
    } else {
        coverage["rule"] = json!(check.rule);
    }
    let seed: i64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let ev = json!({
        "property": id,
        "tier": tier.name(),
        "seed": seed,
        "level": check.level,
        "coverage": coverage,
        "exhaustive": complete && violations.is_empty(),
        "assumptions": check.assumptions,
        "violations": violations.len(),
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
    });
    std::fs::write(
        evidence.join(format!("{id}.json")),
        serde_json::to_vec_pretty(&ev).unwrap(),
    )
    .expect("evidence");
    if !violations.is_empty() {
        exit(1);
    }
    // A phase that explores nothing shows nothing.
    for p in &phases {
        if p["complete"] == true && p["cases"] == 0 {
            eprintln!("{id}: phase {} has no cases", p["name"]);
            exit(2);
        }
    }
    println!(
        "{id}: holds on {} cases ({} states, {} transitions){}",
        sum("cases"),
        sum("states"),
        sum("transitions"),
        if complete { "" } else { "; not all explored" }
    );
    exit(0)
}

fn parse_list(s: &str) -> Vec<u32> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().expect("choice"))
        .collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], Tier::parse(&a[3]), a.get(4).map(PathBuf::from)),
        Some("worker") => worker(
            &a[2],
            Tier::parse(&a[3]),
            Path::new(&a[4]),
            a[5].parse().unwrap(),
        ),
        Some("single") => single(&a[2], Tier::parse(&a[3]), &a[4], &parse_list(&a[5])),
        Some("probe") => checks::probe(&a[2..]),
        Some("replay") => {
            let v: Value =
                serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("json");
            let c: Vec<u32> = v["choices"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_u64().unwrap() as u32)
                .collect();
            single(
                v["property"].as_str().unwrap(),
                Tier::parse(v["tier"].as_str().unwrap()),
                v["phase"].as_str().unwrap(),
                &c,
            )
        }
        _ => {
            eprintln!("usage: mc run <id> quick|thorough [second binary] | replay <file>");
            exit(2)
        }
    }
}
