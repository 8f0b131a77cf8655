//! Model checker for mp4ameta: enumerates inputs, operation histories and environment answers within
//! stated bounds and executes the real crate on every one of them.

use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::Instant;

#[macro_use]
mod engine;
mod checks;
mod fields;
mod gen;
mod ios;
mod model;
mod mp4;
mod sys;

use engine::*;

#[global_allocator]
static ALLOC: sys::Counting = sys::Counting;

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_owned())
}

fn usage() -> ! {
    eprintln!("usage: mc check ID [--tier quick|thorough] [--only SUITE] | mc replay FILE | mc list");
    sys::exit_now(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut choices = None;
    let mut slots = None;
    let mut pos = Vec::new();
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = match args.get(i).map(|s| s.as_str()) {
                    Some("quick") => Tier::Quick,
                    Some("thorough") => Tier::Thorough,
                    _ => usage(),
                };
            }
            "--only" => {
                i += 1;
                only = args.get(i).cloned();
            }
            "--choices" => {
                i += 1;
                let s = args.get(i).cloned().unwrap_or_default();
                choices = Some(s.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect::<Vec<u32>>());
            }
            "--slots" => {
                i += 1;
                slots = args.get(i).cloned();
            }
            _ => pos.push(args[i].clone()),
        }
        i += 1;
    }
    match pos.first().map(|s| s.as_str()) {
        Some("list") => {
            for c in checks::all() {
                println!("{}\t{}\t{}\t{}", c.id, c.level, c.technique, c.note);
            }
        }
        Some("check") if pos.len() == 2 => parent(&pos[1], tier, only),
        Some("replay") if pos.len() == 2 => {
            let s = std::fs::read_to_string(&pos[1]).unwrap_or_else(|e| harness_error(&format!("{}: {}", pos[1], e)));
            let field = |k: &str| {
                let a = s.find(&format!("\"{}\": \"", k)).map(|p| p + k.len() + 5);
                a.and_then(|a| s[a..].find('"').map(|b| s[a..a + b].to_owned())).unwrap_or_default()
            };
            let a = s.find('[').unwrap_or(0) + 1;
            let b = s.find(']').unwrap_or(a);
            let ch: Vec<u32> = s[a..b].split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
            child(&field("property"), tier, None, Some((field("suite"), ch)), None)
        }
        // internal
        Some("run") if pos.len() == 2 => child(&pos[1], tier, only, None, slots),
        Some("one") if pos.len() == 3 => child(&pos[1], tier, None, Some((pos[2].clone(), choices.unwrap_or_default())), None),
        _ => usage(),
    }
}

/// Runs the check in a child process, so that a crash of it can be told from a result.
fn parent(id: &str, tier: Tier, only: Option<String>) -> ! {
    if !checks::all().iter().any(|c| c.id == id) {
        harness_error(&format!("no check for {}", id));
    }
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir();
    let slots = dir.join(format!("mc-slots-{}-{}", id, std::process::id()));
    let tier_name = match tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let mut cmd = Command::new(&exe);
    cmd.args(["run", id, "--tier", tier_name, "--slots"]).arg(&slots);
    if let Some(o) = &only {
        cmd.args(["--only", o]);
    }
    let st = cmd.status().unwrap_or_else(|e| harness_error(&format!("{}", e)));
    let code = match st.code() {
        Some(c @ 0..=2) => c,
        c => {
            // killed: find out which execution does that
            let mut b = Vec::new();
            if let Ok(mut f) = File::open(&slots) {
                let _ = f.read_to_end(&mut b);
            }
            let mut r = 2;
            for (suite, ch) in read_slots(&b) {
                let list: Vec<String> = ch.iter().map(|c| c.to_string()).collect();
                let st = Command::new(&exe)
                    .args(["one", id, &suite, "--tier", tier_name, "--choices", &list.join(",")])
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .status();
                let how = match st {
                    Ok(s) if matches!(s.code(), Some(0..=2)) => continue,
                    Ok(s) => format!("{}", s),
                    Err(_) => continue,
                };
                let msg = format!("the process was ended: {}", how);
                let path = write_replay(id, &suite, &ch, &msg);
                println!("violated in suite {}: {}", suite, msg);
                println!("VIOLATION property={} replay={}", id, path);
                r = 1;
                break;
            }
            if r == 2 {
                eprintln!("HARNESS-ERROR: the check ended with {:?} ({})", c, st);
            }
            r
        }
    };
    let _ = std::fs::remove_file(&slots);
    let _ = std::io::stdout().flush();
    sys::exit_now(code)
}

struct Known {
    property: String,
    what: String,
    suite: String,
    choices: Vec<u32>,
}

/// Lines `known: property=ID suite=NAME choices=1,2,3 WHAT`.
fn known_findings() -> Vec<Known> {
    let path = format!("{}/known_findings.txt", verif_dir());
    let s = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = Vec::new();
    for l in s.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut k = Known { property: String::new(), what: String::new(), suite: String::new(), choices: Vec::new() };
            let mut words = Vec::new();
            for w in rest.split(' ') {
                if let Some(p) = w.strip_prefix("property=") {
                    k.property = p.to_owned();
                } else if let Some(p) = w.strip_prefix("suite=") {
                    k.suite = p.to_owned();
                } else if let Some(p) = w.strip_prefix("choices=") {
                    k.choices = p.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                } else {
                    words.push(w);
                }
            }
            k.what = words.join(" ");
            v.push(k);
        }
    }
    v
}

fn child(id: &str, tier: Tier, only: Option<String>, replay: Option<(String, Vec<u32>)>, slots: Option<String>) -> ! {
    install_hook();
    let all = checks::all();
    let check = match all.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => harness_error(&format!("no check for {}", id)),
    };
    if let Some(p) = slots {
        let f = File::options().read(true).write(true).create(true).truncate(true).open(p);
        map_slots(&f.unwrap_or_else(|e| harness_error(&format!("{}", e))));
    }
    start_watchdog(id);
    let t0 = Instant::now();
    let mut run = Run::new(id, tier);
    run.only = only;
    run.replay = replay.clone();
    (check.run)(&mut run);

    if replay.is_some() {
        for v in &run.violations {
            println!("violated in suite {}: {}", v.suite, v.msg);
            println!("VIOLATION property={} replay={}", id, write_replay(id, &v.suite, &v.choices, &v.msg));
        }
        if run.violations.is_empty() {
            println!("no violation");
        }
        sys::exit_now(if run.violations.is_empty() { 0 } else { 1 })
    }

    let known = known_findings();
    let mut bad = 0;
    for v in &run.violations {
        match known.iter().find(|k| k.property == id && k.suite == v.suite && k.choices == v.choices) {
            Some(k) => println!("KNOWN-FINDING: property={} {}", id, k.what),
            None => {
                bad += 1;
                let path = write_replay(id, &v.suite, &v.choices, &v.msg);
                println!("violated in suite {}: {}", v.suite, v.msg);
                println!("VIOLATION property={} replay={}", id, path);
            }
        }
    }
    evidence(check, &run, t0.elapsed().as_secs_f64(), bad);
    let _ = std::io::stdout().flush();
    if run.suites.is_empty() {
        harness_error("nothing was explored");
    }
    sys::exit_now(if bad > 0 { 1 } else { 0 })
}

fn evidence(check: &checks::Check, run: &Run, wall: f64, violations: usize) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    let tier = match run.tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let sum = |f: &dyn Fn(&SuiteStats) -> u64| run.suites.iter().map(f).sum::<u64>();
    let execs = sum(&|s| s.executions);
    let points = sum(&|s| s.points);
    let steps = sum(&|s| s.steps);
    let states = sum(&|s| s.states);
    let capped = run.suites.iter().any(|s| s.capped);
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    for s in &run.suites {
        for (k, v) in &s.labels {
            *labels.entry(k).or_default() += v;
        }
        samples.extend(s.samples.iter().take(2).map(|x| format!("{}: {}", s.name, x)));
    }
    samples.truncate(12);
    if samples.is_empty() {
        samples.push("(none recorded)".to_owned());
    }
    let list = |v: &[String]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let suites: Vec<String> = run
        .suites
        .iter()
        .map(|s| {
            format!(
                "{{\"name\": {}, \"bound\": {}, \"executions\": {}, \"choice_points\": {}, \"steps\": {}, \"distinct_states\": {}, \"executions_per_level\": {:?}, \"outcomes\": {{{}}}, \"time_cap_hit\": {}, \"wall_s\": {:.2}}}",
                json(&s.name),
                json(&s.bound),
                s.executions,
                s.points,
                s.steps,
                s.states,
                s.levels,
                s.labels.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", "),
                s.capped,
                s.wall
            )
        })
        .collect();
    let counts = match check.level {
        "fault_enumeration" => format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}",
            execs,
            labels.iter().filter(|(k, _)| !k.starts_with("trivial")).map(|(_, v)| *v).sum::<u64>().min(execs),
            json(check.rule)
        ),
        _ => format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"rule\": {}",
            if states > 0 { states } else { points },
            points + steps,
            execs,
            json(check.rule)
        ),
    };
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  {},\n  \"exhaustive\": {},\n  \"samples\": [{}],\n  \"suites\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json(check.id),
        json(tier),
        seed,
        json(check.level),
        counts,
        !capped && violations == 0,
        list(&samples),
        suites.join(",\n   "),
        list(&check.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        wall,
        violations
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, check.id), s) {
        harness_error(&format!("evidence: {}", e));
    }
}
