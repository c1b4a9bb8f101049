//! Explicit-state exploration of puruspe's behaviour. See /verif/DESIGN.md.
//!   pv check ID quick|thorough     run one property's check (forks a worker)
//!   pv replay FILE                 re-run one recorded case
//!   pv selftest                    check the reference model against the mpmath anchors
#[macro_use]
mod eng;
mod anchors;
mod refm;
mod c_bes;
mod c_beta;
mod c_cache;
mod c_dom;
mod c_err;
mod c_fad;
mod c_gamma;
mod c_hist;
mod c_link;
mod c_mem;
mod c_misc;
mod c_sched;
mod calls;
mod forks;

use eng::*;
use std::io::Write;
use std::time::Instant;

pub struct Check {
    pub id: &'static str,
    pub kinds: &'static [&'static str],
    pub case: Case,
    pub run: fn(&Ctx, &mut L),
    /// What the enumerated space is, for the evidence file.
    pub space: &'static str,
}
fn checks() -> Vec<Check> {
    let mut v = vec![];
    v.extend(c_gamma::checks());
    v.extend(c_beta::checks());
    v.extend(c_err::checks());
    v.extend(c_fad::checks());
    v.extend(c_bes::checks());
    v.extend(c_cache::checks());
    v.extend(c_hist::checks());
    v.extend(c_sched::checks());
    v.extend(c_dom::checks());
    v.extend(c_misc::checks());
    v.extend(c_mem::checks());
    v.extend(c_link::checks());
    v
}
#[global_allocator]
static ALLOC: c_mem::Counting = c_mem::Counting;

fn root() -> String {
    std::env::var("PV_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
struct Known {
    prop: String,
    kind: String,
    args: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut p = r.splitn(4, ' ');
            let mut get = |k: &str| p.next().and_then(|w| w.strip_prefix(k)).unwrap_or("").to_string();
            let (prop, kind, args) = (get("property="), get("kind="), get("args="));
            v.push(Known { prop, kind, args, text: p.next().unwrap_or("").to_string() });
        }
    }
    v
}
fn write_replay(id: &str, n: usize, f: &Fail) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{n}.json");
    let body = format!(
        "{{\n  \"property\": {},\n  \"kind\": {},\n  \"args_hex\": {},\n  \"args\": {},\n  \"what\": {},\n  \"how\": \"{} replay {}\"\n}}\n",
        esc(id), esc(f.kind), esc(&hex(&f.args)), esc(&format!("{:?}", f.args)), esc(&f.what), std::env::current_exe().unwrap().display(), path
    );
    let _ = std::fs::write(&path, body);
    path
}
/// Other builds of the library that were explored before this one (see check.sh).
fn variants() -> Vec<String> {
    std::env::var("PV_VARIANTS").map(|v| v.split(',').filter(|w| !w.is_empty()).map(str::to_string).collect()).unwrap_or_default()
}
fn counts(id: &str, variant: &str) -> String {
    format!("{}/target/{id}-{variant}.count", root())
}
fn evidence(id: &str, tier: &str, l: &L, wall: f64, violations: usize, exhaustive: bool, space: &str) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let list = |v: &[String]| v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n      ");
    let mut extra = l.extra.clone();
    for v in variants() {
        if let Some(n) = std::fs::read_to_string(counts(id, &v)).ok().and_then(|t| t.trim().parse().ok()) {
            extra.insert(format!("states_in_the_{v}_build"), n);
        }
    }
    let extra: String = extra.iter().map(|(k, n)| format!("    {}: {},\n", esc(k), n)).collect();
    let body = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"model_checking\",\n  \"coverage\": {{\n    \"states\": {},\n    \"transitions\": {},\n    \"traces_validated_against_impl\": {},\n    \"calls_into_the_implementation\": {},\n    \"points_outside_the_stated_domain_skipped\": {},\n{}    \"exhaustive\": {},\n    \"space\": {},\n    \"samples\": [\n      {}\n    ],\n    \"worst_cases\": [\n      {}\n    ]\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        esc(id), esc(tier), seed, l.states, l.trans, l.traces, l.evals, l.skipped, extra, exhaustive, esc(space),
        list(&l.samples), list(&l.worst_lines()),
        esc("x86_64 IEEE-754 double arithmetic; the reference model is binary128 code validated on every run against the committed mpmath anchors"),
        wall, violations
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{dir}/.{id}.tmp");
    std::fs::write(&tmp, body).expect("evidence");
    std::fs::rename(&tmp, format!("{dir}/{id}.json")).expect("evidence");
}
/// Print the outcome of a set of failures; returns the exit status.
fn report(id: &str, mut fails: Vec<(u64, Fail)>) -> (i32, usize) {
    fails.sort_by_key(|f| f.0);
    let known = known_findings();
    let mut seen = std::collections::BTreeSet::new();
    let mut bad = 0;
    let mut line = None;
    for (_, f) in &fails {
        let h = hex(&f.args);
        if let Some(k) = known.iter().find(|k| k.prop == id && k.kind == f.kind && k.args == h) {
            if seen.insert(h) {
                println!("KNOWN-FINDING: property={id} {}", k.text);
            }
            continue;
        }
        bad += 1;
        if bad <= 3 {
            let p = write_replay(id, bad, f);
            eprintln!("property {id}: case {} {:?}: {}  [{}]", f.kind, f.args, f.what, p);
            line.get_or_insert(p);
        }
    }
    match line {
        Some(p) => {
            println!("VIOLATION property={id} replay={p}");
            (1, bad)
        }
        None => (0, 0),
    }
}
fn find(id: &str) -> Check {
    match checks().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no check for {id}");
            std::process::exit(2)
        }
    }
}
fn worker(id: &str, tier: &str, journal: &str) -> i32 {
    let start = Instant::now();
    let c = find(id);
    open_journal(journal);
    limit_memory(12 << 30);
    register_thread(0);
    std::panic::set_hook(Box::new(|_| {}));
    if let Err(e) = anchors::verify() {
        eprintln!("reference model failed its anchors: {e}");
        return 2;
    }
    let ctx = Ctx { id: c.id, thorough: tier == "thorough", kinds: c.kinds, case: c.case };
    let (ids, kinds, tier_s, space) = (c.id, c.kinds, tier.to_string(), c.space);
    let stop = watchdog(20.0, 150.0, move |k, args, why| {
        let f = Fail { kind: kinds[k.min(kinds.len() - 1)], args, what: why };
        let (mut st, n) = report(ids, vec![(0, f)]);
        if st == 0 {
            st = 2;
        }
        evidence(ids, &tier_s, &L::new(kinds), start.elapsed().as_secs_f64(), n, false, space);
        let _ = std::io::stdout().flush();
        std::process::exit(st);
    });
    let mut l = L::new(c.kinds);
    (c.run)(&ctx, &mut l);
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    let fails = std::mem::take(&mut l.fails);
    let complete = fails.is_empty();
    let (st, n) = report(id, fails);
    evidence(id, tier, &l, start.elapsed().as_secs_f64(), n, complete, c.space);
    if let Ok(v) = std::env::var("PV_VARIANT") {
        eprint!("{v} build: ");
        let _ = std::fs::write(counts(id, &v), l.states.to_string());
    }
    eprintln!("{id} {tier}: {} states, {} transitions, {} traces, {} calls, {:.1} s", l.states, l.trans, l.traces, l.evals, start.elapsed().as_secs_f64());
    if std::env::var("PV_WORST").is_ok() {
        for w in l.worst_lines() {
            eprintln!("  {w}");
        }
    }
    st
}
fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        let i = t.find(&format!("\"{k}\": \"")).expect("field") + k.len() + 5;
        t[i..].split('"').next().unwrap().to_string()
    };
    let (id, kind, args) = (get("property"), get("kind"), unhex(&get("args_hex")));
    run_case(&id, &kind, &args)
}
fn run_case(id: &str, kind: &str, args: &[f64]) -> i32 {
    let c = find(id);
    std::panic::set_hook(Box::new(|i| eprintln!("panic: {i}")));
    let k = c.kinds.iter().find(|k| **k == kind).expect("kind");
    let mut l = L::new(c.kinds);
    (c.case)(&mut l, k, args);
    for (_, f) in &l.fails {
        println!("reproduced: {} {:?}: {}", f.kind, f.args, f.what);
    }
    if l.fails.is_empty() {
        println!("not reproduced");
        0
    } else {
        1
    }
}
fn shard(id: &str, i: usize, n: usize, thorough: bool) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let out = match id {
        "P25" => c_hist::shard(i, n, thorough),
        "P26" => match c_sched::shard(i, n, thorough) {
            Some(o) => o,
            None => return 2,
        },
        _ => return 2,
    };
    out.print();
    0
}
fn check(id: &str, tier: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let c = find(id);
    let _ = std::fs::remove_file(format!("{}/evidence/{id}.json", root()));
    let journal = std::env::temp_dir().join(format!("pv-journal-{}-{id}", std::process::id()));
    let journal = journal.to_str().unwrap().to_string();
    std::fs::write(&journal, vec![0u8; 64 * 512]).expect("journal");
    let me = std::env::current_exe().unwrap();
    let start = Instant::now();
    let st = std::process::Command::new(&me).args(["worker", id, tier, &journal]).status().expect("worker");
    let flight = read_journal(&journal);
    let _ = std::fs::remove_file(&journal);
    if let Some(code) = st.code() {
        return code;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("{id}: worker ended by signal {sig}");
    if sig == 9 || sig == 15 || flight.is_empty() {
        return 2;
    }
    // The code under test brought the process down: find the case in flight that does it again.
    let mut culprit = None;
    for (k, args) in &flight {
        let kind = c.kinds[(*k).min(c.kinds.len() - 1)];
        let r = std::process::Command::new(&me).args(["case", id, kind, &hex(args)]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        if r.map(|r| r.code() != Some(0)).unwrap_or(false) {
            culprit = Some((*k, args.clone()));
            break;
        }
    }
    let (k, args) = culprit.unwrap_or_else(|| flight[0].clone());
    let f = Fail { kind: c.kinds[k.min(c.kinds.len() - 1)], args, what: format!("the process died with signal {sig} while evaluating this case") };
    let (st, n) = report(id, vec![(0, f)]);
    evidence(id, tier, &L::new(c.kinds), start.elapsed().as_secs_f64(), n, false, c.space);
    st
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let st = match a[1..] {
        ["check", id, tier] => check(id, tier),
        ["worker", id, tier, j] => worker(id, tier, j),
        ["case", id, kind, args] => run_case(id, kind, &unhex(args)),
        ["shard", id, i, n, tier] => shard(id, i.parse().unwrap(), n.parse().unwrap(), tier == "thorough"),
        ["replay", f] => replay(f),
        ["list"] => {
            for c in checks() {
                println!("{} {}", c.id, c.space);
            }
            0
        }
        ["selftest"] => match anchors::verify() {
            Ok(n) => {
                println!("{n} anchors agree");
                0
            }
            Err(e) => {
                println!("{e}");
                1
            }
        },
        _ => 2,
    };
    let _ = std::io::stdout().flush();
    std::process::exit(st);
}
