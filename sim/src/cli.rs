//! Parent and worker processes, evidence, replay files.

use crate::core::*;
use crate::runner::*;
use crate::tape::*;
use crate::{Prop, PROPS};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

type Args = HashMap<String, String>;

fn num(args: &Args, key: &str, default: u64) -> u64 {
    args.get(key).map(|v| v.parse().expect("number")).unwrap_or(default)
}

pub fn main() -> i32 {
    install_panic_hook();
    let argv: Vec<String> = std::env::args().collect();
    let mut args: Args = HashMap::new();
    let mut i = 2;
    while i + 1 < argv.len() {
        args.insert(argv[i].trim_start_matches("--").to_string(), argv[i + 1].clone());
        i += 2;
    }
    match argv.get(1).map(|s| s.as_str()) {
        Some("check") => check(&args),
        Some("worker") => worker(&args),
        Some("one") => one(&args),
        Some("minimise") => minimise_cmd(&args),
        Some("replay") => replay(&args),
        Some("digest") => digest(&args),
        Some("aux") => crate::props_model::aux(&args),
        _ => {
            eprintln!("usage: dsim check|worker|one|minimise|replay|digest ...");
            2
        }
    }
}

// ---------------------------------------------------------------- findings

struct Finding {
    class: String,
    contains: String,
    text: String,
}

fn one_line(text: &str) -> String {
    let mut s: String = text.replace('\n', " ").chars().take(3000).collect();
    if s.len() < text.len() {
        s.push_str(" ...");
    }
    s
}

/// Lines `finding: property=<id> class=<class> :: <part of detail> :: <text>`.
fn known_findings(id: &str) -> Vec<Finding> {
    let path = verif_dir().join("known_findings.txt");
    let mut out = vec![];
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix(&format!("finding: property={} class=", id)) {
            let parts: Vec<&str> = rest.split(" :: ").collect();
            if parts.len() == 3 {
                out.push(Finding { class: parts[0].into(), contains: parts[1].into(), text: parts[2].into() });
            }
        }
    }
    out
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("DSIM_VERIF").unwrap_or_else(|_| "/verif".into()))
}

// ------------------------------------------------------------------ worker

#[derive(Default)]
struct Tally {
    runs: u64,
    steps: u64,
    switches: u64,
    sim_ns: u64,
    nontrivial: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    cases: HashSet<u64>,
    scheds: HashSet<u64>,
    signatures: HashSet<u64>,
}

fn hash_tape(tape: &[u64]) -> u64 {
    tape.iter().fold(tape.len() as u64, |h, &v| mix(h ^ v.wrapping_mul(0x9e37_79b9)))
}

fn signature(stats: &RunStats) -> u64 {
    let log = |v: u64| 64 - v.leading_zeros() as u64;
    let mut h = log(stats.steps);
    for (k, v) in stats.faults.iter() {
        h = mix(h ^ hash_str(k) ^ log(*v));
    }
    for (k, v) in stats.probes.iter() {
        h = mix(h ^ hash_str(k) ^ log(*v));
    }
    mix(h ^ log(stats.switches))
}

fn tape_str(tape: &[u64]) -> String {
    tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter(|v| !v.trim().is_empty()).map(|v| v.trim().parse().expect("tape")).collect()
}

fn worker(args: &Args) -> i32 {
    let p = prop(&args["prop"]);
    let seed = num(args, "seed", 1);
    let (k, n, runs) = (num(args, "k", 0), num(args, "n", 1), num(args, "runs", 1));
    let upto = num(args, "upto", u64::MAX);
    let deadline = num(args, "deadline", 3600) as f64;
    let status = std::fs::File::create(&args["status"]).expect("status file");
    limit_memory(6 << 30);
    let findings = known_findings(p.id);
    let start = Instant::now();
    let mut tally = Tally::default();
    let mut violation = None;
    let mut i = num(args, "from", k);
    while i < runs && i <= upto {
        if start.elapsed().as_secs_f64() > deadline {
            break;
        }
        let _ = status.write_all_at(&i.to_le_bytes(), 0);
        arm_timer();
        let sample_it = k == 0 && i < 4 * n;
        let r = execute(p, Tape::generate(run_seed(seed, p.id, 0, i)), sample_it);
        tally.runs += 1;
        let s = &r.stats;
        tally.steps += s.steps;
        tally.switches += s.switches;
        tally.sim_ns += s.sim_ns;
        for (kind, c) in s.faults.iter() {
            *tally.faults.entry(kind.to_string()).or_insert(0) += c;
        }
        for (name, c) in s.probes.iter() {
            *tally.probes.entry(name.to_string()).or_insert(0) += c;
        }
        if s.nontrivial {
            tally.nontrivial += 1;
            tally.cases.insert(hash_tape(&r.tape));
        }
        if s.switches > 0 {
            tally.scheds.insert(s.sched_hash);
        }
        tally.signatures.insert(signature(s));
        if sample_it {
            tally.samples.push(format!(
                "run {}: {} choices; {}; faults {:?}; {} steps",
                i, r.tape.len(), s.notes.join(" | "), s.faults, s.steps
            ));
        }
        if let Err(v) = r.verdict {
            if v.class == "harness" {
                eprintln!("harness error: {}", v.detail);
                return 3;
            }
            if let Some(f) = findings.iter().find(|f| f.class == v.class && v.detail.contains(&f.contains)) {
                *tally.known.entry(f.text.clone()).or_insert(0) += 1;
            } else {
                violation = Some((i, v, r.tape));
                break;
            }
        }
        i += n;
    }
    let mut out = String::new();
    out += &format!(
        "n runs {}\nn steps {}\nn switches {}\nn nontrivial {}\nn sim_ns {}\n",
        tally.runs, tally.steps, tally.switches, tally.nontrivial, tally.sim_ns
    );
    for (k, v) in &tally.faults {
        out += &format!("fault {} {}\n", v, k);
    }
    for (k, v) in &tally.probes {
        out += &format!("probe {} {}\n", v, k);
    }
    for (k, v) in &tally.known {
        out += &format!("known {} {}\n", v, k);
    }
    for s in &tally.samples {
        out += &format!("sample {}\n", s.replace('\n', " "));
    }
    if let Some((i, v, tape)) = violation {
        out += &format!(
            "viol {} {}\nclass {}\ndetail {}\ntape {}\n",
            i, k, v.class, one_line(&v.detail), tape_str(&tape)
        );
    }
    let write_set = |set: &HashSet<u64>, name: &str| {
        let mut bytes = Vec::with_capacity(set.len() * 8);
        for v in set {
            bytes.extend_from_slice(&v.to_le_bytes());
        }
        std::fs::write(format!("{}.{}", args["out"], name), bytes).expect("write set");
    };
    write_set(&tally.cases, "cases");
    write_set(&tally.scheds, "scheds");
    write_set(&tally.signatures, "signatures");
    let tmp = format!("{}.tmp", args["out"]);
    std::fs::write(&tmp, out).expect("write results");
    std::fs::rename(&tmp, &args["out"]).expect("rename");
    0
}

/// Per-run digests, to prove determinism by comparing invocations.
fn digest(args: &Args) -> i32 {
    let p = prop(&args["prop"]);
    let seed = num(args, "seed", 1);
    let (from, to, step) = (num(args, "from", 0), num(args, "to", 100), num(args, "step", 1));
    let mut indices: Vec<u64> = (from..to).step_by(step as usize).collect();
    if args.contains_key("reverse") {
        indices.reverse();
    }
    for i in indices {
        arm_timer();
        let r = execute(p, Tape::generate(run_seed(seed, p.id, 0, i)), true);
        println!(
            "{} {:016x} {:016x} {} {:?} {:?} {:016x} {:?}",
            i, hash_tape(&r.tape), r.stats.sched_hash, r.stats.steps, r.stats.faults, r.stats.probes,
            hash_str(&r.stats.notes.join("|")), r.verdict.err().map(|v| v.class)
        );
    }
    0
}

// --------------------------------------------------------------- single run

/// Runs one tape (or generated run) and reports the class of the violation
/// on stdout; exit 0 clean, 1 violation, 2 harness error, else killed.
fn one(args: &Args) -> i32 {
    let p = prop(&args["prop"]);
    limit_memory(6 << 30);
    arm_timer();
    let mut tape = match args.get("tape") {
        Some(file) => Tape::replay(parse_tape(&std::fs::read_to_string(file).expect("tape file"))),
        None => Tape::generate(run_seed(num(args, "seed", 1), p.id, 0, num(args, "index", 0))),
    };
    if let Some(file) = args.get("through") {
        tape.write_through(std::fs::File::create(file).expect("through file"));
    }
    let r = execute(p, tape, true);
    for note in &r.stats.notes {
        println!("note {}", note.replace('\n', " "));
    }
    for (k, v) in &r.stats.faults {
        println!("note fault injected: {} x{}", k, v);
    }
    match r.verdict {
        Ok(()) => 0,
        Err(v) => {
            println!("class {}\ndetail {}", v.class, one_line(&v.detail));
            if v.class == "harness" { 2 } else { 1 }
        }
    }
}

fn minimise_cmd(args: &Args) -> i32 {
    let p = prop(&args["prop"]);
    limit_memory(6 << 30);
    let tape = parse_tape(&std::fs::read_to_string(&args["tape"]).expect("tape file"));
    let out = args["out"].clone();
    let save = |t: &[u64]| {
        let tmp = format!("{}.tmp", out);
        std::fs::write(&tmp, tape_str(t)).expect("write");
        std::fs::rename(&tmp, &out).expect("rename");
    };
    save(&tape);
    let best = minimise(p, &args["class"], tape, num(args, "seconds", 20) as f64, &mut |t| save(t));
    save(&best);
    0
}

struct OneResult {
    class: Option<String>,
    detail: String,
    notes: Vec<String>,
    harness_error: bool,
}

fn me() -> Command {
    Command::new(std::env::current_exe().expect("exe"))
}

/// Waits for a child; kills it when it shows no end within the time.
fn wait_limited(child: &mut Child, seconds: f64) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return Some(status);
        }
        if start.elapsed().as_secs_f64() > seconds {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(3));
    }
}

/// CPU time a child has used, in hundredths of a second.
fn cpu_ticks(pid: u32) -> u64 {
    let text = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let rest = text.rsplit(')').next().unwrap_or("");
    let number = |n: usize| rest.split_whitespace().nth(n).and_then(|t| t.parse::<u64>().ok()).unwrap_or(0);
    number(11) + number(12)
}

fn class_of_death(status: Option<std::process::ExitStatus>) -> Option<(String, String)> {
    match status {
        None => Some(("hang".into(), "the run did not finish".into())),
        Some(s) => match s.signal() {
            Some(26) | Some(24) => {
                Some(("hang".into(), format!("the run used more than {} s of CPU time", RUN_CPU_SECONDS)))
            }
            Some(sig) => Some(("process died".into(), format!("the process was ended by signal {}", sig))),
            None => None,
        },
    }
}

fn run_one(work: &Path, id: &str, mode: &[(&str, String)]) -> OneResult {
    let out_path = work.join("one.out");
    let out = std::fs::File::create(&out_path).expect("one.out");
    let mut cmd = me();
    cmd.arg("one").arg("--prop").arg(id).env("DSIM_WORK", work.join("done")).stdout(Stdio::from(out)).stderr(Stdio::null());
    for (k, v) in mode {
        cmd.arg(format!("--{}", k)).arg(v);
    }
    let mut child = cmd.spawn().expect("spawn one");
    let status = wait_limited(&mut child, 180.0);
    let text = std::fs::read_to_string(&out_path).unwrap_or_default();
    let mut r = OneResult { class: None, detail: String::new(), notes: vec![], harness_error: false };
    for line in text.lines() {
        if let Some(c) = line.strip_prefix("class ") {
            r.class = Some(c.to_string());
        } else if let Some(d) = line.strip_prefix("detail ") {
            r.detail = d.to_string();
        } else if let Some(n) = line.strip_prefix("note ") {
            r.notes.push(n.to_string());
        }
    }
    if let Some((class, detail)) = class_of_death(status) {
        r.class = Some(class);
        r.detail = detail;
    } else if let Some(code) = status.and_then(|s| s.code()) {
        if code != 0 && code != 1 {
            r.harness_error = true;
            r.class = None;
        }
    }
    r
}

// ------------------------------------------------------------------- check

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn check(args: &Args) -> i32 {
    let p = prop(&args["prop"]);
    let tier = args.get("tier").cloned().unwrap_or("quick".into());
    let seed = num(args, "seed", 1);
    let runs = num(args, "runs", if tier == "thorough" { p.thorough_runs } else { p.quick_runs });
    let workers = num(args, "workers", 8);
    let deadline = num(args, "deadline", if tier == "thorough" { 780 } else { 300 });
    let work = verif_dir().join("target").join("work").join(format!("{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).expect("work dir");
    let code = check_in(args, p, &tier, seed, runs, workers, deadline, &work);
    let _ = std::fs::remove_dir_all(&work);
    code
}

struct Found {
    index: u64,
    worker: u64,
    class: String,
    detail: String,
    tape: Vec<u64>,
    tape_known: bool,
}

fn check_in(
    args: &Args, p: &Prop, tier: &str, seed: u64, runs: u64, workers: u64, deadline: u64, work: &Path,
) -> i32 {
    println!("check {} tier={} VERIF_SEED={} runs={} workers={}", p.id, tier, seed, runs, workers);
    let start = Instant::now();
    struct W {
        k: u64,
        child: Child,
        out: PathBuf,
        status: PathBuf,
        last: (u64, Instant),
        /// CPU time used when last looked at
        cpu: u64,
        done: bool,
    }
    let mut ws: Vec<W> = Vec::new();
    for k in 0..workers {
        let out = work.join(format!("w{}", k));
        let status = work.join(format!("s{}", k));
        let err = std::fs::File::create(work.join(format!("e{}", k))).expect("err file");
        let child = me()
            .arg("worker")
            .args(["--prop", p.id, "--seed", &seed.to_string(), "--k", &k.to_string()])
            .args(["--n", &workers.to_string(), "--runs", &runs.to_string(), "--deadline", &deadline.to_string()])
            .arg("--out").arg(&out).arg("--status").arg(&status)
            .env("DSIM_WORK", work.join(format!("d{}", k)))
            .stdout(Stdio::null()).stderr(Stdio::from(err))
            .spawn().expect("spawn worker");
        ws.push(W { k, child, out, status, last: (u64::MAX, Instant::now()), cpu: 0, done: false });
    }
    let read_status = |path: &Path| -> Option<u64> {
        let mut b = [0u8; 8];
        let mut f = std::fs::File::open(path).ok()?;
        f.read_exact(&mut b).ok()?;
        Some(u64::from_le_bytes(b))
    };
    let mut found: Option<Found> = None;
    let mut harness_error = None;
    while ws.iter().any(|w| !w.done) && found.is_none() && harness_error.is_none() {
        std::thread::sleep(Duration::from_millis(20));
        for w in ws.iter_mut().filter(|w| !w.done) {
            let mut status = w.child.try_wait().expect("wait");
            let mut hung = false;
            if status.is_none() {
                let now = read_status(&w.status).unwrap_or(u64::MAX);
                // a run in progress is left to its limit of CPU time, however
                // slowly a busy machine lets it get there
                let cpu = if w.last.1.elapsed().as_secs() > 10 { cpu_ticks(w.child.id()) } else { w.cpu };
                if now != w.last.0 || cpu > w.cpu + 20 {
                    w.last = (now, Instant::now());
                    w.cpu = cpu;
                    continue;
                } else if w.last.1.elapsed().as_secs() > 150 {
                    let _ = w.child.kill();
                    status = Some(w.child.wait().expect("wait"));
                    hung = true;
                } else {
                    continue;
                }
            }
            let status = status.unwrap();
            w.done = true;
            if status.success() && !hung {
                let text = std::fs::read_to_string(&w.out).unwrap_or_default();
                if let Some(f) = parse_violation(&text) {
                    found = Some(f);
                }
                continue;
            }
            let death = if hung { class_of_death(None) } else { class_of_death(Some(status)) };
            match (death, read_status(&w.status)) {
                (Some((class, detail)), Some(index)) => {
                    found = Some(Found { index, worker: w.k, class, detail, tape: vec![], tape_known: false });
                }
                _ => {
                    let err = std::fs::read_to_string(work.join(format!("e{}", w.k))).unwrap_or_default();
                    harness_error = Some(format!("worker {} failed: {:?} {}", w.k, status, err));
                }
            }
        }
    }
    for w in ws.iter_mut().filter(|w| !w.done) {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    if let Some(e) = harness_error {
        println!("HARNESS ERROR: {}", e);
        return 2;
    }
    // merge
    let mut numbers: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut sets: HashMap<&str, HashSet<u64>> = HashMap::new();
    for w in &ws {
        let text = std::fs::read_to_string(&w.out).unwrap_or_default();
        for line in text.lines() {
            let mut it = line.splitn(3, ' ');
            let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            let map = match a {
                "n" => {
                    *numbers.entry(b.into()).or_insert(0) += c.parse::<u64>().unwrap_or(0);
                    continue;
                }
                "fault" => &mut faults,
                "probe" => &mut probes,
                "known" => &mut known,
                "sample" => {
                    samples.push(line[7..].to_string());
                    continue;
                }
                _ => continue,
            };
            *map.entry(c.into()).or_insert(0) += b.parse::<u64>().unwrap_or(0);
        }
        for name in ["cases", "scheds", "signatures"] {
            let bytes = std::fs::read(format!("{}.{}", w.out.display(), name)).unwrap_or_default();
            let set = sets.entry(name).or_default();
            for c in bytes.chunks_exact(8) {
                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let search_s = start.elapsed().as_secs_f64();
    let mut violation_line = None;
    if let Some(f) = found {
        match confirm(p, seed, workers, f, work) {
            Ok((path, class, detail, exact)) => {
                println!("violation of {}: {}", p.id, class);
                println!("  {}", detail);
                if !exact {
                    println!("  note: the code under test itself behaves differently from run to run");
                }
                violation_line = Some(format!("VIOLATION property={} replay={}", p.id, path.display()));
            }
            Err(e) => {
                println!("HARNESS ERROR: {}", e);
                return 2;
            }
        }
    }
    for (text, n) in &known {
        println!("KNOWN-FINDING: property={} {} (seen in {} runs)", p.id, text, n);
    }
    let get = |k: &str| numbers.get(k).copied().unwrap_or(0);
    let evaluations = get("runs");
    let per_hour = (evaluations as f64 / search_s.max(0.001) * 3600.0) as u64;
    let map_json = |m: &BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "))
    };
    let set_len = |n: &str| sets.get(n).map(|s| s.len()).unwrap_or(0);
    let wall = start.elapsed().as_secs_f64();
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"nontrivial_runs\": {},\n  \"distinct_interleavings\": {},\n  \"distinct_behaviour_signatures\": {},\n  \"signature_measure\": \"hash of the set of fault kinds and probes with log2 of their counts, log2 of steps and of context switches\",\n  \"simulated_steps\": {},\n  \"context_switches\": {},\n  \"simulated_clock_seconds\": {:.3},\n  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"faults_injected\": {},\n  \"probes_reached\": {},\n  \"real_components\": {},\n  \"stub_components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(p.id), json_str(tier), seed, evaluations, set_len("cases"), json_str(p.rule),
        samples.iter().take(4).map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        get("nontrivial"), set_len("scheds"), set_len("signatures"), get("steps"), get("switches"),
        get("sim_ns") as f64 * 1e-9, per_hour, per_hour, map_json(&faults), map_json(&probes),
        json_str(p.real), json_str(p.stub),
        json_str("sampled executions: a clean batch is evidence, not proof"),
        wall, violation_line.is_some() as u32
    );
    if let Some(path) = args.get("evidence") {
        if let Some(dir) = Path::new(path).parent() {
            let _ = std::fs::create_dir_all(dir);
        }
        std::fs::write(path, ev).expect("write evidence");
    }
    println!(
        "{}: {} runs, {} distinct non-trivial, {} faults injected, {:.1} s, {} runs/hour",
        p.id, evaluations, set_len("cases"), faults.values().sum::<u64>(), wall, per_hour
    );
    if let Some(line) = violation_line {
        println!("{}", line);
        return 1;
    }
    if evaluations == 0 {
        println!("HARNESS ERROR: nothing was run");
        return 2;
    }
    0
}

fn parse_violation(text: &str) -> Option<Found> {
    let mut f: Option<Found> = None;
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("viol ") {
            let mut it = rest.split(' ');
            f = Some(Found {
                index: it.next()?.parse().ok()?,
                worker: it.next()?.parse().ok()?,
                class: String::new(),
                detail: String::new(),
                tape: vec![],
                tape_known: true,
            });
        } else if let Some(f) = f.as_mut() {
            if let Some(c) = line.strip_prefix("class ") {
                f.class = c.into();
            } else if let Some(d) = line.strip_prefix("detail ") {
                f.detail = d.into();
            } else if let Some(t) = line.strip_prefix("tape ") {
                f.tape = parse_tape(t);
            }
        }
    }
    f
}

/// Minimises a violation and writes a replay file that was shown, in a fresh
/// process, to fail the same way.
fn confirm(p: &Prop, seed: u64, workers: u64, f: Found, work: &Path) -> Result<(PathBuf, String, String, bool), String> {
    let replays = verif_dir().join("replays");
    std::fs::create_dir_all(&replays).map_err(|e| e.to_string())?;
    let path = replays.join(format!("{}-{}-{}.json", p.id, seed, f.index));
    let tape_file = work.join("tape");
    let index = f.index;
    // the tape of a run that killed its process comes from running it again
    let mut tape = f.tape.clone();
    if !f.tape_known {
        let through = work.join("through");
        let r = run_one(
            work, p.id,
            &[("seed", seed.to_string()), ("index", index.to_string()), ("through", through.display().to_string())],
        );
        if r.harness_error {
            return Err(format!("run {} fails in the harness when repeated", index));
        }
        let bytes = std::fs::read(&through).unwrap_or_default();
        tape = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        if r.class.as_deref() != Some(f.class.as_str()) {
            tape.clear();
        }
    }
    let run_tape = |t: &[u64]| {
        std::fs::write(&tape_file, tape_str(t)).expect("tape file");
        run_one(work, p.id, &[("tape", tape_file.display().to_string())])
    };
    let same = |r: &OneResult| r.class.as_deref() == Some(f.class.as_str());
    let first = run_tape(&tape);
    if first.harness_error {
        return Err(format!("run {} fails in the harness when repeated", index));
    }
    if same(&first) && (f.tape_known || !tape.is_empty()) {
        let crash = f.class == "process died" || f.class == "hang";
        let mut best = tape.clone();
        if crash {
            // every attempt in a process of its own
            let limit = Instant::now();
            let budget = if f.class == "hang" { 100 } else { 40 };
            let mut size = (best.len() / 2).max(1);
            while limit.elapsed().as_secs() < budget {
                let mut i = best.len();
                while i > 0 && limit.elapsed().as_secs() < budget {
                    let lo = i.saturating_sub(size);
                    let mut c = best.clone();
                    c.drain(lo..i.min(c.len()));
                    if same(&run_tape(&c)) {
                        best = c;
                    }
                    i = lo.min(best.len());
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
        } else {
            std::fs::write(&tape_file, tape_str(&tape)).expect("tape file");
            let out = work.join("min");
            let child = me()
                .arg("minimise").args(["--prop", p.id, "--class", &f.class, "--seconds", "25"])
                .arg("--tape").arg(&tape_file).arg("--out").arg(&out)
                .env("DSIM_WORK", work.join("dmin"))
                .stdout(Stdio::null()).stderr(Stdio::null()).spawn();
            if let Ok(mut child) = child {
                wait_limited(&mut child, 120.0);
            }
            if let Ok(text) = std::fs::read_to_string(&out) {
                best = parse_tape(&text);
            }
        }
        let mut last = run_tape(&best);
        if !same(&last) {
            best = tape.clone();
            last = run_tape(&best);
        }
        if same(&last) {
            write_replay(&path, p, &f, seed, "tape", &best, tape.len(), &last, workers);
            return Ok((path, f.class.clone(), last.detail, true));
        }
    }
    // it depends on what ran before in the same process: replay the sequence
    let mut from = f.worker;
    let mut ok = sequence_fails(p, seed, workers, from, &f, work);
    let exact = ok;
    if ok {
        let mut span = (index - from) / workers / 2;
        while span > 0 {
            let later = from + span * workers;
            if later <= index && sequence_fails(p, seed, workers, later, &f, work) {
                from = later;
                span = ((index - from) / workers / 2).min(span);
            } else {
                span /= 2;
            }
        }
    } else {
        // three more tries: the code under test is itself nondeterministic
        for _ in 0..3 {
            ok |= same(&run_tape(&tape));
        }
    }
    let last = OneResult { class: Some(f.class.clone()), detail: f.detail.clone(), notes: vec![], harness_error: false };
    let mode = if exact { format!("sequence from {}", from) } else { "tape".to_string() };
    write_replay(&path, p, &f, seed, &mode, &tape, tape.len(), &last, workers);
    let _ = ok;
    Ok((path, f.class.clone(), f.detail.clone(), exact))
}

fn sequence_fails(p: &Prop, seed: u64, workers: u64, from: u64, f: &Found, work: &Path) -> bool {
    let out = work.join("seq");
    let _ = std::fs::remove_file(&out);
    let status_file = work.join("seqs");
    let child = me()
        .arg("worker")
        .args(["--prop", p.id, "--seed", &seed.to_string(), "--k", &f.worker.to_string()])
        .args(["--n", &workers.to_string(), "--runs", &(f.index + 1).to_string()])
        .args(["--from", &from.to_string(), "--upto", &f.index.to_string()])
        .arg("--out").arg(&out).arg("--status").arg(&status_file)
        .env("DSIM_WORK", work.join("dseq"))
        .stdout(Stdio::null()).stderr(Stdio::null()).spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(_) => return false,
    };
    let status = wait_limited(&mut child, 200.0);
    if let Some((class, _)) = class_of_death(status) {
        return class == f.class;
    }
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    matches!(parse_violation(&text), Some(v) if v.class == f.class)
}

fn write_replay(
    path: &Path, p: &Prop, f: &Found, seed: u64, mode: &str, tape: &[u64], original: usize, r: &OneResult, workers: u64,
) {
    let mut file = std::fs::File::create(path).expect("replay file");
    let notes: Vec<String> = r.notes.iter().map(|n| format!("  {}", json_str(n))).collect();
    let _ = write!(
        file,
        "{{\n \"property\": {},\n \"class\": {},\n \"detail\": {},\n \"seed\": {},\n \"run\": {},\n \"workers\": {},\n \"worker\": {},\n \"mode\": {},\n \"choices_before_minimisation\": {},\n \"schedule_and_faults\": [\n{}\n ],\n \"tape\": [{}]\n}}\n",
        json_str(p.id), json_str(&f.class), json_str(&r.detail), seed, f.index, workers, f.worker,
        json_str(mode), original, notes.join(",\n"), tape_str(tape)
    );
}

// ------------------------------------------------------------------ replay

fn field(text: &str, name: &str) -> Option<String> {
    let key = format!("\n \"{}\": ", name);
    let at = text.find(&key)? + key.len();
    let rest = &text[at..];
    let end = rest.find('\n')?;
    let raw = rest[..end].trim_end_matches(',').to_string();
    if let Some(inner) = raw.strip_prefix('"').and_then(|r| r.strip_suffix('"')) {
        return Some(inner.replace("\\\"", "\"").replace("\\\\", "\\"));
    }
    Some(raw)
}

fn replay(args: &Args) -> i32 {
    let path = &args["file"];
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let id = field(&text, "property").expect("property");
    let class = field(&text, "class").expect("class");
    let mode = field(&text, "mode").expect("mode");
    let tape = field(&text, "tape").expect("tape");
    let tape = parse_tape(tape.trim_start_matches('[').trim_end_matches(']'));
    let n = |k: &str| field(&text, k).and_then(|v| v.parse::<u64>().ok()).expect("number");
    let p = prop(&id);
    let work = verif_dir().join("target").join("work").join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&work).expect("work dir");
    let f = Found { index: n("run"), worker: n("worker"), class: class.clone(), detail: String::new(), tape: tape.clone(), tape_known: true };
    let same = if let Some(from) = mode.strip_prefix("sequence from ") {
        sequence_fails(p, n("seed"), n("workers"), from.parse().expect("from"), &f, &work)
    } else {
        let tape_file = work.join("tape");
        std::fs::write(&tape_file, tape_str(&tape)).expect("tape");
        let r = run_one(&work, p.id, &[("tape", tape_file.display().to_string())]);
        for note in &r.notes {
            println!("  {}", note);
        }
        println!("result: {:?} {}", r.class, r.detail);
        r.class.as_deref() == Some(class.as_str())
    };
    let _ = std::fs::remove_dir_all(&work);
    if same {
        println!("reproduced: {}", class);
        println!("VIOLATION property={} replay={}", id, path);
        1
    } else {
        println!("not reproduced: {}", class);
        0
    }
}
