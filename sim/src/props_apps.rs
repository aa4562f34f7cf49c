//! A01..A05: the shipped programs between simulated files, output and clocks.

use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::gen::PROB_ONE;
use crate::model_codec as mc;
use demixer::bit::Bit;
use demixer::coding::encoder::Encoder;
use demixer::fixed_point::FixedPoint;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const COUNTERS: [&str; 32] = [
    "reads", "delivered", "eofs", "read interrupted", "short read", "read error", "input ends early",
    "writes", "accepted", "write interrupted", "short write", "write error", "write accepts nothing",
    "opens", "open error", "open interrupted", "wrong file size reported",
    "wall clock readings", "wall clock jumps back", "wall clock jumps ahead", "wall clock stands still",
    "monotonic readings", "monotonic clock stands still", "monotonic ns", "hash seeds", "allocation failure",
    "bytes read after end of file", "wall ns", "input opened", "stalled ns", "input stalls", "timed ns",
];
/// Counters that stand for injected faults.
const FAULTS: [usize; 17] = [30, 3, 4, 5, 6, 9, 10, 11, 12, 14, 15, 16, 18, 19, 20, 22, 25];

fn env_path(name: &str, default: &str) -> PathBuf {
    PathBuf::from(std::env::var(name).unwrap_or_else(|_| default.into()))
}

#[derive(Clone, Default, Debug)]
pub struct Plan {
    pub reads: Vec<(char, i64)>,
    pub read_cap: usize,
    pub writes: Vec<(char, i64)>,
    pub write_cap: usize,
    pub open_err: i64,
    pub open_eintr: i64,
    pub stat: usize,
    pub rt: Vec<i64>,
    pub mono: Vec<i64>,
    pub lags: Vec<i64>,
    pub rand: u64,
    pub alloc: Option<(usize, usize)>,
}

impl Plan {
    fn text(&self) -> String {
        let mut s = String::from("input dsim-input.bin\n");
        for (k, a) in &self.reads {
            s += &format!("r {} {}\n", k, a);
        }
        for (k, a) in &self.writes {
            s += &format!("w {} {}\n", k, a);
        }
        s += &format!("rcap {}\nwcap {}\nopenerr {}\nopeneintr {}\nstat {}\nrand {}\n",
            self.read_cap, self.write_cap, self.open_err, self.open_eintr, self.stat, self.rand);
        for v in &self.rt {
            s += &format!("rt {}\n", v);
        }
        for v in &self.mono {
            s += &format!("mono {}\n", v);
        }
        for v in &self.lags {
            s += &format!("lag {}\n", v);
        }
        if let Some((at, min)) = self.alloc {
            s += &format!("alloc {} {}\n", at, min);
        }
        s
    }
    pub fn brief(&self) -> String {
        let text = self.text();
        let mut items: Vec<(&str, usize)> = vec![];
        for line in text.lines().skip(1) {
            match items.last_mut() {
                Some(last) if last.0 == line => last.1 += 1,
                _ => items.push((line, 1)),
            }
        }
        let show = |i: &(&str, usize)| if i.1 > 1 { format!("{} x{}", i.0, i.1) } else { i.0.to_string() };
        items.iter().map(show).collect::<Vec<_>>().join(", ")
    }
}

pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub counters: Vec<u64>,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    fn get(&self, name: &str) -> u64 {
        self.counters[COUNTERS.iter().position(|c| *c == name).unwrap()]
    }
    pub fn ending(&self) -> String {
        let last = self.err.lines().filter(|l| !l.is_empty()).last().unwrap_or("").to_string();
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {} ({})", c, last),
            (_, s) => format!("signal {:?} ({})", s, last),
        }
    }
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
}

fn work_dir() -> PathBuf {
    let dir = std::env::var("DSIM_WORK").map(PathBuf::from).unwrap_or_else(|_| {
        crate::cli::verif_dir().join("target").join("work").join(format!("p{}", std::process::id()))
    });
    std::fs::create_dir_all(&dir).expect("work dir");
    dir
}

/// Runs a shipped program under a plan, in a scratch directory.
pub fn run(cx: &Cx, release: bool, program: &str, args: &[&str], content: &[u8], plan: &Plan) -> Result<Ran, Viol> {
    let dir = work_dir();
    let bins = env_path("DSIM_BINS", "/verif/target/bins").join(if release { "release" } else { "debug" });
    let file = |n: &str| dir.join(n);
    std::fs::write(file("dsim-input.bin"), content).expect("input");
    std::fs::write(file("plan"), plan.text()).expect("plan");
    std::fs::write(file("counters"), [0u8; 4096]).expect("counters");
    let out = std::fs::File::create(file("out")).expect("out");
    let err = std::fs::File::create(file("err")).expect("err");
    let mut c = Command::new(bins.join(program));
    c.args(args)
        .env_clear()
        .env("LD_PRELOAD", env_path("DSIM_SHIM", "/verif/target/shim.so"))
        .env("DSIM_PLAN", file("plan"))
        .env("DSIM_COUNTERS", file("counters"))
        .current_dir(&dir)
        .stdin(Stdio::null())
        .stdout(out)
        .stderr(err);
    unsafe {
        c.pre_exec(|| {
            setrlimit(0, &[20, 25]); // CPU seconds
            setrlimit(1, &[256 << 20, 256 << 20]); // file size
            setrlimit(4, &[0, 0]); // core
            Ok(())
        });
    }
    let mut child = match c.spawn() {
        Ok(child) => child,
        Err(e) => return viol("harness", format!("cannot start {}: {}", program, e)),
    };
    let start = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) => (),
            Err(e) => return viol("harness", format!("wait: {}", e)),
        }
        if start.elapsed() > Duration::from_secs(120) {
            let _ = child.kill();
            let _ = child.wait();
            return viol("hang", format!("{} does not come to an end", program));
        }
        std::thread::sleep(Duration::from_micros(400));
    };
    let raw = std::fs::read(file("counters")).expect("counters");
    let counters: Vec<u64> =
        raw.chunks_exact(8).take(COUNTERS.len()).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    let text = |n: &str| String::from_utf8_lossy(&std::fs::read(file(n)).unwrap_or_default()).into_owned();
    let ran = Ran { code: status.code(), signal: status.signal(), out: text("out"), err: text("err"), counters };
    if ran.code == Some(98) || ran.err.contains("cannot be preloaded") || (ran.code == Some(127) && ran.out.is_empty()) {
        return viol("harness", format!("{}: {}", program, ran.ending()));
    }
    if ran.signal == Some(24) || ran.signal == Some(9) {
        return viol("hang", format!("{} used more than 20 s of CPU time", program));
    }
    for &f in &FAULTS {
        for _ in 0..ran.counters[f].min(1_000_000) {
            cx.fault(COUNTERS[f]);
        }
    }
    cx.steps(ran.get("reads") + ran.get("writes") + ran.get("wall clock readings") + ran.get("monotonic readings"));
    cx.lock().stats.sim_ns += ran.get("monotonic ns").max(ran.get("wall ns"));
    Ok(ran)
}

/// The report without its timing figures.
pub fn masked(out: &str) -> String {
    let mut s = String::new();
    for line in out.lines() {
        let head = line.split('=').next().unwrap_or("").trim();
        if ["initialization", "total duration", "speed"].contains(&head) {
            s += &format!("{} = T\n", head);
        } else if let (Some(at), true) = (line.find("ns ("), line.starts_with("squash") || line.starts_with("stretch")) {
            s += &format!("{} = T{}\n", head, &line[at..]);
        } else {
            s += line;
            s.push('\n');
        }
    }
    s
}

pub fn first_difference(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {}: {:?} instead of {:?}", i + 1, x, y);
        }
    }
    format!("{} lines instead of {}", a.lines().count(), b.lines().count())
}

fn draw_reads(cx: &Cx, plan: &mut Plan) {
    plan.read_cap = *cx.pick(&[0, 0, 1, 2, 7, 100, 1000, 4096, 8191]);
    let n = cx.draw(14);
    for _ in 0..n {
        match cx.draw(4) {
            0 => plan.reads.push(('f', 0)),
            1 => {
                for _ in 0..1 + cx.size(20) {
                    plan.reads.push(('i', 0));
                }
            }
            _ => plan.reads.push(('s', 1 + cx.size(9000) as i64)),
        }
    }
    plan.stat = cx.draw(5);
    plan.open_eintr = *cx.pick(&[0, 0, 0, 1, 3]);
    plan.rand = cx.seed();
}

pub fn draw_writes(cx: &Cx, plan: &mut Plan) {
    plan.write_cap = *cx.pick(&[0, 0, 1, 3, 20]);
    let n = cx.draw(14);
    for _ in 0..n {
        match cx.draw(3) {
            0 => plan.writes.push(('f', 0)),
            1 => {
                for _ in 0..1 + cx.size(6) {
                    plan.writes.push(('i', 0));
                }
            }
            _ => plan.writes.push(('s', 1 + cx.size(60) as i64)),
        }
    }
}

const SECOND: i64 = 1_000_000_000;

pub fn draw_clocks(cx: &Cx, plan: &mut Plan) {
    draw_clocks_wall(cx, plan);
    draw_clock_steps(cx, plan);
}

fn draw_clocks_wall(cx: &Cx, plan: &mut Plan) {
    for _ in 0..cx.draw(10) {
        plan.rt.push(match cx.draw(8) {
            0 => 1_000_000,
            1 => 0,
            2 => -1,
            3 => -1_000_000 * (1 + cx.size(2000) as i64),
            4 => -SECOND * (1 + cx.size(1_000_000) as i64),
            5 => -1_700_000_000 * SECOND,
            6 => SECOND * (1 + cx.size(1_000_000) as i64),
            _ => SECOND * 3_000_000_000,
        });
    }
}

fn draw_clock_steps(cx: &Cx, plan: &mut Plan) {
    for _ in 0..cx.draw(10) {
        plan.mono.push(match cx.draw(4) {
            0 => 1_000_000,
            1 => 0,
            2 => 1,
            _ => SECOND * (1 + cx.size(100_000) as i64),
        });
    }
}

fn draw_content(cx: &Cx) -> Vec<u8> {
    let max = *cx.pick(&[12, 200, 1500, 9000, 20000]);
    gen::bytes(cx, max)
}

fn calm(cx: &Cx, release: bool, program: &str, args: &[&str], content: &[u8]) -> Result<Ran, Viol> {
    let r = run(cx, release, program, args, content, &Plan { rand: 7, ..Default::default() })?;
    ensure!(
        r.ok(),
        "program fails without any fault", "{} on {}: {}", program, short(content), r.ending()
    );
    Ok(r)
}

const INPUT: &str = "dsim-input.bin";

fn line_value(out: &str, name: &str, unit: &str) -> Option<f64> {
    for line in out.lines() {
        if line.starts_with(name) && line.trim_end().ends_with(unit) {
            let v = line.split('=').nth(1)?.trim().strip_suffix(unit)?.trim();
            return v.parse().ok();
        }
    }
    None
}

// --------------------------------------------------------------------- A01

pub fn a01(cx: &Cx) -> Res {
    let release = cx.coin();
    let long = release && cx.chance(20);
    let content = if long { gen::bytes_exact(cx, 66_000 + cx.size(80_000)) } else { draw_content(cx) };
    cx.probe_if(content.len() > 65536, "input beyond 64 KiB");
    let mut plan = Plan::default();
    draw_reads(cx, &mut plan);
    if long && plan.read_cap > 0 {
        plan.read_cap = plan.read_cap.max(1000);
    }
    let early = cx.chance(200);
    if early {
        let at = cx.draw(plan.reads.len() + 1);
        plan.reads.insert(at, ('z', 0));
    }
    cx.note(|| format!("{} bytes {}; plan: {}", content.len(), short(&content), plan.brief()));
    let r = run(cx, release, "demixer", &[INPUT], &content, &plan)?;
    ensure!(r.ok(), "program fails though every read can be retried", "{}", r.ending());
    let delivered = r.get("delivered") as usize;
    ensure!(
        early || delivered == content.len(),
        "input not read to its end",
        "{} of {} bytes were read", delivered, content.len()
    );
    let count = line_value(&r.out, "input length", "bytes");
    ensure!(
        count == Some(delivered as f64),
        "wrong byte count",
        "{:?} reported, {} bytes were delivered before the end of file", count, delivered
    );
    let reference = calm(cx, release, "demixer", &[INPUT], &content[..delivered])?;
    let (a, b) = (masked(&r.out), masked(&reference.out));
    ensure!(a == b, "estimate depends on delivery", "{}", first_difference(&a, &b));
    cx.probe_if(content.is_empty(), "empty file");
    cx.probe_if(r.get("bytes read after end of file") > 0, "read on after end of file");
    if !content.is_empty() && r.get("short read") + r.get("read interrupted") + r.get("input ends early") > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- A02

const READERS: [(&str, Option<&str>); 4] =
    [("demixer", None), ("print_histories", Some("tree")), ("print_histories", Some("fat_map")), ("print_histories", Some("brute_force"))];

const EIO: i64 = 5;
const ENOMEM: i64 = 12;
const EAGAIN: i64 = 11;
const EISDIR: i64 = 21;

/// Programs started without what they need.
fn bad_invocation(cx: &Cx) -> Res {
    let release = cx.coin();
    let kind = *cx.pick(&["tree", "fat_map", "brute_force"]);
    let (program, args): (&str, Vec<&str>) = match cx.draw(9) {
        0 => ("demixer", vec![]),
        1 => ("demixer", vec!["no-such-file"]),
        2 => ("demixer", vec!["."]),
        3 => ("demixer", vec![""]),
        4 => ("print_histories", vec![]),
        5 => ("print_histories", vec![kind]),
        6 => ("print_histories", vec![kind, *cx.pick(&["no-such-file", "", "."])]),
        7 => ("print_histories", vec![INPUT, kind]),
        _ => ("print_histories", vec![*cx.pick(&["", "Tree", "trees", "fat-map", "brute", "naive", "tree "]), INPUT]),
    };
    let content = gen::bytes(cx, 40);
    let mut plan = Plan::default();
    draw_reads(cx, &mut plan);
    cx.note(|| format!("{} {:?}; plan: {}", program, args, plan.brief()));
    let r = run(cx, release, program, &args, &content, &plan)?;
    cx.fault("unusable invocation");
    cx.nontrivial();
    ensure!(!r.ok(), "success of an unusable invocation", "{} {:?}", program, args);
    ensure!(r.out.is_empty(), "report in spite of an unusable invocation", "{} {:?}: {}", program, args, short(r.out.as_bytes()));
    Ok(())
}

pub fn a02(cx: &Cx) -> Res {
    if cx.chance(30) {
        return bad_invocation(cx);
    }
    let release = cx.coin();
    let (program, kind) = match cx.draw(48) {
        45 => ("bench_sigmoid", None),
        46 | 47 => ("entropy_simulations", None),
        n => READERS[(n % 5).saturating_sub(1)],
    };
    let reader = READERS.contains(&(program, kind));
    let mut args: Vec<&str> = kind.into_iter().collect();
    if reader {
        args.push(INPUT);
    }
    let max = if program == "demixer" { *cx.pick(&[12, 200, 9000, 20000]) } else { *cx.pick(&[12, 60, 200]) };
    let content = gen::bytes(cx, max);
    let mut plan = Plan::default();
    if cx.coin() {
        draw_reads(cx, &mut plan);
    }
    if cx.coin() {
        draw_writes(cx, &mut plan);
    }
    // a passing error shows which of many messages goes unchecked
    let for_good = !cx.chance(if reader { 150 } else { 600 });
    let error_kind = if for_good { 'e' } else { 'o' };
    match if reader { cx.draw(8) } else { 2 + cx.draw(6) } {
        0 => (),
        1 => plan.open_err = *cx.pick(&[2, 13, 24, 23, ENOMEM, EIO]),
        2 | 3 if reader => {
            let errno = *cx.pick(&[EIO, EISDIR, ENOMEM, 116, 9, 110, EAGAIN, 22, 32, 104, 125]);
            let at = if plan.reads.is_empty() { 0 } else { cx.draw(plan.reads.len() + 1) };
            if plan.reads.is_empty() && cx.coin() {
                plan.reads.push(('s', 1 + cx.size(content.len()) as i64));
                plan.reads.push((error_kind, errno));
            } else {
                plan.reads.insert(at, (error_kind, errno));
            }
        }
        2..=6 => {
            let errno = *cx.pick(&[28, EIO, 32, 27, EAGAIN, 122, 104, 22, 105]);
            // nearly any write of the report, the last one too
            let ahead = if program == "bench_sigmoid" {
                cx.draw(6)
            } else if program == "entropy_simulations" {
                cx.draw(3100)
            } else if cx.coin() {
                cx.draw(20)
            } else {
                cx.size(400)
            };
            for _ in 0..ahead.saturating_sub(plan.writes.len()) {
                plan.writes.push(('f', 0));
            }
            let at = cx.draw(plan.writes.len() + 1);
            let refusal = if cx.chance(150) { ('z', 0) } else { (error_kind, errno) };
            plan.writes.insert(at, refusal);
        }
        _ => plan.alloc = Some((cx.size(60), *cx.pick(&[1024, 4096, 65536, 8]))),
    }
    cx.note(|| format!("{} {:?}, {} bytes {}; plan: {}", program, kind, content.len(), short(&content), plan.brief()));
    let r = run(cx, release, program, &args, &content, &plan)?;
    let open_failed = r.get("open error") > 0;
    let read_failed = r.get("read error") > 0;
    let write_failed = r.get("write error") + r.get("write accepts nothing") > 0;
    let alloc_failed = r.get("allocation failure") > 0;
    let what = || {
        format!("{} {:?}: {}{}{}{}", program, kind, if open_failed { "open failed " } else { "" },
            if read_failed { "read failed " } else { "" }, if write_failed { "write failed " } else { "" },
            if alloc_failed { "allocation failed" } else { "" })
    };
    let faulty = open_failed || read_failed || write_failed || alloc_failed;
    if faulty {
        cx.nontrivial();
    }
    if (open_failed || read_failed || write_failed) && for_good {
        ensure!(!r.ok(), "success in spite of a failure", "{}", what());
    }
    if open_failed || read_failed && for_good {
        let totals = ["total cost", "input length", "average cost", "compression ratio", "Total cost"];
        let printed = r.out.lines().find(|l| totals.iter().any(|t| l.starts_with(t)));
        ensure!(
            program != "demixer" || printed.is_none(),
            "totals in spite of an input failure", "{}: {:?}", what(), printed
        );
    }
    if !faulty {
        ensure!(r.ok(), "failure though everything can be retried", "{}: {}", what(), r.ending());
    }
    if r.ok() {
        ensure!(
            !reader || r.get("delivered") as usize == content.len(),
            "success without reading the whole input",
            "{}: {} of {} bytes were read", what(), r.get("delivered"), content.len()
        );
        let reference = calm(cx, release, program, &args, &content)?;
        let (a, b) = (masked(&r.out), masked(&reference.out));
        ensure!(a == b, "success without the complete report", "{}: {}", what(), first_difference(&a, &b));
        cx.probe("completed in spite of faults");
    } else {
        cx.probe("failure reported");
    }
    Ok(())
}

// --------------------------------------------------------------------- A03

pub fn a03(cx: &Cx) -> Res {
    let release = cx.coin();
    let content = gen::bytes(cx, *cx.pick(&[0, 12, 200]));
    let (program, args): (&str, Vec<&str>) = match cx.draw(16) {
        0..=9 => ("demixer", vec![INPUT]),
        10..=11 => ("print_histories", vec![*cx.pick(&["tree", "fat_map", "brute_force"]), INPUT]),
        12..=14 => ("bench_sigmoid", vec![]),
        _ => ("entropy_simulations", vec![]),
    };
    let mut plan = Plan::default();
    draw_clocks(cx, &mut plan);
    plan.rand = cx.seed();
    cx.note(|| format!("{} {:?}, {} bytes; plan: {}", program, args, content.len(), plan.brief()));
    let r = run(cx, release, program, &args, &content, &plan)?;
    ensure!(r.ok(), "program fails because of the clock", "{} {:?}: {}", program, args, r.ending());
    let reference = calm(cx, release, program, &args, &content)?;
    let (a, b) = (masked(&r.out), masked(&reference.out));
    ensure!(a == b, "results depend on the clock", "{}: {}", program, first_difference(&a, &b));
    let jumps = r.get("wall clock jumps back") + r.get("wall clock jumps ahead") + r.get("wall clock stands still");
    cx.probe_if(jumps > 0, "wall clock disturbed");
    cx.probe_if(r.get("monotonic clock stands still") > 0, "no time passes");
    if !plan.rt.is_empty() || !plan.mono.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- A04

struct Account {
    bits: f64,
    /// cost of every coded bit
    each: Vec<f64>,
    coded_bytes: usize,
    coded_bits: usize,
    unlikely: f64,
}

/// Cost and coded size of the input with the predictions of the library.
fn account(content: &[u8]) -> Result<Account, Viol> {
    must("library fails where the program does not", || {
        let mut predictor = mc::new_predictor(None, mc::luts());
        let mut a = Account { bits: 0.0, each: vec![], coded_bytes: 0, coded_bits: 0, unlikely: 0.0 };
        let mut out: Vec<u8> = vec![];
        {
            let mut encoder = Encoder::new(&mut out);
            for &byte in content {
                predictor.start_new_byte();
                for i in (0..8).rev() {
                    let p = predictor.predict();
                    let bit: Bit = ((byte >> i) & 1 == 1).into();
                    encoder.encode_bit(p, bit);
                    let raw = if bit.is_1() { PROB_ONE - p.raw() } else { p.raw() };
                    let cost = -(raw as f64 / PROB_ONE as f64).log2();
                    a.bits += cost;
                    a.each.push(cost);
                    a.coded_bits += 1;
                    // a range of 2^23..2^31 cannot split off tiny parts exactly
                    a.unlikely += (1.0 + 1.0 / raw as f64).log2();
                    predictor.update(bit);
                }
            }
        }
        a.coded_bytes = out.len();
        a
    })
}

/// How many contexts every bit of the input has, worked out from the input.
fn contexts_by_bit(c: &[u8], max_order: usize) -> Vec<Offer> {
    let mut row = vec![0usize; c.len() + 1];
    let mut out = vec![];
    for i in 0..c.len() {
        // contexts that led to 0 and to 1, by the number of leading bits in
        // common: how many (context lengths below it) and how often each
        let mut best = [[0usize; 2]; 8];
        let mut often = [0usize; 8];
        for j in (0..i).rev() {
            // row[j] is the length of the match that ends before i and j
            let same_bits = (c[i] ^ c[j]).leading_zeros() as usize;
            let contexts = 1 + row[j].min(max_order);
            for bit in 0..8.min(same_bits + 1) {
                let next = ((c[j] >> (7 - bit)) & 1) as usize;
                let most = best[bit][0].max(best[bit][1]);
                if contexts > most {
                    often[bit] = 1;
                } else if contexts == most {
                    often[bit] += 1;
                }
                best[bit][next] = best[bit][next].max(contexts);
            }
            row[j + 1] = if c[i] == c[j] { row[j] + 1 } else { 0 };
        }
        for bit in 0..8 {
            let (x, y) = (best[bit][0].min(best[bit][1]), best[bit][0].max(best[bit][1]));
            out.push(Offer { contexts: y, one_way: y - x, deepest: often[bit].min(1000) });
        }
    }
    out
}

/// What the input offers before a bit.
pub struct Offer {
    contexts: usize,
    /// contexts that always led to the same bit
    one_way: usize,
    /// occurrences of the longest one
    deepest: usize,
}

/// Order of the contexts used by the shipped program.
const MAX_ORDER: usize = 20;

/// Prints every table of statistics; run in a process of its own.
pub fn print_tables(content: &[u8]) {
    use demixer::predictor::stats::PredictionStatisticsType::*;
    let mut predictor = mc::new_predictor(None, mc::luts());
    for &byte in content {
        predictor.start_new_byte();
        for i in (0..8).rev() {
            predictor.predict();
            predictor.update(((byte >> i) & 1 == 1).into());
        }
    }
    predictor.print_state(&[CostsAndOccurrencesPerContextType, CostsAndOccurrencesPerSymbolValue]);
}

fn check_tables(cx: &Cx, content: &[u8], a: &Account, contexts: &[Offer]) -> Res {
    cx.probe("breakdowns of the cost");
    let path = work_dir().join("tables-input");
    std::fs::write(&path, content).expect("input");
    let out = Command::new(std::env::current_exe().expect("self")).args(["aux", "--kind", "Tables", "--file"]).arg(&path).output();
    let out = match out {
        Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
        Ok(o) => return viol("statistics fail", format!("{}: {}", o.status, String::from_utf8_lossy(&o.stderr))),
        Err(e) => return viol("harness", format!("cannot start itself: {}", e)),
    };
    let number = |s: &str| s.trim().parse::<f64>().ok();
    // bits, cost and occurrences by context length and one-way contexts, both
    // up to four
    let mut expected = vec![(0usize, 0.0f64, 0usize); 25];
    for (cost, offer) in a.each.iter().zip(contexts).filter(|x| x.1.contexts > 0) {
        let row = &mut expected[(offer.contexts - 1).min(4) * 5 + offer.one_way.min(4)];
        *row = (row.0 + 1, row.1 + cost, row.2 + offer.deepest);
    }
    let mut rows = 0;
    for line in out.lines().filter(|l| l.starts_with("order ")) {
        let parts: Vec<&str> = line.split(',').collect();
        let value = |name: &str| parts.iter().find_map(|p| p.trim().strip_prefix(name)).and_then(number);
        let figures = (value("order"), value("unary"), value("count"), value("cost"), value("avg occur"));
        let (order, one_way, count, cost, occurrences) = match figures {
            (Some(o), Some(u), Some(n), Some(c), Some(v)) if o < 5.0 && u < 5.0 => (o as usize, u as usize, n, c, v),
            _ => return viol("figure missing in the report", line.into()),
        };
        let (n, c, v) = expected[order * 5 + one_way];
        let v = v as f64 / n as f64;
        ensure!(
            (count - n as f64 / 8.0).abs() < 0.006
                && (cost - c / 8.0).abs() < 0.006 + LUT_BIT_ERROR * n as f64 / 8.0
                && (n == 0 || (occurrences - v).abs() < 6e-4),
            "breakdown by context type does not add up",
            "{}, instead of {} bits, {:.2} bytes, {:.3} occurrences", line, n, c / 8.0, v
        );
        rows += 1;
    }
    ensure!(rows == 25, "figure missing in the report", "{} context types", rows);
    // a byte enters the table of symbols when the next one starts
    let done = &content[..content.len().saturating_sub(1)];
    let mut seen = 0;
    let table = out.lines().skip_while(|l| !l.contains("by symbol value")).skip(1);
    // cells of 29 characters: code, the character, count, cost
    let cells = table.flat_map(|l| l.as_bytes().get(2..).unwrap_or(&[]).chunks(32).map(|c| &c[..c.len().min(29)]));
    for cell in cells {
        let cell = String::from_utf8_lossy(cell).into_owned();
        let code = u8::from_str_radix(cell.get(..2).unwrap_or("").trim(), 16);
        let mut figures = cell.get(4..).unwrap_or("").split_whitespace();
        let (n, c) = (figures.next().and_then(number), figures.next().and_then(number));
        let (code, n, c) = match (code, n, c) {
            (Ok(code), Some(n), Some(c)) => (code, n, c),
            _ => return viol("figure missing in the report", cell),
        };
        let at: Vec<usize> = (0..done.len()).filter(|&i| done[i] == code).collect();
        let expected: f64 = at.iter().map(|&i| a.each[i * 8..i * 8 + 8].iter().sum::<f64>()).sum::<f64>() / 8.0;
        ensure!(
            n == at.len() as f64 && (c - expected).abs() < 0.006 + LUT_BIT_ERROR * at.len() as f64,
            "breakdown by symbol does not add up",
            "symbol {:02x}: {} times at a cost of {:.2}, instead of {} at {:.2}", code, n, c, at.len(), expected
        );
        seen += 1;
    }
    ensure!(seen >= 128, "figure missing in the report", "{} symbols", seen);
    Ok(())
}

pub fn a04(cx: &Cx) -> Res {
    let release = cx.coin();
    let content = draw_content(cx);
    let mut plan = Plan::default();
    draw_reads(cx, &mut plan);
    cx.note(|| format!("{} bytes {}; plan: {}", content.len(), short(&content), plan.brief()));
    let r = run(cx, release, "demixer", &[INPUT], &content, &plan)?;
    ensure!(r.ok(), "program fails", "{}", r.ending());
    let need = |name: &str, unit: &str| match line_value(&r.out, name, unit) {
        Some(v) => Ok(v),
        None => viol("figure missing in the report", format!("{} ... {}", name, unit)),
    };
    let a = account(&content)?;
    let bytes = need("total cost in bytes", "")?;
    let bits = need("total cost in bits", "")?;
    let length = need("input length", "bytes")?;
    let luts = r
        .out
        .lines()
        .find_map(|l| l.strip_prefix("Total cost (computed using LUTs):"))
        .and_then(|l| l.trim().trim_end_matches("bytes").trim().parse::<f64>().ok());
    let luts = match luts {
        Some(v) => v,
        None => return viol("figure missing in the report", "total cost using look-up tables".into()),
    };
    ensure!(length == content.len() as f64, "wrong byte count", "{} of {}", length, content.len());
    let near = |x: f64, y: f64, tolerance: f64| (x - y).abs() <= tolerance;
    ensure!(
        near(bits, a.bits, 2e-3 + a.bits * 1e-9),
        "floating point total is not the cost of the coded bits",
        "{} bits reported, {} bits by independent accounting of {} coded bits", bits, a.bits, a.coded_bits
    );
    ensure!(near(bytes * 8.0, bits, 6e-3), "totals inconsistent", "{} bytes, {} bits", bytes, bits);
    let table = LUT_BIT_ERROR * a.coded_bits as f64 / 8.0 + 0.006;
    ensure!(
        near(luts, bytes, table),
        "table total is not the cost of the coded bits",
        "{} bytes by tables, {} bytes by floating point for {} coded bits (table precision allows {:.3})",
        luts, bytes, a.coded_bits, table
    );
    if content.len() <= 3000 {
        let contexts = contexts_by_bit(&content, MAX_ORDER);
        if !content.is_empty() {
            let length = need("Average context length", "bytes")?;
            let expected = contexts.iter().map(|o| o.contexts).sum::<usize>() as f64 / contexts.len() as f64;
            ensure!(
                near(length, expected, 6e-4),
                "wrong average context length", "{} reported, the input has {}", length, expected
            );
        }
        if cx.chance(200) {
            check_tables(cx, &content, &a, &contexts)?;
        }
    }
    if !content.is_empty() {
        let average = need("average cost", "bpb")?;
        let ratio = need("compression ratio", ": 1")?;
        let n = content.len() as f64;
        ensure!(near(average, bits / n, 2e-5 + 1e-3 / n), "average inconsistent", "{} for {} bits of {} bytes", average, bits, n);
        // the total is printed with three decimals
        let (lo, hi) = (n * 8.0 / (a.bits + 1e-9), n * 8.0 / (a.bits - 1e-9));
        ensure!(
            ratio >= lo - 6e-4 - lo * 1e-9 && ratio <= hi + 6e-4 + hi * 1e-9,
            "ratio inconsistent", "{} for {} bits of {} bytes", ratio, a.bits, n
        );
        cx.nontrivial();
    }
    let over = a.coded_bytes as f64 * 8.0 - a.bits;
    if let Some(path) = std::env::var_os("DSIM_CALIBRATE") {
        crate::props_model::append(path, format!("bits {} over {:.3} unlikely {:.4} lutdiff {:.5} per bit {:.7}", a.coded_bits, over, a.unlikely, luts - bytes, (luts - bytes) * 8.0 / a.coded_bits as f64));
    }
    ensure!(
        over > -10.0 && over < 64.0 + a.unlikely,
        "coded size does not match the total",
        "{} bits by the totals, {} bytes when coded", a.bits, a.coded_bytes
    );
    Ok(())
}

/// Largest error of the cost of one bit in the logarithm table, see DESIGN.md.
const LUT_BIT_ERROR: f64 = 1.0e-3;

// --------------------------------------------------------------------- A05

/// Sum of the lengths, up to the order, of all matches among the bytes printed.
fn repetition(content: &[u8]) -> u64 {
    let c = &content[..content.len().min(1234)];
    let mut row = vec![0u64; c.len() + 1];
    let mut sum = 0;
    for i in 0..c.len() {
        for j in (0..i).rev() {
            row[j + 1] = if c[i] == c[j] { 63.min(row[j] + 1) } else { 0 };
            sum += row[j + 1];
        }
    }
    sum
}

pub fn a05(cx: &Cx) -> Res {
    let release = cx.coin();
    let max = *cx.pick(&[6, 30, 120, 120, 300, 300, 1400]);
    let mut content = gen::bytes(cx, max);
    if cx.chance(20) {
        // longer than what is printed
        let more = 1235 + cx.draw(3000);
        content = gen::bytes_exact(cx, more);
        cx.probe("more bytes than printed");
    }
    cx.note(|| format!("{} bytes {}", content.len(), short(&content)));
    let mut algorithms = vec!["tree", "fat_map", "brute_force"];
    if repetition(&content) > 3_000_000 {
        // brute force takes time in proportion to this; the others do not
        algorithms.pop();
        cx.probe("too repetitive for brute force");
    }
    let mut reports = vec![];
    for &name in &algorithms {
        let mut plan = Plan::default();
        draw_reads(cx, &mut plan);
        draw_writes(cx, &mut plan);
        cx.note(|| format!("{}: {}", name, plan.brief()));
        let r = run(cx, release, "print_histories", &[name, INPUT], &content, &plan)?;
        ensure!(r.ok(), "program fails", "{} on {}: {}", name, short(&content), r.ending());
        reports.push(r.out);
    }
    let reference = calm(cx, release, "print_histories", &["tree", INPUT], &content)?;
    for (name, report) in algorithms.iter().zip(&reports) {
        ensure!(
            *report == reference.out,
            "reports differ",
            "{} against undisturbed tree: {}", name, first_difference(report, &reference.out)
        );
    }
    let bytes = reference.out.lines().filter(|l| l.starts_with("Processing byte with index:")).count();
    ensure!(
        content.contains(&b'P') || bytes == content.len().min(1234),
        "bytes missing in the report", "{} of {}", bytes, content.len()
    );
    cx.probe_if(content.is_empty(), "empty file");
    if content.len() >= 3 {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- A06

/// The report that the file itself implies.
fn true_report(content: &[u8], max_order: usize) -> String {
    let n = content.len().min(1234);
    let mut out = String::new();
    // common[j]: how many bytes before i and before j agree
    let mut common = vec![0usize; n + 1];
    for i in 0..n {
        if i > 0 {
            for j in (1..=i).rev() {
                common[j] = if j < i && content[j - 1] == content[i - 1] { common[j - 1] + 1 } else { 0 };
            }
            common[0] = 0;
        }
        out += &format!("Processing byte with index: {}, {}\n", i, content[i] as char);
        let orders = max_order.min(i);
        for bit_index in (0..8).rev() {
            // a 1 and then the bits seen, no more than the last seven
            let mut recent = vec![1u32; orders + 1];
            for j in 0..i {
                let same = bit_index == 7 || (content[j] ^ content[i]) >> (bit_index + 1) == 0;
                if same {
                    let bit = ((content[j] >> bit_index) & 1) as u32;
                    for r in recent[..=common[j].min(orders)].iter_mut() {
                        *r = (*r << 1 | bit) & 127 | (*r << 1 | (*r & 128)) & 128;
                    }
                }
            }
            let known: Vec<String> = recent.iter().take_while(|&&r| r != 1).map(|r| format!("{:x}", r)).collect();
            if !known.is_empty() {
                out += &format!("{}: {}\n", bit_index, known.join(", "));
            }
        }
        out.push('\n');
    }
    out
}

pub fn a06(cx: &Cx) -> Res {
    let release = cx.coin();
    let max = *cx.pick(&[6, 30, 120, 300, 300, 700]);
    let mut content = gen::bytes(cx, max);
    if cx.chance(20) {
        let more = 1200 + cx.draw(3000);
        content = gen::bytes_exact(cx, more);
        cx.probe_if(content.len() > 1234, "more bytes than printed");
    }
    let mut names = vec!["tree", "fat_map", "brute_force"];
    if repetition(&content) > 3_000_000 {
        names.pop();
    }
    let name = *cx.pick(&names);
    let mut plan = Plan::default();
    draw_reads(cx, &mut plan);
    draw_writes(cx, &mut plan);
    cx.note(|| format!("{}: {} bytes {}; plan: {}", name, content.len(), short(&content), plan.brief()));
    let r = run(cx, release, "print_histories", &[name, INPUT], &content, &plan)?;
    ensure!(r.ok(), "program fails", "{} on {}: {}", name, short(&content), r.ending());
    let expected = true_report(&content, 63);
    ensure!(
        r.out == expected,
        "untrue report",
        "{} on {} bytes {}: {}", name, content.len(), short(&content), first_difference(&r.out, &expected)
    );
    cx.probe(match name { "tree" => "tree", "fat_map" => "hash map", _ => "brute force" });
    if content.len() >= 3 {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- A07

pub fn a07(cx: &Cx) -> Res {
    let release = cx.coin();
    let bench = cx.draw(32) == 31;
    // every reading of the clock takes this long, every stall of the input
    // some more; the least and the most that may be reported follow
    let step = *cx.pick(&[1, 3, 20, 700, 1000, 61_000, 5_000_000]) * 1_000_000 + cx.draw(1_000_000) as i64;
    let mut plan = Plan { mono: vec![step; 100], ..Plan::default() };
    draw_clocks_wall(cx, &mut plan);
    if bench {
        cx.note(|| format!("bench_sigmoid; plan: {}", plan.brief()));
        let r = run(cx, release, "bench_sigmoid", &[], &[], &plan)?;
        ensure!(r.ok(), "program fails", "{}", r.ending());
        let timed = r.get("timed ns") as f64;
        let mut sum = 0.0;
        for name in ["squash", "stretch"] {
            let figure = r.out.lines().find(|l| l.starts_with(name)).and_then(|l| l.split('=').nth(1));
            let figure = figure.and_then(|l| l.split("ns").next()).and_then(|l| l.trim().parse::<f64>().ok());
            let figure = match figure {
                Some(f) => f,
                None => return viol("figure missing in the report", name.into()),
            };
            // ten million conversions
            let (lo, hi) = (step as f64 / 1e7, timed / 1e7);
            ensure!(
                figure >= lo - 0.051 && figure <= hi + 0.051,
                "untrue time", "{}: {} ns reported, between {} and {} passed", name, figure, lo, hi
            );
            sum += figure;
        }
        ensure!(
            sum <= timed / 1e7 + 0.11,
            "untrue time", "figures add up to {} ns, {} passed", sum, timed / 1e7
        );
        cx.probe("benchmark");
        cx.nontrivial();
        return Ok(());
    }
    let content = gen::bytes(cx, *cx.pick(&[12, 200, 3000, 9000]));
    draw_reads(cx, &mut plan);
    plan.reads.retain(|r| r.0 != 'z');
    for _ in 0..cx.draw(8) {
        plan.lags.push(if cx.coin() { 0 } else { *cx.pick(&[1, 1000, 60_000, 3_600_000, 10_000_000_000i64]) * (1 + cx.draw(1_000_000) as i64) });
    }
    cx.note(|| format!("{} bytes {}; plan: {}", content.len(), short(&content), plan.brief()));
    let r = run(cx, release, "demixer", &[INPUT], &content, &plan)?;
    ensure!(r.ok(), "program fails", "{}", r.ending());
    let need = |name: &str, unit: &str| match line_value(&r.out, name, unit) {
        Some(v) => Ok(v),
        None => viol("figure missing in the report", format!("{} ... {}", name, unit)),
    };
    let (initial, total) = (need("initialization", "seconds")?, need("total duration", "seconds")?);
    let (step, stalled, timed) = (step as f64 / 1e9, r.get("stalled ns") as f64 / 1e9, r.get("timed ns") as f64 / 1e9);
    let slack = 0.00051;
    ensure!(
        total >= stalled + step - slack && total <= timed + slack,
        "untrue time",
        "total duration of {} s reported: {:.6} s passed, {:.6} s of them waiting for input", total, timed, stalled
    );
    ensure!(
        initial >= step - slack && initial <= total + 2.0 * slack,
        "untrue time",
        "initialization of {} s reported, of {} s in total, clock readings {:.6} s apart", initial, total, step
    );
    let n = content.len() as f64;
    if n > 0.0 && total > 2.0 * slack {
        let (speed, each) = (need("speed", "bytes per second")?, need("speed", "ns per byte")?);
        let (lo, hi) = ((total - slack) * (1.0 - 1e-12), (total + slack) * (1.0 + 1e-12));
        ensure!(
            speed >= n / hi - slack && speed <= n / lo + slack && each >= lo / n * 1e9 - slack && each <= hi / n * 1e9 + slack,
            "untrue speed", "{} bytes in {} s reported as {} bytes per second and {} ns per byte", n, total, speed, each
        );
    }
    cx.probe_if(stalled > 0.0, "input stalled");
    cx.probe_if(stalled > 3600.0, "input stalled for hours");
    cx.probe_if(stalled > 5e6, "input stalled for months");
    if !content.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}
