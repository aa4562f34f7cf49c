//! C06, C07 and P01..P03: the predictor, alone and joined with the coder.

use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::io::*;
use crate::model_codec as mc;
use crate::model_codec::Limits;
use crate::sched::*;
use crate::tape::Rng;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use demixer::util::last_bytes::LastBytesCache;
use std::io::{Error, ErrorKind, Read, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

// --------------------------------------------------------------------- C06

/// Bytes stored between the two sides. Everything in it is durable.
#[derive(Default)]
struct LogState {
    bytes: Vec<u8>,
    /// how far the reader has ever got
    read: usize,
    closed: bool,
    /// a restarted writer wrote something else than before
    differs: Option<(usize, u8, u8)>,
}

#[derive(Clone, Default)]
struct Log(Arc<Mutex<LogState>>);

struct LogEnd {
    log: Log,
    me: Me,
    cx: Cx,
    weather: Weather,
    yield_rate: usize,
    eintr_in_row: usize,
    capacity: usize,
    pos: usize,
    /// the side dies in its n-th transport call
    crash_in_calls: Option<usize>,
    powered_off: Arc<AtomicBool>,
}

impl LogEnd {
    fn before(&mut self, what: &'static str) -> Option<std::io::Result<usize>> {
        self.cx.steps(1);
        if self.cx.chance(self.yield_rate) {
            self.me.yield_now();
        }
        if self.eintr_in_row < 3 && self.cx.chance(self.weather.eintr) {
            self.eintr_in_row += 1;
            self.cx.fault(what);
            return Some(Err(Error::from(ErrorKind::Interrupted)));
        }
        self.eintr_in_row = 0;
        None
    }
    fn crash_now(&mut self) -> bool {
        match &mut self.crash_in_calls {
            Some(0) => {
                self.powered_off.store(true, Ordering::SeqCst);
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }
}

impl Write for LogEnd {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.powered_off.load(Ordering::SeqCst) || buf.is_empty() {
            return Ok(buf.len()); // nothing a dead process writes arrives
        }
        if let Some(r) = self.before("write interrupted") {
            return r;
        }
        loop {
            let mut n = 0;
            {
                let mut log = self.log.0.lock().unwrap();
                // rewriting what is stored already never waits
                let limit = (log.read + self.capacity).max(log.bytes.len());
                let space = limit.saturating_sub(self.pos);
                if space > 0 {
                    n = buf.len().min(space);
                    if n > 1 && self.cx.chance(self.weather.short) {
                        n = self.cx.range(1, n - 1);
                        self.cx.fault("short write");
                    }
                    if self.crash_in_calls == Some(0) && n > 1 {
                        n = self.cx.range(0, n);
                        self.cx.fault("torn write");
                    }
                    for &b in &buf[..n] {
                        let at = self.pos;
                        if at < log.bytes.len() {
                            if log.bytes[at] != b && log.differs.is_none() {
                                log.differs = Some((at, log.bytes[at], b));
                            }
                            log.bytes[at] = b;
                        } else {
                            log.bytes.push(b);
                        }
                        self.pos += 1;
                    }
                }
            }
            if n > 0 || self.powered_off.load(Ordering::SeqCst) {
                self.me.wake_all();
                if self.crash_now() {
                    std::panic::resume_unwind(Box::new(OwnerFailure));
                }
                return Ok(n);
            }
            self.cx.fault("writer stalled by back-pressure");
            if self.me.block() {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Read for LogEnd {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(r) = self.before("read interrupted") {
            return r;
        }
        if self.crash_now() {
            std::panic::resume_unwind(Box::new(OwnerFailure));
        }
        loop {
            {
                let mut log = self.log.0.lock().unwrap();
                let have = log.bytes.len() - self.pos;
                if have > 0 {
                    let mut n = buf.len().min(have);
                    if n > 1 && self.cx.chance(self.weather.short) {
                        n = self.cx.range(1, n - 1);
                        self.cx.fault("short read");
                    }
                    buf[..n].copy_from_slice(&log.bytes[self.pos..self.pos + n]);
                    self.pos += n;
                    log.read = log.read.max(self.pos);
                    drop(log);
                    self.me.wake_all();
                    return Ok(n);
                }
                if log.closed {
                    return Ok(0);
                }
            }
            self.cx.fault("reader delayed");
            if self.me.block() {
                return Ok(0);
            }
        }
    }
}

pub fn c06(cx: &Cx) -> Res {
    let luts = mc::luts();
    let huge = cx.draw(1500) == 1499;
    let input = if huge {
        cx.probe("input of more than 65536 bytes");
        let len = cx.range(66_000, 90_000);
        gen::bytes_exact(cx, len)
    } else if cx.chance(25) {
        // long enough for predictions to become extreme
        cx.probe("long predictable input");
        let runs = 1 + cx.draw(3);
        let mut v = vec![];
        for _ in 0..runs {
            let pattern: Vec<u8> = (0..cx.range(1, 3)).map(|_| cx.draw(256) as u8).collect();
            let len = 400 + cx.size(2000);
            v.extend((0..len).map(|i| pattern[i % pattern.len()]));
        }
        v
    } else {
        let max = *cx.pick(&[12, 40, 120, 400]);
        gen::bytes(cx, max)
    };
    let limits = if huge { *cx.pick(&[None, Some((65_537, 12)), Some((70_000, 20)), Some((1_000, 20))]) } else { mc::draw_limits(cx) };
    let capacity = *cx.pick(&[4096, 16, 2, 1]);
    let (w1, w2) = (Weather::draw(cx), Weather::draw(cx));
    let yields = if huge { [0, 0] } else { [*cx.pick(&[0, 50, 400]), *cx.pick(&[0, 50, 400])] };
    // crash points: transport call or coded bit
    let draw_crashes = |who: &str| -> Vec<(bool, usize)> {
        let n = if !huge && cx.chance(400) { cx.range(1, 2) } else { 0 };
        let v: Vec<(bool, usize)> = (0..n)
            .map(|_| (cx.coin(), if cx.coin() { cx.draw(12) } else { cx.draw(input.len() * 9 + 2) }))
            .collect();
        if n > 0 {
            cx.note(|| format!("{} crashes at {:?} (transport call / bit)", who, v));
        }
        v
    };
    let crashes_w = draw_crashes("compressor");
    let crashes_r = draw_crashes("decompressor");
    cx.note(|| format!("window/order {:?}, capacity {}, writer {:?}, reader {:?}, input {}", limits, capacity, w1, w2, short(&input)));
    let log = Log::default();
    let probs_w: Mutex<Vec<u32>> = Mutex::new(vec![]);
    let probs_r: Mutex<Vec<u32>> = Mutex::new(vec![]);
    let output: Mutex<Vec<u8>> = Mutex::new(vec![]);
    let repeat_diff: Mutex<Option<String>> = Mutex::new(None);
    let (probs_w_ref, probs_r_ref, output_ref, diff_ref) = (&probs_w, &probs_r, &output, &repeat_diff);
    let input_ref = &input;
    // probabilities of a repeated attempt have to repeat, too
    let record = |list: &Mutex<Vec<u32>>, n: usize, p: u32| {
        let mut list = list.lock().unwrap();
        if n < list.len() {
            if list[n] != p {
                diff_ref.lock().unwrap().get_or_insert(format!("bit {}: {} before the restart, {} after", n, list[n], p));
            }
        } else {
            list.push(p);
        }
    };
    let record = &record;
    let mk_end = |log: &Log, me: &Me, weather, yield_rate, crash: Option<(bool, usize)>| LogEnd {
        log: log.clone(), me: me.clone(), cx: cx.clone(), weather, yield_rate, eintr_in_row: 0, capacity, pos: 0,
        crash_in_calls: crash.filter(|c| !c.0).map(|c| c.1), powered_off: Arc::default(),
    };
    let mk_end = &mk_end;
    let (log1, log2) = (log.clone(), log.clone());
    let tasks: Vec<Box<dyn FnOnce(Me) -> Result<(), Caught> + Send>> = vec![
        Box::new(move |me| {
            let mut attempt = 0;
            loop {
                let crash = crashes_w.get(attempt).copied();
                let mut end = mk_end(&log1, &me, w1, yields[0], crash);
                let power = end.powered_off.clone();
                let r = catch(|| {
                    mc::compress_to(&mut end, input_ref, limits, luts, &mut |n, p| {
                        if cx.chance(yields[0] / 4) {
                            me.yield_now();
                        }
                        record(probs_w_ref, n, p);
                        if crash == Some((true, n)) {
                            power.store(true, Ordering::SeqCst);
                            std::panic::resume_unwind(Box::new(OwnerFailure));
                        }
                    })
                });
                match r {
                    Err(ref c) if c.file == "owner" => {
                        cx.fault("compressor crashed and restarted");
                        attempt += 1;
                    }
                    r => {
                        log1.0.lock().unwrap().closed = true;
                        me.wake_all();
                        return r;
                    }
                }
            }
        }),
        Box::new(move |me| {
            let mut attempt = 0;
            loop {
                let crash = crashes_r.get(attempt).copied();
                let mut end = mk_end(&log2, &me, w2, yields[1], crash);
                output_ref.lock().unwrap().clear();
                let r = catch(|| {
                    mc::decompress_from(
                        &mut end, limits, luts, input_ref.len() + 1,
                        &mut |n, p| {
                            if cx.chance(yields[1] / 4) {
                                me.yield_now();
                            }
                            record(probs_r_ref, n, p);
                            if crash == Some((true, n)) {
                                std::panic::resume_unwind(Box::new(OwnerFailure));
                            }
                        },
                        &mut |b| output_ref.lock().unwrap().push(b),
                    )
                });
                match r {
                    Err(ref c) if c.file == "owner" => {
                        cx.fault("decompressor crashed and restarted");
                        attempt += 1;
                    }
                    r => return r,
                }
            }
        }),
    ];
    let outcome = Sched::run(cx, tasks);
    cx.steps(input.len() as u64 * 18);
    ensure!(!outcome.stalled, "stall", "compressor and decompressor wait for each other forever");
    let mut results = outcome.results.into_iter();
    if let Err(c) = results.next().unwrap().and_then(|r| r) {
        return Err(c.to_viol("compressor failed"));
    }
    let decompressed = results.next().unwrap().and_then(|r| r);
    let state = log.0.lock().unwrap();
    if let Some((at, old, new)) = state.differs {
        return viol("restarted compressor writes other bytes", format!("offset {}: {:02x} before, {:02x} after", at, old, new));
    }
    if let Some(d) = repeat_diff.lock().unwrap().take() {
        return viol("restarted side predicts differently", d);
    }
    let (pw, pr, out) = (probs_w.lock().unwrap(), probs_r.lock().unwrap(), output.lock().unwrap());
    if let Some(n) = (0..pw.len().min(pr.len())).find(|&n| pw[n] != pr[n]) {
        return viol(
            "sides out of step",
            format!("byte {} bit {}: compressor predicts {}, decompressor {}", n / 8, 7 - n % 8, pw[n], pr[n]),
        );
    }
    if let Err(c) = decompressed {
        return Err(c.to_viol("decompressor failed"));
    }
    ensure!(
        *out == input,
        "decompressed bytes differ",
        "input {} output {}", short(&input), short(&out)
    );
    ensure!(pw.len() == input.len() * 8 && pr.len() == pw.len(), "wrong number of coded bits", "{} and {}", pw.len(), pr.len());
    let slid = limits.map(|l| input.len() > l.0).unwrap_or(false);
    cx.probe_if(slid, "window slid");
    if input.len() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- C07

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Predict,
    Compress,
    Decompress,
}

#[derive(Clone, Debug)]
pub struct Spec {
    kind: Kind,
    limits: Limits,
    input: Vec<u8>,
    stream: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Completes,
    /// its output refuses bytes or its input ends at this offset
    TransportFails(usize),
    /// dropped after this many steps
    Dropped(usize),
    /// its owner unwinds after this many steps
    OwnerFails(usize),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Trace {
    probs: Vec<u32>,
    bytes: Vec<u8>,
}

struct LimitedBuf {
    bytes: Vec<u8>,
    limit: usize,
}
impl Write for LimitedBuf {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.limit - self.bytes.len().min(self.limit));
        if n == 0 && !buf.is_empty() {
            return Err(Error::from(ErrorKind::BrokenPipe));
        }
        self.bytes.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A session whose calls can be made one by one, from any thread. Only one
/// thread at a time touches it.
struct Session<'l> {
    spec: &'l Spec,
    predictor: Option<Predictor<'l>>,
    encoder: Option<Encoder<'l>>,
    decoder: Option<Decoder<'l>>,
    writer: *mut LimitedBuf,
    reader: *mut std::io::Cursor<Vec<u8>>,
    byte: usize,
    bit: i32,
    current: u8,
    predicted: Option<demixer::coding::FinalProbability>,
    trace: Trace,
    steps: usize,
    done: bool,
}
unsafe impl<'l> Send for Session<'l> {}

impl<'l> Session<'l> {
    fn new(spec: &'l Spec, luts: &'l LookUpTables, fate: Fate) -> Self {
        let limit = if let Fate::TransportFails(n) = fate { n } else { usize::MAX };
        let writer = Box::into_raw(Box::new(LimitedBuf { bytes: vec![], limit }));
        let stream = spec.stream[..spec.stream.len().min(limit)].to_vec();
        let reader = Box::into_raw(Box::new(std::io::Cursor::new(stream)));
        let (w, r): (&'l mut LimitedBuf, &'l mut std::io::Cursor<Vec<u8>>) = unsafe { (&mut *writer, &mut *reader) };
        let mut s = Session {
            spec, predictor: Some(mc::new_predictor(spec.limits, luts)), encoder: None, decoder: None,
            writer, reader, byte: 0, bit: -1, current: 0, predicted: None,
            trace: Trace::default(), steps: 0, done: false,
        };
        match spec.kind {
            Kind::Predict => (),
            Kind::Compress => s.encoder = Some(Encoder::new(w)),
            Kind::Decompress => s.decoder = Some(Decoder::new(r)),
        }
        s
    }
    /// Makes one call of the session.
    fn step(&mut self) {
        self.steps += 1;
        let predictor = self.predictor.as_mut().unwrap();
        if self.bit < 0 {
            let ends = match self.spec.kind {
                Kind::Decompress => {
                    let e = self.decoder.as_mut().unwrap().decode_rare_event();
                    e || self.byte > self.spec.input.len()
                }
                kind => {
                    let e = self.byte == self.spec.input.len();
                    if kind == Kind::Compress {
                        self.encoder.as_mut().unwrap().encode_rare_event(e);
                    }
                    e
                }
            };
            if ends {
                self.encoder = None;
                self.decoder = None;
                if self.spec.kind == Kind::Compress {
                    self.trace.bytes = unsafe { (*self.writer).bytes.clone() };
                }
                self.done = true;
                return;
            }
            predictor.start_new_byte();
            self.bit = 7;
            self.current = 0;
            return;
        }
        match self.predicted.take() {
            None => {
                let p = predictor.predict();
                self.trace.probs.push(p.raw());
                self.predicted = Some(p);
            }
            Some(p) => {
                let bit: Bit = if self.spec.kind == Kind::Decompress {
                    self.decoder.as_mut().unwrap().decode_bit(p)
                } else {
                    let bit: Bit = ((self.spec.input[self.byte] >> self.bit) & 1 == 1).into();
                    if let Some(e) = self.encoder.as_mut() {
                        e.encode_bit(p, bit);
                    }
                    bit
                };
                predictor.update(bit);
                self.current = (self.current << 1) | bit.to_u8();
                self.bit -= 1;
                if self.bit < 0 {
                    self.byte += 1;
                    if self.spec.kind == Kind::Decompress {
                        self.trace.bytes.push(self.current);
                    }
                }
            }
        }
    }
}

impl<'l> Drop for Session<'l> {
    fn drop(&mut self) {
        let (e, d) = (self.encoder.take(), self.decoder.take());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            drop(e);
            drop(d);
        }));
        drop(r);
        unsafe {
            drop(Box::from_raw(self.writer));
            drop(Box::from_raw(self.reader));
        }
    }
}

fn solo(spec: &Spec, luts: &LookUpTables) -> Trace {
    let mut s = Session::new(spec, luts, Fate::Completes);
    while !s.done {
        s.step();
    }
    s.trace.clone()
}

fn draw_spec(cx: &Cx, max: usize) -> Result<Spec, Viol> {
    let kind = *cx.pick(&[Kind::Predict, Kind::Compress, Kind::Decompress]);
    let limits = mc::draw_limits(cx);
    let input = gen::bytes(cx, max);
    let stream = if kind == Kind::Decompress {
        must("panic", || mc::compress(&input, limits, mc::luts()))?
    } else {
        vec![]
    };
    Ok(Spec { kind, limits, input, stream })
}

fn hex(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("{:02x}", b)).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn trace_digest(t: &Trace) -> u64 {
    let raw: Vec<u8> = t.probs.iter().flat_map(|p| p.to_le_bytes()).collect();
    hash_bytes(&raw) ^ hash_bytes(&t.bytes).rotate_left(1)
}

/// Runs the session given on the command line in this fresh process.
pub fn aux(args: &std::collections::HashMap<String, String>) -> i32 {
    if args["kind"] == "Tables" {
        let content = std::fs::read(&args["file"]).expect("input");
        crate::props_apps::print_tables(&content);
        return 0;
    }
    let kind = match args["kind"].as_str() {
        "Predict" => Kind::Predict,
        "Compress" => Kind::Compress,
        _ => Kind::Decompress,
    };
    let n = |k: &str| args[k].parse::<usize>().expect("number");
    let limits = if args.contains_key("window") { Some((n("window"), n("order"))) } else { None };
    let get = |k: &str| unhex(args[k].trim_start_matches('x'));
    let spec = Spec { kind, limits, input: get("input"), stream: get("stream") };
    let luts = LookUpTables::new();
    println!("{}", trace_digest(&solo(&spec, &luts)));
    0
}

fn in_other_process(spec: &Spec) -> Option<u64> {
    let mut c = std::process::Command::new(std::env::current_exe().ok()?);
    c.arg("aux").args(["--kind", &format!("{:?}", spec.kind)]);
    c.args(["--input", &format!("x{}", hex(&spec.input)), "--stream", &format!("x{}", hex(&spec.stream))]);
    if let Some((w, o)) = spec.limits {
        c.args(["--window", &w.to_string(), "--order", &o.to_string()]);
    }
    let out = c.output().ok()?;
    String::from_utf8_lossy(&out.stdout).trim().parse().ok()
}

pub fn c07(cx: &Cx) -> Res {
    let fresh_luts;
    let luts: &LookUpTables = if cx.chance(100) {
        cx.probe("fresh look-up tables");
        fresh_luts = must("panic", || LookUpTables::new())?;
        &fresh_luts
    } else {
        mc::luts()
    };
    let n = cx.range(2, 4);
    let max = *cx.pick(&[6, 20, 60]);
    let mut specs: Vec<Spec> = vec![];
    for i in 0..n {
        // equal inputs tempt shared caches into wrong answers
        let s = if i > 0 && cx.chance(250) {
            let mut s = specs[cx.draw(i)].clone();
            if cx.coin() && s.kind != Kind::Decompress {
                s.limits = mc::draw_limits(cx);
            }
            s
        } else {
            draw_spec(cx, max)?
        };
        cx.note(|| format!("session {}: {:?} window/order {:?} input {}", i, s.kind, s.limits, short(&s.input)));
        specs.push(s);
    }
    let mut expected = vec![];
    for s in &specs {
        expected.push(must("panic", || solo(s, mc::luts()))?);
    }
    let fates: Vec<Fate> = specs
        .iter()
        .map(|s| match cx.draw(6) {
            1 => Fate::Dropped(cx.draw(s.input.len() * 17 + 1)),
            2 => Fate::OwnerFails(cx.draw(s.input.len() * 17 + 1)),
            3 if s.kind != Kind::Predict => Fate::TransportFails(cx.draw(12)),
            _ => Fate::Completes,
        })
        .collect();
    cx.note(|| format!("fates {:?}", fates));
    let threads = cx.range(1, 4);
    let burst = *cx.pick(&[1, 4, 40]);
    // sessions may also start later than others
    let slots: Mutex<Vec<Option<Session>>> = Mutex::new((0..n).map(|_| None).collect());
    let started: Mutex<Vec<bool>> = Mutex::new(vec![false; n]);
    let traces: Mutex<Vec<Option<Trace>>> = Mutex::new(vec![None; n]);
    let failures: Mutex<Vec<(usize, Caught)>> = Mutex::new(vec![]);
    let alive: Mutex<Vec<usize>> = Mutex::new((0..n).collect());
    let moved: Mutex<Vec<usize>> = Mutex::new(vec![usize::MAX; n]);
    let (slots, started, traces, failures, alive, fates_ref, specs_ref, moved) =
        (&slots, &started, &traces, &failures, &alive, &fates, &specs, &moved);
    let tasks: Vec<Box<dyn FnOnce(Me) + Send>> = (0..threads)
        .map(|t| {
            let task: Box<dyn FnOnce(Me) + Send> = Box::new(move |me: Me| loop {
                let k = {
                    let alive = alive.lock().unwrap();
                    if alive.is_empty() {
                        return;
                    }
                    alive[cx.draw(alive.len())]
                };
                let steps = cx.range(1, burst);
                let mut session = slots.lock().unwrap()[k].take();
                {
                    let mut m = moved.lock().unwrap();
                    if m[k] != usize::MAX && m[k] != t {
                        cx.fault("session moved to another thread");
                    }
                    m[k] = t;
                }
                let fate = fates_ref[k];
                let mut over = false;
                let r = catch(|| {
                    if !std::mem::replace(&mut started.lock().unwrap()[k], true) {
                        session = Some(Session::new(&specs_ref[k], luts, fate));
                    }
                    for _ in 0..steps {
                        let s = session.as_mut().unwrap();
                        cx.steps(1);
                        match fate {
                            Fate::Dropped(at) if s.steps == at => {
                                cx.fault("session dropped half-way");
                                over = true;
                                session = None;
                                return;
                            }
                            Fate::OwnerFails(at) if s.steps == at => {
                                cx.fault("session owner unwinds");
                                let _dies = session.take();
                                std::panic::resume_unwind(Box::new(OwnerFailure));
                            }
                            _ => (),
                        }
                        s.step();
                        if s.done {
                            traces.lock().unwrap()[k] = Some(s.trace.clone());
                            over = true;
                            return;
                        }
                    }
                });
                if let Err(c) = r {
                    over = true;
                    if c.file != "owner" {
                        if let Fate::TransportFails(_) = fate {
                            cx.fault("session failed");
                        } else {
                            failures.lock().unwrap().push((k, c));
                        }
                    }
                }
                if over {
                    drop(session);
                    alive.lock().unwrap().retain(|&a| a != k);
                } else {
                    slots.lock().unwrap()[k] = session;
                }
                me.yield_now();
            });
            task
        })
        .collect();
    let outcome = Sched::run(cx, tasks);
    for r in outcome.results {
        if let Err(c) = r {
            return Err(c.to_viol("session failed"));
        }
    }
    if let Some((k, c)) = failures.lock().unwrap().pop() {
        let mut v = c.to_viol("session failed");
        v.detail = format!("session {}: {}", k, v.detail);
        return Err(v);
    }
    let mut completed = 0;
    for (k, fate) in fates.iter().enumerate() {
        if let Some(t) = &traces.lock().unwrap()[k] {
            if let Fate::TransportFails(at) = *fate {
                // it may complete when everything fits
                ensure!(
                    specs[k].kind == Kind::Decompress || expected[k].bytes.len() <= at,
                    "failing session completes", "session {}", k
                );
            }
            completed += 1;
            same_trace(&format!("session {} among others", k), t, &expected[k])?;
        }
    }
    // once more, alone, after all of this
    let again = cx.draw(n);
    let t = must("panic", || solo(&specs[again], luts))?;
    same_trace(&format!("session {} repeated", again), &t, &expected[again])?;
    if cx.chance(12) {
        cx.probe("session repeated in another process");
        match in_other_process(&specs[again]) {
            Some(d) => ensure!(
                d == trace_digest(&expected[again]),
                "another process computes something else", "session {}", again
            ),
            None => return viol("harness", "no answer of the other process".into()),
        }
    }
    if completed > 0 && n > 1 {
        cx.nontrivial();
    }
    Ok(())
}

fn same_trace(who: &str, got: &Trace, want: &Trace) -> Res {
    if let Some(i) = (0..got.probs.len().min(want.probs.len())).find(|&i| got.probs[i] != want.probs[i]) {
        return viol(
            "session not isolated",
            format!("{}: byte {} bit {}: probability {} instead of {}", who, i / 8, 7 - i % 8, got.probs[i], want.probs[i]),
        );
    }
    ensure!(
        got == want,
        "session not isolated",
        "{}: {} bits, bytes {} instead of {} bits, bytes {}", who, got.probs.len(), short(&got.bytes),
        want.probs.len(), short(&want.bytes)
    );
    Ok(())
}

// ----------------------------------------------------------- hostile inputs

/// Chooses the bits of bytes, knowing the predictions.
pub struct Adversary<'a> {
    pub bulk: Bulk<'a>,
    mode: usize,
    left: usize,
    pattern: Vec<u8>,
    pos: usize,
    pub history: Vec<u8>,
    rate: usize,
}

impl<'a> Adversary<'a> {
    pub fn new(cx: &'a Cx, individually: bool) -> Self {
        Adversary { bulk: Bulk::new(cx, individually), mode: 0, left: 0, pattern: vec![0], pos: 0, history: vec![], rate: 0 }
    }
    pub fn next_byte(&mut self) {
        if self.left == 0 {
            self.mode = self.bulk.draw(10);
            let scale = [4, 16, 60, 400, 2000][self.bulk.draw(5)];
            self.left = 1 + self.bulk.draw(scale);
            let period = 1 + self.bulk.draw(5);
            self.pattern = (0..period)
                .map(|_| if self.bulk.draw(2) == 0 { [0, 0xff, b'a', 0x80][self.bulk.draw(4)] } else { self.bulk.draw(256) as u8 })
                .collect();
            self.rate = [1, 10, 60, 300][self.bulk.draw(4)];
            if self.mode == 9 && !self.history.is_empty() {
                // what came before, again
                let at = self.bulk.draw(self.history.len());
                let to = (at + 1 + self.bulk.draw(64)).min(self.history.len());
                self.pattern = self.history[at..to].to_vec();
            }
            self.pos = 0;
        }
        self.left -= 1;
        self.pos += 1;
    }
    pub fn bit(&mut self, bit_index: usize, raw: u32) -> bool {
        let likely = raw < gen::PROB_ONE / 2;
        let planned = (self.pattern[(self.pos - 1) % self.pattern.len()] >> bit_index) & 1 == 1;
        match self.mode {
            0 => planned,
            1 => likely,
            2 => !likely,
            3 => self.bulk.draw(2) == 1,
            // lull, then surprise when the predictor is at its surest
            4 => {
                if raw < gen::PROB_ONE >> 9 || raw > gen::PROB_ONE - (gen::PROB_ONE >> 9) {
                    likely ^ self.bulk.chance(self.rate)
                } else {
                    likely
                }
            }
            5 => likely ^ self.bulk.chance(self.rate),
            6 => planned ^ self.bulk.chance(self.rate),
            // wrong in one bit position only
            7 => if bit_index == self.left % 8 { !likely } else { planned },
            8 => if self.left % 2 == 0 { !likely } else { planned },
            _ => planned,
        }
    }
}

/// Feeds one byte, returns its cost in bits.
fn feed_byte(
    predictor: &mut Predictor, choose: &mut dyn FnMut(usize, u32) -> bool,
) -> Result<(u8, f64), Viol> {
    must("predictor failed", || predictor.start_new_byte())?;
    let mut byte = 0u8;
    let mut cost = 0.0;
    for bit_index in (0..8).rev() {
        let p = must("predictor failed", || predictor.predict())?;
        let raw = p.raw();
        ensure!(
            raw > 0 && raw < gen::PROB_ONE,
            "probability not codable", "{} / 2^23 at bit {}", raw, bit_index
        );
        let bit = choose(bit_index, raw);
        let q = if bit { gen::PROB_ONE - raw } else { raw };
        cost -= (q as f64 / gen::PROB_ONE as f64).log2();
        byte |= (bit as u8) << bit_index;
        must("predictor failed", || predictor.update(bit.into()))?;
    }
    Ok((byte, cost))
}

fn disturb(cx: &Cx, predictor: &mut Predictor, len: usize) -> Result<f64, Viol> {
    let mut adversary = Adversary::new(cx, len <= 12);
    let mut surprise: f64 = 0.0;
    for pos in 0..len {
        adversary.next_byte();
        let r = feed_byte(predictor, &mut |i, raw| adversary.bit(i, raw));
        let (byte, cost) = r.map_err(|v| Viol { detail: format!("byte {}: {}", pos, v.detail), class: v.class })?;
        adversary.history.push(byte);
        surprise = surprise.max(cost);
    }
    cx.steps(len as u64 * 8);
    Ok(surprise)
}

pub fn p01(cx: &Cx) -> Res {
    let huge = cx.draw(2000) == 1999;
    let limits = if huge { *cx.pick(&[None, Some((65_537, 20)), Some((66_000, 24)), Some((3_000, 20))]) } else { mc::draw_limits(cx) };
    let len = if huge { cx.range(66_000, 90_000) } else { cx.size(*cx.pick(&[40, 300, 2000, 6000])) };
    cx.probe_if(huge, "more than 65536 bytes");
    cx.note(|| format!("window/order {:?}, {} hostile bytes", limits, len));
    let mut predictor = must("predictor failed", || mc::new_predictor(limits, mc::luts()))?;
    let surprise = disturb(cx, &mut predictor, len)?;
    cx.probe_if(surprise > 40.0, "byte against strong odds (over 40 bits)");
    cx.probe_if(surprise > 100.0, "byte against strong odds (over 100 bits)");
    cx.probe_if(limits.map(|l| len > l.0).unwrap_or(false), "window slid");
    cx.fault("hostile input");
    if len >= 4 {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- P02

/// For working out tolerances: a line for the file named by DSIM_CALIBRATE.
pub fn append(path: std::ffi::OsString, line: String) {
    let mut f = std::fs::OpenOptions::new().create(true).append(true).open(path).expect("calibration file");
    std::io::Write::write_all(&mut f, (line + "\n").as_bytes()).expect("calibration file");
}

struct Recovered {
    hostile: usize,
    limits: Option<(usize, usize)>,
    pattern: Vec<u8>,
    /// bytes fed before the first block
    settle: usize,
    /// bits spent on the first P02_SETTLE bytes of the pattern
    learning: f64,
    /// bits per byte of each block that follows
    blocks: Vec<f64>,
}

fn p02_session(cx: &Cx, long: bool) -> Result<Recovered, Viol> {
    let len = cx.size(*cx.pick(&[40, 300, 2000, 6000]));
    // the bound counts from when the window holds nothing but the pattern,
    // or from the start of it when nothing leaves the window meanwhile
    let order = cx.range(P02_ORDER, 24);
    let (limits, settle) = match cx.draw(4) {
        0 => (None, P02_SETTLE),
        1 => (Some((len + P02_SETTLE + P02_WATCH + cx.draw(100), order)), P02_SETTLE),
        _ => {
            let window = cx.range(P02_WINDOW, 900);
            (Some((window, order)), window + P02_SETTLE)
        }
    };
    let period = cx.range(1, 6);
    let pattern: Vec<u8> = (0..period).map(|_| if cx.coin() { *cx.pick(&[0, 0xff, b'a', b'b']) } else { cx.draw(256) as u8 }).collect();
    cx.note(|| format!("window/order {:?}, {} hostile bytes, then {} repeated", limits, len, short(&pattern)));
    let mut predictor = must("predictor failed", || mc::new_predictor(limits, mc::luts()))?;
    disturb(cx, &mut predictor, len)?;
    cx.fault("hostile input");
    let blocks = if long { P02_LONG } else { 1 };
    cx.probe_if(long, "watched for thousands of bytes");
    let mut fed = 0;
    let mut feed = |n: usize| -> Result<f64, Viol> {
        let mut sum = 0.0;
        for _ in 0..n {
            let b = pattern[fed % period];
            fed += 1;
            sum += feed_byte(&mut predictor, &mut |bit, _| (b >> bit) & 1 == 1)?.1;
        }
        Ok(sum / n as f64)
    };
    let learning = feed(P02_SETTLE)? * P02_SETTLE as f64;
    if settle > P02_SETTLE {
        feed(settle - P02_SETTLE)?;
    }
    let mut costs = vec![];
    for _ in 0..blocks {
        costs.push(feed(P02_WATCH)?);
    }
    cx.steps(((settle + blocks * P02_WATCH) * 8) as u64);
    if let Some(path) = std::env::var_os("DSIM_CALIBRATE") {
        let list: Vec<String> = costs.iter().map(|c| format!("{:.6}", c)).collect();
        append(path, format!("{:.3} {} limits {:?} len {} pattern {:?}", learning, list.join(" "), limits, len, pattern));
    }
    Ok(Recovered { hostile: len, limits, pattern, settle, learning, blocks: costs })
}

pub fn p02(cx: &Cx) -> Res {
    let calibrating = std::env::var_os("DSIM_CALIBRATE").is_some();
    if !calibrating && cx.draw(P02_FLEET_EVERY) == P02_FLEET_EVERY - 1 {
        return p02_fleet(cx);
    }
    let a = p02_session(cx, calibrating || cx.chance(250))?;
    if calibrating {
        return Ok(());
    }
    ensure!(
        a.learning < P02_LEARNING,
        "slow recovery",
        "the first {} bytes of {} repeated after {} hostile bytes cost {:.1} bits, {} are allowed (window/order {:?})",
        P02_SETTLE, short(&a.pattern), a.hostile, a.learning, P02_LEARNING, a.limits
    );
    for (n, &cost) in a.blocks.iter().enumerate() {
        let limit = if n == 0 { P02_COST } else if n < P02_LONG - 1 { P02_SPIKE } else { P02_LATE };
        ensure!(
            cost < limit,
            "no recovery",
            "{} bytes into the repetition of {} after {} hostile bytes, the next {} bytes still cost {:.4} bits each on average, {} are allowed (window/order {:?})",
            a.settle + n * P02_WATCH, short(&a.pattern), a.hostile, P02_WATCH, cost, limit, a.limits
        );
    }
    if a.hostile >= 4 {
        cx.nontrivial();
    }
    Ok(())
}

/// What a single session may not show, many together do.
fn p02_fleet(cx: &Cx) -> Res {
    cx.probe("many sessions together");
    let long = cx.chance(128);
    let sessions = cx.fleet(P02_FLEET, |child| p02_session(child, long))?;
    let n = sessions.len() as f64;
    let mean = sessions.iter().map(|a| a.learning / p02_usual(a.pattern.len())).sum::<f64>() / n;
    let late = sessions.iter().filter(|a| a.blocks[0] > P02_SLOW).count();
    cx.note(|| format!("learning costs {:.3} times the usual, {} sessions are late", mean, late));
    ensure!(
        mean < P02_RATIO,
        "slow recovery on average",
        "{} sessions need {:.3} times as many bits as usual to learn the pattern, {} is allowed", sessions.len(), mean, P02_RATIO
    );
    ensure!(
        late <= P02_FLEET_LATE,
        "slow recovery of too many",
        "{} of {} sessions spend over {} bits per byte once settled, {} may", late, sessions.len(), P02_SLOW, P02_FLEET_LATE
    );
    let surprised = sessions.iter().filter(|a| a.blocks.last().map_or(false, |&c| long && c > P02_QUIET)).count();
    ensure!(
        surprised <= P02_FLEET_LATE,
        "surprises remain for too many",
        "{} of {} sessions spend over {} bits per byte after {} blocks of {}, {} may",
        surprised, sessions.len(), P02_QUIET, P02_LONG, P02_WATCH, P02_FLEET_LATE
    );
    cx.nontrivial();
    Ok(())
}

/// Bits that learning a pattern takes on average.
fn p02_usual(period: usize) -> f64 {
    25.8 + 9.7 * period as f64
}

const P02_FLEET: usize = 96;
const P02_FLEET_EVERY: usize = 60;
/// How many times the usual a fleet may need to learn its patterns.
const P02_RATIO: f64 = 1.12;
/// Bits that a single session may spend on the first P02_SETTLE bytes.
const P02_LEARNING: f64 = 270.0;
/// Bits per byte in the first block that few sessions of a fleet exceed.
const P02_SLOW: f64 = 0.001;
/// The same after a long watch.
const P02_QUIET: f64 = 0.0002;
const P02_FLEET_LATE: usize = 10;
const P02_WINDOW: usize = 200;
const P02_ORDER: usize = 8;
const P02_SETTLE: usize = 400;
const P02_WATCH: usize = 400;
const P02_LONG: usize = 8;
/// Mean bits per byte allowed in the first block of P02_WATCH bytes, in later
/// ones (which see occasional surprises as counts pass into new classes), and
/// in the last of a long watch.
const P02_COST: f64 = 0.05;
const P02_SPIKE: f64 = 0.2;
const P02_LATE: f64 = 0.06;

// --------------------------------------------------------------------- P04

/// A random source of bytes whose own probabilities are known.
enum Source {
    /// independent bytes: cumulated weights per byte value
    Memoryless(Vec<(u8, u32)>),
    /// the previous byte decides among a few successors with given weights
    Markov { alphabet: Vec<u8>, next: Vec<Vec<u32>> },
    /// a repeated pattern in which every 1024th part of the bytes is random
    Noisy { pattern: Vec<u8>, rate: u32 },
    /// independent words with given weights, one after another
    Words { words: Vec<Vec<u8>>, weights: Vec<u32> },
    /// the last few symbols, taken together, decide
    Chain { alphabet: Vec<u8>, next: Vec<Vec<u32>> },
    /// records of fields that are constant, chosen or copied
    Records(Vec<Field>),
}

enum Field {
    Constant(u8),
    Choice { letters: Vec<u8>, weights: Vec<u32> },
    CopyOf(usize),
}

#[derive(Default)]
struct SourceState {
    at: usize,
    kept: Vec<u8>,
}

impl Source {
    fn draw(cx: &Cx, family: Option<usize>) -> (&'static str, Source) {
        let weight = |cx: &Cx| match cx.draw(4) {
            0 => 1,
            1 => 1 + cx.draw(4) as u32,
            2 => 1 + cx.draw(30) as u32,
            _ => 1 + cx.draw(300) as u32,
        };
        let letters = |cx: &Cx, n: usize| -> Vec<u8> {
            let mut all: Vec<u8> = (0..=255).collect();
            for i in 0..n {
                let j = cx.range(i, 255);
                all.swap(i, j);
            }
            all.truncate(n);
            all
        };
        match family.unwrap_or_else(|| cx.draw(P04_FAMILIES)) {
            0 => {
                let n = *cx.pick(&[2, 3, 4, 8, 16]);
                let list = letters(cx, n);
                ("memoryless source", Source::Memoryless(list.into_iter().map(|b| (b, weight(cx))).collect()))
            }
            1 => ("uniform noise", Source::Memoryless((0..=255).map(|b| (b, 1)).collect())),
            2 => {
                let n = *cx.pick(&[2, 3, 4, 6]);
                let alphabet = letters(cx, n);
                let next = (0..n).map(|_| (0..n).map(|_| if cx.chance(400) { 0 } else { weight(cx) }).collect::<Vec<u32>>())
                    .map(|mut w| { if w.iter().all(|&x| x == 0) { w[0] = 1; } w }).collect();
                ("source with memory", Source::Markov { alphabet, next })
            }
            3 => {
                let n = cx.range(1, 12);
                let pattern = (0..n).map(|_| cx.draw(256) as u8).collect();
                ("noisy repetition", Source::Noisy { pattern, rate: *cx.pick(&[5, 20, 60, 150]) })
            }
            4 => {
                let list = letters(cx, 20);
                let n = cx.range(4, 40);
                let end = if cx.coin() { vec![list[0]] } else { vec![] };
                let words = (0..n).map(|_| {
                    let mut word: Vec<u8> = (0..cx.range(2, 8)).map(|_| list[1 + cx.draw(19)]).collect();
                    word.extend_from_slice(&end);
                    word
                }).collect();
                let weights = (0..n).map(|i| (1000 / (i + 1)) as u32).collect();
                ("source of words", Source::Words { words, weights })
            }
            5 => {
                let (n, order) = *cx.pick(&[(2, 2), (2, 4), (2, 6), (3, 2), (3, 3), (4, 2), (6, 2)]);
                let alphabet = letters(cx, n);
                let next = (0..n.pow(order)).map(|_| {
                    let mut w: Vec<u32> = (0..n).map(|_| 1 + cx.draw(4) as u32).collect();
                    let favourite = cx.draw(n);
                    w[favourite] += 60;
                    w
                }).collect();
                ("source with long memory", Source::Chain { alphabet, next })
            }
            _ => {
                let n = cx.range(3, 12);
                let fields = (0..n).map(|i| match cx.draw(4) {
                    0 => Field::Constant(cx.draw(256) as u8),
                    1 if i > 0 => Field::CopyOf(cx.draw(i)),
                    _ => {
                        let m = *cx.pick(&[2, 3, 4, 8]);
                        let letters = letters(cx, m);
                        Field::Choice { weights: letters.iter().map(|_| weight(cx)).collect(), letters }
                    }
                }).collect();
                ("source of records", Source::Records(fields))
            }
        }
    }

    /// How much there is to learn about it: how many bytes have a probability
    /// of their own, for noisy repetition how much noise there is.
    fn size(&self) -> f64 {
        let used = |w: &Vec<u32>| w.iter().filter(|&&x| x > 0).count();
        match self {
            Source::Memoryless(list) => list.len() as f64,
            Source::Markov { next, .. } | Source::Chain { next, .. } => next.iter().map(used).sum::<usize>() as f64,
            Source::Noisy { rate, .. } => *rate as f64,
            Source::Words { words, .. } => words.iter().map(|w| w.len()).sum::<usize>() as f64,
            Source::Records(fields) => fields.iter().map(|f| match f {
                Field::Choice { letters, .. } => letters.len(),
                _ => 1,
            }).sum::<usize>() as f64,
        }
    }

    /// The next byte and its ideal cost in bits.
    fn next(&self, rng: &mut Rng, state: &mut SourceState) -> (u8, f64) {
        let choose = |rng: &mut Rng, w: &[u32]| -> (usize, f64) {
            let total: u64 = w.iter().map(|&x| x as u64).sum();
            let mut at = rng.below(total);
            for (i, &x) in w.iter().enumerate() {
                if at < x as u64 {
                    return (i, (total as f64 / x as f64).log2());
                }
                at -= x as u64;
            }
            unreachable!()
        };
        match self {
            Source::Memoryless(list) => {
                let w: Vec<u32> = list.iter().map(|x| x.1).collect();
                let (i, cost) = choose(rng, &w);
                (list[i].0, cost)
            }
            Source::Markov { alphabet, next } => {
                let (i, cost) = choose(rng, &next[state.at]);
                state.at = i;
                (alphabet[i], cost)
            }
            Source::Noisy { pattern, rate } => {
                let expected = pattern[state.at];
                state.at = (state.at + 1) % pattern.len();
                let b = if rng.below(1024) < *rate as u64 { rng.below(256) as u8 } else { expected };
                let q = *rate as f64 / 1024.0;
                let p = if b == expected { 1.0 - q + q / 256.0 } else { q / 256.0 };
                (b, -p.log2())
            }
            Source::Words { words, weights } => {
                let mut cost = 0.0;
                if state.kept.is_empty() {
                    let (i, c) = choose(rng, weights);
                    cost = c;
                    state.kept = words[i].iter().rev().cloned().collect();
                }
                (state.kept.pop().unwrap(), cost)
            }
            Source::Chain { alphabet, next } => {
                let (i, cost) = choose(rng, &next[state.at]);
                state.at = (state.at * alphabet.len() + i) % next.len();
                (alphabet[i], cost)
            }
            Source::Records(fields) => {
                if state.kept.len() == fields.len() {
                    state.kept.clear();
                }
                let (b, cost) = match &fields[state.kept.len()] {
                    Field::Constant(b) => (*b, 0.0),
                    Field::CopyOf(i) => (state.kept[*i], 0.0),
                    Field::Choice { letters, weights } => {
                        let (i, cost) = choose(rng, weights);
                        (letters[i], cost)
                    }
                };
                state.kept.push(b);
                (b, cost)
            }
        }
    }
}

struct Adapted {
    family: usize,
    source: &'static str,
    hostile: usize,
    limits: Option<(usize, usize)>,
    /// how much there is to learn about the source
    size: f64,
    /// cost and ideal cost per byte, while settling and later
    parts: [(f64, f64); 2],
}

fn p04_session(cx: &Cx, family: Option<usize>) -> Result<Adapted, Viol> {
    let len = cx.size(*cx.pick(&[40, 300, 2000]));
    let order = cx.range(P04_ORDER, 24);
    let limits = if cx.coin() { Some((P04_WINDOW + cx.draw(4000), order)) } else { None };
    let (kind, source) = Source::draw(cx, family);
    let mut rng = Rng::new(cx.seed());
    cx.note(|| format!("window/order {:?}, {} hostile bytes, then {}", limits, len, kind));
    let mut predictor = must("predictor failed", || mc::new_predictor(limits, mc::luts()))?;
    disturb(cx, &mut predictor, len)?;
    cx.fault("hostile input");
    cx.probe(kind);
    // other sources before, so that everything has been learnt differently
    for _ in 0..cx.draw(3) {
        let (other, earlier) = Source::draw(cx, None);
        let n = if cx.chance(20) { 20_000 } else { cx.size(3000) };
        cx.note(|| format!("{} bytes from another {}", n, other));
        cx.fault("change of source");
        let mut state = SourceState::default();
        for _ in 0..n {
            let b = earlier.next(&mut rng, &mut state).0;
            feed_byte(&mut predictor, &mut |bit, _| (b >> bit) & 1 == 1)?;
        }
        cx.steps(n as u64 * 8);
    }
    let mut state = SourceState::default();
    let mut cost = [0.0f64; 2];
    let mut ideal = [0.0f64; 2];
    for part in 0..2 {
        for _ in 0..[P04_SETTLE, P04_WATCH][part] {
            let (b, c) = source.next(&mut rng, &mut state);
            ideal[part] += c;
            cost[part] += feed_byte(&mut predictor, &mut |bit, _| (b >> bit) & 1 == 1)?.1;
        }
    }
    cx.steps(((P04_SETTLE + P04_WATCH) * 8) as u64);
    let settle = (cost[0] / P04_SETTLE as f64, ideal[0] / P04_SETTLE as f64);
    let late = (cost[1] / P04_WATCH as f64, ideal[1] / P04_WATCH as f64);
    let family = match source {
        Source::Memoryless(ref list) if list.len() == 256 => 1,
        Source::Memoryless(_) => 0,
        Source::Markov { .. } => 2,
        Source::Noisy { .. } => 3,
        Source::Words { .. } => 4,
        Source::Chain { .. } => 5,
        Source::Records(_) => 6,
    };
    if let Some(path) = std::env::var_os("DSIM_CALIBRATE") {
        append(path, format!("{} {:.4} {:.4} {:.4} {:.4} size {} limits {:?} len {}", kind.replace(' ', "-"), settle.0, settle.1, late.0, late.1, source.size(), limits, len));
    }
    Ok(Adapted { family, source: kind, size: source.size(), hostile: len, limits, parts: [settle, late] })
}

pub fn p04(cx: &Cx) -> Res {
    let calibrating = std::env::var_os("DSIM_CALIBRATE").is_some();
    if !calibrating && cx.draw(P04_FLEET_EVERY) == P04_FLEET_EVERY - 1 {
        return p04_fleet(cx);
    }
    let a = p04_session(cx, None)?;
    if calibrating {
        return Ok(());
    }
    for (part, what, n) in [(0, "first", P04_SETTLE), (1, "next", P04_WATCH)] {
        let (got, limit) = (a.parts[part], p04_usual(&a, part) + P04_MARGIN[a.family][part]);
        ensure!(
            got.0 - got.1 < limit,
            "far from the source's entropy",
            "after {} hostile bytes the {} {} bytes of a {} cost {:.4} bits each, {:.4} would do, {:.4} more are allowed (window/order {:?})",
            a.hostile, what, n, a.source, got.0, got.1, limit, a.limits
        );
    }
    if a.hostile >= 4 {
        cx.nontrivial();
    }
    Ok(())
}

/// What a single session may not show, many together do.
fn p04_fleet(cx: &Cx) -> Res {
    let family = cx.draw(P04_FAMILIES);
    cx.probe("many sessions together");
    let sessions = cx.fleet(P04_FLEET, |child| p04_session(child, Some(family)))?;
    for (part, what) in [(0, "while settling"), (1, "later")] {
        let got = sessions.iter().map(|a| a.parts[part].0 - a.parts[part].1).sum::<f64>();
        let usual = sessions.iter().map(|a| p04_usual(a, part)).sum::<f64>();
        let (ratio, limit) = (got / usual, P04_RATIO[family][part]);
        cx.note(|| format!("{}: {:.3} times the usual", what, ratio));
        ensure!(
            ratio < limit,
            "far from the sources' entropy on average",
            "{} sessions with a {} each cost {:.3} times as much above the ideal cost {} as they usually do, {} is allowed",
            sessions.len(), sessions[0].source, ratio, what, limit
        );
    }
    cx.nontrivial();
    Ok(())
}

/// Bits per byte above the ideal cost that a session takes on average, given
/// how much there is to learn and what the ideal cost is.
fn p04_usual(a: &Adapted, part: usize) -> f64 {
    let [base, by_size, by_ideal] = P04_USUAL[a.family][part];
    base + by_size * a.size + by_ideal * a.parts[part].1
}

/// While settling and later, for memoryless sources, uniform noise, sources
/// with memory, noisy repetition, words, long memory and records.
const P04_USUAL: [[[f64; 3]; 2]; P04_FAMILIES] = [
    [[0.03587, 0.019672, 0.05371], [-0.00361, 0.007392, -0.00156]],
    [[0.05103, 0.0, 0.0], [0.01149, 0.0, 0.0]],
    [[0.01733, 0.008949, 0.07604], [-0.00580, 0.002597, 0.00325]],
    [[0.14945, -0.001129, 0.56604], [0.05446, -0.001792, 0.47029]],
    [[0.00002, 0.003162, 1.31102], [-0.33912, 0.001025, 0.84563]],
    [[0.05087, 0.000922, 0.32723], [0.00002, 0.000419, 0.07496]],
    [[-0.01478, 0.020018, 0.28882], [-0.05709, 0.007229, 0.07672]],
];
/// What a single session may take more than that.
const P04_MARGIN: [[f64; 2]; P04_FAMILIES] =
    [[0.95, 0.22], [1.2, 0.45], [0.45, 0.2], [1.1, 0.62], [1.1, 0.62], [0.55, 0.5], [1.4, 0.7]];
/// How many times that much a fleet may take in all.
const P04_RATIO: [[f64; 2]; P04_FAMILIES] =
    [[1.15, 1.18], [1.65, 1.6], [1.15, 1.3], [1.16, 1.2], [1.09, 1.2], [1.1, 1.17], [1.14, 1.25]];
const P04_FAMILIES: usize = 7;
const P04_FLEET: usize = 192;
const P04_FLEET_EVERY: usize = 60;
const P04_WINDOW: usize = 1500;
const P04_ORDER: usize = 4;
const P04_SETTLE: usize = 1000;
const P04_WATCH: usize = 1500;

// --------------------------------------------------------------------- P03

pub fn p03(cx: &Cx) -> Res {
    match cx.draw(4) {
        0 => p03_tree(cx),
        1 => p03_bytes(cx),
        _ => p03_predictor(cx),
    }
}

pub fn refused<T, F: FnOnce() -> T>(cx: &Cx, what: &'static str, at: &dyn Fn() -> String, f: F) -> Res {
    cx.fault(what);
    cx.note(|| format!("{} {}", what, at()));
    cx.nontrivial();
    match catch(f) {
        Err(_) => Ok(()),
        Ok(_) => viol("call out of turn accepted", format!("{} {}", what, at())),
    }
}

fn p03_predictor(cx: &Cx) -> Res {
    let limits = mc::draw_limits(cx);
    let input = gen::bytes(cx, *cx.pick(&[6, 20, 60]));
    let rate = *cx.pick(&[20, 100, 400]);
    cx.note(|| format!("predictor, window/order {:?}, input {}", limits, short(&input)));
    let mut a = must("predictor failed", || mc::new_predictor(limits, mc::luts()))?;
    let mut b = must("predictor failed", || mc::new_predictor(limits, mc::luts()))?;
    let any_bit = || -> Bit { cx.coin().into() };
    for (pos, &byte) in input.iter().enumerate() {
        for _ in 0..3 {
            if !cx.chance(rate) {
                break;
            }
            let at = || format!("between bytes, before byte {}", pos);
            if cx.coin() {
                refused(cx, "predict between bytes", &at, || a.predict())?;
            } else {
                let bit = any_bit();
                refused(cx, "update between bytes", &at, || a.update(bit))?;
            }
        }
        must("predictor failed", || a.start_new_byte())?;
        must("predictor failed", || b.start_new_byte())?;
        for i in (0..8).rev() {
            let at = || format!("at byte {} bit {}", pos, i);
            for _ in 0..3 {
                if !cx.chance(rate) {
                    break;
                }
                if cx.coin() {
                    refused(cx, "byte started in the middle of one", &at, || a.start_new_byte())?;
                } else {
                    let bit = any_bit();
                    refused(cx, "update without a prediction", &at, || a.update(bit))?;
                }
            }
            let pa = must("predictor failed", || a.predict())?;
            let pb = must("predictor failed", || b.predict())?;
            ensure!(
                pa == pb,
                "refused call left a trace",
                "byte {} bit {}: {} instead of {}", pos, i, pa.raw(), pb.raw()
            );
            for _ in 0..3 {
                if !cx.chance(rate) {
                    break;
                }
                if cx.coin() {
                    refused(cx, "prediction asked for twice", &at, || a.predict())?;
                } else {
                    refused(cx, "byte started while a prediction is pending", &at, || a.start_new_byte())?;
                }
            }
            let bit: Bit = ((byte >> i) & 1 == 1).into();
            must("predictor failed", || a.update(bit))?;
            must("predictor failed", || b.update(bit))?;
        }
    }
    cx.steps(input.len() as u64 * 17);
    Ok(())
}

fn p03_tree(cx: &Cx) -> Res {
    let window = cx.range(1, 60);
    let order = cx.draw(12);
    let input = gen::bytes(cx, *cx.pick(&[12, 60, 200]));
    let rate = *cx.pick(&[10, 60, 300]);
    cx.note(|| format!("tree, window {} order {}, input {}", window, order, short(&input)));
    let mk = || must("history failed", || TreeHistorySource::new(window, order, mc::luts()));
    let mut a = mk()?;
    let mut b = mk()?;
    let mut sa = CollectedContextStates::new(order);
    let mut sb = CollectedContextStates::new(order);
    for (pos, &byte) in input.iter().enumerate() {
        for _ in 0..3 {
            if !cx.chance(rate) {
                break;
            }
            let at = || format!("between bytes, before byte {}", pos);
            if cx.coin() {
                let mut s = CollectedContextStates::new(order);
                refused(cx, "states gathered between bytes", &at, || a.gather_history_states(&mut s))?;
            } else {
                let bit: Bit = cx.coin().into();
                let t = vec![CostTrackers::DEFAULT; cx.draw(3)];
                refused(cx, "bit processed between bytes", &at, || a.process_input_bit(bit, &t))?;
            }
        }
        must("history failed", || a.start_new_byte())?;
        must("history failed", || b.start_new_byte())?;
        for i in (0..8).rev() {
            let at = || format!("at byte {} bit {}", pos, i);
            if cx.chance(rate) {
                refused(cx, "byte started in the middle of one", &at, || a.start_new_byte())?;
            }
            sa.reset();
            sb.reset();
            must("history failed", || a.gather_history_states(&mut sa))?;
            must("history failed", || b.gather_history_states(&mut sb))?;
            let same = sa.items().len() == sb.items().len()
                && sa.items().iter().zip(sb.items()).all(|(x, y)| format!("{:?}", x) == format!("{:?}", y));
            ensure!(
                same,
                "refused call left a trace",
                "byte {} bit {}: contexts {:?} instead of {:?}", pos, i, sa.items(), sb.items()
            );
            let t: Vec<CostTrackers> = sa.items().iter().filter(|c| c.is_for_node()).map(|_| CostTrackers::DEFAULT).collect();
            let bit: Bit = ((byte >> i) & 1 == 1).into();
            if cx.chance(rate) {
                refused(cx, "byte started in the middle of one", &at, || a.start_new_byte())?;
            }
            must("history failed", || a.process_input_bit(bit, &t))?;
            must("history failed", || b.process_input_bit(bit, &t))?;
        }
    }
    cx.steps(input.len() as u64 * 17);
    Ok(())
}

fn view_bytes(c: &LastBytesCache) -> (u8, u8, u8, u8, u16, u16, u16) {
    (
        c.unfinished_byte().raw(), c.previous_byte_1(), c.previous_byte_2(), c.previous_byte_3(),
        c.hash01_16(), c.hash02_16(), c.hash03_16(),
    )
}

fn p03_bytes(cx: &Cx) -> Res {
    let input = gen::bytes(cx, *cx.pick(&[8, 40, 200]));
    let rate = *cx.pick(&[20, 100, 400]);
    cx.note(|| format!("byte context, input {}", short(&input)));
    let mut a = LastBytesCache::new();
    let mut b = LastBytesCache::new();
    for (pos, &byte) in input.iter().enumerate() {
        for _ in 0..4 {
            if !cx.chance(rate) {
                break;
            }
            let at = || format!("between bytes, before byte {}", pos);
            match cx.draw(5) {
                0 => refused(cx, "unfinished byte asked for between bytes", &at, || a.unfinished_byte())?,
                1 => refused(cx, "context hash asked for between bytes", &at, || (a.hash01_16(), ()))?,
                2 => refused(cx, "context hash asked for between bytes", &at, || a.hash02_16())?,
                3 => refused(cx, "context hash asked for between bytes", &at, || a.hash03_16())?,
                _ => {
                    let bit: Bit = cx.coin().into();
                    refused(cx, "bit appended between bytes", &at, || a.on_next_bit(bit))?
                }
            }
        }
        must("byte context failed", || a.start_new_byte())?;
        must("byte context failed", || b.start_new_byte())?;
        for i in (0..8).rev() {
            let at = || format!("at byte {} bit {}", pos, i);
            if cx.chance(rate) {
                refused(cx, "byte started in the middle of one", &at, || a.start_new_byte())?;
            }
            let va = must("byte context failed", || view_bytes(&a))?;
            let vb = must("byte context failed", || view_bytes(&b))?;
            ensure!(va == vb, "refused call left a trace", "byte {} bit {}: {:?} instead of {:?}", pos, i, va, vb);
            // what the calls so far imply
            let prefix = (1u16 << (7 - i)) | (byte as u16 >> (i + 1));
            let past = |n: usize| if pos >= n { input[pos - n] } else { 0 };
            ensure!(
                (va.0 as u16, va.1, va.2, va.3) == (prefix, past(1), past(2), past(3)),
                "wrong byte context", "byte {} bit {}: {:?}", pos, i, va
            );
            let bit: Bit = ((byte >> i) & 1 == 1).into();
            must("byte context failed", || a.on_next_bit(bit))?;
            must("byte context failed", || b.on_next_bit(bit))?;
        }
    }
    cx.steps(input.len() as u64 * 17);
    Ok(())
}
