//! R01: what sessions hold and give back.

use crate::alloc;
use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::model_codec as mc;
use crate::tape::Rng;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, HistorySource};
use std::io::{Error, ErrorKind, Read, Result as IoResult, Write};

/// Adds up what code under test allocates and frees, the harness left out.
#[derive(Default)]
struct Meter {
    held: i64,
    /// the most held at any time, inside of calls too
    most: i64,
}

impl Meter {
    fn run<T, F: FnOnce() -> T>(&mut self, f: F) -> Result<T, Caught> {
        let before = alloc::live();
        alloc::take_peak();
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(payload) => {
                // what was panicked with belongs to nobody
                let owner = payload.is::<OwnerFailure>();
                drop(payload);
                Err((owner, alloc::live()))
            }
        };
        let peak = alloc::take_peak();
        match r {
            Ok(v) => {
                self.most = self.most.max(self.held + peak - before);
                self.held += alloc::live() - before;
                Ok(v)
            }
            Err((owner, live)) => {
                let noted = alloc::live();
                let caught = take_panic();
                let freed = noted - alloc::live();
                let caught_size = caught.as_ref().map_or(0, |c| (c.file.capacity() + c.msg.capacity()) as i64);
                self.held += live - before - freed - caught_size;
                let caught = caught.unwrap_or(Caught { file: "owner".into(), line: 0, msg: "owner failure".into(), by_harness: false });
                if caught.by_harness && !owner {
                    panic!("harness failure: {}", caught.msg);
                }
                Err(caught)
            }
        }
    }
    fn must<T, F: FnOnce() -> T>(&mut self, what: &str, f: F) -> Result<T, Viol> {
        self.run(f).map_err(|c| c.to_viol(what))
    }
}

/// A writer and reader without any memory of its own to speak of.
struct Wire {
    rng: Rng,
    rate: u64,
    passed: u64,
    fail_at: u64,
    data: Vec<u8>,
    in_row: u32,
    interrupted: u64,
    refused: u64,
}

impl Wire {
    fn upset(&mut self) -> bool {
        if self.in_row < 3 && self.rate > 0 && self.rng.below(1024) < self.rate {
            self.in_row += 1;
            self.interrupted += 1;
            return true;
        }
        self.in_row = 0;
        false
    }
}

impl Write for Wire {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        if self.upset() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.passed >= self.fail_at {
            self.refused += 1;
            return Err(Error::from(ErrorKind::BrokenPipe));
        }
        // within the memory reserved, so that nothing is allocated here
        for &b in buf.iter().take(self.data.capacity() - self.data.len()) {
            self.data.push(b);
        }
        self.passed += buf.len() as u64;
        Ok(buf.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}

impl Read for Wire {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        if self.upset() {
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.passed >= self.fail_at {
            self.refused += 1;
            return Err(Error::from(ErrorKind::ConnectionReset));
        }
        let at = self.passed as usize;
        let n = buf.len().min(self.data.len() - at);
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.passed += n as u64;
        Ok(n)
    }
}

pub fn r01(cx: &Cx) -> Res {
    warm_up();
    match cx.draw(4) {
        0 | 1 => r01_coder(cx),
        2 => r01_predictor(cx),
        _ => r01_history(cx),
    }
}

/// What the standard library allocates once per thread for panics.
fn warm_up() {
    mc::luts();
    for _ in 0..2 {
        let _ = std::panic::catch_unwind(|| std::panic::panic_any(OwnerFailure));
        take_panic();
    }
}

const FIXED: i64 = 8192;

fn r01_coder(cx: &Cx) -> Res {
    let events = match cx.draw(512) {
        511 => gen::carry_chain(cx),
        500..=510 => gen::events(cx, 60_000),
        _ => gen::events(cx, *cx.pick(&[40, 400, 4000])),
    };
    let fails = cx.chance(200);
    let mut wire = Wire {
        rng: Rng::new(cx.seed()),
        rate: *cx.pick(&[0, 60, 500]),
        passed: 0,
        fail_at: if fails { cx.size(events.len()) as u64 } else { u64::MAX },
        data: Vec::with_capacity(events.len() * 5 + 64),
        in_row: 0,
        interrupted: 0,
        refused: 0,
    };
    let unwinds_at = if cx.chance(300) { cx.draw(events.len() + 1) } else { usize::MAX };
    cx.note(|| format!("{} events {}; output fails at {:?}, owner unwinds at {:?}", events.len(), gen::describe(&events),
        Some(wire.fail_at).filter(|_| fails), Some(unwinds_at).filter(|&u| u != usize::MAX)));
    let mut meter = Meter::default();
    // a run of calls, with a look at the memory between them
    let mut most = 0;
    let done = meter.run(|| {
        let mut inner = Meter::default();
        let mut encoder = Encoder::new(&mut wire);
        for (n, &event) in events.iter().enumerate() {
            if n == unwinds_at {
                std::panic::panic_any(OwnerFailure);
            }
            let before = alloc::live();
            alloc::take_peak();
            gen::encode_event(&mut encoder, event);
            inner.most = inner.most.max(inner.held + alloc::take_peak() - before);
            inner.held += alloc::live() - before;
            most = most.max(inner.most);
        }
        drop(encoder);
    });
    let ended = done.is_ok();
    cx.steps(events.len() as u64);
    for _ in 0..wire.interrupted.min(100_000) {
        cx.fault("write interrupted");
    }
    if wire.refused > 0 {
        cx.fault("write error");
    }
    if unwinds_at < events.len() {
        cx.fault("owner unwinds");
    }
    ensure!(most <= FIXED, "encoder holds too much", "{} bytes held by an encoder after up to {} events", most, events.len());
    ensure!(meter.held <= 0, "memory not given back", "{} bytes are still held after an encoder ended", meter.held);
    if ended && !fails {
        let mut data = std::mem::take(&mut wire.data);
        let end = cx.draw(5);
        let mut unwinds_at = usize::MAX;
        let stop = match end {
            1 => cx.draw(events.len() + 1),
            2 => {
                unwinds_at = cx.draw(events.len() + 1);
                events.len()
            }
            3 => {
                data.truncate(cx.draw(data.len()));
                cx.fault("input cut");
                events.len()
            }
            _ => events.len(),
        };
        let fail_at = if end == 4 { cx.draw(data.len()) as u64 } else { u64::MAX };
        let mut wire = Wire { passed: 0, fail_at, refused: 0, data, ..wire };
        let mut most = 0;
        let mut meter = Meter::default();
        let done = meter.run(|| {
            let mut inner = Meter::default();
            let mut decoder = Decoder::new(&mut wire);
            for (n, &event) in events[..stop].iter().enumerate() {
                if n == unwinds_at {
                    std::panic::panic_any(OwnerFailure);
                }
                let before = alloc::live();
                alloc::take_peak();
                gen::decode_event(&mut decoder, event);
                inner.most = inner.most.max(inner.held + alloc::take_peak() - before);
                inner.held += alloc::live() - before;
                most = most.max(inner.most);
            }
        });
        if wire.refused > 0 {
            cx.fault("read error");
        }
        if unwinds_at < events.len() {
            cx.fault("owner unwinds");
        }
        if let Err(caught) = done {
            if end < 2 {
                return Err(caught.to_viol("decoder failed"));
            }
        }
        ensure!(most <= FIXED, "decoder holds too much", "{} bytes held by a decoder after up to {} events", most, stop);
        ensure!(meter.held <= 0, "memory not given back", "{} bytes are still held after a decoder ended", meter.held);
    }
    if events.len() >= 3 {
        cx.nontrivial();
    }
    Ok(())
}

/// Allowed above what was held right after creation.
fn allowance(window: usize, order: usize) -> i64 {
    FIXED + 256 * (window + order) as i64
}

fn r01_predictor(cx: &Cx) -> Res {
    let window = if cx.chance(100) { cx.range(1, 400) } else { cx.range(1, 40) };
    let order = cx.draw(25);
    let input = if cx.chance(8) { gen::bytes_exact(cx, 40_000) } else { gen::bytes(cx, *cx.pick(&[100, 1000, 4000])) };
    let fails = cx.chance(300);
    cx.note(|| format!("predictor, window {} order {}, {} bytes {}{}", window, order, input.len(), short(&input), if fails { ", then a failure" } else { "" }));
    let mut meter = Meter::default();
    let mut p = meter.must("predictor failed", || mc::new_predictor(Some((window, order)), mc::luts()))?;
    let created = meter.held;
    for (pos, &b) in input.iter().enumerate() {
        meter.most = 0;
        meter.must("predictor failed", || {
            p.start_new_byte();
            for i in (0..8).rev() {
                p.predict();
                p.update(((b >> i) & 1 == 1).into());
            }
        })?;
        let most = meter.most.max(meter.held) - created;
        ensure!(
            most <= allowance(window, order),
            "predictor holds more and more", "{} bytes above the {} held at first, after {} bytes (window {} order {})", most, created, pos + 1, window, order
        );
    }
    cx.probe_if(input.len() > window * 10, "window slid many times over");
    if fails {
        // unwinding with the session inside
        cx.fault("owner unwinds");
        let r = meter.run(move || {
            let mut p = p;
            p.start_new_byte();
            p.predict();
            p.predict();
        });
        ensure!(r.is_err(), "call out of turn accepted", "predict twice");
    } else {
        meter.must("predictor failed", move || drop(p))?;
    }
    ensure!(meter.held <= 0, "memory not given back", "{} bytes are still held after a predictor ended", meter.held);
    cx.steps(input.len() as u64 * 8);
    if input.len() > window {
        cx.nontrivial();
    }
    Ok(())
}

fn r01_history(cx: &Cx) -> Res {
    let window = cx.range(1, 60);
    let order = cx.draw(30);
    let shift = cx.draw(window);
    let input = if cx.chance(10) { gen::bytes_exact(cx, 60_000) } else { gen::bytes(cx, *cx.pick(&[100, 1000, 6000])) };
    let evict_rate = *cx.pick(&[0, 60, 300]);
    let mut rng = Rng::new(cx.seed());
    cx.note(|| format!("tree, window {} order {} shift {}, {} bytes {}", window, order, shift, input.len(), short(&input)));
    let mut meter = Meter::default();
    let (mut t, mut states) = meter.must("history failed", || {
        (TreeHistorySource::new_special(window, order, shift, mc::luts()), CollectedContextStates::new(order))
    })?;
    let created = meter.held;
    let trackers: Vec<CostTrackers> = vec![CostTrackers::DEFAULT; order + 1];
    for (pos, &b) in input.iter().enumerate() {
        if rng.below(1024) < evict_rate {
            let n = 1 + rng.below(window as u64);
            meter.must("history failed", || {
                for _ in 0..n {
                    if t.tree.window.size() > 0 {
                        t.tree.remove_leftmost_suffix(&mut t.active_contexts);
                    }
                }
            })?;
            cx.fault("bytes evicted");
        }
        meter.most = 0;
        meter.must("history failed", || {
            t.start_new_byte();
            for i in (0..8).rev() {
                states.reset();
                t.gather_history_states(&mut states);
                let nodes = states.items().iter().filter(|s| s.is_for_node()).count();
                t.process_input_bit(((b >> i) & 1 == 1).into(), &trackers[..nodes]);
            }
        })?;
        let most = meter.most.max(meter.held) - created;
        ensure!(
            most <= allowance(window, order),
            "history holds more and more", "{} bytes above the {} held at first, after {} bytes (window {} order {})", most, created, pos + 1, window, order
        );
    }
    meter.must("history failed", move || drop((t, states)))?;
    ensure!(meter.held <= 0, "memory not given back", "{} bytes are still held after a history ended", meter.held);
    cx.steps(input.len() as u64 * 8);
    if input.len() > window {
        cx.nontrivial();
    }
    Ok(())
}

