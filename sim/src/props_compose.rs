//! P07: the predictor is its parts joined: every probability is the one its
//! history, chain of contexts and final stage give when each of them is told
//! every bit exactly once, whatever else the owner does in between.

use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::model_codec as mc;
use crate::model_codec::luts;
use crate::props_model::{refused, Adversary};
use crate::props_sources::AnySource;
use demixer::bit::Bit;
use demixer::fixed_point::FixedPoint;
use demixer::history::CollectedContextStates;
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::predictor::Predictor;
use demixer::util::last_bytes::LastBytesCache;

const SHIPPED_WINDOW: usize = 10_000_000;
const SHIPPED_ORDER: usize = 20;

fn part<T, F: FnOnce() -> T>(f: F) -> Result<T, Viol> {
    must("part of the predictor failed", f)
}

/// The parts of a predictor, each owned and told apart.
struct Parts {
    history: AnySource<'static>,
    states: CollectedContextStates,
    chain: ContextsChainPredictionMixer<'static>,
    finalizer: PredictionFinalizer<'static>,
    cache: LastBytesCache,
}

impl Parts {
    fn new(kind: usize, window: usize, order: usize, shift: usize) -> Parts {
        Parts {
            history: AnySource::new(kind, window, order, shift),
            states: CollectedContextStates::new(order),
            chain: ContextsChainPredictionMixer::new(order, luts()),
            finalizer: PredictionFinalizer::new(luts()),
            cache: LastBytesCache::new(),
        }
    }
    fn start(&mut self) {
        self.history.start();
        self.cache.start_new_byte();
    }
    fn predict(&mut self) -> u32 {
        self.states.reset();
        self.history.gather(&mut self.states);
        let mixed = self.chain.predict(&self.states, self.cache.unfinished_byte().raw());
        self.finalizer.refine(mixed.0, mixed.1, self.states.items().len(), &self.cache).raw()
    }
    fn update(&mut self, bit: Bit) {
        self.finalizer.update(bit, self.states.items().len(), &self.cache);
        let costs = self.chain.update(bit, &self.states);
        self.history.process(bit, &costs);
        self.cache.on_next_bit(bit);
    }
}

struct Session<'a> {
    limits: mc::Limits,
    real: Predictor<'static>,
    parts: Parts,
    adversary: Adversary<'a>,
    bits: usize,
    left: usize,
    byte: u8,
}

impl<'a> Session<'a> {
    fn new(cx: &'a Cx, huge: bool) -> Result<Session<'a>, Viol> {
        let limits = if huge { *cx.pick(&[None, Some((65_537, 20)), Some((66_000, 24)), Some((3_000, 20))]) } else { mc::draw_limits(cx) };
        let left = if huge { cx.range(66_000, 80_000) } else { cx.size(*cx.pick(&[12, 60, 300, 1000])) };
        let (window, order) = limits.unwrap_or((SHIPPED_WINDOW, SHIPPED_ORDER));
        // a history that forgets can only be told by another tree
        let kind = if left <= window && left <= 400 && cx.chance(200) { 1 } else { 2 };
        let shift = if kind == 2 && cx.coin() { cx.draw(window.min(1000)) } else { 0 };
        cx.note(|| format!("predictor, window/order {:?}, {} bytes, beside {} at offset {}", limits, left, ["", "a hash map", "a tree"][kind], shift));
        cx.probe_if(kind == 1, "parts on a hash map");
        cx.probe_if(left > window, "window slid");
        Ok(Session {
            limits,
            real: must("predictor failed", || mc::new_predictor(limits, luts()))?,
            parts: part(|| Parts::new(kind, window, order, shift))?,
            adversary: Adversary::new(cx, left <= 12),
            bits: 0,
            left: left * 8,
            byte: 0,
        })
    }
    fn bit(&mut self, cx: &Cx, who: usize, faults: usize) -> Res {
        let (byte, i) = (self.bits / 8, 7 - self.bits % 8);
        let at = || format!("predictor {} byte {} bit {}", who, byte, i);
        let real = &mut self.real;
        if i == 7 {
            if self.adversary.bulk.chance(faults) {
                if self.adversary.bulk.draw(2) == 0 {
                    refused(cx, "predict between bytes", &at, || real.predict())?;
                } else {
                    refused(cx, "update between bytes", &at, || real.update(Bit::One))?;
                }
            }
            must("predictor failed", || real.start_new_byte())?;
            part(|| self.parts.start())?;
            self.adversary.next_byte();
            self.byte = 0;
        }
        if self.adversary.bulk.chance(faults) {
            let bit: Bit = (self.adversary.bulk.draw(2) == 1).into();
            if i != 7 && self.adversary.bulk.draw(2) == 0 {
                refused(cx, "byte started in the middle of one", &at, || real.start_new_byte())?;
            } else {
                refused(cx, "update without a prediction", &at, || real.update(bit))?;
            }
        }
        let got = must("predictor failed", || real.predict())?.raw();
        let want = part(|| self.parts.predict())?;
        ensure!(
            got == want,
            "predictor is not its parts joined",
            "{} (window/order {:?}): {} of {}, its parts give {}", at(), self.limits, got, gen::PROB_ONE, want
        );
        if self.adversary.bulk.chance(faults) {
            refused(cx, "prediction asked for twice", &at, || real.predict())?;
        }
        let bit = self.adversary.bit(i, got);
        self.byte |= (bit as u8) << i;
        must("predictor failed", || real.update(bit.into()))?;
        part(|| self.parts.update(bit.into()))?;
        if i == 0 {
            self.adversary.history.push(self.byte);
        }
        self.bits += 1;
        self.left -= 1;
        cx.steps(2);
        Ok(())
    }
}

pub fn p07(cx: &Cx) -> Res {
    let huge = cx.draw(3000) == 2999;
    cx.probe_if(huge, "more than 65536 bytes");
    let count = if huge { 1 } else { *cx.pick(&[1, 1, 2, 3]) };
    let faults = *cx.pick(&[0, 0, 2, 15]);
    let mut sessions = vec![];
    for _ in 0..count {
        sessions.push(Session::new(cx, huge)?);
    }
    let mut lives = 0;
    let mut turns = Bulk::new(cx, false);
    let mut last = 0;
    loop {
        let alive: Vec<usize> = (0..count).filter(|&n| sessions[n].left > 0).collect();
        if alive.is_empty() {
            break;
        }
        let who = alive[turns.draw(alive.len())];
        if who != last {
            cx.switched(who);
            last = who;
        }
        // a turn ends after any bit
        let scale = [1, 5, 40, 400][turns.draw(4)];
        let turn = 1 + turns.draw(scale);
        for _ in 0..turn.min(sessions[who].left) {
            sessions[who].bit(cx, who, faults)?;
        }
        if !huge && lives < 2 && turns.chance(4) {
            // the owner dies at any point, another predictor takes its place
            cx.fault("predictor lost");
            lives += 1;
            let left = sessions[who].left;
            sessions[who] = Session::new(cx, false)?;
            sessions[who].left = sessions[who].left.min(left / 8 * 8);
        }
    }
    cx.fault("hostile input");
    if sessions.iter().any(|s| s.bits >= 24) {
        cx.nontrivial();
    }
    Ok(())
}
