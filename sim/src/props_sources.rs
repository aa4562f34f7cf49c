//! H02: statistics of all history sources against independent ones.

use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::model_codec::luts;
use crate::tape::mix;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::FixedPoint;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use std::collections::HashMap;

/// Independent statistics of one context.
#[derive(Clone)]
pub struct Stat {
    /// how many bits followed
    pub count: usize,
    pub last: bool,
    pub mixed: bool,
    /// lengths of the last three runs of equal bits, the latest first
    pub runs: [usize; 3],
    /// the last 15 bits, below a leading one
    pub recent: u32,
    /// adaptive probability of bit 0, starting even, rate 1/(n+2)
    pub p0: f64,
    pub trackers: Option<CostTrackers>,
    pub last_pos: usize,
    /// how many bits came before the first differing one
    pub fresh: usize,
}

impl Stat {
    pub fn new() -> Self {
        Stat { count: 0, last: false, mixed: false, runs: [0; 3], recent: 1, p0: 0.5, trackers: None, last_pos: 0, fresh: 0 }
    }
    /// After `count` bits that were all the same.
    pub fn of_run(count: usize, bit: bool) -> Self {
        let (n, p) = (count.min(15) as u32, 1.0 - 0.5 / (count as f64 + 1.0));
        Stat {
            count,
            last: bit,
            runs: [count, 0, 0],
            recent: (1 << n) | if bit { (1 << n) - 1 } else { 0 },
            p0: if bit { 1.0 - p } else { p },
            fresh: count,
            ..Stat::new()
        }
    }
    pub fn push(&mut self, bit: bool) {
        if self.count > 0 && bit == self.last {
            self.runs[0] += 1;
        } else {
            self.mixed |= self.count > 0;
            self.runs = [1, self.runs[0], self.runs[1]];
        }
        self.recent = (self.recent << 1) | bit as u32;
        if self.recent >= 1 << 16 {
            self.recent = (self.recent & 0x7fff) | 0x8000;
        }
        let target = if bit { 0.0 } else { 1.0 };
        self.p0 += (target - self.p0) / (self.count.min(1000) as f64 + 2.0);
        self.count += 1;
        self.last = bit;
    }
}

#[derive(Default)]
struct Reference {
    stats: HashMap<(Vec<u8>, u16), Stat>,
    bytes: Vec<u8>,
}

impl Reference {
    fn key(&self, order: usize, prefix: u8, bit_index: usize) -> (Vec<u8>, u16) {
        let n = self.bytes.len();
        (self.bytes[n - order..].to_vec(), (256 + prefix as u16) >> (bit_index + 1))
    }
    fn update(&mut self, prefix: u8, bit_index: usize, bit: bool, max_order: usize, supply: &[CostTrackers]) {
        let n = self.bytes.len();
        for order in 0..=max_order.min(n) {
            let key = self.key(order, prefix, bit_index);
            let start = n - order;
            let stat = self.stats.entry(key).or_insert_with(Stat::new);
            if stat.mixed {
                stat.trackers = supply.get(order).cloned();
            }
            stat.push(bit);
            stat.last_pos = start;
        }
    }
    fn expect(&self, prefix: u8, bit_index: usize, max_order: usize) -> Vec<(usize, &Stat)> {
        let n = self.bytes.len();
        let mut out = vec![];
        for order in 0..=max_order.min(n) {
            match self.stats.get(&self.key(order, prefix, bit_index)) {
                Some(s) => out.push((n - order - s.last_pos, s)),
                None => break,
            }
        }
        out
    }
}

/// Cost trackers supplied for an order at a bit: a function of the position,
/// so that sources that lag or restart get the same ones.
pub fn supplied(salt: u64, pos: usize, bit_index: usize, order: usize) -> CostTrackers {
    if salt == 0 {
        return CostTrackers::DEFAULT;
    }
    let h = mix(salt ^ ((pos * 8 + bit_index) as u64) ^ ((order as u64) << 40));
    CostTrackers::new(CostTracker::new(h as u16), CostTracker::new((h >> 16) as u16))
}

fn check_states(
    who: &str, pos: usize, bit_index: usize, states: &[ContextState], expected: &[(usize, Stat)], default_trackers: bool,
) -> Res {
    ensure!(
        states.len() == expected.len(),
        "wrong number of contexts",
        "{} byte {} bit {}: {} contexts reported, the input implies {}", who, pos, bit_index, states.len(), expected.len()
    );
    for (order, (state, (distance, stat))) in states.iter().zip(expected.iter()).enumerate() {
        let at = || format!("{} byte {} bit {} order {}: {:?}", who, pos, bit_index, order, state);
        let mixed = stat.mixed;
        ensure!(state.last_occurrence_distance() == *distance, "wrong distance", "{}, expected {}", at(), distance);
        ensure!(state.is_for_node() == mixed, "wrong kind", "{}, mixed expected {}", at(), mixed);
        let count = stat.count.min(1000);
        ensure!(state.occurrence_count() as usize == count, "wrong count", "{}, expected {}", at(), count);
        // the recent bits: the oldest ones are told apart by a leading one
        let recent = stat.recent;
        let got = state.recent_bits();
        let want7 = (if recent >= 128 { 128 } else { 0 }) | (recent & 127);
        ensure!(got.last_7_bits() as u32 == want7, "wrong recent bits", "{}, expected {:b}", at(), want7);
        let ones = recent.count_ones() - 1;
        let len = 31 - recent.leading_zeros();
        let want_hist = (ones << 4) | (len - ones);
        ensure!(got.histogram() as u32 == want_hist, "wrong recent bits", "{}, expected histogram {:x}", at(), want_hist);
        ensure!(
            got == demixer::history::state::recent_bits::RecentBitsHistory::new_unchecked(recent as u16),
            "wrong recent bits", "{}, expected {:b}", at(), recent
        );
        let estimator = state.probability_estimator(luts());
        let p = estimator.prediction().as_f64();
        let want = if mixed {
            stat.p0.clamp(1e-6, 1.0 - 1e-6)
        } else {
            // while only one bit value followed: the rule of succession
            let repeated = (count + 1) as f64 / (count + 2) as f64;
            if stat.last { 1.0 - repeated } else { repeated }
        };
        // 22-bit fixed point: up to a unit is lost per step and the
        // rate 1/(n+2) makes up for it only slowly
        let tolerance = 2e-5 + stat.count.min(4000) as f64 * 6.0e-7;
        ensure!((p - want).abs() < tolerance, "wrong probability", "{}, estimate {} expected {}", at(), p, want);
        ensure!(
            estimator.usage_count() as usize == count,
            "wrong count", "{}, estimator counts {} expected {}", at(), estimator.usage_count(), count
        );
        match state {
            ContextState::ForEdge { repeated_bit, .. } => {
                ensure!(repeated_bit.is_1() == stat.last, "wrong repeated bit", "{}", at());
            }
            ContextState::ForNode { bits_runs, cost_trackers, .. } => {
                let runs = [stat.runs[0].min(1000), stat.runs[1].min(1000), stat.runs[2].min(1000)];
                let got = [
                    bits_runs.last_bit_run_length() as usize,
                    bits_runs.opposite_bit_run_length() as usize,
                    bits_runs.last_bit_previous_run_length() as usize,
                ];
                ensure!(
                    got == runs && bits_runs.last_bit().is_1() == stat.last,
                    "wrong runs", "{}, expected {:?}", at(), runs
                );
                if default_trackers {
                    continue;
                }
                let want = match &stat.trackers {
                    Some(t) => t.clone(),
                    None => {
                        // fresh: the run before the first differing bit
                        let t = luts().cost_trackers_lut().for_new_node((stat.count - 1).min(1000) as u16);
                        CostTrackers::new(t, t)
                    }
                };
                ensure!(*cost_trackers == want, "wrong cost trackers", "{}, expected {:?}", at(), want);
            }
        }
    }
    Ok(())
}

pub enum AnySource<'a> {
    Naive(NaiveHistorySource<'a>),
    Map(FatMapHistorySource<'a>),
    Tree(TreeHistorySource<'a>),
}

impl<'a> AnySource<'a> {
    pub fn new(kind: usize, window: usize, order: usize, shift: usize) -> Self {
        match kind {
            0 => AnySource::Naive(NaiveHistorySource::new(window, order, luts())),
            1 => AnySource::Map(FatMapHistorySource::new(window, order, luts())),
            _ => AnySource::Tree(TreeHistorySource::new_special(window, order, shift, luts())),
        }
    }
    pub fn start(&mut self) {
        match self {
            AnySource::Naive(s) => s.start_new_byte(),
            AnySource::Map(s) => s.start_new_byte(),
            AnySource::Tree(s) => s.start_new_byte(),
        }
    }
    pub fn gather(&self, states: &mut CollectedContextStates) {
        match self {
            AnySource::Naive(s) => s.gather_history_states(states),
            AnySource::Map(s) => s.gather_history_states(states),
            AnySource::Tree(s) => s.gather_history_states(states),
        }
    }
    pub fn process(&mut self, bit: Bit, trackers: &[CostTrackers]) {
        match self {
            AnySource::Naive(s) => s.process_input_bit(bit, trackers),
            AnySource::Map(s) => s.process_input_bit(bit, trackers),
            AnySource::Tree(s) => s.process_input_bit(bit, trackers),
        }
    }
}

const NAMES: [&str; 3] = ["brute force", "hash map", "tree"];

pub fn h02(cx: &Cx) -> Res {
    // one run in some ten thousand goes past what 16 bits can count
    let huge = cx.draw(8192) == 8191;
    let long = huge || cx.chance(16);
    let order = if huge { cx.draw(6) } else if long { cx.draw(3) } else { match cx.draw(3) { 0 => cx.draw(4), 1 => cx.draw(12), _ => cx.draw(40) } };
    let bytes = if long {
        // long enough for counts and runs to saturate at 1000
        let len = if huge { cx.range(66_000, 100_000) } else { cx.range(1000, 2600) };
        cx.probe(if huge { "input of more than 65536 bytes" } else { "long input" });
        let mut bytes = gen::bytes_exact(cx, len);
        if huge {
            // phrases that return after more than 65536 bytes
            for i in 0..4 {
                let (at, size) = (i * 16, cx.range(3, 12));
                for k in 0..size {
                    let b = cx.draw(256) as u8;
                    bytes[at + k] = b;
                    bytes[len - 64 + at + k] = b;
                }
            }
        }
        bytes
    } else {
        gen::bytes(cx, *cx.pick(&[16, 60, 160]))
    };
    let window = bytes.len() + 1 + cx.size(64);
    let salt = if cx.coin() { cx.seed() | 1 } else { 0 };
    // brute force has no cost tracking and is slow
    let kinds: Vec<usize> = {
        let mut k = vec![1, 2];
        if !long && bytes.len() <= 100 {
            k.push(0);
        }
        for _ in 0..if huge { 0 } else { cx.draw(3) } {
            k.push(*cx.pick(&[2, 1]));
        }
        k
    };
    let restart_rate = *cx.pick(&[0, 10, 60]);
    cx.note(|| format!("order {} window {} sources {:?} trackers salt {} input {}", order, window, kinds, salt, short(&bytes)));
    must("history failed", || h02_run(cx, order, window, &bytes, salt, &kinds, if long { 0 } else { restart_rate }))?
}

fn h02_run(cx: &Cx, order: usize, window: usize, bytes: &[u8], salt: u64, kinds: &[usize], restart_rate: usize) -> Res {
    // what the input implies before every bit, from the reference alone
    let mut reference = Reference::default();
    let mut implied: Vec<Vec<(usize, Stat)>> = Vec::with_capacity(bytes.len() * 8);
    let keep_all = bytes.len() <= 200;
    let mut saturated = false;
    struct Lane<'a> {
        kind: usize,
        source: AnySource<'a>,
        pos: usize,
    }
    let new_lane = |kind: usize| -> Lane<'static> {
        let shift = if kind == 2 { cx.draw(window) } else { 0 };
        Lane { kind, source: AnySource::new(kind, window, order, shift), pos: 0 }
    };
    let mut lanes: Vec<Lane> = kinds.iter().map(|&k| new_lane(k)).collect();
    let mut states = CollectedContextStates::new(order);
    let feed = |lane: &mut Lane, implied: &[Vec<(usize, Stat)>], base: usize, states: &mut CollectedContextStates| -> Res {
        let pos = lane.pos;
        lane.source.start();
        for bit_index in (0..8).rev() {
            states.reset();
            lane.source.gather(states);
            let expected = &implied[(pos - base) * 8 + 7 - bit_index];
            // brute force always has the default trackers
            check_states(NAMES[lane.kind], pos, bit_index, states.items(), expected, lane.kind == 0)?;
            let bit: Bit = ((bytes[pos] >> bit_index) & 1 == 1).into();
            let trackers: Vec<CostTrackers> = states
                .items()
                .iter()
                .enumerate()
                .filter(|(_, s)| s.is_for_node())
                .map(|(o, _)| if lane.kind == 0 { CostTrackers::DEFAULT } else { supplied(salt, pos, bit_index, o) })
                .collect();
            lane.source.process(bit, &trackers);
        }
        lane.pos += 1;
        Ok(())
    };
    for pos in 0..bytes.len() {
        if !keep_all {
            implied.clear();
        }
        for bit_index in (0..8).rev() {
            let mask = !(((1u16 << (bit_index + 1)) - 1) as u8);
            let prefix = bytes[pos] & mask;
            let e: Vec<(usize, Stat)> =
                reference.expect(prefix, bit_index, order).into_iter().map(|(d, s)| (d, s.clone())).collect();
            saturated |= e.iter().any(|(_, s)| s.count > 1000);
            implied.push(e);
            let bit = (bytes[pos] >> bit_index) & 1 == 1;
            let supply: Vec<CostTrackers> = (0..=order).map(|o| supplied(salt, pos, bit_index, o)).collect();
            reference.update(prefix, bit_index, bit, order, &supply);
        }
        reference.bytes.push(bytes[pos]);
        if keep_all {
            // lanes lag at will and may be restarted from the beginning
            for lane in lanes.iter_mut() {
                if cx.chance(restart_rate) {
                    cx.fault("source restarted from the beginning");
                    *lane = new_lane(lane.kind);
                }
                let due = pos + 1 - lane.pos;
                let n = if cx.chance(500) { cx.draw(due + 1) } else { 0 };
                if n == 0 {
                    cx.fault("source stalled");
                }
                for _ in 0..n {
                    feed(lane, &implied, 0, &mut states)?;
                }
            }
        } else {
            for lane in lanes.iter_mut() {
                feed(lane, &implied, pos, &mut states)?;
            }
        }
    }
    // once the faults stop, everyone catches up
    if keep_all {
        for lane in lanes.iter_mut() {
            while lane.pos < bytes.len() {
                feed(lane, &implied, 0, &mut states)?;
            }
        }
    }
    cx.probe_if(saturated, "more than 1000 occurrences");
    cx.steps((bytes.len() * 8 * lanes.len()) as u64);
    if bytes.len() >= 3 {
        cx.nontrivial();
    }
    Ok(())
}
