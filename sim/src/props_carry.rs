//! H05: statistics of the contexts of a sliding tree history.

use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::model_codec::luts;
use crate::props_history::{draw_evictions, evict};
use crate::props_sources::{supplied, Stat};
use crate::tape::mix;
use demixer::bit::Bit;
use demixer::fixed_point::FixedPoint;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::TreeHistorySource;
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use std::collections::{HashMap, VecDeque};

/// What is known of a context after its latest occurrence.
enum Carried {
    /// only one bit value followed: how many occurrences were reported, at
    /// which number of evictions
    Run { count: usize, bit: bool, evictions: u64 },
    Mixed(Stat),
}

struct Known {
    /// (position of the byte, bit that followed), the oldest first
    seen: VecDeque<(usize, bool)>,
    carried: Option<Carried>,
}

struct Model {
    bytes: Vec<u8>,
    window_start: usize,
    evictions: u64,
    known: HashMap<u64, Known>,
}

impl Model {
    fn new() -> Model {
        Model { bytes: vec![], window_start: 0, evictions: 0, known: HashMap::new() }
    }
    fn window(&self) -> &[u8] {
        &self.bytes[self.window_start..]
    }
    fn forget_one(&mut self) {
        self.window_start += 1;
        self.evictions += 1;
    }
}

struct Tally {
    mixed: u64,
    old_mixed: u64,
    runs: u64,
    saturated: bool,
}

/// Appends one byte, comparing what the tree reports before every bit.
fn step(
    t: &mut TreeHistorySource, m: &mut Model, byte: u8, max_order: usize, salt: u64, tally: &mut Tally,
    states: &mut CollectedContextStates,
) -> Res {
    let pos = m.bytes.len();
    t.start_new_byte();
    for bit_index in (0..8).rev() {
        states.reset();
        t.gather_history_states(states);
        let bit = (byte >> bit_index) & 1 == 1;
        let prefix = (256 + byte as u64) >> (bit_index + 1);
        let mut key = mix(prefix);
        let reported = states.items();
        for order in 0..=max_order.min(pos - m.window_start) {
            if order > 0 {
                key = mix(key ^ (256 + m.bytes[pos - order] as u64));
            }
            let known = m.known.entry(key).or_insert_with(|| Known { seen: VecDeque::new(), carried: None });
            while known.seen.front().map_or(false, |s| s.0 < m.window_start + order) {
                known.seen.pop_front();
            }
            let carried = known.carried.take();
            if let Some(state) = reported.get(order) {
                let at = || format!("byte {} bit {} order {}: {:?}", pos, bit_index, order, state);
                let inside = known.seen.len();
                let count = state.occurrence_count() as usize;
                tally.saturated |= count == 1000;
                ensure!(
                    count >= inside.min(1000), "fewer occurrences than the window holds", "{}, the window holds {}", at(), inside
                );
                // the bits that followed inside the window are the most recent
                let k = inside.min(7);
                let want = known.seen.iter().skip(inside - k).fold(0u8, |a, s| (a << 1) | s.1 as u8);
                let got = state.recent_bits().last_7_bits() & ((1u16 << k) - 1) as u8;
                ensure!(got == want, "wrong recent bits", "{}, expected {:b} as the last {}", at(), want, k);
                known.carried = match state {
                    ContextState::ForEdge { repeated_bit, .. } => {
                        tally.runs += 1;
                        if let Some(Carried::Run { count: before, bit: rep, evictions }) = carried {
                            ensure!(
                                evictions != m.evictions || rep != repeated_bit.is_1() || count >= (before + 1).min(1000),
                                "wrong count", "{}, {} were reported last time, nothing was evicted since", at(), before
                            );
                        }
                        if bit == repeated_bit.is_1() {
                            Some(Carried::Run { count, bit, evictions: m.evictions })
                        } else {
                            let mut stat = Stat::of_run(count, !bit);
                            stat.push(bit);
                            Some(Carried::Mixed(stat))
                        }
                    }
                    ContextState::ForNode { bits_runs, probability_estimator, recent_bits, cost_trackers, .. } => match carried {
                        Some(Carried::Mixed(mut stat)) => {
                            tally.mixed += 1;
                            tally.old_mixed += (stat.count > inside) as u64;
                            ensure!(count == stat.count.min(1000), "wrong count", "{}, expected {}", at(), stat.count);
                            let runs = [stat.runs[0].min(1000), stat.runs[1].min(1000), stat.runs[2].min(1000)];
                            let got = [
                                bits_runs.last_bit_run_length() as usize,
                                bits_runs.opposite_bit_run_length() as usize,
                                bits_runs.last_bit_previous_run_length() as usize,
                            ];
                            ensure!(
                                got == runs && bits_runs.last_bit().is_1() == stat.last,
                                "wrong runs", "{}, expected {:?}", at(), runs
                            );
                            ensure!(
                                *recent_bits == RecentBitsHistory::new_unchecked(stat.recent as u16),
                                "wrong recent bits", "{}, expected {:b}", at(), stat.recent
                            );
                            let p = probability_estimator.prediction().as_f64();
                            let tolerance = 2e-5 + stat.count.min(4000) as f64 * 6.0e-7;
                            ensure!(
                                (p - stat.p0.clamp(1e-6, 1.0 - 1e-6)).abs() < tolerance,
                                "wrong probability", "{}, estimate {} expected {}", at(), p, stat.p0
                            );
                            let want = stat.trackers.clone().unwrap_or_else(|| {
                                let fresh = luts().cost_trackers_lut().for_new_node(stat.fresh as u16);
                                CostTrackers::new(fresh, fresh)
                            });
                            ensure!(*cost_trackers == want, "wrong cost trackers", "{}, expected {:?}", at(), want);
                            stat.push(bit);
                            stat.trackers = Some(supplied(salt, pos, bit_index, order));
                            Some(Carried::Mixed(stat))
                        }
                        // which contexts are mixed is H01's business
                        _ => None,
                    },
                };
            }
            known.seen.push_back((pos, bit));
        }
        let trackers: Vec<CostTrackers> =
            states.items().iter().enumerate().filter(|(_, s)| s.is_for_node()).map(|(o, _)| supplied(salt, pos, bit_index, o)).collect();
        let bit: Bit = bit.into();
        t.process_input_bit(bit, &trackers);
    }
    m.bytes.push(byte);
    Ok(())
}

pub fn h05(cx: &Cx) -> Res {
    let long = cx.draw(256) == 255;
    let max_window = if long {
        cx.range(300, 4000)
    } else {
        match cx.draw(4) {
            0 => cx.range(1, 6),
            1 => cx.range(2, 20),
            2 => cx.range(8, 48),
            _ => cx.range(2, 150),
        }
    };
    let max_order = if long { cx.draw(4) } else { match cx.draw(4) { 0 => cx.draw(3), 1 => cx.draw(7), 2 => cx.draw(max_window), _ => cx.draw(24) } };
    let bytes = if cx.chance(600) || long {
        // long enough for the window to slide, perhaps several times over
        let len = (max_window * (1 + cx.draw(4)) + cx.draw(8)).min(6000);
        gen::bytes_exact(cx, len)
    } else {
        gen::bytes(cx, *cx.pick(&[24, 80, 300]))
    };
    let shift = cx.draw(max_window);
    let salt = if cx.chance(700) { cx.seed() | 1 } else { 0 };
    let evict_rate = *cx.pick(&[0, 0, 60, 300, 600]);
    let restart_rate = if long { 0 } else { *cx.pick(&[0, 0, 0, 12]) };
    cx.note(|| format!("window {} order {} shift {} trackers salt {} evict rate {}/1024 input {}", max_window, max_order, shift, salt, evict_rate, short(&bytes)));
    must("history failed", || {
        let mut t = TreeHistorySource::new_special(max_window, max_order, shift, luts());
        let mut m = Model::new();
        let mut states = CollectedContextStates::new(max_order);
        let mut tally = Tally { mixed: 0, old_mixed: 0, runs: 0, saturated: false };
        for (pos, &byte) in bytes.iter().enumerate() {
            let n = draw_evictions(cx, evict_rate, m.window().len());
            for _ in 0..n {
                evict(&mut t);
                m.forget_one();
                cx.fault("byte evicted");
            }
            if n > 0 {
                cx.note(|| format!("evict {} before byte {}", n, pos));
            }
            if cx.chance(restart_rate) {
                cx.fault("history lost and rebuilt from its window");
                cx.note(|| format!("restart before byte {}", pos));
                t = TreeHistorySource::new_special(max_window, max_order, cx.draw(max_window), luts());
                let old = std::mem::replace(&mut m, Model::new());
                for &b in old.window() {
                    step(&mut t, &mut m, b, max_order, salt, &mut tally, &mut states)?;
                }
            }
            if m.window().len() == max_window {
                m.forget_one();
                cx.fault("window slid");
            }
            step(&mut t, &mut m, byte, max_order, salt, &mut tally, &mut states)?;
        }
        cx.steps(bytes.len() as u64 * 8);
        cx.probe_if(tally.saturated, "1000 occurrences or more");
        cx.probe_if(tally.old_mixed > 0, "statistics that remember evicted bytes");
        if m.evictions > 0 && tally.old_mixed > 0 {
            cx.nontrivial();
        }
        Ok(())
    })?
}
