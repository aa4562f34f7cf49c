//! P06: the stages of the predictor (cache of last bytes, chain of contexts,
//! final stage) make use of the evidence they are given. Each is driven by a
//! simulated owner with evidence that matters planted among evidence that does
//! not, after a time when nothing could be learned.

use crate::core::*;
use crate::ensure;
use crate::model_codec::luts;
use crate::props_model::append;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::state::bits_runs::BitsRunsTracker;
use demixer::history::state::recent_bits::RecentBitsHistory;
use demixer::history::tree::node::CostTrackers;
use demixer::history::{CollectedContextStates, ContextState};
use demixer::predictor::chain::ContextsChainPredictionMixer;
use demixer::predictor::post_process::PredictionFinalizer;
use demixer::util::last_bytes::LastBytesCache;
use std::collections::HashMap;

fn call<T, F: FnOnce() -> T>(f: F) -> Result<T, Viol> {
    must("stage failed", f)
}

fn refused<T, F: FnOnce() -> T>(cx: &Cx, what: &'static str, f: F) -> Res {
    cx.fault("call out of turn");
    match catch(f) {
        Err(_) => Ok(()),
        Ok(_) => viol("call out of turn accepted", what.to_string()),
    }
}

fn calibrating() -> Option<std::ffi::OsString> {
    std::env::var_os("DSIM_CALIBRATE")
}

fn unit(p: FractOnlyU32) -> f64 {
    p.raw() as f64 / 2147483648.0
}

pub fn p06(cx: &Cx) -> Res {
    match cx.draw(6) {
        0 => cache(cx),
        1 => finalizer(cx),
        _ => chain(cx),
    }
}

// ------------------------------------------------------ cache of last bytes

fn cache(cx: &Cx) -> Res {
    let mut cache = call(LastBytesCache::new)?;
    let mut past = [0u8; 3];
    let alphabet = *cx.pick(&[256, 2, 3, 16]);
    let bytes = cx.size(*cx.pick(&[8, 60, 600]));
    let mut bulk = Bulk::new(cx, bytes <= 12);
    let mut hash1: HashMap<u16, (u8, u8)> = HashMap::new();
    let mut hash2: HashMap<(u8, u8, u8), u16> = HashMap::new();
    let mut hash3: HashMap<(u8, u8, u8, u8), u16> = HashMap::new();
    for at in 0..bytes {
        if bulk.chance(40) {
            let bad = bulk.draw(2);
            refused(cx, "question or bit between two bytes", || match bad {
                0 => cache.on_next_bit(Bit::One),
                _ => drop(cache.unfinished_byte()),
            })?;
        }
        call(|| cache.start_new_byte())?;
        let byte = (bulk.draw(alphabet) * 77) as u8;
        for i in 0..8 {
            if bulk.chance(20) {
                refused(cx, "new byte within a byte", || cache.start_new_byte())?;
            }
            let begun = ((1u16 << i) | (byte as u16 >> (8 - i))) as u8;
            let (seen, h1, h2, h3) = call(|| {
                (
                    [cache.previous_byte_1(), cache.previous_byte_2(), cache.previous_byte_3(), cache.unfinished_byte().raw()],
                    cache.hash01_16(),
                    cache.hash02_16(),
                    cache.hash03_16(),
                )
            })?;
            let [p1, p2, p3] = past;
            ensure!(seen == [p1, p2, p3, begun], "wrong last bytes", "byte {} bit {}: {:?}, expected {:?}", at, i, seen, [p1, p2, p3, begun]);
            let other = *hash1.entry(h1).or_insert((p1, begun));
            ensure!(other == (p1, begun), "contexts of one byte mixed up", "byte {} bit {}: {} stands for {:?} and {:?}", at, i, h1, other, (p1, begun));
            let same = *hash2.entry((p2, p1, begun)).or_insert(h2);
            ensure!(same == h2, "context of two bytes unstable", "byte {} bit {}: {} and {}", at, i, same, h2);
            let same = *hash3.entry((p3, p2, p1, begun)).or_insert(h3);
            ensure!(same == h3, "context of three bytes unstable", "byte {} bit {}: {} and {}", at, i, same, h3);
            let bit: Bit = ((byte >> (7 - i)) & 1 == 1).into();
            call(|| cache.on_next_bit(bit))?;
            cx.steps(1);
        }
        past = [byte, past[0], past[1]];
    }
    for (name, contexts, mut values) in [
        ("two", hash2.len(), hash2.values().copied().collect::<Vec<u16>>()),
        ("three", hash3.len(), hash3.values().copied().collect::<Vec<u16>>()),
    ] {
        values.sort_unstable();
        values.dedup();
        let shared = contexts - values.len();
        let usual = (contexts as f64).powi(2) / 131072.0;
        ensure!((shared as f64) < 8.0 + 3.0 * usual, "contexts mixed up", "{} bytes: {} contexts have {} values", name, contexts, values.len());
    }
    if bytes >= 3 {
        cx.nontrivial();
    }
    Ok(())
}

// ------------------------------------------------------------- final stage

struct Stage {
    finalizer: PredictionFinalizer<'static>,
    cache: LastBytesCache,
    input: (FractOnlyU32, StretchedProbD),
    contexts: usize,
}

impl Stage {
    fn byte<F: FnMut(usize, f64)>(&mut self, byte: u8, mut seen: F) -> Res {
        self.cache.start_new_byte();
        for i in 0..8 {
            let p = call(|| self.finalizer.refine(self.input.0, self.input.1, self.contexts, &self.cache))?;
            let p = p.raw() as f64 / (1u64 << demixer::coding::FinalProbability::FRACTIONAL_BITS) as f64;
            ensure!(p > 0.0 && p < 1.0, "impossible probability", "{}", p);
            seen(i, p);
            let bit: Bit = ((byte >> (7 - i)) & 1 == 1).into();
            call(|| self.finalizer.update(bit, self.contexts, &self.cache))?;
            self.cache.on_next_bit(bit);
        }
        Ok(())
    }
}

/// How far apart answers for a 0 and a 1 have to be, by the number of bytes
/// that tell which, if it is certain and if it is not; and how far answers may
/// swing around their mean. First for single sessions, then for averages of
/// fleets.
const FINAL_MOVE: [[[f64; 2]; 4]; 2] = [
    [[0.09, 0.01], [0.16, 0.05], [0.18, 0.06], [0.06, 0.02]],
    [[0.15, 0.06], [0.21, 0.09], [0.45, 0.20], [0.22, 0.09]],
];
const FINAL_SWING: [[[f64; 2]; 4]; 2] = [
    [[0.05, 0.05], [0.28, 0.28], [0.24, 0.24], [0.17, 0.17]],
    [[0.02, 0.02], [0.09, 0.06], [0.045, 0.05], [0.05, 0.055]],
];

fn finalizer(cx: &Cx) -> Res {
    let order = cx.draw(4);
    let certain = cx.draw(2) == 0;
    let fleet = cx.chance(50) && calibrating().is_none();
    let (apart, swing) = if fleet {
        cx.probe("fleet of final stages");
        let seen = cx.fleet(FLEET, |cx| finalizer_session(cx, order, certain))?;
        let n = seen.len() as f64;
        (seen.iter().map(|x| x.0).sum::<f64>() / n, seen.iter().map(|x| x.1).sum::<f64>() / n)
    } else {
        finalizer_session(cx, order, certain)?
    };
    cx.nontrivial();
    let wanted = FINAL_MOVE[fleet as usize][order][!certain as usize];
    ensure!(apart >= wanted, "final stage learned too little from its context", "bit told by {} bytes, certain: {}, fleet: {}: answers {:.4} apart, wanted {:.2}", order, certain, fleet, apart, wanted);
    let limit = FINAL_SWING[fleet as usize][order][!certain as usize];
    ensure!(swing <= limit, "final stage unsteady", "bit told by {} bytes, certain: {}, fleet: {}: answers swing by {:.4}, wanted {:.3} at most", order, certain, fleet, swing, limit);
    Ok(())
}

/// One bit of some bytes follows from the 0 to 3 bytes before it and from
/// nothing else.
fn finalizer_session(cx: &Cx, order: usize, certain: bool) -> Result<(f64, f64), Viol> {
    let place = if order == 0 { 2 + cx.draw(3) } else { cx.draw(8) };
    let st = StretchedProbD::new((cx.draw(17) as i32 - 8) << 18, 21);
    let input = (luts().squash_lut().squash(st), st);
    let contexts = 1 + cx.draw(8);
    cx.note(|| format!("final stage: bit {} told by {} bytes, certain {}, input {:.3}", place, order, certain, unit(input.0)));
    let mut stage = Stage { finalizer: call(|| PredictionFinalizer::new(luts()))?, cache: call(LastBytesCache::new)?, input, contexts };
    let mut bulk = Bulk::new(cx, false);
    let hostile = if cx.coin() { cx.size(200) } else { 0 };
    if hostile > 0 {
        cx.fault("hostile history");
    }
    for _ in 0..hostile {
        let byte = bulk.draw(256) as u8;
        stage.byte(byte, |_, _| ())?;
    }
    let sign = bulk.draw(256) as u8;
    let signs: [u8; 2] = [sign, sign ^ if cx.coin() { 1 << bulk.draw(8) } else { 1 + bulk.draw(255) as u8 }];
    let pattern = bulk.draw(256) as u8;
    let low = 1u8 << (7 - place);
    let frames = 330 * (1 << order.max(1));
    // answers where 0 and 1 are certain, late enough
    let mut sums = [(0.0, 0.0, 0usize); 2];
    for frame in 0..frames {
        let lead = if order == 0 { 1 } else { bulk.draw(3) };
        for _ in 0..lead {
            let byte = bulk.draw(256) as u8;
            stage.byte(byte, |_, _| ())?;
        }
        let mut one = false;
        for _ in 0..order {
            let sign = bulk.draw(2);
            one ^= sign == 1;
            stage.byte(signs[sign], |_, _| ())?;
        }
        // seven bits at random would leave nothing to rely on
        let random = bulk.draw(256) as u8 & (low - 1);
        let byte = if order == 0 {
            // follows the bit before it
            one = bulk.draw(2) == 1;
            let sign = low << 1;
            (pattern & !(sign | (sign - 1))) | random | if one { low | sign } else { 0 }
        } else {
            (pattern & !(low | (low - 1))) | random | if one { low } else { 0 }
        };
        let byte = if !certain && bulk.draw(4) == 0 { byte ^ low } else { byte };
        let late = frame * 3 >= frames * 2;
        let sum = &mut sums[one as usize];
        stage.byte(byte, |i, p| {
            if i == place && late {
                sum.0 += p;
                sum.1 += p * p;
                sum.2 += 1;
            }
        })?;
        cx.steps(1);
    }
    let mean = |(sum, _, n): (f64, f64, usize)| sum / n.max(1) as f64;
    let spread = |(sum, squares, n): (f64, f64, usize)| (squares / n.max(1) as f64 - (sum / n.max(1) as f64).powi(2)).max(0.0).sqrt();
    let apart = mean(sums[0]) - mean(sums[1]);
    let swing = spread(sums[0]).max(spread(sums[1]));
    if let Some(path) = calibrating() {
        append(path, format!("final-{}-{} 0 {:.4} {:.4}", order, certain as u8, apart, swing));
    }
    Ok((apart, swing))
}

// -------------------------------------------------------- chain of contexts

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Clue {
    // of nodes
    Estimate,
    LastBit,
    RunLength,
    NodeDistance,
    Costs,
    OppositeRun,
    Agreement,
    // of edges
    RepeatedBit,
    ContextByte,
    Count,
    EdgeDistance,
    // of both
    LastOrder,
    Apart,
}

use Clue::*;

/// Bits a round may cost late in a session: single sessions with quiet and with
/// noisy company; averages of fleets, quiet and noisy, each without and with
/// higher orders above.
const CLUES: [(Clue, [f64; 2], [f64; 4]); 13] = [
    (Estimate, [0.18, 0.77], [0.08, 0.05, 0.53, 0.50]),
    (LastBit, [0.38, 1.00], [0.06, 0.05, 0.53, 0.48]),
    (RunLength, [0.39, 0.97], [0.06, 0.05, 0.48, 0.47]),
    (NodeDistance, [0.86, 1.14], [0.49, 0.27, 0.91, 0.92]),
    (Costs, [0.89, 1.14], [0.49, 0.27, 0.90, 0.90]),
    (OppositeRun, [0.89, 1.12], [0.50, 0.27, 0.88, 0.88]),
    (Agreement, [0.90, 1.15], [0.49, 0.26, 0.97, 0.98]),
    (RepeatedBit, [0.57, 0.48], [0.14, 0.07, 0.19, 0.14]),
    (ContextByte, [0.53, 0.85], [0.12, 9.00, 0.35, 9.00]),
    (Count, [0.50, 1.10], [0.11, 0.06, 0.75, 0.76]),
    (EdgeDistance, [0.59, 0.47], [0.15, 0.07, 0.17, 0.13]),
    (LastOrder, [0.59, 1.08], [9.00, 0.23, 9.00, 0.71]),
    (Apart, [0.62, 0.87], [9.00, 0.19, 9.00, 0.34]),
];
const FLEET: usize = 24;

const DISTANCES: [usize; 8] = [1, 50, 99, 100, 999, 5_000, 10_000, 9_000_000];

/// Values of a context that tell nothing: each has a usual value, which it
/// leaves for random ones if the owner is noisy.
#[derive(Clone)]
struct Dull {
    noisy: bool,
    node: (usize, f64, u16, u16, u16),
    edge: (usize, u16, bool),
}

impl Dull {
    fn new(bulk: &mut Bulk, noisy: bool) -> Self {
        let mut p = 0.1 + bulk.draw(25) as f64 / 100.0;
        if bulk.draw(2) == 1 {
            p = 1.0 - p;
        }
        Dull {
            noisy,
            node: (DISTANCES[bulk.draw(8)], p, 1 + bulk.draw(1000) as u16, 1 + bulk.draw(12) as u16, 1 + bulk.draw(12) as u16),
            edge: (DISTANCES[bulk.draw(8)], 1 + bulk.draw(30) as u16, bulk.draw(2) == 1),
        }
    }
}

fn estimator(p: f64, count: u16) -> DeceleratingEstimator {
    let steps = ((p * 4194304.0) as u32).max(1).min(4194303);
    DeceleratingEstimator::make(FractOnlyU32::new(steps << 9, 31), count)
}

fn runs(last: bool, length: u16, opposite: u16) -> BitsRunsTracker {
    let last: Bit = last.into();
    let mut tracker = BitsRunsTracker::for_bit_run(!last, opposite);
    for _ in 0..length {
        tracker = tracker.updated(last);
    }
    tracker
}

struct Case {
    clue: Clue,
    /// order of the context that carries the clue
    at: usize,
    /// orders below this one are nodes, all others edges
    edges_from: usize,
    orders: usize,
    dull: Vec<Dull>,
    meaning: bool,
    costs: u16,
    /// the two values which the clue takes
    distances: (usize, usize),
    lengths: (u16, u16),
    ratios: (f64, f64),
    bytes: [[u8; 2]; 4],
}

impl Case {
    /// The states of one round, in which the clue says what `told` is.
    fn states(&self, bulk: &mut Bulk, told: bool) -> (Vec<ContextState>, u8) {
        let mut length = self.orders;
        let told = told ^ self.meaning;
        if self.clue == LastOrder && told {
            length = self.at + 1;
        }
        let mut byte = if self.dull[0].noisy { bulk.draw(256) } else { 7 } as u8;
        if self.clue == Apart {
            // each order has its own reading of the byte
            length = if bulk.draw(2) == 1 { self.at + 1 } else { self.at + 2 };
            byte = if (told ^ (length == self.at + 1)) { 40 } else { 90 };
        }
        if self.clue == ContextByte {
            byte = self.bytes[bulk.draw(4)][told as usize];
        }
        let mut states = Vec::with_capacity(length);
        for order in 0..length {
            let dull = &self.dull[order];
            let here = order == self.at;
            let edges_from = if self.clue == Apart { length - 1 } else { self.edges_from };
            if order < edges_from {
                let (mut distance, mut p, mut count, mut last, mut length, mut opposite) =
                    (dull.node.0, dull.node.1, dull.node.2, bulk.draw(2) == 1, dull.node.3, dull.node.4);
                let (mut s, mut n) = (self.costs, self.costs);
                if dull.noisy {
                    distance = DISTANCES[bulk.draw(8)];
                    length = 1 + bulk.draw(12) as u16;
                    opposite = 1 + bulk.draw(12) as u16;
                    count = 1 + bulk.draw(1000) as u16;
                    s = 500 + bulk.draw(40000) as u16;
                    n = 500 + bulk.draw(40000) as u16;
                    if !here || self.clue == LastBit || self.clue == RunLength {
                        p = (1 + bulk.draw(999)) as f64 / 1000.0;
                    }
                }
                if here {
                    match self.clue {
                        Estimate => p = if told { 0.06 } else { 0.94 },
                        LastBit => last = told,
                        RunLength => length = if told { self.lengths.0 } else { self.lengths.1 },
                        NodeDistance => distance = if told { self.distances.0 } else { self.distances.1 },
                        Costs => {
                            let ratio = if told { self.ratios.0 } else { self.ratios.1 };
                            n = (self.costs as f64 / ratio.sqrt()) as u16;
                            s = (self.costs as f64 * ratio.sqrt()) as u16;
                        }
                        OppositeRun => opposite = if told { self.lengths.0 } else { self.lengths.1 },
                        _ => (),
                    }
                }
                if self.clue == Agreement && (here || order + 1 == self.at) {
                    // the two differ by next to nothing, or not at all
                    let own = self.dull[self.at].node;
                    p = own.1;
                    count = own.2;
                    if told && !here {
                        p += 4.0 / 4194304.0;
                        count = if own.2 > 500 { own.2 - 1 } else { own.2 + 1 };
                    }
                }
                states.push(ContextState::ForNode {
                    last_occurrence_distance: distance,
                    probability_estimator: estimator(p, count),
                    recent_bits: RecentBitsHistory::for_new_node(last.into(), opposite),
                    bits_runs: runs(last, length, opposite),
                    cost_trackers: CostTrackers::new(CostTracker::new(s), CostTracker::new(n)),
                });
            } else {
                let (mut distance, mut count, mut repeated) = dull.edge;
                if dull.noisy {
                    distance = DISTANCES[bulk.draw(8)];
                    count = 1 + bulk.draw(30) as u16;
                    repeated = bulk.draw(2) == 1;
                }
                if here {
                    match self.clue {
                        RepeatedBit => repeated = told,
                        Count => count = if told { self.lengths.0 } else { self.lengths.1 },
                        EdgeDistance => distance = if told { self.distances.0 } else { self.distances.1 },
                        _ => (),
                    }
                }
                states.push(ContextState::ForEdge { last_occurrence_distance: distance, occurrence_count: count, repeated_bit: repeated.into() });
            }
        }
        (states, byte)
    }
}

/// One round, costs of its bit in the answer and in the trackers at an order.
fn round(
    chain: &mut ContextsChainPredictionMixer<'static>, states: &[ContextState], byte: u8, bit: bool, max_order: usize, at: usize,
) -> Result<(f64, Option<f64>, f64), Viol> {
    let mut contexts = CollectedContextStates::new(max_order);
    for state in states {
        contexts.push(state.clone());
    }
    let (sq, _) = call(|| chain.predict(&contexts, byte))?;
    let p = unit(sq);
    ensure!(p > 0.0 && p < 1.0, "impossible probability", "{}", p);
    let costs = call(|| chain.update(bit.into(), &contexts))?;
    let nodes = states.iter().filter(|s| s.is_for_node()).count();
    ensure!(costs.len() == nodes, "wrong number of cost trackers", "{} for {} nodes", costs.len(), nodes);
    let mut other = None;
    for (order, state) in states.iter().enumerate() {
        if let ContextState::ForNode { probability_estimator, cost_trackers, .. } = state {
            let p = unit(probability_estimator.prediction());
            let cost = -(if bit { 1.0 - p } else { p }).max(1e-6).log2() * 2048.0;
            let old = cost_trackers.stationary().raw() as f64;
            let wanted = (old * 15.0 / 16.0 + cost).min(65535.0);
            let got = costs[order].stationary().raw() as f64;
            ensure!((got - wanted).abs() <= 3.0 + cost * 0.03, "cost of the estimate wrong", "order {}: {} after {}, bit {} at {:.5}, expected {:.1}", order, got, old, bit, p, wanted);
            if order == at {
                let old = cost_trackers.non_stationary().raw() as f64;
                other = Some((costs[order].non_stationary().raw() as f64 - old * 15.0 / 16.0) / 2048.0);
            }
        }
    }
    let used = if bit { 1.0 - p } else { p };
    Ok((-used.log2(), other, p))
}

fn chain(cx: &Cx) -> Res {
    let &(clue, single, average) = cx.pick(&CLUES);
    let noisy = cx.coin();
    let above = match clue {
        ContextByte => 0,
        LastOrder | Apart => 1,
        _ => cx.draw(3),
    };
    let (cost, limit) = if cx.chance(40) && calibrating().is_none() {
        cx.probe("fleet of chains");
        let costs = cx.fleet(FLEET, |cx| chain_session(cx, clue, noisy, if above > 0 && clue != LastOrder && clue != Apart { 1 + cx.draw(2) } else { above }))?;
        (costs.iter().sum::<f64>() / costs.len() as f64, average[noisy as usize * 2 + (above > 0) as usize])
    } else {
        (chain_session(cx, clue, noisy, above)?, single[noisy as usize])
    };
    cx.nontrivial();
    ensure!(cost < limit, format!("chain made too little of evidence:{:?}", clue).as_str(), "{:.3} bits for each round, wanted less than {:.2}; noise elsewhere: {}, higher orders: {}", cost, limit, noisy, above);
    Ok(())
}

/// Average cost of the rounds at the end of a session.
fn chain_session(cx: &Cx, clue: Clue, noisy: bool, above: usize) -> Result<f64, Viol> {
    let meaning = cx.coin();
    let below = cx.draw(4);
    let mut bulk = Bulk::new(cx, false);
    let of_edge = matches!(clue, RepeatedBit | ContextByte | Count | EdgeDistance);
    let at = if clue == Agreement { 1 + below } else { below };
    let orders = at + 1 + above;
    let edges_from = match clue {
        ContextByte => at,
        LastOrder => at + bulk.draw(3),
        _ if of_edge => at - bulk.draw(at + 1),
        _ => at + 1 + bulk.draw(above + 1),
    };
    let max_order = orders - 1 + bulk.draw(3);
    // eight bytes, of which each tells something else than its neighbours
    let at_bit = bulk.draw(8);
    let mask = 1u8 << at_bit;
    let first = bulk.draw(256);
    let mut bytes = [[0u8; 2]; 4];
    for (i, pair) in bytes.iter_mut().enumerate() {
        let other = ((first + i * 37) % 128) as u8;
        let zero = ((other & !(mask - 1)) << 1) | (other & (mask - 1));
        let turn = i & 1;
        pair[turn] = zero;
        pair[1 - turn] = zero | mask;
    }
    let distances = *cx.pick(&[(30, 3_000), (99, 100), (300, 3_000), (999, 1_000), (5_000, 50_000), (9_999, 10_000), (50, 65_600), (2_000, 9_000_000)]);
    let lengths = *cx.pick(&[(1, 9), (1, 2), (2, 3), (3, 4), (20, 100), (200, 1_000)]);
    let ratios = *cx.pick(&[(0.5, 2.0), (0.6, 0.8), (0.8, 0.95), (0.95, 1.05), (1.05, 1.3), (1.3, 1.7)]);
    let dull = (0..orders).map(|_| Dull::new(&mut bulk, noisy)).collect();
    let case = Case { clue, at, edges_from, orders, dull, meaning, costs: 3000 + bulk.draw(30000) as u16, distances, lengths, ratios, bytes };
    cx.note(|| format!("chain of {} orders, edges from {}: {:?} at order {} tells, noise {}, values {:?} {:?} {:?}", orders, edges_from, clue, at, noisy, distances, lengths, ratios));
    let mut chain = call(|| ContextsChainPredictionMixer::new(max_order, luts()))?;

    let hostile = if cx.coin() { cx.size(300) } else { 0 };
    let mood = cx.draw(3);
    if hostile > 0 {
        cx.fault("hostile history");
    }
    let mut last = 0.5;
    for _ in 0..hostile {
        let told = bulk.draw(2) == 1;
        let (states, byte) = case.states(&mut bulk, told);
        let bit = match mood {
            0 => bulk.draw(2) == 1,
            1 => last > 0.5,
            _ => !told,
        };
        last = round(&mut chain, &states, byte, bit, max_order, at)?.2;
    }
    let rounds = 1500;
    let mut sum = (0.0, 0.0, 0usize);
    for i in 0..rounds {
        let bit = bulk.draw(2) == 1;
        let (states, byte) = case.states(&mut bulk, bit);
        let (cost, other, _) = round(&mut chain, &states, byte, bit, max_order, at)?;
        if i >= rounds - 400 {
            sum.0 += cost;
            sum.1 += other.unwrap_or(0.0);
            sum.2 += 1;
        }
    }
    cx.steps((hostile + rounds) as u64);
    let cost = sum.0 / sum.2 as f64;
    let other = sum.1 / sum.2 as f64;
    if let Some(path) = calibrating() {
        append(path, format!("{:?}-{}-{} {} {:.4} {:.4}", clue, noisy as u8, (above > 0) as u8, hostile, cost, other));
    }
    let runs_tell = matches!(clue, LastBit | RunLength);
    if runs_tell {
        ensure!(other < 0.5, "cost of the runs wrong", "{:.3} bits for each round told by {:?}", other, clue);
    } else if !of_edge && clue != LastOrder && clue != Apart {
        ensure!(other > 0.9, "cost of the runs wrong", "{:.3} bits for each round told by {:?}", other, clue);
    }
    Ok(cost)
}
