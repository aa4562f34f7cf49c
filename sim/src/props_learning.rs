//! P05: the parts that learn (mixers, probability maps, estimators, cost
//! trackers and sets of them), several at a time sharing tables, against
//! models in floating point.

use crate::core::*;
use crate::ensure;
use crate::model_codec::luts;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::{FractOnlyU32, MixerWeight, StretchedProbD};
use demixer::fixed_point::FixedPoint;
use demixer::history::tree::node::CostTrackers;
use demixer::mixing::apm::AdaptiveProbabilityMap;
use demixer::mixing::mixer::{FixedSizeMixer, Mixer, Mixer1, Mixer2, Mixer3, Mixer4, Mixer5, MixerInitializationMode, MixerN};
use demixer::predictor::kits::{EstimatorsWithIndexer, MixersWithIndexer};
use demixer::util::indexer::{Indexer, Indexer1, Indexer2, Indexer3, Indexer4, Indexer5};

type Input = (FractOnlyU32, StretchedProbD);

trait Part {
    /// One round: an answer, an outcome, perhaps calls out of turn.
    fn round(&mut self, cx: &Cx) -> Res;
}

/// Where the inputs and outcomes of a part come from at the moment.
struct Mood {
    inputs: usize,
    outcomes: usize,
    left: usize,
    p: u64,
}

impl Mood {
    fn new() -> Self {
        Mood { inputs: 0, outcomes: 0, left: 0, p: 0 }
    }
    fn turn(&mut self, cx: &Cx) {
        if self.left == 0 {
            self.inputs = cx.draw(6);
            self.outcomes = cx.draw(5);
            self.p = cx.draw64(1025);
            self.left = 1 + cx.draw(60);
            if self.outcomes == 4 {
                cx.fault("adversary");
            }
            cx.fault("change of mood");
        }
        self.left -= 1;
    }
    /// Raw value of an input in the logistic domain.
    fn input(&self, cx: &Cx, index: usize) -> StretchedProbD {
        let limit = StretchedProbD::ABSOLUTE_LIMIT << 21;
        let raw = match self.inputs {
            0 => (cx.draw(9) as i32 - 4) << 20,
            1 => *cx.pick(&[0, limit, -limit, limit - 1, 1 - limit, 1, -1]),
            2 => cx.draw64(2 * limit as u64 + 1) as i32 - limit,
            3 => cx.draw(4 << 21) as i32 - (2 << 21),
            4 => if index % 2 == 0 { limit } else { -limit },
            _ => (cx.draw(5) as i32 - 2) * 3_333_333,
        };
        StretchedProbD::new(raw.max(-limit).min(limit), 21)
    }
    fn outcome(&self, cx: &Cx, predicted: f64) -> Bit {
        let zero = match self.outcomes {
            0 => true,
            1 => false,
            2 => cx.draw64(1024) < self.p,
            3 => predicted > 0.5,
            _ => predicted <= 0.5,
        };
        (!zero).into()
    }
}

fn squash(st: StretchedProbD) -> Input {
    (luts().squash_lut().squash(st), st)
}

fn call<T, F: FnOnce() -> T>(f: F) -> Result<T, Viol> {
    must("learning part failed", f)
}

fn refused<T, F: FnOnce() -> T>(cx: &Cx, what: &'static str, f: F) -> Res {
    cx.fault(what);
    cx.nontrivial();
    match catch(f) {
        Err(_) => Ok(()),
        Ok(_) => viol("call out of turn accepted", what.to_string()),
    }
}

// ------------------------------------------------------------------ mixers

/// What a mixer must do, weights in units of 2^-21.
#[derive(Clone)]
struct MixerModel {
    weights: Vec<f64>,
    updates: usize,
    /// errors of rounding since the weights were last seen
    slack: f64,
}

const WEIGHT_ONE: f64 = 2097152.0;

impl MixerModel {
    fn new(size: usize, start: usize, mode: usize) -> Self {
        let weights = (0..size).map(|i| match mode {
            0 => 0.0,
            1 => if i == 0 { WEIGHT_ONE } else { 0.0 },
            _ => WEIGHT_ONE / size as f64,
        }).collect();
        MixerModel { weights, updates: start, slack: 1.0 }
    }
    fn see<M: Mixer>(&mut self, mixer: &M) -> Res {
        for i in 0..self.weights.len() {
            let got = mixer.weight(i).raw() as f64;
            ensure!(
                (got - self.weights[i]).abs() <= self.slack,
                "weight off the model",
                "weight {} of {} is {} instead of {} (allowed {}) after {} updates", i, self.weights.len(), got, self.weights[i], self.slack, self.updates
            );
            self.weights[i] = got;
        }
        self.slack = 0.0;
        Ok(())
    }
    fn check(&self, inputs: &[Input], got: Input) -> Res {
        let limit = (StretchedProbD::ABSOLUTE_LIMIT as f64) * WEIGHT_ONE;
        let sum: f64 = self.weights.iter().zip(inputs).map(|(w, i)| w * i.1.raw() as f64 / WEIGHT_ONE).sum();
        let want = sum.max(-limit).min(limit);
        ensure!(
            (got.1.raw() as f64 - want).abs() <= 1.5,
            "mixed answer off the model",
            "{} instead of {} from inputs {:?} and weights {:?}", got.1.raw(), want, inputs.iter().map(|i| i.1.raw()).collect::<Vec<_>>(), self.weights
        );
        let sq = luts().squash_lut().squash(got.1);
        ensure!(got.0 == sq, "mixed answer off the model", "probability {:?} for {:?}", got.0, got.1);
        Ok(())
    }
    fn learn(&mut self, inputs: &[Input], answer: FractOnlyU32, bit: Bit, most: usize) {
        let p0 = answer.as_f64();
        let error = if bit.is_0() { 1.0 - p0 } else { -p0 };
        let rate = 0.5 / (self.updates as f64 + 2.0);
        let limit = MixerWeight::ABSOLUTE_LIMIT as f64 * WEIGHT_ONE;
        for (w, i) in self.weights.iter_mut().zip(inputs) {
            *w = (*w + i.1.raw() as f64 * error * rate).max(-limit).min(limit);
        }
        self.slack += 1.0;
        self.updates = (self.updates + 1).min(most);
    }
}

struct MixerPart<M: Mixer> {
    mixer: M,
    model: MixerModel,
    most: usize,
    mood: Mood,
    rate: usize,
}

impl<M: Mixer> Part for MixerPart<M> {
    fn round(&mut self, cx: &Cx) -> Res {
        self.mood.turn(cx);
        let n = self.model.weights.len();
        let inputs: Vec<Input> = (0..n).map(|i| squash(self.mood.input(cx, i))).collect();
        let mut order: Vec<usize> = (0..n).collect();
        if cx.chance(300) {
            for i in 1..n {
                order.swap(i, cx.draw(i + 1));
            }
        }
        let m = &mut self.mixer;
        self.model.see(m)?;
        for (k, &i) in order.iter().enumerate() {
            if cx.chance(self.rate) {
                match cx.draw(5) {
                    0 => refused(cx, "mixed before all inputs are set", || m.mix_all(luts().squash_lut()))?,
                    1 => refused(cx, "update before all inputs are set", || {
                        m.update_and_reset(Bit::Zero, FractOnlyU32::HALF, 1000, luts().d_estimator_rates())
                    })?,
                    2 => refused(cx, "input beyond the last set", || m.set_input(n, inputs[0].0, inputs[0].1))?,
                    3 => refused(cx, "input read before it is set", || m.prediction_sq(i))?,
                    _ if k > 0 => {
                        let j = order[k - 1];
                        refused(cx, "input set twice", || m.set_input(j, FractOnlyU32::HALF, StretchedProbD::ZERO))?
                    }
                    _ => (),
                }
            }
            call(|| m.set_input(i, inputs[i].0, inputs[i].1))?;
        }
        let answer = call(|| m.mix_all(luts().squash_lut()))?;
        self.model.check(&inputs, answer)?;
        if cx.chance(self.rate) {
            refused(cx, "input set twice", || m.set_input(0, FractOnlyU32::HALF, StretchedProbD::ZERO))?;
            let again = call(|| m.mix_all(luts().squash_lut()))?;
            ensure!(again == answer, "refused call left a trace", "{:?} instead of {:?}", again, answer);
        }
        for i in 0..n {
            let got = call(|| (m.prediction_sq(i), m.prediction_st(i)))?;
            ensure!(got == inputs[i], "input lost", "input {} is {:?} instead of {:?}", i, got, inputs[i]);
        }
        if cx.chance(8) {
            // a round given up before the outcome is known is not possible:
            // only an update starts the next one
            refused(cx, "input set twice", || m.set_input(n - 1, FractOnlyU32::HALF, StretchedProbD::ZERO))?;
        }
        let bit = self.mood.outcome(cx, answer.0.as_f64());
        if cx.chance(10) && self.most < 1000 {
            self.most += 1 + cx.draw(1000 - self.most);
        }
        let most = self.most;
        call(|| m.update_and_reset(bit, answer.0, most as u16, luts().d_estimator_rates()))?;
        self.model.learn(&inputs, answer.0, bit, most);
        let extreme = MixerWeight::ABSOLUTE_LIMIT as f64 * WEIGHT_ONE;
        cx.probe_if(self.model.weights.iter().any(|w| w.abs() == extreme), "weight at its limit");
        self.model.see(m)
    }
}

fn mode(n: usize) -> MixerInitializationMode {
    match n {
        0 => MixerInitializationMode::AllZero,
        1 => MixerInitializationMode::DominantFirst,
        _ => MixerInitializationMode::EqualSummingToOne,
    }
}

fn mixer_part(cx: &Cx) -> Result<Box<dyn Part>, Viol> {
    let start = *cx.pick(&[0, 1, 10, 100, 300, 999, 1000]);
    let most = cx.range(start, 1000).min(start + *cx.pick(&[0, 3, 40, 1000]));
    let init = cx.draw(3);
    let rate = *cx.pick(&[0, 30, 150]);
    let size = cx.range(1, 5);
    fn fixed<M: FixedSizeMixer + Mixer + 'static>(size: usize, start: usize, most: usize, init: usize, rate: usize) -> Result<Box<dyn Part>, Viol> {
        let mixer: M = call(|| M::new(start as u16, mode(init)))?;
        Ok(Box::new(MixerPart { mixer, model: MixerModel::new(size, start, init), most, mood: Mood::new(), rate }))
    }
    cx.note(|| format!("mixer of {} inputs, rate index {} to {}, weights {}", size, start, most, init));
    match size {
        _ if cx.coin() => {
            let size = if cx.chance(200) { cx.range(1, 30) } else { size };
            cx.note(|| format!("of any size, {} in fact", size));
            let mixer = call(|| MixerN::new(size, start as u16, mode(init)))?;
            Ok(Box::new(MixerPart { mixer, model: MixerModel::new(size, start, init), most, mood: Mood::new(), rate }))
        }
        1 => fixed::<Mixer1>(1, start, most, init, rate),
        2 => fixed::<Mixer2>(2, start, most, init, rate),
        3 => fixed::<Mixer3>(3, start, most, init, rate),
        4 => fixed::<Mixer4>(4, start, most, init, rate),
        _ => fixed::<Mixer5>(5, start, most, init, rate),
    }
}

// --------------------------------------------------------- sets by indices

/// Which part of a set is meant, most often one met before.
struct Places {
    sizes: Vec<usize>,
    at: Vec<usize>,
}

impl Places {
    fn draw(cx: &Cx, dimensions: usize) -> Self {
        let sizes: Vec<usize> = (0..dimensions).map(|_| 1 + cx.draw(*cx.pick(&[2, 4, 9]))).collect();
        Places { at: vec![0; dimensions], sizes }
    }
    fn choose(&mut self, cx: &Cx) -> Vec<usize> {
        if cx.chance(500) {
            let d = cx.draw(self.sizes.len());
            self.at[d] = cx.draw(self.sizes[d]);
        }
        self.at.clone()
    }
}

fn go<'i, Idx: Indexer>(mut indexer: &'i mut Idx, at: &[usize]) -> &'i mut Idx {
    for &i in at {
        indexer = indexer.with_sub_index(i);
    }
    indexer
}

struct MixerSet<M: Mixer, Idx: Indexer> {
    set: MixersWithIndexer<M, Idx>,
    models: std::collections::BTreeMap<Vec<usize>, MixerModel>,
    fresh: MixerModel,
    places: Places,
    most: usize,
    mood: Mood,
    rate: usize,
}

impl<M: Mixer, Idx: Indexer> Part for MixerSet<M, Idx> {
    fn round(&mut self, cx: &Cx) -> Res {
        self.mood.turn(cx);
        let n = self.fresh.weights.len();
        let inputs: Vec<Input> = (0..n).map(|i| squash(self.mood.input(cx, i))).collect();
        let at = self.places.choose(cx);
        let fresh = self.fresh.clone();
        let model = self.models.entry(at.clone()).or_insert(fresh);
        let set = &mut self.set;
        let most = self.most;
        if cx.chance(self.rate) {
            match cx.draw(2) {
                0 => refused(cx, "update without a prediction", || set.update(Bit::One, most as u16, luts()).0)?,
                _ => refused(cx, "mixer asked for without a prediction", || set.current_mixer().weight(0))?,
            }
        }
        let early = cx.draw(at.len());
        if early > 0 {
            call(|| { set.pre_predict(|ix| go(ix, &at[..early])); })?;
        }
        let answer = call(|| set.predict(
            |ix| go(ix, &at[early..]),
            |mixer| for (i, x) in inputs.iter().enumerate() { mixer.set_input(i, x.0, x.1) },
            luts(),
        ))?;
        model.see(call(|| set.current_mixer())?)?;
        model.check(&inputs, answer)?;
        if cx.chance(self.rate) {
            match cx.draw(2) {
                0 => refused(cx, "prediction asked for twice", || set.predict(|ix| go(ix, &at), |_| (), luts()))?,
                _ => refused(cx, "indices given while a prediction is pending", || { set.pre_predict(|ix| go(ix, &at[..1])); })?,
            }
        }
        let bit = self.mood.outcome(cx, answer.0.as_f64());
        let told = call(|| set.update(bit, most as u16, luts()))?;
        ensure!(told == answer, "answer changed by the update", "{:?} instead of {:?}", told, answer);
        model.learn(&inputs, answer.0, bit, most);
        cx.probe_if(self.models.len() > 3, "many members of a set in use");
        Ok(())
    }
}

fn mixer_set(cx: &Cx) -> Result<Box<dyn Part>, Viol> {
    let start = *cx.pick(&[0, 10, 100]);
    let most = start + *cx.pick(&[0, 3, 90, 900]);
    let init = cx.draw(3);
    let rate = *cx.pick(&[0, 30, 150]);
    fn make<M: FixedSizeMixer + Mixer + 'static, Idx: Indexer + 'static>(
        cx: &Cx, dimensions: usize, start: usize, most: usize, init: usize, rate: usize,
    ) -> Result<Box<dyn Part>, Viol> {
        let places = Places::draw(cx, dimensions);
        cx.note(|| format!("set of mixers of {} inputs, indices {:?}, rate index {} to {}, weights {}", M::SIZE, places.sizes, start, most, init));
        let set = call(|| MixersWithIndexer::new(|| M::new(start as u16, mode(init)), Idx::new(places.sizes.clone())))?;
        let fresh = MixerModel::new(M::SIZE, start, init);
        Ok(Box::new(MixerSet::<M, Idx> { set, models: Default::default(), fresh, places, most, mood: Mood::new(), rate }))
    }
    match cx.draw(5) {
        0 => make::<Mixer3, Indexer5>(cx, 5, start, most, init, rate),
        1 => make::<Mixer4, Indexer4>(cx, 4, start, most, init, rate),
        2 => make::<Mixer1, Indexer1>(cx, 1, start, most, init, rate),
        3 => make::<Mixer2, Indexer2>(cx, 2, start, most, init, rate),
        _ => make::<Mixer5, Indexer3>(cx, 3, start, most, init, rate),
    }
}

struct EstimatorSet {
    set: EstimatorsWithIndexer<Indexer2>,
    /// last answer and number of outcomes
    models: std::collections::BTreeMap<Vec<usize>, (f64, usize, f64)>,
    places: Places,
    mood: Mood,
    rate: usize,
}

/// Predictions have 22 bits.
const ESTIMATOR_ULP: f64 = 1.0 / 4194304.0;

impl Part for EstimatorSet {
    fn round(&mut self, cx: &Cx) -> Res {
        self.mood.turn(cx);
        let at = self.places.choose(cx);
        let set = &mut self.set;
        if cx.chance(self.rate) {
            refused(cx, "update without a prediction", || set.update(Bit::One, luts()))?;
        }
        let times = if cx.chance(20) { 1 + cx.draw(1200) } else { 1 };
        cx.steps(times as u64);
        for _ in 0..times {
            let (p, st) = call(|| set.predict(luts(), |ix| go(ix, &at)))?;
            let model = self.models.entry(at.clone()).or_insert((0.5, 0, 0.0));
            check_estimate(p, model)?;
            ensure!(st == luts().stretch_lut().stretch(p), "estimate off the model", "{:?} and {:?} do not belong together", p, st);
            if cx.chance(self.rate) {
                refused(cx, "prediction asked for twice", || set.predict(luts(), |ix| go(ix, &at)))?;
            }
            let bit = if times > 1 { self.mood.outcome_fast(p.as_f64()) } else { self.mood.outcome(cx, p.as_f64()) };
            call(|| set.update(bit, luts()))?;
            learn_estimate(model, bit);
            cx.probe_if(model.1 == 1000, "estimator at its slowest");
        }
        Ok(())
    }
}

impl Mood {
    fn outcome_fast(&self, predicted: f64) -> Bit {
        let zero = match self.outcomes {
            0 | 2 => true,
            1 => false,
            3 => predicted > 0.5,
            _ => predicted <= 0.5,
        };
        (!zero).into()
    }
}

fn check_estimate(got: FractOnlyU32, model: &mut (f64, usize, f64)) -> Res {
    let p = got.as_f64();
    ensure!(p > 0.0 && p < 1.0, "estimate off the model", "{} after {} outcomes", p, model.1);
    ensure!(
        (p - model.0).abs() <= model.2,
        "estimate off the model",
        "{} instead of {} after {} outcomes (or more)", p, model.0, model.1
    );
    *model = (p, model.1, 0.0);
    Ok(())
}

fn learn_estimate(model: &mut (f64, usize, f64), bit: Bit) {
    let target = if bit.is_0() { 1.0 } else { 0.0 };
    model.0 += (target - model.0) / (model.1 as f64 + 2.0);
    model.1 = (model.1 + 1).min(1000);
    model.2 += 0.75 * ESTIMATOR_ULP;
}

fn estimator_set(cx: &Cx) -> Result<Box<dyn Part>, Viol> {
    let places = Places::draw(cx, 2);
    cx.note(|| format!("set of estimators, indices {:?}", places.sizes));
    let set = call(|| EstimatorsWithIndexer::new(Indexer2::new(places.sizes.clone())))?;
    Ok(Box::new(EstimatorSet { set, models: Default::default(), places, mood: Mood::new(), rate: *cx.pick(&[0, 30, 150]) }))
}

/// One estimator started anywhere, and cost trackers following it.
struct Lone {
    estimator: DeceleratingEstimator,
    model: (f64, usize, f64),
    trackers: CostTrackers,
    mood: Mood,
}

fn tracked(old: CostTracker, new: CostTracker, p0: FractOnlyU32, bit: Bit) -> Res {
    let p0 = (p0.as_f64() * 8388608.0).round().max(1.0).min(8388607.0) / 8388608.0;
    let cost = -(if bit.is_0() { p0 } else { 1.0 - p0 }).log2() * 2048.0;
    let want = (old.raw() as f64 * 15.0 / 16.0 + cost).min(65535.0);
    ensure!(
        (new.raw() as f64 - want).abs() <= 4.0,
        "cost tracker off the model",
        "{} instead of {} from {} and a cost of {}", new.raw(), want, old.raw(), cost
    );
    Ok(())
}

impl Part for Lone {
    fn round(&mut self, cx: &Cx) -> Res {
        self.mood.turn(cx);
        let p = call(|| self.estimator.prediction())?;
        check_estimate(p, &mut self.model)?;
        ensure!(self.estimator.usage_count() as usize == self.model.1, "estimate off the model", "count {} instead of {}", self.estimator.usage_count(), self.model.1);
        let bit = self.mood.outcome(cx, p.as_f64());
        let other = luts().squash_lut().squash(self.mood.input(cx, 0));
        let limit = FractOnlyU32::new(1 << 14, 31);
        let other = other.max(limit).min(limit.flip());
        let next = call(|| self.trackers.updated(p, other, bit, luts()))?;
        tracked(self.trackers.stationary(), next.stationary(), p, bit)?;
        tracked(self.trackers.non_stationary(), next.non_stationary(), other, bit)?;
        cx.probe_if(next.non_stationary().raw() == 65535, "cost tracker at its limit");
        self.trackers = next;
        call(|| self.estimator.update(bit, luts().d_estimator_rates()))?;
        learn_estimate(&mut self.model, bit);
        Ok(())
    }
}

fn lone(cx: &Cx) -> Result<Box<dyn Part>, Viol> {
    // as histories and tables start them
    let estimator = match cx.draw(3) {
        0 => call(|| DeceleratingEstimator::new())?,
        1 => call(|| DeceleratingEstimator::make(FractOnlyU32::HALF, 1))?,
        _ => {
            let (bit, run) = (cx.coin().into(), cx.size(1000) as u16);
            call(|| luts().d_estimator_cache().for_new_node(bit, run))?
        }
    };
    let model = (estimator.prediction().as_f64(), estimator.usage_count() as usize, 0.0);
    cx.note(|| format!("estimator from {:?}, cost trackers", model));
    let trackers = match cx.draw(3) {
        0 => CostTrackers::DEFAULT,
        _ => CostTrackers::new(CostTracker::new(cx.draw(65536) as u16), CostTracker::new(cx.draw(65536) as u16)),
    };
    Ok(Box::new(Lone { estimator, model, trackers, mood: Mood::new() }))
}

// -------------------------------------------------------- probability maps

struct MapPart {
    map: AdaptiveProbabilityMap,
    bits: u8,
    contexts: usize,
    /// value of every stop of every context met, how many outcomes it saw
    models: std::collections::BTreeMap<usize, (Vec<f64>, usize)>,
    at: usize,
    mood: Mood,
    rate: usize,
    speed: u8,
    halves: bool,
}

impl Part for MapPart {
    fn round(&mut self, cx: &Cx) -> Res {
        self.mood.turn(cx);
        let table = luts().apm_lut(self.bits);
        let stops = table.squashed_interval_stops();
        // an input in either domain
        let st = self.mood.input(cx, 0);
        let (sq, st) = if cx.coin() {
            squash(st)
        } else {
            let sq = luts().squash_lut().squash(st);
            let sq = FractOnlyU32::new((sq.raw() + cx.draw(3) as u32).min((1 << 31) - 1), 31);
            (sq, luts().stretch_lut().stretch(sq))
        };
        // one that falls on a stop in one domain alone belongs to either side
        let on_stop = |st: StretchedProbD| st.raw() & ((1 << (21 - self.bits)) - 1) == 0;
        if stops.contains(&sq) && !on_stop(st) {
            return Ok(());
        }
        if cx.chance(300) {
            self.at = cx.draw(self.contexts);
        }
        let at = self.at;
        let map = &mut self.map;
        if cx.chance(self.rate) {
            match cx.draw(3) {
                0 => refused(cx, "update without a prediction", || map.update_predictions(at, Bit::One, 5, true))?,
                1 => refused(cx, "context beyond the last", || map.refine(self.contexts, sq, st, table))?,
                _ => refused(cx, "table of another precision", || map.refine(at, sq, st, luts().apm_lut((self.bits + 1) % 3)))?,
            }
        }
        let answer = call(|| map.refine(at, sq, st, table))?.as_f64();
        let fresh = || -> Vec<f64> {
            (0..stops.len()).map(|i| stops[i].as_f64()).collect()
        };
        let model = self.models.entry(at).or_insert_with(|| (fresh(), 0));
        let x = sq.as_f64().max(stops[0].as_f64()).min(stops[stops.len() - 1].as_f64());
        let left = (0..stops.len() - 1).rev().find(|&i| stops[i].as_f64() <= x).unwrap();
        let right_share = (x - stops[left].as_f64()) / (stops[left + 1].as_f64() - stops[left].as_f64());
        let want = model.0[left] * (1.0 - right_share) + model.0[left + 1] * right_share;
        let slack = 1e-8 + 2e-9 * model.1 as f64;
        ensure!(
            (answer - want).abs() <= slack,
            "refined probability off the model",
            "{} instead of {} for {} between the stops {} and {} (context {}, {} outcomes)", answer, want, x, left, left + 1, at, model.1
        );
        ensure!(answer > 0.0 && answer < 1.0, "refined probability off the model", "{}", answer);
        if cx.chance(self.rate) {
            match cx.draw(2) {
                0 => refused(cx, "prediction asked for twice", || map.refine(at, sq, st, table))?,
                _ => refused(cx, "context beyond the last", || map.update_predictions(self.contexts, Bit::Zero, 5, true))?,
            }
        }
        let bit = self.mood.outcome(cx, answer);
        let (speed, halves) = (self.speed, self.halves);
        call(|| map.update_predictions(at, bit, speed, halves))?;
        let target = if bit.is_0() { 1.0 } else { 0.0 };
        let share = if halves { 0.5 } else { right_share };
        let step = 1.0 / (1u64 << speed) as f64;
        model.0[left] += (target - model.0[left]) * step * (1.0 - share);
        model.0[left + 1] += (target - model.0[left + 1]) * step * share;
        model.1 += 1;
        cx.probe_if(left == 0 || left + 2 == stops.len(), "outermost stop of a map");
        Ok(())
    }
}

fn map_part(cx: &Cx) -> Result<Box<dyn Part>, Viol> {
    let bits = cx.draw(3) as u8;
    let contexts = 1 + cx.draw(*cx.pick(&[1, 4, 300]));
    let speed = *cx.pick(&[5, 5, 1, 2, 3, 7, 12, 20, 29]);
    let halves = cx.coin();
    cx.note(|| format!("probability map of {} contexts, {} bits, rate {}, equal shares: {}", contexts, bits, speed, halves));
    let map = call(|| AdaptiveProbabilityMap::new(contexts, bits, luts().squash_lut()))?;
    Ok(Box::new(MapPart {
        map, bits, contexts, models: Default::default(), at: 0, mood: Mood::new(), rate: *cx.pick(&[0, 30, 150]), speed, halves,
    }))
}

pub fn p05(cx: &Cx) -> Res {
    let mut parts: Vec<Box<dyn Part>> = Vec::new();
    for _ in 0..1 + cx.draw(3) {
        parts.push(match cx.draw(5) {
            0 => mixer_part(cx)?,
            1 => map_part(cx)?,
            2 => estimator_set(cx)?,
            3 => mixer_set(cx)?,
            _ => lone(cx)?,
        });
    }
    let rounds = if cx.chance(10) { 1500 } else { cx.size(*cx.pick(&[10, 60, 250])) };
    let mut last = 0;
    for _ in 0..rounds {
        let who = if cx.chance(400) { cx.draw(parts.len()) } else { last };
        if who != last {
            cx.switched(who);
        }
        last = who;
        parts[who].round(cx)?;
    }
    cx.steps(rounds as u64);
    if rounds >= 3 {
        cx.nontrivial();
    }
    Ok(())
}
