//! A08: what the two programs without input report is what they simulate.

use crate::core::*;
use crate::ensure;
use crate::props_apps::{draw_clocks, draw_writes, first_difference, masked, run, Plan};
use demixer::bit::Bit;
use demixer::coding::FinalProbability;
use demixer::estimators::decelerating::DeceleratingEstimator;
use demixer::fixed_point::types::StretchedProbD;
use demixer::fixed_point::{FixU32, FixedPoint};
use demixer::lut::estimator::DeceleratingEstimatorRates;
use demixer::random::MersenneTwister;
use std::sync::OnceLock;

const RUN_LENGTHS: [usize; 16] = [1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 100, 200, 300, 1000, 2000, 10_000];
const RATES: [(u32, u32); 4] = [(1, 2), (1, 3), (2, 2), (2, 3)];
const PREDICTIONS: usize = 10_000;

struct Figures {
    power: f64,
    length: usize,
    rates: (u32, u32),
    probability: f64,
    cost: f64,
    ideal: f64,
    zeros: usize,
}

/// Every setting, in order, with the figures it must give.
fn figures() -> &'static Vec<Figures> {
    static FIGURES: OnceLock<Vec<Figures>> = OnceLock::new();
    FIGURES.get_or_init(|| {
        let tables: Vec<_> = RATES.iter().map(|&(f, a)| DeceleratingEstimatorRates::make(f, a)).collect();
        let mut out = vec![];
        for x in -18i32..=18 {
            let power = -x as f64 / 2.0;
            let probability = 1.0 / (1.0 + power.exp());
            let mut sum = probability;
            // zeros are spread evenly, as often as the probability says
            let bits: Vec<Bit> = (0..PREDICTIONS)
                .map(|_| {
                    sum += probability;
                    let zero = sum >= 1.0;
                    if zero {
                        sum -= 1.0;
                    }
                    if zero { Bit::Zero } else { Bit::One }
                })
                .collect();
            let zeros = bits.iter().filter(|b| b.is_0()).count();
            let entropy = |n: usize| if n == 0 { 0.0 } else { n as f64 * -(n as f64 / PREDICTIONS as f64).log2() };
            for length in RUN_LENGTHS {
                for (rates, table) in RATES.iter().zip(&tables) {
                    let mut estimator = DeceleratingEstimator::new();
                    let mut cost = 0.0;
                    for (i, &bit) in bits.iter().enumerate() {
                        if i % length == 0 {
                            estimator = DeceleratingEstimator::new();
                        }
                        let p = estimator.prediction().to_fix_u32::<FinalProbability>().raw() as f64 / 8388608.0;
                        cost -= if bit.is_0() { p } else { 1.0 - p }.log2();
                        estimator.update(bit, table);
                    }
                    out.push(Figures { power, length, rates: *rates, probability, cost, ideal: entropy(zeros) + entropy(PREDICTIONS - zeros), zeros });
                }
            }
        }
        out
    })
}

fn number(line: &str, name: &str) -> Result<f64, Viol> {
    let text = line.split(&format!("{}:", name)).nth(1).and_then(|t| t.split(',').next()).map(|t| t.trim());
    match text.and_then(|t| t.parse::<f64>().ok()) {
        Some(v) => Ok(v),
        None => viol("figure missing in the report", format!("{} in {:?}", name, line)),
    }
}

fn check_simulations(report: &str) -> Res {
    let mut settings = figures().iter();
    let (mut power, mut length) = (f64::NAN, 0.0);
    for line in report.lines().filter(|l| !l.trim().is_empty()) {
        if line.starts_with("power") {
            power = number(line, "power")?;
            continue;
        }
        if let Some(rest) = line.strip_prefix("single run length =") {
            length = rest.trim().parse().unwrap_or(f64::NAN);
            continue;
        }
        let f = match settings.next() {
            Some(f) => f,
            None => return viol("untrue report", format!("more settings than simulated: {:?}", line)),
        };
        let place = format!("LUT: factor = {}, addend = {} ", f.rates.0, f.rates.1);
        ensure!(
            power == f.power && length == f.length as f64 && line.starts_with(&place),
            "untrue report", "settings {} {} {:?}, expected {} {} {:?}", power, length, line, f.power, f.length, place
        );
        let (cost, ideal) = (number(line, "total cost")?, number(line, "ideal cost")?);
        let (overhead, ratio) = (number(line, "overhead")?, number(line, "ratio")?);
        ensure!(
            number(line, "zeros")? == f.zeros as f64 && number(line, "ones")? == (PREDICTIONS - f.zeros) as f64,
            "untrue report", "{:?}: {} zeros of {} expected", line, f.zeros, PREDICTIONS
        );
        ensure!(
            (number(line, "probability")? - f.probability).abs() < 1e-6 && (ideal - f.ideal).abs() < 1e-5,
            "untrue report", "{:?}: probability {}, ideal cost {} expected", line, f.probability, f.ideal
        );
        // the table of logarithms is off by less than 0.001 bit at a time
        ensure!(
            (cost - f.cost).abs() < 0.001 * PREDICTIONS as f64,
            "untrue report", "{:?}: total cost of about {} expected", line, f.cost
        );
        ensure!(
            (overhead - (cost / ideal - 1.0)).abs() < 1e-6 * (1.0 + overhead.abs()) && (ratio - PREDICTIONS as f64 / cost).abs() < 1e-6 * (1.0 + ratio),
            "untrue report", "{:?}: overhead or ratio do not fit the costs", line
        );
    }
    ensure!(settings.next().is_none(), "untrue report", "settings missing at the end");
    Ok(())
}

/// Sums the benchmark must come to: of one pass over its thousand numbers.
fn sums() -> (u64, i64) {
    static SUMS: OnceLock<(u64, i64)> = OnceLock::new();
    *SUMS.get_or_init(|| {
        let luts = crate::model_codec::luts();
        let mut prng = MersenneTwister::default();
        let (mut squash, mut stretch, mut n) = (0, 0, 0);
        while n < 1000 {
            let raw = prng.next_int64() as i32 as i64;
            // only what lies within -12..=12, with 27 bits of fraction
            if raw.abs() > 12 << 27 {
                continue;
            }
            let bits = StretchedProbD::FRACTIONAL_BITS;
            let p = luts.squash_lut().squash(StretchedProbD::new((raw >> (27 - bits)) as i32, bits));
            squash += p.raw() as u64;
            stretch += luts.stretch_lut().stretch(p).raw() as i64;
            n += 1;
        }
        (squash, stretch)
    })
}

pub fn a08(cx: &Cx) -> Res {
    let release = cx.coin();
    let bench = cx.coin();
    let program = if bench { "bench_sigmoid" } else { "entropy_simulations" };
    let mut plan = Plan::default();
    draw_writes(cx, &mut plan);
    if !bench && plan.write_cap > 0 {
        plan.write_cap = plan.write_cap.max(3) * 10;
    }
    if cx.chance(300) {
        draw_clocks(cx, &mut plan);
    }
    plan.rand = cx.seed();
    cx.note(|| format!("{}; plan: {}", program, plan.brief()));
    let r = run(cx, release, program, &[], &[], &plan)?;
    ensure!(r.ok(), "program fails", "{}: {}", program, r.ending());
    if bench {
        let (squash, stretch) = sums();
        let expected = format!(
            "warmup (checksum: {})\nsquash = Tns (chksum: {})\nstretch = Tns (chksum: {})\n",
            squash * 10_000, squash * 10_000, stretch * 10_000
        );
        let got = masked(&r.out);
        ensure!(got == expected, "untrue report", "{}", first_difference(&got, &expected));
        cx.probe("benchmark");
    } else {
        check_simulations(&r.out)?;
        cx.probe("simulations of entropy");
    }
    cx.nontrivial();
    Ok(())
}
