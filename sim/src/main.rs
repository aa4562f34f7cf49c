mod alloc;
mod cli;
mod core;
mod gen;
mod io;
mod model_codec;
mod props_apps;
mod props_coder;
#[cfg(all(feature = "stages", feature = "sources"))]
mod props_compose;
#[cfg(feature = "tree")]
mod props_history;
#[cfg(feature = "learning")]
mod props_learning;
#[cfg(feature = "learning")]
mod props_reports;
#[cfg(feature = "stages")]
mod props_stages;
#[cfg(feature = "tree")]
mod props_memory;
mod props_model;
#[cfg(feature = "sources")]
mod props_sources;
#[cfg(all(feature = "tree", feature = "sources"))]
mod props_carry;
mod runner;
mod sched;
mod tape;

use crate::core::{Cx, Res};

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Cx) -> Res,
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const CODER_REAL: &str = "coding::encoder, coding::decoder, FinalProbability (in some runs also the whole predictor with its history tree, mixers and look-up tables)";
const CODER_STUB: &str = "byte transport (simulated writer, reader and bounded pipe), thread scheduling, owner of the coder";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: props_coder::c01,
        quick_runs: 200_000,
        thorough_runs: 6_000_000,
        rule: "one case = one event sequence coded over a bounded pipe under one schedule of threads, short and interrupted calls; non-trivial when at least 3 events are coded and the transport is not calm",
        real: CODER_REAL,
        stub: CODER_STUB,
    },
    Prop {
        id: "C02",
        run: props_coder::c02,
        quick_runs: 500_000,
        thorough_runs: 20_000_000,
        rule: "one case = 1 to 4 streams written one after another (some ended by an unwinding owner) and decoded from the same transport, or a request/answer conversation; non-trivial when a transport fault is enabled, an owner unwinds or a conversation has several streams",
        real: CODER_REAL,
        stub: CODER_STUB,
    },
    Prop {
        id: "C03",
        run: props_coder::c03,
        quick_runs: 200_000,
        thorough_runs: 10_000_000,
        rule: "one case = one event sequence encoded into a writer which refuses bytes from a chosen offset on, for good or for some calls, while the owner may fail or carry on; non-trivial when a write was refused",
        real: CODER_REAL,
        stub: CODER_STUB,
    },
    Prop {
        id: "C04",
        run: props_coder::c04,
        quick_runs: 200_000,
        thorough_runs: 10_000_000,
        rule: "one case = one stream decoded from an input that ends or fails at a chosen offset; non-trivial when the cut removes bytes",
        real: CODER_REAL,
        stub: CODER_STUB,
    },
    Prop {
        id: "C05",
        run: props_coder::c05,
        quick_runs: 40_000,
        thorough_runs: 2_000_000,
        rule: "one case = one stream corrupted by 1 to 4 faults and decoded by the bare decoder or the whole decompressor; non-trivial when a byte of the stream differs",
        real: CODER_REAL,
        stub: CODER_STUB,
    },
    #[cfg(feature = "tree")]
    Prop {
        id: "H01",
        run: props_history::h01,
        quick_runs: 500_000,
        thorough_runs: 25_000_000,
        rule: "one case = one tree history of a chosen window, order and ring offset under one sequence of appended bytes and evictions, compared before every bit with what the bytes inside the window imply; non-trivial when something was evicted and a mixed context was reported",
        real: HISTORY_REAL,
        stub: HISTORY_STUB,
    },
    #[cfg(feature = "sources")]
    Prop {
        id: "H02",
        run: props_sources::h02,
        quick_runs: 50_000,
        thorough_runs: 2_000_000,
        rule: "one case = one input fed to brute force, hash map and tree sources that lag behind and restart at chosen moments, compared before every bit with independently kept statistics; non-trivial when the input has at least 3 bytes",
        real: "history::naive, history::fat_map, history::tree, their estimators, trackers and look-up tables",
        stub: HISTORY_STUB,
    },
    #[cfg(feature = "tree")]
    Prop {
        id: "H03",
        run: props_history::h03,
        quick_runs: 800_000,
        thorough_runs: 40_000_000,
        rule: "one case = one tree history that lives through a sequence of appends and evictions and one that is lost and rebuilt from the window at another ring offset, compared after every byte; non-trivial when bytes were evicted both before and after the restart",
        real: HISTORY_REAL,
        stub: HISTORY_STUB,
    },
    #[cfg(feature = "tree")]
    Prop {
        id: "H04",
        run: props_history::h04,
        quick_runs: 400_000,
        thorough_runs: 20_000_000,
        rule: "one case = one tree history under one sequence of appends, evictions and restarts, whose nodes, leaves and window are surveyed after every step; non-trivial when something was evicted and the tree had more than one node",
        real: HISTORY_REAL,
        stub: HISTORY_STUB,
    },
    #[cfg(all(feature = "tree", feature = "sources"))]
    Prop {
        id: "H05",
        run: props_carry::h05,
        quick_runs: 300_000,
        thorough_runs: 15_000_000,
        rule: "one case = one tree history under one sequence of appends, evictions and restarts, whose statistics of every context are compared before every bit with those of its previous occurrence brought forward; non-trivial when bytes were evicted and a mixed context remembered some of them",
        real: HISTORY_REAL,
        stub: HISTORY_STUB,
    },
    Prop {
        id: "C06",
        run: props_model::c06,
        quick_runs: 8_000,
        thorough_runs: 200_000,
        rule: "one case = one input compressed and decompressed by two threads over one stored stream under one schedule, with crashes and restarts of either side at transport calls or bits; non-trivial when the input has at least 2 bytes",
        real: MODEL_REAL,
        stub: MODEL_STUB,
    },
    Prop {
        id: "C07",
        run: props_model::c07,
        quick_runs: 3_000,
        thorough_runs: 70_000,
        rule: "one case = 2 to 4 sessions whose calls are interleaved and moved between up to 4 threads, some failing, dropped or unwinding; non-trivial when a session completed among others",
        real: MODEL_REAL,
        stub: MODEL_STUB,
    },
    Prop {
        id: "C08",
        run: props_coder::c08,
        quick_runs: 1_000_000,
        thorough_runs: 60_000_000,
        rule: "one case = one event sequence encoded into a writer with short and interrupted calls, the owner unwinding at times, its length compared with the information of the events; non-trivial from 3 coded events on",
        real: CODER_REAL,
        stub: CODER_STUB,
    },
    Prop {
        id: "P01",
        run: props_model::p01,
        quick_runs: 10_000,
        thorough_runs: 500_000,
        rule: "one case = one predictor fed a bit history by an adaptive adversary that changes its strategy at chosen moments; non-trivial when at least 4 bytes were fed",
        real: MODEL_REAL,
        stub: MODEL_STUB,
    },
    Prop {
        id: "P02",
        run: props_model::p02,
        quick_runs: 4_000,
        thorough_runs: 60_000,
        rule: "one case = one predictor fed a hostile history and then exact repetitions of a pattern of up to 6 bytes, or 96 such sessions judged together; non-trivial when the hostile history has at least 4 bytes",
        real: MODEL_REAL,
        stub: MODEL_STUB,
    },
    Prop {
        id: "P04",
        run: props_model::p04,
        quick_runs: 2_000,
        thorough_runs: 25_000,
        rule: "one case = one predictor fed a hostile history and then bytes from a random source whose ideal cost is known, or 192 such sessions whose average is judged; non-trivial when the hostile history has at least 4 bytes",
        real: MODEL_REAL,
        stub: MODEL_STUB,
    },
    Prop {
        id: "P03",
        run: props_model::p03,
        quick_runs: 15_000,
        thorough_runs: 500_000,
        rule: "one case = one session with calls out of turn injected at chosen moments beside a twin that never sees them; non-trivial when a bad call was made",
        real: MODEL_REAL,
        stub: MODEL_STUB,
    },
    #[cfg(feature = "learning")]
    Prop {
        id: "P05",
        run: props_learning::p05,
        quick_runs: 1_500_000,
        thorough_runs: 40_000_000,
        rule: "one case = 1 to 3 learning parts (mixers, probability maps, estimators, cost trackers, sets of them) sharing tables, whose rounds and outcomes are chosen by an adversary that changes its mood, with calls out of turn; non-trivial from 3 rounds on",
        real: "mixing::mixer, mixing::apm, estimators, predictor::kits, util::indexer, look-up tables",
        stub: "owner of the parts: inputs, outcomes, order of calls, calls out of turn",
    },
    #[cfg(feature = "stages")]
    Prop {
        id: "P06",
        run: props_stages::p06,
        quick_runs: 30_000,
        thorough_runs: 600_000,
        rule: "one case = one stage of the predictor (cache of last bytes, chain of contexts, final stage) whose owner plants one kind of evidence among others that tell nothing, after a hostile history; non-trivial when enough rounds were played to judge",
        real: "predictor::chain, predictor::single, predictor::kits, predictor::post_process, util::last_bytes, mixing, estimators, look-up tables",
        stub: "owner of the stages: context states, bytes, outcomes",
    },
    #[cfg(all(feature = "stages", feature = "sources"))]
    Prop {
        id: "P07",
        run: props_compose::p07,
        quick_runs: 30_000,
        thorough_runs: 2_000_000,
        rule: "one case = 1 to 3 predictors told bits in turns under one schedule, each beside a second set of its parts told the same bits, with calls out of turn, hostile bytes and lost predictors; non-trivial when a predictor was told at least 3 bytes",
        real: "the whole predictor; beside it history sources, predictor::chain, predictor::post_process, util::last_bytes, look-up tables",
        stub: "owner of the predictors: bytes, turns, calls out of turn",
    },
    #[cfg(feature = "tree")]
    Prop {
        id: "R01",
        run: props_memory::r01,
        quick_runs: 40_000,
        thorough_runs: 2_000_000,
        rule: "one case = one coder, predictor or history session of chosen length, some with failing transports or unwinding owners, whose memory is counted call by call; non-trivial when at least 3 events are coded or the window slides",
        real: "encoder, decoder, predictor, history::tree, whole",
        stub: "allocator (counts what each thread holds), byte transport, owner of the session",
    },
    Prop {
        id: "A01",
        run: props_apps::a01,
        quick_runs: 1_500,
        thorough_runs: 60_000,
        rule: "one case = one run of the main program (development or release build) over one file delivered through chosen short, interrupted and early ending reads and wrong file sizes, compared with an undisturbed run; non-trivial when a read of a non-empty file was short, interrupted or ended early",
        real: APP_REAL,
        stub: APP_STUB,
    },
    Prop {
        id: "A02",
        run: props_apps::a02,
        quick_runs: 3_000,
        thorough_runs: 120_000,
        rule: "one case = one run of the main program or the history printer with at most one lasting failure of open, read, write or allocation among short and interrupted calls; non-trivial when a failure fired",
        real: APP_REAL,
        stub: APP_STUB,
    },
    Prop {
        id: "A03",
        run: props_apps::a03,
        quick_runs: 900,
        thorough_runs: 60_000,
        rule: "one case = one run of one of the four programs with chosen wall clock jumps and stalls, compared with a run under a steady clock; non-trivial when the clock plan is not empty",
        real: APP_REAL,
        stub: APP_STUB,
    },
    Prop {
        id: "A04",
        run: props_apps::a04,
        quick_runs: 1_500,
        thorough_runs: 60_000,
        rule: "one case = one run of the main program whose printed totals are compared with each other, with an independent accounting and with the size of really coding the input; non-trivial when the input is not empty",
        real: APP_REAL,
        stub: APP_STUB,
    },
    Prop {
        id: "A05",
        run: props_apps::a05,
        quick_runs: 1_000,
        thorough_runs: 40_000,
        rule: "one case = one file printed with each of the three algorithms, each under another delivery plan, compared with an undisturbed run; non-trivial when the file has at least 3 bytes",
        real: APP_REAL,
        stub: APP_STUB,
    },
    Prop {
        id: "A06",
        run: props_apps::a06,
        quick_runs: 3_000,
        thorough_runs: 60_000,
        rule: "one case = one file printed with one of the three algorithms under one delivery plan, compared with the report that the file itself implies; non-trivial when the file has at least 3 bytes",
        real: APP_REAL,
        stub: APP_STUB,
    },
    Prop {
        id: "A07",
        run: props_apps::a07,
        quick_runs: 3_000,
        thorough_runs: 120_000,
        rule: "one case = one timed run of the main program or the benchmark under a simulated clock, with input stalls; non-trivial when something was timed",
        real: APP_REAL,
        stub: APP_STUB,
    },
    #[cfg(feature = "learning")]
    Prop {
        id: "A08",
        run: props_reports::a08,
        quick_runs: 500,
        thorough_runs: 20_000,
        rule: "one case = one whole run of the benchmark or the simulation of entropy under a plan of short and interrupted writes and clock jumps; always non-trivial",
        real: APP_REAL,
        stub: APP_STUB,
    },
];

const APP_REAL: &str = "the built programs demixer, print_histories, bench_sigmoid and entropy_simulations, whole, without any hook, in development and release profile";
const APP_STUB: &str = "operating system calls: open, read, write, file size, clocks, randomness and allocation failures (preloaded shim following a plan from the choice tape)";
const MODEL_REAL: &str = "predictor, mixing, history::tree, estimators, look-up tables, coding::encoder and decoder, util::last_bytes";
const MODEL_STUB: &str = "byte transport and storage, thread scheduling, the owner of each session, the source of input bits; window size and order through the cfg(demixer_sim) knob";
const HISTORY_REAL: &str = "history::tree (nodes, contexts, window), estimators and look-up tables";
const HISTORY_STUB: &str = "caller of the history: order and moment of appends, evictions, losses and restarts";

fn main() {
    std::process::exit(cli::main());
}
