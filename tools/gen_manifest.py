#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection: "
TRUST = ("Sampled executions, not exhaustive: a clean batch is evidence within the bounds given in DESIGN.md. "
         "Trusts the simulator, the executable reference model in sim/src and rustc. ")
C = [
 ("C01", T + "producer and consumer threads over a simulated bounded pipe, seeded schedules, short and interrupted calls",
  "Real encoder and decoder; every choice of schedule and fault comes from one seed; compared with exact event sequence and fault-free bytes; progress within a step budget."),
 ("C02", T + "streams ended at arbitrary points, unwinding owners, concatenated streams and conversations over one simulated transport",
  "Bytes taken from the reader are compared with the length of the stream holding just the decoded events."),
 ("C03", T + "write failures injected at every offset and in every kind, while the owner goes on, fails or unwinds",
  "Output compared with a prefix of the fault-free bytes; outcome must be an ordinary catchable failure."),
 ("C04", T + "stored streams cut or failing at any byte with every error kind",
  "Events before the missing byte must be exact, the step needing it must fail, nothing may be invented."),
 ("C05", T + "stored bytes flipped, torn, duplicated, reordered and forged under decoder and whole decompressor",
  "No panic, hang or memory fault; events before the first damaged byte exact; input consumed equals what the returned events occupy."),
 ("C06", T + "compressor and decompressor threads with crash and restart over a simulated store",
  "Whole real pipeline with window and order chosen per run; reproduced bytes compared with the input."),
 ("C07", T + "interleaved sessions moved between threads, failing neighbours, repeated in another process",
  "Every session is compared bit by bit with itself run alone."),
 ("C08", T + "event sequences into a faulty writer, owners unwinding, carry chains and long streams",
  "Length of the accepted bytes compared with bounds from the exact information of the events at the coder's precision."),
 ("H01", T + "seeded schedules of appends and evictions against an executable window model",
  "Context states before every bit are compared with a direct search of the window."),
 ("H02", T + "lagging and restarted history sources against independently kept statistics",
  "Exact for counts, recent bits, runs and cost trackers; probability within the stated rounding tolerance."),
 ("H03", T + "loss of the history at chosen moments and rebuilding from the window at another ring offset",
  "Restarted and surviving histories are compared after every byte."),
 ("H04", T + "node recycling under seeded schedules of appends, evictions and restarts with invariants surveyed after each step",
  "Invariants over all nodes, leaves and window positions through public accessors."),
 ("H05", T + "sliding, eviction and loss of the history as faults, statistics of every context carried from occurrence to occurrence by a model",
  "Exact comparison before every bit, the adaptive probability within rounding of a floating point model."),
 ("P01", T + "adaptive adversary feeding the real predictor with regime changes at chosen moments",
  "Every probability checked; failures of any kind are violations."),
 ("P02", T + "hostile histories as the fault, recovery as bounded progress once the fault stops",
  "Bounds calibrated on the unchanged tree: wide ones for single sessions, tight ones for averages over fleets of 96 (see DESIGN.md)."),
 ("P03", T + "out-of-turn calls injected into a session beside an undisturbed twin",
  "All later probabilities of session and twin must be identical."),
 ("P04", T + "hostile histories and changes of source as the fault, adaptation to a random source as bounded progress once the fault stops",
  "Compared with the ideal cost of the very source drawn; bounds calibrated on the unchanged tree: wide ones for single sessions, tight ones for averages over fleets of 192 (see DESIGN.md)."),
 ("P05", T + "mixers, probability maps, estimators and sets of them sharing tables, driven by an adversary that changes its mood, with calls out of turn, against executable models",
  "Each answer and each step compared with floating point models within rounding; models are resynchronised where the state can be read, run freely where it cannot."),
 ("P06", T + "chain of contexts, final stage and cache of last bytes driven by a simulated owner that plants one telling kind of evidence after hostile histories, single sessions and fleets of them",
  "Cost of the late rounds, and spread of the answers, compared with limits calibrated on the unchanged tree; costs handed back and last bytes compared with models; a lost kind of evidence costs a whole bit per round, far beyond the limits."),
 ("P07", T + "several predictors used by turns, refused calls and lost predictors, each beside a second set of its parts joined by the simulator",
  "Probabilities compared bit for bit."),
 ("R01", T + "long sessions with failing transports, unwinding owners and restarts under a counting allocator",
  "All allocations of the code under test are counted exactly, inside of calls too; bounds are those stated in DESIGN.md."),
 ("A01", T + "whole programs behind a system call shim: short, interrupted and early ending reads, wrong file sizes",
  "The shipped programs run unmodified; the shim follows a plan drawn from the seed."),
 ("A02", T + "whole programs behind a system call shim: open, read, write and allocation failures",
  "Exit status and report compared with an undisturbed run."),
 ("A03", T + "whole programs behind a system call shim: wall clock jumps and stalls",
  "Report compared with a run under a steady clock, timing figures masked."),
 ("A04", T + "whole program behind a system call shim under read faults, totals reconciled with real coding",
  "Totals compared with an independent accounting and with the coded size; figures for tables within the measured table error."),
 ("A05", T + "whole history printer behind a system call shim, three algorithms under different delivery plans",
  "Reports compared byte for byte with an undisturbed run."),
 ("A06", T + "whole history printer behind a system call shim under delivery faults, against an executable model of the report",
  "The whole report is recomputed by direct search of the preceding bytes and compared byte for byte."),
 ("A07", T + "whole programs under a simulated clock whose readings take time, with input stalls from microseconds to hours and wall clock jumps",
  "The simulator knows how much time passed and how much of it the program spent waiting; reported figures must lie between."),
 ("A08", T + "whole programs behind a system call shim: short and interrupted writes, clock jumps",
  "Every figure compared with an independent simulation of the setting it stands beside."),
]
NA = [
 ("N01", "pure function of one number: no schedule, clock, fault or interleaving for a simulator to decide"),
 ("N02", "pure arithmetic on its operands: no schedule, clock, fault or interleaving for a simulator to decide"),
 ("N03", "pure function of shape and indices: no schedule, clock, fault or interleaving for a simulator to decide"),
 ("N04", "pure functions of key or seed: no schedule, clock, fault or interleaving for a simulator to decide"),
 ("N05", "pure function of one 16-bit count, already enumerated by a test: nothing for a simulator to decide"),
 ("N06", "pure function of an input sequence without any party, time or fault: exhaustive or algebraic methods fit, simulation adds nothing"),
]
m = {
 "version": 1,
 "setup_cmd": "bash build.sh programs",
 "hooks": {"guard": "--cfg demixer_sim (RUSTFLAGS)",
           "enable": "RUSTFLAGS=\"--cfg demixer_sim\" cargo build of /verif/sim, which depends on /repo by path (see build.sh); the shipped programs are built without it",
           "source_commits": ["b938cd5e6c04ba7e3f2c7645b732a4c517e59993"]},
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
             "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration",
             "level_note": TRUST + n} for i, t, n in C],
 "not_applicable": [{"property": i, "reason": r} for i, r in NA],
 "notes": "VERIF_SEED (default 1) decides everything. Replay a violation with: bash replay.sh <file>.",
}
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
