//! H01..H04: history sources against reference models.

use crate::core::*;
use crate::ensure;
use crate::gen;
use crate::model_codec::luts;
use crate::tape::mix;
use demixer::bit::Bit;
use demixer::estimators::cost::CostTracker;
use demixer::fixed_point::FixedPoint;
use demixer::history::fat_map::FatMapHistorySource;
use demixer::history::naive::NaiveHistorySource;
use demixer::history::tree::direction::Direction;
use demixer::history::tree::node::CostTrackers;
use demixer::history::tree::nodes::NodeIndex;
use demixer::history::tree::{TreeHistorySource, TreeState};
use demixer::history::{CollectedContextStates, ContextState, HistorySource};
use std::collections::{HashMap, HashSet};

// ------------------------------------------------- what a window implies

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Seen {
    pub distance: usize,
    /// the only bit value that followed, or None for both
    pub repeated: Option<bool>,
    /// bits that followed inside the window, oldest first
    pub bits: Vec<bool>,
}

/// The bytes that are inside the window, the unfinished one excluded.
#[derive(Clone, Default)]
pub struct Window {
    pub bytes: Vec<u8>,
}

impl Window {
    /// Contexts of the byte that comes next, given its bits so far.
    pub fn contexts(&self, prefix: u8, bit_index: usize, max_order: usize) -> Vec<Seen> {
        let w = &self.bytes;
        let n = w.len();
        let mut out = Vec::new();
        for order in 0..=max_order.min(n) {
            let mut seen: Option<Seen> = None;
            for i in order..n {
                // a byte inside the window, preceded there by the same bytes
                if w[i - order..i] != w[n - order..n] {
                    continue;
                }
                if bit_index < 7 && (w[i] >> (bit_index + 1)) != (prefix >> (bit_index + 1)) {
                    continue;
                }
                let bit = (w[i] >> bit_index) & 1 == 1;
                let s = seen.get_or_insert(Seen { distance: 0, repeated: Some(bit), bits: vec![] });
                s.distance = n - i;
                s.bits.push(bit);
                if s.repeated != Some(bit) {
                    s.repeated = None;
                }
            }
            match seen {
                Some(s) => out.push(s),
                None => break,
            }
        }
        out
    }
}

fn observe(state: &ContextState) -> (usize, Option<bool>) {
    match state {
        ContextState::ForEdge { repeated_bit, .. } => (state.last_occurrence_distance(), Some(repeated_bit.is_1())),
        ContextState::ForNode { .. } => (state.last_occurrence_distance(), None),
    }
}

fn trackers_for(states: &CollectedContextStates) -> Vec<CostTrackers> {
    states.items().iter().filter(|c| c.is_for_node()).map(|_| CostTrackers::DEFAULT).collect()
}

/// Appends one byte to a tree; `each` looks at the states before every bit.
fn append<'a>(
    tree: &mut TreeHistorySource<'a>,
    byte: u8,
    max_order: usize,
    each: &mut dyn FnMut(&TreeHistorySource<'a>, usize, &CollectedContextStates) -> Res,
) -> Res {
    let mut states = CollectedContextStates::new(max_order);
    tree.start_new_byte();
    for bit_index in (0..8).rev() {
        states.reset();
        tree.gather_history_states(&mut states);
        each(tree, bit_index, &states)?;
        let bit: Bit = ((byte >> bit_index) & 1 == 1).into();
        tree.process_input_bit(bit, &trackers_for(&states));
    }
    Ok(())
}

// ------------------------------------------------------------ tree surveys

#[derive(PartialEq, Eq, Clone, Debug)]
pub enum Shape {
    Degenerate,
    /// (depth, child) in preorder: leaves hold the distance from the cursor
    Proper(Vec<(usize, i64, i64)>),
}

struct Survey {
    shape: Shape,
    live: usize,
}

/// Walks the whole tree and checks that it is a sound structure.
fn survey(t: &TreeHistorySource, max_window: usize, max_order: usize) -> Result<Survey, Viol> {
    let tree = &t.tree;
    let window = &tree.window;
    let live = tree.nodes().live_nodes_count();
    if tree.tree_state() == TreeState::Degenerate {
        ensure!(live == 0, "live count wrong", "{} live nodes in a degenerate tree", live);
        return Ok(Survey { shape: Shape::Degenerate, live });
    }
    let mut shape = Vec::new();
    let mut nodes_seen: HashSet<usize> = HashSet::new();
    let mut leaves: HashSet<usize> = HashSet::new();
    let mut stack: Vec<(NodeIndex, i64)> = vec![(tree.get_root_node_index(), -1)];
    while let Some((index, parent_depth)) = stack.pop() {
        ensure!(nodes_seen.insert(index.raw()), "node used twice", "node {} is reachable twice", index.raw());
        ensure!(
            nodes_seen.len() <= max_window.max(1),
            "more nodes than positions", "{} nodes for a window of {}", nodes_seen.len(), max_window
        );
        let node = &tree.nodes()[index];
        ensure!(node.is_valid(), "dead node reachable", "node {}", index.raw());
        let depth = node.depth();
        ensure!(
            depth as i64 > parent_depth && depth <= max_order * 8 + 7,
            "depth out of order", "node {} at depth {} below {}", index.raw(), depth, parent_depth
        );
        let mut code = [0i64; 2];
        for (i, direction) in [Direction::Left, Direction::Right].iter().enumerate() {
            let child = node.child(*direction);
            ensure!(child.is_valid(), "dead child", "node {}", index.raw());
            if child.is_node_index() {
                code[i] = -1;
            } else {
                let at = child.to_window_index();
                ensure!(at.raw() < max_window, "leaf out of the window", "leaf {}", at.raw());
                let offset = (at.raw() + max_window - window.start().raw()) % max_window;
                ensure!(
                    offset < window.size(),
                    "leaf out of the window",
                    "leaf {} is at offset {} of a window of {}", at.raw(), offset, window.size()
                );
                ensure!(leaves.insert(offset), "leaf used twice", "window offset {}", offset);
                code[i] = (window.size() - offset) as i64;
            }
        }
        shape.push((depth, code[0], code[1]));
        // left subtree first
        for direction in [Direction::Right, Direction::Left] {
            let child = node.child(direction);
            if child.is_node_index() {
                stack.push((child.to_node_index(), depth as i64));
            }
        }
    }
    ensure!(
        nodes_seen.len() == live,
        "live count wrong",
        "{} nodes are reachable, {} are counted as live", nodes_seen.len(), live
    );
    ensure!(
        live <= max_window.max(2) - 1,
        "too many nodes",
        "{} nodes for a window of {}", live, max_window
    );
    Ok(Survey { shape: Shape::Proper(shape), live })
}

/// Every byte of the window must be found from the root. `complete` bytes of
/// the window are finished.
fn check_reachable(t: &TreeHistorySource, w: &[u8], max_window: usize, max_order: usize) -> Res {
    let tree = &t.tree;
    let start = tree.window.start().raw();
    ensure!(tree.window.size() == w.len(), "window size", "{} instead of {}", tree.window.size(), w.len());
    for (i, &b) in w.iter().enumerate() {
        let at = demixer::history::window::WindowIndex::new((start + i) % max_window);
        let held = tree.window[at];
        ensure!(held == b, "window content", "offset {} holds {} instead of {}", i, held, b);
    }
    if tree.tree_state() == TreeState::Degenerate {
        ensure!(
            w.windows(2).all(|p| p[0] == p[1]),
            "degenerate tree for differing bytes", "{}", short(w)
        );
        return Ok(());
    }
    for p in 0..w.len() {
        let mut node = tree.get_root_node_index();
        let mut hops = 0;
        loop {
            hops += 1;
            ensure!(hops <= max_order * 8 + 9, "endless descent", "from offset {}", p);
            let depth = tree.nodes()[node].depth();
            if p + depth / 8 >= w.len() {
                break; // the window ends before this branch: found as a prefix
            }
            let bit: Bit = ((w[p + depth / 8] >> (7 - depth % 8)) & 1 == 1).into();
            let child = tree.nodes()[node].child(bit.into());
            if child.is_node_index() {
                node = child.to_node_index();
                continue;
            }
            let q = (child.to_window_index().raw() + max_window - start) % max_window;
            let len = (max_order).min(w.len() - p.max(q).min(w.len()));
            ensure!(
                q >= p && w[p..p + len] == w[q..q + len],
                "byte not reachable",
                "descending by the bytes at offset {} of the window leads to offset {}", p, q
            );
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------- shared workload

struct Plan {
    max_window: usize,
    max_order: usize,
    shift: usize,
    bytes: Vec<u8>,
    evict_rate: usize,
    /// costly comparisons are made at every such byte only
    sparse: usize,
}

impl Plan {
    fn is_checked(&self, pos: usize) -> bool {
        self.sparse <= 1 || mix(pos as u64) % self.sparse as u64 == 0 || pos + 2 >= self.bytes.len()
    }
}

fn plan(cx: &Cx, max_len: usize) -> Plan {
    match cx.draw(65536) {
        65535 => return big_plan(cx, 60_000, 140_000),
        65505..=65534 => return big_plan(cx, 300, 4_000),
        _ => (),
    }
    let max_window = match cx.draw(4) {
        0 => cx.range(1, 6),
        1 => cx.range(2, 20),
        2 => cx.range(8, 48),
        _ => cx.range(2, 150),
    };
    let max_order = match cx.draw(4) {
        0 => cx.draw(3),
        1 => cx.draw(7),
        2 => cx.draw(max_window.max(1)),
        _ => cx.draw(24),
    };
    let shift = cx.draw(max_window);
    let bytes = if cx.chance(400) {
        // long enough for the window to slide several times over
        gen::bytes_exact(cx, (max_window * (1 + cx.draw(4)) + cx.draw(8)).min(max_len))
    } else {
        gen::bytes(cx, max_len)
    };
    let evict_rate = *cx.pick(&[0, 0, 60, 300, 600]);
    let p = Plan { max_window, max_order, shift, bytes, evict_rate, sparse: 1 };
    note_plan(cx, &p);
    p
}

/// A window and an input far beyond the usual sizes, looked at in places.
fn big_plan(cx: &Cx, lowest: usize, highest: usize) -> Plan {
    let max_window = cx.range(lowest, highest);
    let max_order = cx.draw(25);
    let shift = cx.draw(max_window);
    let len = max_window + cx.draw(max_window / 2);
    let bytes = gen::bytes_exact(cx, len);
    let mut p = Plan { max_window, max_order, shift, bytes, evict_rate: 0, sparse: 1 + len / 25 };
    if lowest > 50_000 {
        far_repeats(cx, &mut p);
    }
    cx.probe(if lowest > 50_000 { "window of tens of thousands of bytes" } else { "window of hundreds or thousands of bytes" });
    note_plan(cx, &p);
    p
}

/// Lets many of the bytes that are looked at end a phrase which last occurred
/// almost a whole window earlier.
fn far_repeats(cx: &Cx, p: &mut Plan) {
    for pos in 0..p.bytes.len() {
        if !p.is_checked(pos) || pos < p.max_window / 2 || cx.chance(200) {
            continue;
        }
        let distance = p.max_window - 1 - cx.draw(p.max_window / 8);
        let size = cx.range(3, 12);
        if distance + size > pos {
            continue;
        }
        for back in 0..size {
            let b = cx.draw(256) as u8;
            p.bytes[pos - back] = b;
            p.bytes[pos - back - distance] = b;
        }
        // the last byte follows the phrase with or without a surprise
        if cx.chance(300) {
            p.bytes[pos] ^= 1 << cx.draw(8);
        }
        cx.probe_if(distance > 65_536, "phrase repeated from more than 65536 bytes ago");
    }
}

fn note_plan(cx: &Cx, p: &Plan) {
    cx.note(|| format!("window {} order {} shift {} evict rate {}/1024 input {}",
        p.max_window, p.max_order, p.shift, p.evict_rate, short(&p.bytes)));
}

/// How many bytes are evicted now, between two bytes.
pub fn draw_evictions(cx: &Cx, rate: usize, size: usize) -> usize {
    if size > 0 && cx.chance(rate) {
        let n = match cx.draw(6) {
            0..=2 => 1,
            3 => 1 + cx.draw(3),
            4 => 1 + cx.draw(size),
            _ => size,
        };
        let n = n.min(size);
        if n == size {
            cx.probe("window drained completely");
        }
        n
    } else {
        0
    }
}

pub fn evict(t: &mut TreeHistorySource) {
    // the public way to shrink the window between two bytes
    t.tree.remove_leftmost_suffix(&mut t.active_contexts);
}

// --------------------------------------------------------------------- H01

pub fn h01(cx: &Cx) -> Res {
    let p = plan(cx, *cx.pick(&[24, 80, 300]));
    must("history failed", || h01_run(cx, &p))?
}

fn h01_run(cx: &Cx, p: &Plan) -> Res {
    let mut t = TreeHistorySource::new_special(p.max_window, p.max_order, p.shift, luts());
    let mut w = Window::default();
    let mut evictions = 0u64;
    let mut nodes = 0u64;
    for (pos, &byte) in p.bytes.iter().enumerate() {
        let n = draw_evictions(cx, p.evict_rate, w.bytes.len());
        for _ in 0..n {
            evict(&mut t);
            w.bytes.remove(0);
            evictions += 1;
            cx.fault("byte evicted");
        }
        if n > 0 {
            cx.note(|| format!("evict {} before byte {}", n, pos));
        }
        if w.bytes.len() == p.max_window {
            w.bytes.remove(0);
            evictions += 1;
            cx.fault("window slid");
        }
        let checked = p.is_checked(pos);
        append(&mut t, byte, p.max_order, &mut |_, bit_index, states| {
            if !checked {
                return Ok(());
            }
            let expected = w.contexts(byte, bit_index, p.max_order);
            let got: Vec<_> = states.items().iter().map(observe).collect();
            let want: Vec<_> = expected.iter().map(|s| (s.distance, s.repeated)).collect();
            nodes += want.iter().filter(|s| s.1.is_none()).count() as u64;
            ensure!(
                got == want,
                "wrong contexts",
                "byte {} bit {} window {}: reported {:?}, the window implies {:?} (distance, repeated bit)",
                pos, bit_index, short(&w.bytes), got, want
            );
            for (order, item) in states.items().iter().enumerate() {
                let count = item.occurrence_count();
                ensure!(
                    count >= 1 && count <= 1000,
                    "occurrence count out of range", "order {} count {}", order, count
                );
                ensure!(
                    evictions > 0 || count as usize == expected[order].bits.len().min(1000),
                    "wrong occurrence count", "order {} count {}", order, count
                );
            }
            Ok(())
        })?;
        w.bytes.push(byte);
    }
    cx.steps(p.bytes.len() as u64 * 8);
    cx.probe_if(nodes > 0, "mixed contexts");
    cx.probe_if(p.max_order >= p.max_window, "order not below window");
    if evictions > 0 && nodes > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- H03

pub fn h03(cx: &Cx) -> Res {
    let p = plan(cx, *cx.pick(&[24, 80, 300]));
    let shift_b = cx.draw(p.max_window);
    let crash_at = cx.draw(p.bytes.len() + 1);
    let second = cx.chance(200);
    cx.note(|| format!("restart after byte {} at ring offset {}", crash_at, shift_b));
    must("history failed", || h03_run(cx, &p, crash_at, shift_b, second))?
}

fn h03_run(cx: &Cx, p: &Plan, crash_at: usize, shift_b: usize, second: bool) -> Res {
    let mut survivor = TreeHistorySource::new_special(p.max_window, p.max_order, p.shift, luts());
    let mut rebuilt: Option<TreeHistorySource> = None;
    let mut w: Vec<u8> = Vec::new();
    let mut evicted_before = 0;
    let mut evicted_after = 0;
    let ignore = &mut |_: &TreeHistorySource, _: usize, _: &CollectedContextStates| Ok(());
    let mut crashes = vec![crash_at];
    if second {
        crashes.push(cx.range(crash_at, p.bytes.len()));
    }
    for pos in 0..=p.bytes.len() {
        let n = draw_evictions(cx, p.evict_rate, w.len());
        for _ in 0..n {
            evict(&mut survivor);
            if let Some(r) = rebuilt.as_mut() {
                evict(r);
                evicted_after += 1;
            } else {
                evicted_before += 1;
            }
            w.remove(0);
            cx.fault("byte evicted");
        }
        if crashes.contains(&pos) {
            cx.fault("history lost and rebuilt");
            let shift = if pos == crash_at { shift_b } else { cx.draw(p.max_window) };
            let mut r = TreeHistorySource::new_special(p.max_window, p.max_order, shift, luts());
            for &b in &w {
                append(&mut r, b, p.max_order, ignore)?;
            }
            rebuilt = Some(r);
        }
        if let Some(r) = rebuilt.as_ref().filter(|_| p.is_checked(pos)) {
            let a = survey(&survivor, p.max_window, p.max_order)?;
            let b = survey(r, p.max_window, p.max_order)?;
            ensure!(
                a.shape == b.shape,
                "tree shapes differ",
                "before byte {}, window {}: survivor {:?} rebuilt {:?}", pos, short(&w), a.shape, b.shape
            );
            ensure!(a.live == b.live, "live counts differ", "{} and {}", a.live, b.live);
        }
        if pos == p.bytes.len() {
            break;
        }
        let byte = p.bytes[pos];
        if w.len() == p.max_window {
            w.remove(0);
            cx.fault("window slid");
            if rebuilt.is_some() { evicted_after += 1 } else { evicted_before += 1 }
        }
        let mut seen = Vec::new();
        append(&mut survivor, byte, p.max_order, &mut |_, _, states| {
            seen.push(states.items().iter().map(observe).collect::<Vec<_>>());
            Ok(())
        })?;
        if let Some(r) = rebuilt.as_mut() {
            let mut i = 0;
            append(r, byte, p.max_order, &mut |_, bit_index, states| {
                let got: Vec<_> = states.items().iter().map(observe).collect();
                ensure!(
                    got == seen[i],
                    "contexts differ",
                    "byte {} bit {} window {}: survivor {:?} rebuilt {:?}", pos, bit_index, short(&w), seen[i], got
                );
                i += 1;
                Ok(())
            })?;
        }
        w.push(byte);
    }
    cx.steps(p.bytes.len() as u64 * 16);
    cx.probe_if(evicted_before > 0, "survivor had evicted before the restart");
    if evicted_before > 0 && evicted_after > 0 {
        cx.nontrivial();
    }
    Ok(())
}

// --------------------------------------------------------------------- H04

pub fn h04(cx: &Cx) -> Res {
    let p = plan(cx, *cx.pick(&[24, 80, 300]));
    must("history failed", || h04_run(cx, &p))?
}

fn h04_run(cx: &Cx, p: &Plan) -> Res {
    let mut t = TreeHistorySource::new_special(p.max_window, p.max_order, p.shift, luts());
    let mut w: Vec<u8> = Vec::new();
    let mut evictions = 0;
    let mut peak = 0;
    let restart_rate = if p.sparse > 1 { 0 } else { *cx.pick(&[0, 0, 10, 40]) };
    for (pos, &byte) in p.bytes.iter().enumerate() {
        let n = draw_evictions(cx, p.evict_rate, w.len());
        for _ in 0..n {
            evict(&mut t);
            w.remove(0);
            evictions += 1;
            cx.fault("byte evicted");
            let s = survey(&t, p.max_window, p.max_order)?;
            ensure!(
                w.len() >= 2 || s.shape == Shape::Degenerate,
                "nodes for an empty window", "{:?}", s.shape
            );
            check_reachable(&t, &w, p.max_window, p.max_order)?;
        }
        if cx.chance(restart_rate) {
            cx.fault("history lost and rebuilt");
            let shift = cx.draw(p.max_window);
            t = TreeHistorySource::new_special(p.max_window, p.max_order, shift, luts());
            for &b in &w {
                append(&mut t, b, p.max_order, &mut |_, _, _| Ok(()))?;
            }
        }
        if w.len() == p.max_window {
            w.remove(0);
            evictions += 1;
            cx.fault("window slid");
        }
        let checked = p.is_checked(pos);
        append(&mut t, byte, p.max_order, &mut |t, bit_index, _| {
            peak = peak.max(t.tree.nodes().live_nodes_count());
            if !checked {
                return Ok(());
            }
            if bit_index == 7 {
                t.check_integrity_on_next_byte();
            }
            let s = survey(t, p.max_window, p.max_order)?;
            peak = peak.max(s.live);
            Ok(())
        })?;
        w.push(byte);
        if !checked {
            continue;
        }
        survey(&t, p.max_window, p.max_order)?;
        check_reachable(&t, &w, p.max_window, p.max_order)
            .map_err(|v| Viol { detail: format!("after byte {}: {}", pos, v.detail), class: v.class })?;
    }
    cx.steps(p.bytes.len() as u64 * 8);
    cx.probe_if(peak == p.max_window - 1 && peak > 1, "node storage completely used");
    if evictions > 0 && peak > 1 {
        cx.nontrivial();
    }
    Ok(())
}
