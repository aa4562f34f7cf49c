//! Generated workloads: byte contents and coded event sequences.

use crate::core::{Bulk, Cx};
use crate::tape::Rng;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::coding::FinalProbability;
use demixer::fixed_point::FixedPoint;
use std::io::Write;

/// Bytes of up to `max_len`, built of segments of differing character.
pub fn bytes(cx: &Cx, max_len: usize) -> Vec<u8> {
    let target = cx.size(max_len);
    bytes_exact(cx, target)
}

pub fn bytes_exact(cx: &Cx, target: usize) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::with_capacity(target);
    let alphabet: Vec<u8> = match cx.draw(6) {
        0 => vec![b'a', b'b'],
        1 => vec![0, 0xff],
        2 => vec![0x00, 0x01, 0x80],
        3 => b"the quick brown fox".to_vec(),
        4 => vec![0x7f, 0x80],
        _ => (0..=255).collect(),
    };
    while out.len() < target {
        let left = target - out.len();
        let kind = cx.draw(8);
        let len = 1 + cx.size(left - 1);
        match kind {
            0 => {
                // one byte repeated
                let b = alphabet[cx.draw(alphabet.len())];
                out.extend(std::iter::repeat(b).take(len));
            }
            1 | 2 if !out.is_empty() => {
                // copy of earlier content
                let dist = 1 + cx.size(out.len() - 1);
                for _ in 0..len {
                    let b = out[out.len() - dist];
                    out.push(b);
                }
            }
            3 | 1 | 2 => {
                // a short pattern repeated
                let period = 1 + cx.draw(6);
                let pattern: Vec<u8> =
                    (0..period).map(|_| alphabet[cx.draw(alphabet.len())]).collect();
                for i in 0..len {
                    out.push(pattern[i % period]);
                }
            }
            4 => {
                // uniform noise
                let mut rng = Rng::new(cx.seed());
                out.extend((0..len).map(|_| rng.next() as u8));
            }
            5 => {
                // random over the alphabet
                let mut rng = Rng::new(cx.seed());
                out.extend((0..len).map(|_| alphabet[rng.below(alphabet.len() as u64) as usize]));
            }
            6 => {
                // order-1 source with strong preferences
                let mut rng = Rng::new(cx.seed());
                let salt = rng.next();
                let mut last = 0u8;
                for _ in 0..len {
                    let pick = if rng.below(8) == 0 { rng.next() } else {
                        crate::tape::mix(salt ^ last as u64)
                    };
                    last = alphabet[(pick % alphabet.len() as u64) as usize];
                    out.push(last);
                }
            }
            _ => {
                // individually chosen
                for _ in 0..len.min(12) {
                    out.push(alphabet[cx.draw(alphabet.len())]);
                }
            }
        }
    }
    out.truncate(target);
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Event {
    Bit(u32, bool),
    Rare(bool),
}

pub const PROB_ONE: u32 = 1 << 23;

pub fn prob(raw: u32) -> FinalProbability {
    FinalProbability::new(raw, 23)
}

/// Range decoder of the generator. It only picks event values, so that the
/// coder passes through chosen bytes; no check depends on it being right.
struct Steer {
    buffer: i64,
    range: i64,
    bits: Vec<u8>,
    pos: usize,
    high: i64,
}

impl Steer {
    fn new(bytes: Vec<u8>) -> Self {
        let mut s = Steer { buffer: 0, range: 0x7fff_ffff, bits: bytes, pos: 0, high: 0 };
        for _ in 0..4 {
            s.buffer = (s.buffer << 8) + s.byte();
        }
        s
    }
    fn byte(&mut self) -> i64 {
        let b = *self.bits.get(self.pos).unwrap_or(&0x55) as i64;
        self.pos += 1;
        let r = (b >> 1) + (self.high << 7);
        self.high = b & 1;
        r
    }
    fn normalize(&mut self) {
        while self.range < 0x0080_0000 {
            self.buffer = (self.buffer << 8) + self.byte();
            self.range <<= 8;
        }
    }
    fn bit(&mut self, raw: u32) -> bool {
        self.normalize();
        let helper = (self.range * raw as i64) >> 23;
        if self.buffer < helper {
            self.range = helper;
            false
        } else {
            self.range -= helper;
            self.buffer -= helper;
            true
        }
    }
    fn rare(&mut self) -> bool {
        self.normalize();
        if self.buffer < self.range - 1 {
            self.range -= 1;
            false
        } else {
            self.buffer = 0;
            self.range = 1;
            true
        }
    }
    fn force(&mut self, event: Event) {
        self.normalize();
        match event {
            Event::Bit(raw, bit) => {
                let helper = (self.range * raw as i64) >> 23;
                if bit {
                    self.range -= helper;
                    self.buffer = (self.buffer - helper).max(0);
                } else {
                    self.range = helper;
                    self.buffer = self.buffer.min(helper - 1);
                }
            }
            Event::Rare(true) => {
                self.range = 1;
                self.buffer = 0;
            }
            Event::Rare(false) => {
                self.range -= 1;
                self.buffer = self.buffer.min(self.range - 1);
            }
        }
    }
}

/// Bytes rich in the runs that make carries propagate.
fn steering_bytes(bulk: &mut Bulk, len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    while out.len() < len {
        match bulk.draw(6) {
            0 => out.push(bulk.draw(256) as u8),
            1 | 2 => {
                let n = [1, 2, 3, 4, 5, 7, 9, 16, 40, 300][bulk.draw(10)];
                out.extend(std::iter::repeat(0xff).take(n));
            }
            3 => {
                let n = [1, 2, 3, 4, 5, 7, 9, 16, 40, 300][bulk.draw(10)];
                out.extend(std::iter::repeat(0x00).take(n));
            }
            4 => out.push([0x01, 0xfe, 0x7f, 0x80, 0x02, 0xfd][bulk.draw(6)]),
            _ => {
                out.push(bulk.draw(256) as u8);
                out.push(bulk.draw(256) as u8);
            }
        }
    }
    out
}

fn draw_prob(bulk: &mut Bulk, style: usize) -> u32 {
    let raw = match style {
        0 => PROB_ONE / 2,
        1 => 1 + bulk.draw(PROB_ONE as usize - 1) as u32,
        2 => {
            // log-uniform towards both ends
            let shift = bulk.draw(23) as u32;
            let v = (1u32 << shift) + bulk.draw(1 << shift) as u32;
            let v = v.min(PROB_ONE - 1);
            if bulk.draw(2) == 0 { v } else { PROB_ONE - v }
        }
        3 => [1, PROB_ONE - 1, 2, PROB_ONE - 2, PROB_ONE / 2][bulk.draw(5)],
        _ => PROB_ONE / 2 - 2 + bulk.draw(5) as u32,
    };
    raw.clamp(1, PROB_ONE - 1)
}

/// A sequence of up to `max_len` coder events.
pub fn events(cx: &Cx, max_len: usize) -> Vec<Event> {
    let len = cx.size(max_len);
    let mut bulk = Bulk::new(cx, len <= 24);
    let mut out = Vec::with_capacity(len);
    let mode = cx.draw(4);
    let rare_rate = [0, 0, 8, 128, 600][cx.draw(5)];
    let mut style = cx.draw(5);
    let style_change = [0, 0, 30][cx.draw(3)];
    let mut steer = if mode == 3 {
        cx.probe("carry steering workload");
        let n = 40 + len / 2;
        Some(Steer::new(steering_bytes(&mut bulk, n)))
    } else {
        None
    };
    for _ in 0..len {
        if style_change > 0 && bulk.chance(style_change) {
            style = bulk.draw(5);
        }
        let rare = bulk.chance(rare_rate);
        let event = if rare {
            let forced = bulk.draw(4);
            match &mut steer {
                Some(s) if forced != 3 => Event::Rare(s.rare()),
                _ => {
                    let e = Event::Rare(bulk.draw(3) == 2);
                    if let Some(s) = &mut steer {
                        s.force(e);
                    }
                    e
                }
            }
        } else {
            let raw = draw_prob(&mut bulk, style);
            match &mut steer {
                Some(s) => Event::Bit(raw, s.bit(raw)),
                None => {
                    let r = bulk.draw(PROB_ONE as usize) as u32;
                    let likely = r >= raw;
                    match mode {
                        0 => Event::Bit(raw, likely),
                        1 => Event::Bit(raw, r & 1 == 1),
                        // against the odds
                        _ => Event::Bit(raw, raw >= PROB_ONE / 2),
                    }
                }
            }
        };
        out.push(event);
    }
    out
}

/// Keeps a carry undecided over a long stretch of the stream: bits at even
/// odds which follow a run of equal bytes far longer than usual.
pub fn carry_chain(cx: &Cx) -> Vec<Event> {
    let mut bulk = Bulk::new(cx, false);
    let run = 1 + cx.size(70_000);
    cx.probe_if(run > 1000, "carry chain of thousands of bytes");
    cx.probe_if(run > 65_536, "carry chain of more than 65536 bytes");
    let mut bytes: Vec<u8> = (0..bulk.draw(6)).map(|_| bulk.draw(256) as u8).collect();
    bytes.extend(std::iter::repeat(if bulk.draw(8) == 0 { 0x00 } else { 0xff }).take(run));
    let tail = bulk.draw(12);
    bytes.extend((0..tail).map(|_| bulk.draw(256) as u8));
    let mut steer = Steer::new(bytes);
    let mut out = Vec::with_capacity(run * 8 + 100);
    // now and then the last step decides the carry
    for _ in 0..run * 8 + bulk.draw(100) {
        out.push(Event::Bit(PROB_ONE / 2, steer.bit(PROB_ONE / 2)));
    }
    if bulk.draw(2) == 0 {
        for _ in 0..1 + bulk.draw(40) {
            out.push(if bulk.draw(4) == 0 { Event::Rare(bulk.draw(2) == 0) } else { Event::Bit(PROB_ONE / 2, bulk.draw(8) != 0) });
        }
    }
    out
}

pub fn encode_event(encoder: &mut Encoder, event: Event) {
    match event {
        Event::Bit(raw, bit) => encoder.encode_bit(prob(raw), bit.into()),
        Event::Rare(rare) => encoder.encode_rare_event(rare),
    }
}

pub fn decode_event(decoder: &mut Decoder, shape: Event) -> Event {
    match shape {
        Event::Bit(raw, _) => {
            let bit: Bit = decoder.decode_bit(prob(raw));
            Event::Bit(raw, bit.is_1())
        }
        Event::Rare(_) => Event::Rare(decoder.decode_rare_event()),
    }
}

/// The stream of a fault-free run.
pub fn encode_plain(events: &[Event]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    {
        let writer: &mut dyn Write = &mut out;
        let mut encoder = Encoder::new(writer);
        for &event in events {
            encode_event(&mut encoder, event);
        }
    }
    out
}

pub fn describe(events: &[Event]) -> String {
    let mut s = String::new();
    for e in events.iter().take(40) {
        match e {
            Event::Bit(raw, b) => s.push_str(&format!("{}@{:.7} ", *b as u8, *raw as f64 / PROB_ONE as f64)),
            Event::Rare(b) => s.push_str(&format!("rare={} ", *b as u8)),
        }
    }
    if events.len() > 40 {
        s.push_str(&format!("... ({} events)", events.len()));
    }
    s
}
