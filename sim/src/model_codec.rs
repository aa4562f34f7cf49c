//! A compressor and a decompressor put together from the parts of the crate
//! under test: a rare event tells whether another byte follows, the bits of
//! each byte are coded with the predictor's probabilities.

use crate::core::*;
use crate::gen::{prob, Event};
use crate::io::SimReader;
use demixer::bit::Bit;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use demixer::fixed_point::FixedPoint;
use demixer::lut::LookUpTables;
use demixer::predictor::Predictor;
use std::io::{Read, Write};
use std::sync::OnceLock;

/// (window size, max order) or the shipped ones.
pub type Limits = Option<(usize, usize)>;

pub fn luts() -> &'static LookUpTables {
    static LUTS: OnceLock<LookUpTables> = OnceLock::new();
    LUTS.get_or_init(|| LookUpTables::new())
}

pub fn draw_limits(cx: &Cx) -> Limits {
    match cx.draw(8) {
        0 => None,
        1 => Some((cx.range(1, 8), cx.draw(9))),
        2 | 3 => Some((cx.range(2, 40), cx.draw(8))),
        4 => Some((cx.range(2, 40), 20)),
        5 => Some((cx.range(40, 300), cx.draw(21))),
        _ => Some((cx.range(1, 100), cx.draw(25))),
    }
}

pub fn new_predictor<'l>(limits: Limits, luts: &'l LookUpTables) -> Predictor<'l> {
    demixer::sim_knobs::set_limits(limits);
    let predictor = Predictor::new(luts);
    demixer::sim_knobs::set_limits(None);
    predictor
}

/// The coder events of compressing the input.
pub fn model_events(input: &[u8], limits: Limits, luts: &LookUpTables) -> Vec<Event> {
    let mut out = Vec::new();
    let mut predictor = new_predictor(limits, luts);
    for &byte in input {
        out.push(Event::Rare(false));
        predictor.start_new_byte();
        for i in (0..8).rev() {
            let p = predictor.predict();
            let bit: Bit = ((byte >> i) & 1 == 1).into();
            out.push(Event::Bit(p.raw(), bit.is_1()));
            predictor.update(bit);
        }
    }
    out.push(Event::Rare(true));
    out
}

pub fn compress(input: &[u8], limits: Limits, luts: &LookUpTables) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    compress_to(&mut out, input, limits, luts, &mut |_, _| ());
    out
}

/// `step` is called before every coded bit with its number and probability.
pub fn compress_to(
    writer: &mut dyn Write,
    input: &[u8],
    limits: Limits,
    luts: &LookUpTables,
    step: &mut dyn FnMut(usize, u32),
) {
    let mut predictor = new_predictor(limits, luts);
    let mut encoder = Encoder::new(writer);
    let mut n = 0;
    for &byte in input {
        encoder.encode_rare_event(false);
        predictor.start_new_byte();
        for i in (0..8).rev() {
            let p = predictor.predict();
            step(n, p.raw());
            n += 1;
            let bit: Bit = ((byte >> i) & 1 == 1).into();
            encoder.encode_bit(p, bit);
            predictor.update(bit);
        }
    }
    encoder.encode_rare_event(true);
}

/// `step` is called before every decoded bit; `sink` gets every byte.
pub fn decompress_from(
    reader: &mut dyn Read,
    limits: Limits,
    luts: &LookUpTables,
    cap: usize,
    step: &mut dyn FnMut(usize, u32),
    sink: &mut dyn FnMut(u8),
) {
    let mut predictor = new_predictor(limits, luts);
    let mut decoder = Decoder::new(reader);
    let mut n = 0;
    let mut count = 0;
    while count < cap && !decoder.decode_rare_event() {
        predictor.start_new_byte();
        let mut byte = 0u8;
        for _ in 0..8 {
            let p = predictor.predict();
            step(n, p.raw());
            n += 1;
            let bit = decoder.decode_bit(p);
            byte = (byte << 1) | bit.to_u8();
            predictor.update(bit);
        }
        sink(byte);
        count += 1;
    }
}

pub struct Decompressed {
    pub output: Vec<u8>,
    /// bytes consumed when the output byte was complete
    pub consumed_at_byte: Vec<usize>,
    pub events: Vec<Event>,
    pub failure: Option<Caught>,
}

pub fn decompress(reader: &mut SimReader, limits: Limits, luts: &LookUpTables, cap: usize) -> Decompressed {
    struct Counting<'a>(&'a mut SimReader, std::rc::Rc<std::cell::Cell<usize>>);
    impl<'a> Read for Counting<'a> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let r = self.0.read(buf);
            self.1.set(self.0.pos);
            r
        }
    }
    let pos = std::rc::Rc::new(std::cell::Cell::new(reader.pos));
    let mut counting = Counting(reader, pos.clone());
    let mut d = Decompressed { output: vec![], consumed_at_byte: vec![], events: vec![], failure: None };
    d.failure = catch(|| {
        let mut predictor = new_predictor(limits, luts);
        let mut decoder = Decoder::new(&mut counting);
        while d.output.len() < cap {
            let end = decoder.decode_rare_event();
            d.events.push(Event::Rare(end));
            if end {
                break;
            }
            predictor.start_new_byte();
            let mut byte = 0u8;
            for _ in 0..8 {
                let p = predictor.predict();
                let bit = decoder.decode_bit(p);
                d.events.push(Event::Bit(p.raw(), bit.is_1()));
                byte = (byte << 1) | bit.to_u8();
                predictor.update(bit);
            }
            d.output.push(byte);
            d.consumed_at_byte.push(pos.get());
        }
    })
    .err();
    d
}

pub fn reencode(events: &[Event]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    {
        let mut encoder = Encoder::new(&mut out);
        for e in events {
            match *e {
                Event::Bit(raw, b) => encoder.encode_bit(prob(raw), b.into()),
                Event::Rare(b) => encoder.encode_rare_event(b),
            }
        }
    }
    out
}
