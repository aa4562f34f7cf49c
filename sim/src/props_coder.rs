//! C01..C05: the entropy coder between faulty transports.

use crate::core::*;
use crate::ensure;
use crate::gen::*;
use crate::io::*;
use crate::model_codec as mc;
use crate::sched::*;
use demixer::coding::decoder::Decoder;
use demixer::coding::encoder::Encoder;
use std::io::{Read, Write};

fn plain(events: &[Event]) -> Result<Vec<u8>, Viol> {
    must("encoder failed without any fault", || encode_plain(events))
}

/// Lengths of the complete streams of all prefixes that are asked for.
fn stream_len(events: &[Event]) -> Result<usize, Viol> {
    Ok(plain(events)?.len())
}

pub fn c01(cx: &Cx) -> Res {
    let max = *cx.pick(&[60, 400, 3000]);
    let events = match cx.draw(8192) {
        8190 => events(cx, 100_000),
        8191 => carry_chain(cx),
        _ => events(cx, max),
    };
    cx.note(|| format!("events: {}", describe(&events)));
    let reference = plain(&events)?;
    if reference.windows(4).any(|w| w == [0, 0, 0, 0] || w == [255, 255, 255, 255]) {
        cx.probe("carry or 0xff run of 4 or more bytes in the stream");
    }
    let capacity = *cx.pick(&[4096, 64, 8, 3, 2, 1]);
    let pipe = Pipe::new(capacity);
    let (w1, w2) = (Weather::draw(cx), Weather::draw(cx));
    let (y1, y2) = (*cx.pick(&[0, 50, 500]), *cx.pick(&[0, 50, 500]));
    cx.note(|| format!("pipe capacity {}, writer {:?}, reader {:?}", capacity, w1, w2));
    let events_ref = &events;
    let pipe_w = pipe.clone();
    let pipe_r = pipe.clone();
    let (cx1, cx2) = (cx.clone(), cx.clone());
    let tasks: Vec<Box<dyn FnOnce(Me) -> Result<Vec<Event>, Caught> + Send>> = vec![
        Box::new(move |me| {
            let mut end = PipeEnd {
                pipe: pipe_w, me, cx: cx1, weather: w1, yield_rate: y1, eintr_in_row: 0, is_writer: true,
            };
            let result = catch(|| {
                let mut encoder = Encoder::new(&mut end);
                for &event in events_ref {
                    encode_event(&mut encoder, event);
                }
            });
            end.close();
            result.map(|_| Vec::new())
        }),
        Box::new(move |me| {
            let mut end = PipeEnd {
                pipe: pipe_r, me, cx: cx2, weather: w2, yield_rate: y2, eintr_in_row: 0, is_writer: false,
            };
            catch(|| {
                let mut out = Vec::new();
                let mut decoder = Decoder::new(&mut end);
                for &event in events_ref {
                    out.push(decode_event(&mut decoder, event));
                }
                out
            })
        }),
    ];
    let outcome = Sched::run(cx, tasks);
    cx.steps(events.len() as u64 * 2);
    ensure!(!outcome.stalled, "stall", "encoder and decoder wait for each other forever");
    let mut results = outcome.results.into_iter();
    let encoded = results.next().unwrap().and_then(|r| r);
    let decoded = results.next().unwrap().and_then(|r| r);
    let state = pipe.0.lock().unwrap();
    if let Err(c) = encoded {
        return Err(c.to_viol("encoder failed although the transport kept going"));
    }
    ensure!(
        state.written == reference,
        "delivered bytes depend on the transport",
        "fault-free {} but delivered {}", short(&reference), short(&state.written)
    );
    let decoded = match decoded {
        Ok(d) => d,
        Err(c) => return Err(c.to_viol("decoder failed although the transport kept going")),
    };
    if let Some(i) = (0..events.len()).find(|&i| decoded[i] != events[i]) {
        return viol(
            "decoded event differs",
            format!("event {} of {}: coded {:?}, decoded {:?}", i, events.len(), events[i], decoded[i]),
        );
    }
    let budget = 16 * (reference.len() as u64 + 16);
    ensure!(
        state.calls <= budget,
        "no progress",
        "{} transport calls for {} bytes", state.calls, reference.len()
    );
    if events.len() >= 3 && !(w1.is_calm() && w2.is_calm() && capacity == 4096) {
        cx.nontrivial();
    }
    Ok(())
}

fn decode_counting(reader: &mut SimReader, shapes: &[Event]) -> (Vec<Event>, Vec<usize>, Option<Caught>) {
    // the decoder borrows the reader, so the position is read through a cell
    struct Counting<'a>(&'a mut SimReader, std::rc::Rc<std::cell::Cell<usize>>);
    impl<'a> Read for Counting<'a> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let r = self.0.read(buf);
            self.1.set(self.0.pos);
            r
        }
    }
    let pos = std::rc::Rc::new(std::cell::Cell::new(reader.pos));
    let mut out = Vec::new();
    let mut consumed = Vec::new();
    let mut counting = Counting(reader, pos.clone());
    let failure = catch(|| {
        let mut decoder = Decoder::new(&mut counting);
        consumed.push(pos.get());
        for &shape in shapes {
            let e = decode_event(&mut decoder, shape);
            out.push(e);
            consumed.push(pos.get());
        }
    })
    .err();
    (out, consumed, failure)
}

pub fn c02(cx: &Cx) -> Res {
    let streams: Vec<Vec<Event>> = {
        let n = cx.range(1, 4);
        (0..n).map(|_| events(cx, *cx.pick(&[12, 60, 300]))).collect()
    };
    let variant = cx.draw(3);
    if variant == 2 {
        return c02_conversation(cx, &streams);
    }
    let weather_w = Weather::draw(cx);
    let weather_r = Weather::draw(cx);
    let mut writer = SimWriter::new(cx, weather_w);
    // written streams; a stream may be ended by its owner unwinding
    let mut kept: Vec<Vec<Event>> = Vec::new();
    let mut bounds = Vec::new();
    for (i, events) in streams.iter().enumerate() {
        let cut = if cx.chance(300) { Some(cx.draw(events.len() + 1)) } else { None };
        let upto = cut.unwrap_or(events.len());
        cx.note(|| format!("stream {}: {} {}", i, describe(events),
            cut.map(|c| format!("owner fails after {} events", c)).unwrap_or_default()));
        let start = writer.accepted.len();
        let result = catch(|| {
            let mut encoder = Encoder::new(&mut writer);
            for &event in &events[..upto] {
                encode_event(&mut encoder, event);
            }
            if cut.is_some() {
                std::panic::resume_unwind(Box::new(OwnerFailure));
            }
        });
        match result {
            Ok(()) => (),
            Err(ref c) if c.file == "owner" => {
                cx.fault("stream owner unwinds");
                cx.nontrivial();
            }
            Err(c) => return Err(c.to_viol("encoder failed although the transport kept going")),
        }
        let reference = plain(&events[..upto])?;
        ensure!(
            writer.accepted[start..] == reference[..],
            "stream incomplete or altered",
            "stream {} of {} events occupies {} instead of {}", i, upto,
            short(&writer.accepted[start..]), short(&reference)
        );
        let marker = 0xa0 + i as u8;
        while writer.write(&[marker]).is_err() {}
        kept.push(events[..upto].to_vec());
        bounds.push((start, start + reference.len()));
    }
    let stored = writer.accepted.clone();
    let mut reader = SimReader::new(cx, weather_r, stored, End::Eof);
    for (i, events) in kept.iter().enumerate() {
        let start = reader.pos;
        ensure!(start == bounds[i].0, "harness", "bounds");
        let (out, consumed, failure) = decode_counting(&mut reader, events);
        if let Some(c) = failure {
            return Err(c.to_viol("decoder failed on a complete stream"));
        }
        ensure!(out == *events, "decoded event differs", "stream {} decoded to {}, expected {}", i, describe(&out), describe(events));
        ensure!(
            reader.pos == bounds[i].1,
            "stream end missed",
            "decoding all {} events of stream {} consumed {} bytes of {}", events.len(), i,
            reader.pos - start, bounds[i].1 - start
        );
        let mut ks = vec![0, events.len()];
        for _ in 0..4 {
            ks.push(cx.draw(events.len() + 1));
        }
        for k in ks {
            let expected = stream_len(&events[..k])?;
            ensure!(
                consumed[k] - start == expected,
                "wrong consumption",
                "after {} events {} bytes are consumed, their stream occupies {}", k, consumed[k] - start, expected
            );
        }
        let mut marker = [0u8];
        let r = reader.read_exact(&mut marker);
        ensure!(r.is_ok() && marker[0] == 0xa0 + i as u8, "marker stolen", "marker after stream {}: {:?}", i, marker);
        cx.steps(events.len() as u64 * 2);
    }
    if kept.len() > 1 {
        cx.probe("several streams on one transport");
    }
    if !weather_r.is_calm() || !weather_w.is_calm() {
        cx.nontrivial();
    }
    Ok(())
}

/// A request/answer conversation: the receiver answers after decoding each
/// stream, the sender sends the next one only then, so that reading a single
/// byte too many stalls both.
fn c02_conversation(cx: &Cx, streams: &[Vec<Event>]) -> Res {
    cx.probe("conversation over a pipe");
    let there = Pipe::new(*cx.pick(&[4096, 5, 1]));
    let back = Pipe::new(1);
    let (w1, w2) = (Weather::draw(cx), Weather::draw(cx));
    let yields = *cx.pick(&[0, 100]);
    let mk = |pipe: &Pipe, me: &Me, weather: Weather, is_writer: bool| PipeEnd {
        pipe: pipe.clone(), me: me.clone(), cx: cx.clone(), weather, yield_rate: yields, eintr_in_row: 0, is_writer,
    };
    let mk = &mk;
    let (t1, b1) = (there.clone(), back.clone());
    let (t2, b2) = (there.clone(), back.clone());
    let tasks: Vec<Box<dyn FnOnce(Me) -> Result<bool, Caught> + Send>> = vec![
        Box::new(move |me| {
            let mut out = mk(&t1, &me, w1, true);
            let mut answers = mk(&b1, &me, Weather::default(), false);
            let r = catch(|| {
                for events in streams {
                    let mut encoder = Encoder::new(&mut out);
                    for &event in events {
                        encode_event(&mut encoder, event);
                    }
                    drop(encoder);
                    let mut a = [0u8];
                    if answers.read_exact(&mut a).is_err() {
                        return false;
                    }
                }
                true
            });
            out.close();
            r
        }),
        Box::new(move |me| {
            let mut input = mk(&t2, &me, w2, false);
            let mut answers = mk(&b2, &me, Weather::default(), true);
            let r = catch(|| {
                for events in streams {
                    let mut decoder = Decoder::new(&mut input);
                    let mut ok = true;
                    for &event in events {
                        ok &= decode_event(&mut decoder, event) == event;
                    }
                    if !ok || answers.write_all(&[1]).is_err() {
                        return false;
                    }
                }
                true
            });
            answers.close();
            r
        }),
    ];
    let outcome = Sched::run(cx, tasks);
    ensure!(!outcome.stalled, "stall", "sender and receiver of self-delimiting streams wait for each other forever");
    for r in outcome.results {
        match r.and_then(|r| r) {
            Ok(true) => (),
            Ok(false) => return viol("decoded event differs", "a stream of a conversation was decoded wrongly".into()),
            Err(c) => return Err(c.to_viol("coder failed although the transport kept going")),
        }
    }
    if streams.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}

/// Offsets where failures are interesting: anywhere, the flush at the end,
/// the first bytes, and inside runs of 0x00 or 0xff.
fn draw_offset(cx: &Cx, stream: &[u8]) -> usize {
    match cx.draw(4) {
        0 => cx.draw(stream.len() + 1),
        1 => stream.len() - cx.draw(7).min(stream.len()),
        2 => cx.draw(6).min(stream.len()),
        _ => {
            let runs: Vec<usize> = (1..stream.len())
                .filter(|&i| stream[i] == stream[i - 1] && (stream[i] == 0 || stream[i] == 0xff))
                .collect();
            if runs.is_empty() {
                cx.draw(stream.len() + 1)
            } else {
                cx.probe("failure inside a carry run");
                *cx.pick(&runs)
            }
        }
    }
}

pub fn c03(cx: &Cx) -> Res {
    let with_model = cx.chance(60);
    let events = if with_model {
        let input = bytes(cx, 40);
        let (limits, luts) = (mc::draw_limits(cx), mc::luts());
        must("panic", || mc::model_events(&input, limits, luts))?
    } else {
        events(cx, *cx.pick(&[12, 80, 500]))
    };
    cx.note(|| format!("events: {}", describe(&events)));
    let reference = plain(&events)?;
    let mut writer = SimWriter::new(cx, Weather::draw(cx));
    let faulty = !cx.chance(100);
    if faulty {
        writer.fail_at = Some(draw_offset(cx, &reference));
        writer.refusal = draw_refusal(cx);
        writer.refusals_left = *cx.pick(&[u64::MAX, 1, 2, 7]);
        if writer.refusals_left != u64::MAX {
            cx.probe("transient refusal");
        }
    }
    // the owner may fail on its own as well, or try to carry on
    let owner_fails_at = if cx.chance(200) { Some(cx.draw(events.len() + 1)) } else { None };
    let carries_on = owner_fails_at.is_none() && cx.chance(250);
    let mut seen_failures = 0u64;
    let result = catch(|| {
        let mut encoder = Encoder::new(&mut writer);
        for (i, &event) in events.iter().enumerate() {
            if owner_fails_at == Some(i) {
                std::panic::resume_unwind(Box::new(OwnerFailure));
            }
            if carries_on {
                if catch(|| encode_event(&mut encoder, event)).is_err() {
                    seen_failures += 1;
                }
            } else {
                encode_event(&mut encoder, event);
            }
        }
        if owner_fails_at == Some(events.len()) {
            std::panic::resume_unwind(Box::new(OwnerFailure));
        }
    });
    cx.steps(events.len() as u64);
    let owner_failed = matches!(&result, Err(c) if c.file == "owner");
    if owner_failed {
        cx.fault("stream owner unwinds");
    }
    let out = &writer.accepted;
    let cut = match owner_fails_at {
        Some(k) if owner_failed => plain(&events[..k])?,
        _ => reference.clone(),
    };
    if let Some(at) = writer.refused_at {
        cx.nontrivial();
        if at + 5 >= cut.len() {
            cx.probe("refusal during the final flush");
        }
        ensure!(
            out.len() == at,
            "bytes written after a refusal",
            "output had {} bytes at the refused write and has {} now", at, out.len()
        );
        ensure!(
            out.len() <= cut.len() && out[..] == cut[..out.len()],
            "output is no prefix",
            "output {} is no prefix of {}", short(out), short(&cut)
        );
        ensure!(
            result.is_err() || seen_failures > 0,
            "failure not reported",
            "writing failed at offset {} but the encoder finished without any failure", at
        );
    } else {
        if let Err(c) = &result {
            if !owner_failed {
                return Err(c.to_viol("encoder failed although no write was refused"));
            }
        }
        ensure!(seen_failures == 0, "encoder failed although no write was refused", "{} calls failed", seen_failures);
        ensure!(
            out[..] == cut[..],
            "output incomplete",
            "output {} instead of {}", short(out), short(&cut)
        );
    }
    Ok(())
}

pub fn c04(cx: &Cx) -> Res {
    let with_model = cx.chance(60);
    let events = if with_model {
        let input = bytes(cx, 40);
        let (limits, luts) = (mc::draw_limits(cx), mc::luts());
        must("panic", || mc::model_events(&input, limits, luts))?
    } else {
        events(cx, *cx.pick(&[12, 80, 500]))
    };
    let reference = plain(&events)?;
    cx.note(|| format!("events: {}", describe(&events)));
    // where each event's bytes end, from a fault-free run
    let mut calm = SimReader::new(cx, Weather::default(), reference.clone(), End::Eof);
    let (out, consumed, failure) = decode_counting(&mut calm, &events);
    if let Some(c) = failure {
        return Err(c.to_viol("decoder failed on a complete stream"));
    }
    ensure!(out == events, "decoded event differs", "fault-free decoding gives {}", describe(&out));
    let cut = match cx.draw(2) {
        0 => draw_offset(cx, &reference),
        _ => {
            // right before or after the last byte some event needs
            let c = consumed[cx.draw(consumed.len())];
            (c + 1 - cx.draw(3).min(c + 1)).min(reference.len())
        }
    };
    let end = match cx.draw(ERROR_KINDS.len() + 2) {
        0 | 1 => End::Eof,
        k => End::Error(ERROR_KINDS[k - 2]),
    };
    let weather = Weather::draw(cx);
    cx.note(|| format!("stream of {} bytes cut at {} ({:?}), {:?}", reference.len(), cut, end, weather));
    let mut reader = SimReader::new(cx, weather, reference[..cut].to_vec(), end);
    let (out, _, failure) = decode_counting(&mut reader, &events);
    cx.steps(out.len() as u64);
    let complete = (0..=events.len()).take_while(|&k| consumed[k] <= cut).count();
    // complete counts decoder construction as step 0
    let expected_events = complete.saturating_sub(1);
    if cut < reference.len() {
        cx.nontrivial();
        cx.probe_if(complete == 0, "cut inside the first four bytes");
    }
    if let Some(i) = (0..out.len()).find(|&i| out[i] != events[i]) {
        return viol("wrong event", format!("input cut at {}: event {} decoded as {:?} instead of {:?}", cut, i, out[i], events[i]));
    }
    if consumed[events.len()] <= cut {
        if let Some(c) = failure {
            return Err(c.to_viol("decoder failed although all bytes were delivered"));
        }
    } else {
        ensure!(
            out.len() <= expected_events,
            "event returned without its bytes",
            "input of {} bytes ended at {}, {} events need it no further, yet {} were returned",
            reference.len(), cut, expected_events, out.len()
        );
        ensure!(failure.is_some(), "missing input not reported", "input cut at {}", cut);
    }
    ensure!(
        out.len() >= expected_events,
        "event lost",
        "input cut at {}: {} events had all their bytes, only {} were decoded", cut, expected_events, out.len()
    );
    Ok(())
}

fn corrupt(cx: &Cx, stream: &[u8]) -> Vec<u8> {
    let mut data = stream.to_vec();
    let n = cx.range(1, 4);
    for _ in 0..n {
        if data.is_empty() {
            break;
        }
        let at = if cx.chance(250) { cx.draw(data.len().min(8)) } else { cx.draw(data.len()) };
        match cx.draw(9) {
            0 => {
                data[at] ^= 1 << cx.draw(8);
                cx.fault("bit flipped");
            }
            1 => {
                data[at] = *cx.pick(&[0x00, 0xff, 0x80, 0x7f]);
                cx.fault("byte overwritten");
            }
            2 => {
                data.remove(at);
                cx.fault("byte lost");
            }
            3 => {
                data.insert(at, cx.draw(256) as u8);
                cx.fault("byte inserted");
            }
            4 => {
                let len = (1 + cx.draw(16)).min(data.len() - at);
                let block = data[at..at + len].to_vec();
                let mut tail = data.split_off(at);
                data.extend(block);
                data.append(&mut tail);
                cx.fault("block duplicated");
            }
            5 => {
                let len = (1 + cx.draw(16)).min((data.len() - at) / 2);
                for i in 0..len {
                    data.swap(at + i, at + len + i);
                }
                cx.fault("blocks reordered");
            }
            6 => {
                for b in data[at..].iter_mut().take(1 + cx.draw(32)) {
                    *b = 0xff;
                }
                cx.fault("block of 0xff");
            }
            7 => {
                for b in data[at..].iter_mut().take(1 + cx.draw(32)) {
                    *b = 0;
                }
                cx.fault("block of 0x00");
            }
            _ => {
                let mut rng = crate::tape::Rng::new(cx.seed());
                for b in data[at..].iter_mut() {
                    *b = rng.next() as u8;
                }
                cx.fault("tail forged");
            }
        }
    }
    data
}

pub fn c05(cx: &Cx) -> Res {
    if cx.chance(250) {
        return c05_decompressor(cx);
    }
    let events = events(cx, *cx.pick(&[12, 80, 500]));
    let reference = plain(&events)?;
    let mut data = corrupt(cx, &reference);
    let first_bad = (0..reference.len()).find(|&i| data.get(i) != Some(&reference[i])).unwrap_or(reference.len());
    cx.note(|| format!("events: {}; first corrupted offset {}", describe(&events), first_bad));
    let truncated = cx.chance(100);
    if !truncated {
        let mut rng = crate::tape::Rng::new(cx.seed());
        let filler = cx.draw(3);
        for _ in 0..events.len() * 4 + 16 {
            data.push(match filler { 0 => 0, 1 => 0xff, _ => rng.next() as u8 });
        }
    }
    let total = data.len();
    let mut reader = SimReader::new(cx, Weather::draw(cx), data, End::Eof);
    let (out, consumed, failure) = decode_counting(&mut reader, &events);
    cx.steps(out.len() as u64);
    if first_bad < reference.len() {
        cx.nontrivial();
    }
    if let Some(c) = failure {
        if !(truncated && reader.pos == total) {
            return Err(c.to_viol("decoder failed on corrupted bytes"));
        }
    } else {
        ensure!(out.len() == events.len(), "harness", "events");
    }
    for i in 0..out.len() {
        if consumed[i + 1] <= first_bad {
            ensure!(
                out[i] == events[i],
                "event before the corruption is wrong",
                "event {} decoded from {} bytes, corruption starts at {}: {:?} instead of {:?}",
                i, consumed[i + 1], first_bad, out[i], events[i]
            );
        }
    }
    let mut ks = vec![out.len()];
    for _ in 0..3 {
        ks.push(cx.draw(out.len() + 1));
    }
    for k in ks {
        if k >= consumed.len() {
            continue;
        }
        let expected = stream_len(&out[..k])?;
        ensure!(
            consumed[k] == expected,
            "wrong consumption",
            "the {} returned events occupy {} bytes in a valid stream, {} were consumed", k, expected, consumed[k]
        );
    }
    Ok(())
}

fn c05_decompressor(cx: &Cx) -> Res {
    let input = bytes(cx, 60);
    let limits = mc::draw_limits(cx);
    let luts = mc::luts();
    let stream = must("panic", || mc::compress(&input, limits, luts))?;
    let mut data = corrupt(cx, &stream);
    let first_bad = (0..stream.len()).find(|&i| data.get(i) != Some(&stream[i])).unwrap_or(stream.len());
    let mut rng = crate::tape::Rng::new(cx.seed());
    let cap = input.len() * 2 + 40;
    if !cx.chance(100) {
        data.extend((0..cap * 40).map(|_| rng.next() as u8));
    }
    let total = data.len();
    cx.note(|| format!("input {} limits {:?} first corrupted offset {}", short(&input), limits, first_bad));
    let mut reader = SimReader::new(cx, Weather::draw(cx), data, End::Eof);
    let d = mc::decompress(&mut reader, limits, luts, cap);
    cx.steps(d.output.len() as u64 * 8);
    if first_bad < stream.len() {
        cx.nontrivial();
        cx.probe("decompressor fed corrupted stream");
    }
    if let Some(c) = d.failure {
        if reader.pos < total {
            return Err(c.to_viol("decompressor failed on corrupted bytes"));
        }
        return Ok(());
    }
    for (i, &used) in d.consumed_at_byte.iter().enumerate() {
        if used <= first_bad {
            ensure!(
                i < input.len() && d.output[i] == input[i],
                "byte before the corruption is wrong",
                "byte {} was decoded from {} bytes, corruption starts at {}", i, used, first_bad
            );
        }
    }
    let expected = stream_len(&d.events)?;
    ensure!(
        reader.pos == expected,
        "wrong consumption",
        "the returned events occupy {} bytes in a valid stream, {} were consumed", expected, reader.pos
    );
    Ok(())
}

/// Bits an event may cost at least and at most: its information, give or take
/// what is lost by counting in parts of 2^-23, the precision of probabilities.
fn event_cost(event: Event) -> (f64, f64) {
    const ONE: f64 = PROB_ONE as f64;
    match event {
        // the range lies between 2^23 and 2^31; a rare event leaves 1 of it
        Event::Rare(true) => (23.0, 31.0),
        Event::Rare(false) => (0.0, (ONE / (ONE - 1.0)).log2()),
        // the share of a zero is rounded down, what is left goes to the one
        Event::Bit(raw, false) => {
            let (p, ideal) = (raw as f64, (ONE / raw as f64).log2());
            (ideal, ideal + ((p + 1.0) / p).log2())
        }
        Event::Bit(raw, true) => {
            let (p, ideal) = (ONE - raw as f64, (ONE / (ONE - raw as f64)).log2());
            (ideal - ((p + 1.0) / p).log2(), ideal)
        }
    }
}

pub fn c08(cx: &Cx) -> Res {
    let events = match cx.draw(1024) {
        1000..=1021 => events(cx, 60_000),
        1022 if cx.chance(128) => events(cx, 2_000_000),
        1023 => carry_chain(cx),
        _ => events(cx, *cx.pick(&[12, 60, 400, 3000])),
    };
    cx.note(|| format!("events: {}", describe(&events)));
    let weather = Weather::draw(cx);
    let mut writer = SimWriter::new(cx, weather);
    let mut unwinds_at = events.len();
    if cx.chance(200) {
        unwinds_at = cx.draw(events.len() + 1);
        cx.fault("owner unwinds");
    }
    let result = catch(|| {
        let mut encoder = Encoder::new(&mut writer);
        for &event in &events[..unwinds_at] {
            encode_event(&mut encoder, event);
        }
        if unwinds_at < events.len() {
            std::panic::resume_unwind(Box::new(OwnerFailure));
        }
    });
    if unwinds_at == events.len() {
        result.map_err(|c| c.to_viol("encoder failed without any lasting fault"))?;
    }
    let (mut least, mut most) = (0.0, 0.0);
    for &event in &events[..unwinds_at] {
        let (lo, hi) = event_cost(event);
        least += lo;
        most += hi;
    }
    let bits = writer.accepted.len() as f64 * 8.0;
    cx.steps(unwinds_at as u64);
    // ending a stream takes up to five bytes
    ensure!(
        bits <= most + 40.0 + 1e-6 * most,
        "stream too long",
        "{} bits written for {} events that cost at most {:.3} bits", bits, unwinds_at, most
    );
    // and the range that is left is worth 31 bits at most
    ensure!(
        bits >= least - 1e-6 * least,
        "stream too short",
        "{} bits written for {} events that cost at least {:.3} bits", bits, unwinds_at, least
    );
    cx.probe_if(bits > most + 31.9, "close to the upper bound");
    cx.probe_if(bits < least + 1.1, "close to the lower bound");
    if unwinds_at >= 3 {
        cx.nontrivial();
    }
    Ok(())
}
