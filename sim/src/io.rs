//! Simulated byte transports: everything the coder reads from or writes to.

use crate::core::Cx;
use std::io::{Error, ErrorKind, Read, Result, Write};
use std::sync::{Arc, Mutex};

pub const ERROR_KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
];

/// Rates per 1024 calls.
#[derive(Clone, Copy, Default, Debug)]
pub struct Weather {
    pub eintr: usize,
    pub short: usize,
}

impl Weather {
    pub fn draw(cx: &Cx) -> Self {
        let rates = [0, 0, 40, 300, 700];
        Weather { eintr: *cx.pick(&rates), short: *cx.pick(&rates) }
    }
    pub fn is_calm(&self) -> bool {
        self.eintr == 0 && self.short == 0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Refusal {
    /// `Ok(0)` for a non-empty buffer
    Zero,
    Error(ErrorKind),
}

pub fn draw_refusal(cx: &Cx) -> Refusal {
    let k = cx.draw(ERROR_KINDS.len() + 1);
    if k == ERROR_KINDS.len() { Refusal::Zero } else { Refusal::Error(ERROR_KINDS[k]) }
}

/// A writer which may interrupt, shorten and refuse writes.
pub struct SimWriter {
    cx: Cx,
    weather: Weather,
    eintr_in_row: usize,
    pub accepted: Vec<u8>,
    pub calls: u64,
    /// refuse bytes from this offset on
    pub fail_at: Option<usize>,
    pub refusal: Refusal,
    /// how many calls are refused before the writer recovers
    pub refusals_left: u64,
    /// length of the output at the first refusal
    pub refused_at: Option<usize>,
    pub refused_calls: u64,
}

impl SimWriter {
    pub fn new(cx: &Cx, weather: Weather) -> Self {
        SimWriter {
            cx: cx.clone(),
            weather,
            eintr_in_row: 0,
            accepted: Vec::new(),
            calls: 0,
            fail_at: None,
            refusal: Refusal::Zero,
            refusals_left: 0,
            refused_at: None,
            refused_calls: 0,
        }
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.calls += 1;
        self.cx.steps(1);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.eintr_in_row < 3 && self.cx.chance(self.weather.eintr) {
            self.eintr_in_row += 1;
            self.cx.fault("write interrupted");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.eintr_in_row = 0;
        let mut n = buf.len();
        if let Some(fail_at) = self.fail_at {
            if self.accepted.len() >= fail_at {
                if self.refusals_left > 0 {
                    self.refusals_left -= 1;
                    self.refused_calls += 1;
                    self.refused_at.get_or_insert(self.accepted.len());
                    let at = self.accepted.len();
                    let refusal = self.refusal;
                    self.cx.note(|| format!("write refused at offset {} with {:?}", at, refusal));
                    return match self.refusal {
                        Refusal::Zero => {
                            self.cx.fault("write accepts nothing");
                            Ok(0)
                        }
                        Refusal::Error(kind) => {
                            self.cx.fault("write error");
                            Err(Error::from(kind))
                        }
                    };
                }
            } else if self.accepted.len() + n > fail_at {
                n = fail_at - self.accepted.len();
                self.cx.fault("torn write");
            }
        }
        if n > 1 && self.cx.chance(self.weather.short) {
            n = self.cx.range(1, n - 1);
            self.cx.fault("short write");
        }
        self.accepted.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Eof,
    Error(ErrorKind),
}

/// A reader over stored bytes which may interrupt and shorten reads and ends
/// or fails at a chosen offset.
pub struct SimReader {
    cx: Cx,
    weather: Weather,
    eintr_in_row: usize,
    data: Vec<u8>,
    pub pos: usize,
    pub end: End,
    pub calls_after_end: u64,
}

impl SimReader {
    pub fn new(cx: &Cx, weather: Weather, data: Vec<u8>, end: End) -> Self {
        SimReader { cx: cx.clone(), weather, eintr_in_row: 0, data, pos: 0, end, calls_after_end: 0 }
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.cx.steps(1);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.eintr_in_row < 3 && self.cx.chance(self.weather.eintr) {
            self.eintr_in_row += 1;
            self.cx.fault("read interrupted");
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.eintr_in_row = 0;
        let mut n = buf.len().min(self.data.len() - self.pos);
        if n == 0 {
            self.calls_after_end += 1;
            if self.calls_after_end == 1 {
                let (pos, end) = (self.pos, self.end);
                self.cx.note(|| format!("input ends at offset {} with {:?}", pos, end));
            }
            return match self.end {
                End::Eof => {
                    self.cx.fault("end of input");
                    Ok(0)
                }
                End::Error(kind) => {
                    self.cx.fault("read error");
                    Err(Error::from(kind))
                }
            };
        }
        if n > 1 && self.cx.chance(self.weather.short) {
            n = self.cx.range(1, n - 1);
            self.cx.fault("short read");
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A writer handing its bytes out while its owner is still borrowed.
#[derive(Clone, Default)]
pub struct SharedBuf(pub Arc<Mutex<Vec<u8>>>);

impl Write for SharedBuf {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.0.lock().unwrap().extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
