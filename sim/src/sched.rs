//! Baton scheduler: real threads used as coroutines. Exactly one of them runs
//! at any time and the choice tape decides which; when none can run although
//! some have not finished, the run is stalled and every blocked call fails.

use crate::core::{catch, Caught, Cx};
use std::io::{Error, ErrorKind, Read, Result as IoResult, Write};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}

struct Inner {
    states: Vec<St>,
    current: usize,
    stalled: bool,
}

#[derive(Clone)]
pub struct Sched {
    inner: Arc<(Mutex<Inner>, Condvar)>,
    cx: Cx,
}

#[derive(Clone)]
pub struct Me {
    sched: Sched,
    id: usize,
}

pub struct Outcome<R> {
    pub results: Vec<Result<R, Caught>>,
    pub stalled: bool,
}

impl Sched {
    pub fn run<'e, R: Send>(
        cx: &Cx,
        tasks: Vec<Box<dyn FnOnce(Me) -> R + Send + 'e>>,
    ) -> Outcome<R> {
        let n = tasks.len();
        let sched = Sched {
            inner: Arc::new((
                Mutex::new(Inner { states: vec![St::Ready; n], current: usize::MAX, stalled: false }),
                Condvar::new(),
            )),
            cx: cx.clone(),
        };
        let mut results = Vec::new();
        std::thread::scope(|scope| {
            let mut handles = Vec::new();
            for (id, task) in tasks.into_iter().enumerate() {
                let me = Me { sched: sched.clone(), id };
                handles.push(
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(scope, move || {
                            me.wait_for_turn();
                            let me2 = me.clone();
                            let result = catch(move || task(me2));
                            me.finish();
                            result
                        })
                        .expect("spawn"),
                );
            }
            {
                let mut inner = sched.inner.0.lock().unwrap();
                sched.choose(&mut inner);
                sched.inner.1.notify_all();
            }
            for handle in handles {
                match handle.join() {
                    Ok(result) => results.push(result),
                    Err(payload) => std::panic::resume_unwind(payload),
                }
            }
        });
        let stalled = sched.inner.0.lock().unwrap().stalled;
        Outcome { results, stalled }
    }

    fn choose(&self, inner: &mut Inner) {
        let ready: Vec<usize> =
            (0..inner.states.len()).filter(|&i| inner.states[i] == St::Ready).collect();
        if !ready.is_empty() {
            let next = ready[self.cx.draw(ready.len())];
            if next != inner.current {
                self.cx.switched(next);
            }
            inner.current = next;
            return;
        }
        // nobody is ready: either all done or stalled
        if let Some(first) = inner.states.iter().position(|s| *s == St::Blocked) {
            inner.stalled = true;
            for s in inner.states.iter_mut() {
                if *s == St::Blocked {
                    *s = St::Ready;
                }
            }
            inner.current = first;
        }
    }
}

impl Me {
    fn wait_for_turn(&self) {
        let (lock, cv) = &*self.sched.inner;
        let mut inner = lock.lock().unwrap();
        while inner.current != self.id {
            inner = cv.wait(inner).unwrap();
        }
    }
    fn switch(&self, state: St) {
        let (lock, cv) = &*self.sched.inner;
        let mut inner = lock.lock().unwrap();
        inner.states[self.id] = state;
        self.sched.choose(&mut inner);
        cv.notify_all();
        if state != St::Done {
            while inner.current != self.id {
                inner = cv.wait(inner).unwrap();
            }
        }
    }
    fn finish(&self) {
        self.switch(St::Done)
    }
    pub fn yield_now(&self) {
        self.switch(St::Ready)
    }
    /// Gives up the turn until someone calls `wake_all`; true if stalled.
    pub fn block(&self) -> bool {
        if self.stalled() {
            return true;
        }
        self.switch(St::Blocked);
        self.stalled()
    }
    pub fn wake_all(&self) {
        let mut inner = self.sched.inner.0.lock().unwrap();
        for s in inner.states.iter_mut() {
            if *s == St::Blocked {
                *s = St::Ready;
            }
        }
    }
    pub fn stalled(&self) -> bool {
        self.sched.inner.0.lock().unwrap().stalled
    }
}

/// A bounded pipe between two scheduled threads.
pub struct PipeState {
    buf: std::collections::VecDeque<u8>,
    capacity: usize,
    closed: bool,
    pub written: Vec<u8>,
    pub read_count: usize,
    pub calls: u64,
}

#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<PipeState>>);

pub struct PipeEnd {
    pub pipe: Pipe,
    pub me: Me,
    pub cx: Cx,
    pub weather: crate::io::Weather,
    /// a context switch may be taken at every call with this rate
    pub yield_rate: usize,
    pub eintr_in_row: usize,
    pub is_writer: bool,
}

impl Pipe {
    pub fn new(capacity: usize) -> Self {
        Pipe(Arc::new(Mutex::new(PipeState {
            buf: Default::default(),
            capacity,
            closed: false,
            written: Vec::new(),
            read_count: 0,
            calls: 0,
        })))
    }
}

impl PipeEnd {
    fn before(&mut self, buf_len: usize) -> Option<IoResult<usize>> {
        self.cx.steps(1);
        self.pipe.0.lock().unwrap().calls += 1;
        if buf_len == 0 {
            return Some(Ok(0));
        }
        if self.cx.chance(self.yield_rate) {
            self.me.yield_now();
        }
        if self.eintr_in_row < 3 && self.cx.chance(self.weather.eintr) {
            self.eintr_in_row += 1;
            self.cx.fault(if self.is_writer { "write interrupted" } else { "read interrupted" });
            return Some(Err(Error::from(ErrorKind::Interrupted)));
        }
        self.eintr_in_row = 0;
        None
    }
    pub fn close(&self) {
        self.pipe.0.lock().unwrap().closed = true;
        self.me.wake_all();
    }
}

impl Write for PipeEnd {
    fn write(&mut self, buf: &[u8]) -> IoResult<usize> {
        if let Some(result) = self.before(buf.len()) {
            return result;
        }
        loop {
            {
                let mut p = self.pipe.0.lock().unwrap();
                let space = p.capacity - p.buf.len();
                if space > 0 {
                    let mut n = buf.len().min(space);
                    if n < buf.len() {
                        self.cx.fault("short write");
                    } else if n > 1 && self.cx.chance(self.weather.short) {
                        n = self.cx.range(1, n - 1);
                        self.cx.fault("short write");
                    }
                    p.buf.extend(&buf[..n]);
                    p.written.extend_from_slice(&buf[..n]);
                    drop(p);
                    self.me.wake_all();
                    return Ok(n);
                }
            }
            self.cx.fault("writer stalled by back-pressure");
            if self.me.block() {
                return Err(Error::from(ErrorKind::BrokenPipe));
            }
        }
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}

impl Read for PipeEnd {
    fn read(&mut self, buf: &mut [u8]) -> IoResult<usize> {
        if let Some(result) = self.before(buf.len()) {
            return result;
        }
        loop {
            {
                let mut p = self.pipe.0.lock().unwrap();
                if !p.buf.is_empty() {
                    let mut n = buf.len().min(p.buf.len());
                    if n > 1 && self.cx.chance(self.weather.short) {
                        n = self.cx.range(1, n - 1);
                        self.cx.fault("short read");
                    }
                    for b in buf[..n].iter_mut() {
                        *b = p.buf.pop_front().unwrap();
                    }
                    p.read_count += n;
                    drop(p);
                    self.me.wake_all();
                    return Ok(n);
                }
                if p.closed {
                    return Ok(0);
                }
            }
            self.cx.fault("reader delayed");
            if self.me.block() {
                return Ok(0);
            }
        }
    }
}
