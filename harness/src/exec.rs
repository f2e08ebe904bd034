//! A deterministic executor: tasks are polled one at a time, only when woken, in an order
//! chosen by a random generator, so every schedule can be replayed and a task which nobody
//! wakes is noticed exactly.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use futures::io::{AsyncRead, AsyncWrite};
use futures::task::ArcWake;
use futures::Future;

use crate::rt::Rng;

pub struct Flag(AtomicBool);

impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst)
    }
}

pub struct Task<'a> {
    fut: Option<Pin<Box<dyn Future<Output = ()> + 'a>>>,
    flag: Arc<Flag>,
}

#[derive(Default)]
pub struct Exec<'a> {
    pub tasks: Vec<Task<'a>>,
    pub polls: u64,
}

impl<'a> Exec<'a> {
    pub fn new() -> Self {
        Exec {
            tasks: Vec::new(),
            polls: 0,
        }
    }
    pub fn spawn(&mut self, f: impl Future<Output = ()> + 'a) -> usize {
        self.tasks.push(Task {
            fut: Some(Box::pin(f)),
            flag: Arc::new(Flag(AtomicBool::new(true))),
        });
        self.tasks.len() - 1
    }
    pub fn alive(&self, i: usize) -> bool {
        self.tasks[i].fut.is_some()
    }
    pub fn cancel(&mut self, i: usize) {
        self.tasks[i].fut = None;
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.tasks.len())
            .filter(|&i| self.tasks[i].fut.is_some() && self.tasks[i].flag.0.load(Ordering::SeqCst))
            .collect()
    }
    /// Poll one task, true if it is done
    pub fn poll(&mut self, i: usize) -> bool {
        let t = &mut self.tasks[i];
        t.flag.0.store(false, Ordering::SeqCst);
        let w = futures::task::waker(t.flag.clone());
        let mut cx = Context::from_waker(&w);
        self.polls += 1;
        if let Some(f) = t.fut.as_mut() {
            if f.as_mut().poll(&mut cx).is_ready() {
                t.fut = None;
                return true;
            }
        }
        false
    }
    /// Poll one random woken task, false if there is none
    pub fn step(&mut self, rng: &mut Rng) -> Option<usize> {
        let r = self.runnable();
        if r.is_empty() {
            return None;
        }
        let i = *rng.pick(&r);
        self.poll(i);
        Some(i)
    }
    /// Run until nothing is woken
    pub fn settle(&mut self, rng: &mut Rng, max: usize) -> bool {
        for _ in 0..max {
            if self.step(rng).is_none() {
                return true;
            }
        }
        false
    }
}

// ---------------------------------------------------------------- pipes

#[derive(Default)]
pub struct PipeState {
    /// Segments which are delivered to the reader one read at a time
    pub input: VecDeque<Vec<u8>>,
    pub eof: bool,
    pub read_err: bool,
    rd_waker: Option<Waker>,
    /// What was written
    pub out: Vec<u8>,
    /// How many more bytes may be written
    pub credit: usize,
    pub max_write: usize,
    wr_waker: Option<Waker>,
    pub reads: u64,
    pub max_read: usize,
    pub closed: bool,
}

/// In memory connection seen from the server side
#[derive(Clone)]
pub struct Pipe(pub Rc<RefCell<PipeState>>);

impl Pipe {
    pub fn new() -> Self {
        Pipe(Rc::new(RefCell::new(PipeState {
            credit: usize::MAX,
            max_write: usize::MAX,
            ..Default::default()
        })))
    }
    pub fn feed(&self, seg: &[u8]) {
        if seg.is_empty() {
            return;
        }
        let mut s = self.0.borrow_mut();
        s.input.push_back(seg.to_vec());
        if let Some(w) = s.rd_waker.take() {
            w.wake()
        }
    }
    pub fn close(&self) {
        let mut s = self.0.borrow_mut();
        s.eof = true;
        if let Some(w) = s.rd_waker.take() {
            w.wake()
        }
    }
    pub fn error(&self) {
        let mut s = self.0.borrow_mut();
        s.read_err = true;
        if let Some(w) = s.rd_waker.take() {
            w.wake()
        }
    }
    pub fn add_credit(&self, n: usize) {
        let mut s = self.0.borrow_mut();
        s.credit = s.credit.saturating_add(n);
        if let Some(w) = s.wr_waker.take() {
            w.wake()
        }
    }
    pub fn out(&self) -> Vec<u8> {
        self.0.borrow().out.clone()
    }
}

impl AsyncRead for Pipe {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if let Some(mut seg) = s.input.pop_front() {
            let n = seg.len().min(buf.len());
            buf[..n].copy_from_slice(&seg[..n]);
            if n < seg.len() {
                let rest = seg.split_off(n);
                s.input.push_front(rest);
            }
            s.reads += 1;
            s.max_read = s.max_read.max(n);
            return Poll::Ready(Ok(n));
        }
        if s.read_err {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if s.eof {
            return Poll::Ready(Ok(0));
        }
        s.rd_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl AsyncWrite for Pipe {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let mut s = self.0.borrow_mut();
        let n = buf.len().min(s.credit).min(s.max_write);
        if n == 0 && !buf.is_empty() {
            s.wr_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        s.out.extend_from_slice(&buf[..n]);
        if s.credit != usize::MAX {
            s.credit -= n;
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.borrow_mut().closed = true;
        Poll::Ready(Ok(()))
    }
}
