//! C05: the status announcer, driven directly.

use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use futures::stream::Stream;
use futures::task::ArcWake;
use lxi_device::status::{Receiver, Sender};

use crate::rt::*;

struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst)
    }
}

struct Sub {
    rx: Receiver,
    flag: Arc<Flag>,
    /// Everything announced since it exists, and whether it had read everything at that time
    announced: Vec<(u8, bool)>,
    /// Position behind the last value received
    pos: usize,
    /// It has seen that nothing is left
    drained: bool,
    /// It waits to be woken
    parked: bool,
    got: Vec<u8>,
}

impl Sub {
    fn new(s: &mut Sender) -> Sub {
        Sub {
            rx: s.get_new_receiver(),
            flag: Arc::new(Flag(AtomicBool::new(false))),
            announced: Vec::new(),
            pos: 0,
            drained: true,
            parked: false,
            got: Vec::new(),
        }
    }
    fn poll(&mut self) -> Poll<Option<u8>> {
        self.flag.0.store(false, Ordering::SeqCst);
        let w = futures::task::waker(self.flag.clone());
        Pin::new(&mut self.rx).poll_next(&mut Context::from_waker(&w))
    }
    /// Judge a received value
    fn got(&mut self, v: u8, who: usize) -> R {
        self.got.push(v);
        // Skip what it may have missed
        while self.pos < self.announced.len() {
            let (a, must) = self.announced[self.pos];
            self.pos += 1;
            if a == v {
                return Ok(());
            }
            ensure!(
                !must,
                "subscriber {who} had read everything when {a} was announced, but gets {v} next; announced {:?}, got {:?}",
                self.announced, self.got
            );
        }
        viol(format!(
            "subscriber {who} gets {v} which was not announced (again, or in this order): announced {:?}, got {:?}",
            self.announced, self.got
        ))
    }
    fn nothing_left(&mut self, who: usize) -> R {
        if let Some((a, _)) = self.announced[self.pos..].iter().find(|x| x.1) {
            return viol(format!(
                "subscriber {who} kept up when {a} was announced but never gets it: announced {:?}, got {:?}",
                self.announced, self.got
            ));
        }
        self.pos = self.announced.len();
        Ok(())
    }
}

fn history(ctx: &Ctx, rng: &mut Rng) -> R {
    let mut senders = vec![Sender::new()];
    let mut subs: Vec<Option<Sub>> = Vec::new();
    let n = rng.range(10, 120);
    let mut trace = Vec::new();
    let lazy = rng.chance(1, 3);
    // Distinct values let a repeated or reordered value be told apart, equal ones happen too
    let same = rng.chance(1, 4);
    let mut next = rng.u8();
    let mut gone = 0u64;
    let mut lagged = 0u64;
    for _ in 0..n {
        match rng.below(10) {
            0 => {
                let i = rng.below(senders.len());
                let s = Sub::new(&mut senders[i]);
                subs.push(Some(s));
                trace.push(1000);
            }
            1 if rng.chance(1, 2) => {
                let i = rng.below(senders.len());
                let s = senders[i].clone();
                senders.push(s);
                trace.push(1001);
            }
            1 if senders.len() > 1 => {
                let i = rng.below(senders.len());
                senders.remove(i);
                trace.push(1002);
            }
            2 if rng.chance(1, 3) && !subs.is_empty() => {
                let i = rng.below(subs.len());
                subs[i] = None;
                gone += 1;
                trace.push(1003);
            }
            3..=5 => {
                let v = if same { 0x40 } else { next };
                next = next.wrapping_add(1);
                let i = rng.below(senders.len());
                senders[i].send_status(v);
                trace.push(2000 + v as u32);
                for (k, s) in subs.iter_mut().enumerate() {
                    let Some(s) = s else { continue };
                    s.announced.push((v, s.drained));
                    if !s.drained {
                        lagged += 1;
                    }
                    if s.parked && s.drained {
                        ensure!(
                            s.flag.0.load(Ordering::SeqCst),
                            "subscriber {k} waits and is not woken by the announcement of {v}"
                        );
                    }
                    s.parked = false;
                    s.drained = false;
                }
            }
            _ => {
                if subs.is_empty() {
                    continue;
                }
                let k = rng.below(subs.len());
                let all = !lazy || rng.chance(1, 3);
                let Some(s) = &mut subs[k] else { continue };
                trace.push(3000 + k as u32);
                loop {
                    let waits = rng.chance(2, 3);
                    let p = if waits {
                        s.poll()
                    } else {
                        match s.rx.try_next() {
                            Ok(x) => Poll::Ready(x),
                            Err(_) => Poll::Pending,
                        }
                    };
                    match p {
                        Poll::Ready(Some(v)) => s.got(v, k)?,
                        Poll::Ready(None) => {
                            return viol(format!("channel of subscriber {k} is closed although announcers exist"))
                        }
                        Poll::Pending => {
                            s.nothing_left(k)?;
                            s.drained = true;
                            s.parked = waits;
                            break;
                        }
                    }
                    if !all {
                        break;
                    }
                }
            }
        }
    }
    let mut delivered = 0;
    for (k, s) in subs.iter_mut().enumerate() {
        let Some(s) = s else { continue };
        while let Ok(Some(v)) = s.rx.try_next() {
            s.got(v, k)?;
        }
        s.nothing_left(k)?;
        delivered += s.got.len() as u64;
    }
    ctx.count("values delivered", delivered);
    ctx.count("subscribers gone", gone);
    ctx.count("announcements to lagging subscribers", lagged);
    ctx.eval(hash_of(&trace), delivered >= 3, || format!("{} operations, {} subscribers, {delivered} deliveries", trace.len(), subs.len()));
    Ok(())
}

/// Announcers on threads, subscribers on threads
fn concurrent(ctx: &Ctx, rng: &mut Rng) -> R {
    let announcers = rng.range(2, 4);
    let subscribers = rng.range(2, 4);
    let rounds = 300usize;
    let s = Sender::new();
    let gate = AtomicUsize::new(0);
    let total = announcers + subscribers;
    let got: Vec<Mutex<Vec<u8>>> = (0..subscribers).map(|_| Mutex::new(Vec::new())).collect();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let orders = Mutex::new(Vec::new());
    std::thread::scope(|sc| {
        for t in 0..total {
            let (s, gate, got, bad, stop, orders) = (s.clone(), &gate, &got, &bad, &stop, &orders);
            sc.spawn(move || {
                let mut s = s;
                let mut rx = (t >= announcers).then(|| s.get_new_receiver());
                let mut phase = 0;
                let mut barrier = || {
                    phase += 1;
                    gate.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u64;
                    while gate.load(Ordering::SeqCst) < phase * total {
                        std::hint::spin_loop();
                        spins += 1;
                        if spins % 100 == 0 {
                            std::thread::yield_now();
                        }
                    }
                };
                for r in 0..rounds {
                    barrier();
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    // Some subscribers come and go at the same time
                    if let Some(rx) = &mut rx {
                        if r % 3 == t % 3 {
                            drop(s.get_new_receiver());
                        }
                        // Some read while being sent to
                        if (r + t) % 2 == 0 {
                            for _ in 0..50 {
                                if let Ok(Some(v)) = rx.try_next() {
                                    got[t - announcers].lock().unwrap().push(v);
                                }
                            }
                        }
                    } else {
                        s.send_status(t as u8);
                        if r % 2 == 0 {
                            s.send_status(t as u8 | 0x80);
                        }
                    }
                    barrier();
                    if let Some(rx) = &mut rx {
                        while let Ok(Some(v)) = rx.try_next() {
                            got[t - announcers].lock().unwrap().push(v);
                        }
                    }
                    barrier();
                    if t == 0 {
                        let seqs: Vec<Vec<u8>> = got
                            .iter()
                            .map(|g| std::mem::take(&mut *g.lock().unwrap()))
                            .collect();
                        let mut b = None;
                        for (i, q) in seqs.iter().enumerate() {
                            // Everybody had read everything, so the first one reaches all
                            if q.first() != seqs[0].first() || q.is_empty() {
                                b = Some(format!("subscribers which had read everything get different first values: {seqs:x?}"));
                            }
                            for (x, v) in q.iter().enumerate() {
                                if q[..x].contains(v) {
                                    b = Some(format!("subscriber {i} gets {v:#x} twice: {q:x?}"));
                                }
                                if *v & 0x80 != 0 && q[x..].contains(&(v & 0x7f)) {
                                    b = Some(format!("subscriber {i} gets the values of one announcer in the wrong order: {q:x?}"));
                                }
                                if (*v & 0x7f) as usize >= announcers || (*v & 0x80 != 0 && r % 2 != 0) {
                                    b = Some(format!("subscriber {i} gets {v:#x} which was not announced"));
                                }
                            }
                            for o in &seqs[..i] {
                                for (x, v) in q.iter().enumerate() {
                                    for w in &q[x + 1..] {
                                        if let (Some(pv), Some(pw)) = (o.iter().position(|y| y == v), o.iter().position(|y| y == w)) {
                                            if pv > pw {
                                                b = Some(format!("two subscribers see the same values in different orders: {seqs:x?}"));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        orders.lock().unwrap().push(hash_of(&seqs));
                        if b.is_some() {
                            *bad.lock().unwrap() = b;
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                barrier();
            });
        }
    });
    beat();
    if let Some(b) = bad.into_inner().unwrap() {
        return viol(b);
    }
    let o = orders.into_inner().unwrap();
    ctx.count("concurrent rounds", o.len() as u64);
    for h in &o {
        ctx.seen("outcomes of concurrent rounds", *h);
        ctx.eval(*h, true, || format!("{announcers} announcers and {subscribers} subscribers at once"));
    }
    Ok(())
}

/// Subscribers which went away must not be kept for good
fn forgotten(ctx: &Ctx, rng: &mut Rng) -> R {
    let mut s = Sender::new();
    let mut keep = s.get_new_receiver();
    let cycle = |s: &mut Sender, keep: &mut Receiver, n: usize, read: bool| -> R {
        let mut v: Vec<_> = (0..n).map(|_| s.get_new_receiver()).collect();
        if read {
            s.send_status(1);
            ensure!(matches!(keep.try_next(), Ok(Some(1))), "subscriber lost a value while others come and go");
            for r in v.iter_mut() {
                ensure!(matches!(r.try_next(), Ok(Some(1))), "a new subscriber does not get the value");
            }
        }
        drop(v);
        s.send_status(7);
        ensure!(matches!(keep.try_next(), Ok(Some(7))), "subscriber lost a value while others come and go");
        Ok(())
    };
    let n = rng.range(20, 60);
    for _ in 0..10 {
        cycle(&mut s, &mut keep, n, true)?;
    }
    let before = live_bytes();
    let cycles = 6000 / n;
    for i in 0..cycles {
        cycle(&mut s, &mut keep, n, i % 2 == 0)?;
    }
    let grown = live_bytes().saturating_sub(before);
    ctx.count("subscribers created and dropped", (cycles * n) as u64);
    ctx.eval(hash_of(&n), true, || format!("{cycles} times {n} subscribers dropped, heap grew by {grown} bytes"));
    ensure!(
        grown < (cycles * n) as u64 * 40,
        "after {} subscribers went away the heap has grown by {grown} bytes",
        cycles * n
    );
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("random histories of announcements through clones, subscriptions, departures and reads, each delivery compared with a model of who had read everything; concurrent rounds compared across subscribers; heap watched while subscribers come and go. Non-trivial: at least three deliveries, or a concurrent round");
    ctx.cases("forgotten", ctx.n(4, 40), 20, |r, _| forgotten(ctx, r));
    ctx.cases_par("history", ctx.n(60_000, 2_000_000), ctx.n(20, 240) as u64, 4, |r, _| history(ctx, r));
    ctx.cases_par("crowd", ctx.n(40, 600), ctx.n(6, 100) as u64, 4, |r, _| super::crowd::status_case(ctx, r));
    ctx.cases("concurrent", ctx.n(40, 800), ctx.n(20, 240) as u64, |r, _| concurrent(ctx, r));
    ctx.cases("long", 1, 60, |_, _| super::long::status(ctx));
}
