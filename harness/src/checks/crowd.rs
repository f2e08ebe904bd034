//! Many of everything: numbers beyond what a byte, a table or a 16 bit number holds.
//! Sections `crowd` of C01, C03, C05, C13, C14, C16, C19 and C20.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::net::{Ipv4Addr, TcpListener};
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

use futures::FutureExt;
use lxi_device::lock::{LockHandle, Mutex, RemoteLockHandle, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;

use super::lock::{Kind, Model};
use crate::dev::Unit;
use crate::exec::Exec;
use crate::hislip::{self, Hs};
use crate::net;
use crate::rt::*;
use crate::vxi::{self, call_msg, e, p, read_reply, record, Rd, Rpc, Vxi, X, ABORT, CORE};

/// Descriptors which may be open at once
fn descriptors() -> usize {
    std::fs::read_to_string("/proc/self/limits")
        .ok()
        .and_then(|s| {
            s.lines()
                .find(|l| l.starts_with("Max open files"))
                .and_then(|l| l.split_whitespace().nth(3).map(|n| n.parse().unwrap_or(usize::MAX)))
        })
        .unwrap_or(1024)
}

// ---------------------------------------------------------------- the lock

/// Keys which are nearly the same
fn keys(rng: &mut Rng) -> Vec<Vec<u8>> {
    let n = *rng.pick(&[1usize, 7, 8, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000, 5000]);
    let mut a = rng.bytes(n);
    if rng.chance(1, 2) {
        a.iter_mut().for_each(|c| *c = b"AbcDEfgh"[*c as usize % 8]);
    }
    let mut b = a.clone();
    *b.last_mut().unwrap() ^= 1 << rng.below(8);
    let mut c = a.clone();
    c.push(rng.u8());
    let mut d = a.clone();
    let x = rng.below(d.len());
    d[x] = d[x].wrapping_add(1);
    let mut f = a.clone();
    f.reverse();
    let mut g = a.clone();
    g.push(0);
    let mut u = a.clone();
    u.iter_mut().for_each(|c| if c.is_ascii_alphabetic() { *c ^= 0x20 });
    let mut h = a.clone();
    h.insert(0, b' ');
    let mut i = a.clone();
    i.push(b' ');
    let mut v = vec![a, b, c, d, f, g, u, h, i];
    v.dedup();
    v
}

pub fn lock_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[3usize, 40, 200, 257, 300, 520, 1100]);
    let parent = SharedLock::new();
    let dev = Arc::new(Mutex::new(0u32));
    let keys = keys(rng);
    let mut h: Vec<Option<LockHandle<u32>>> = (0..n).map(|_| None).collect();
    let mut m = Model::default();
    let mut most = 0;
    let mut refused = 0u64;
    let up = rng.range(2, 9);
    for step in 0..4 * n {
        let i = if step < n { step } else { rng.below(n) };
        let x = h[i].get_or_insert_with(|| LockHandle::new(parent.clone(), dev.clone()));
        // Grows and shrinks in turns
        let grows = (step / (n.max(8))) % 2 == 0;
        match rng.below(10) {
            k if k < if grows { up } else { 2 } => {
                let key = &keys[if rng.chance(5, 6) { 0 } else { rng.below(keys.len()) }];
                let kind = Kind::Shared(key.clone());
                let want = m.grantable(i, &kind);
                let has = m.holds_kind(i, &kind);
                let got = if rng.chance(1, 2) {
                    x.try_acquire_shared(key).is_ok()
                } else {
                    x.try_acquire(key).is_ok()
                };
                ensure!(
                    got == want || (has && !got),
                    "client {i} of {n} asks to share with a key of {} bytes: granted {got}, must be {want} ({} share)",
                    key.len(),
                    m.shared.len()
                );
                if got {
                    m.grant(i, &kind);
                } else {
                    refused += 1;
                }
            }
            9 if m.excl.is_some() && rng.chance(1, 2) => {
                // Whoever holds it exclusively releases
                let i = m.excl.unwrap();
                let ok = h[i].as_mut().unwrap().try_release().is_ok();
                ensure!(ok, "client {i} of {n} cannot release");
                m.release(i);
            }
            9 if rng.chance(1, 4) => {
                let want = m.grantable(i, &Kind::Excl);
                let got = x.try_acquire_exclusive().is_ok();
                ensure!(
                    got == want || (m.excl == Some(i) && !got),
                    "client {i} of {n} asks for exclusive use: granted {got}, must be {want}; {} share, exclusive {:?}",
                    m.shared.len(),
                    m.excl
                );
                if got {
                    m.grant(i, &Kind::Excl);
                } else {
                    refused += 1;
                }
            }
            0..=7 if !grows => {
                let held = m.holds_any(i);
                if rng.chance(1, 2) {
                    let got = x.try_release().is_ok();
                    ensure!(got == held, "client {i} of {n} releases: {got}, must be {held}");
                } else if rng.chance(1, 2) {
                    x.force_release();
                } else {
                    h[i] = None;
                }
                m.release(i);
            }
            _ => {
                // With an exclusive lock of another nobody gets at the device
                let got = x.try_lock().is_ok();
                let want = m.permitted(i);
                ensure!(got == want, "client {i} of {n} uses the device: {got}, must be {want}");
            }
        }
        most = most.max(m.shared.len());
        let info = {
            let l = parent.lock();
            (l.exclusive_lock(), l.num_shared_locks())
        };
        ensure!(
            info == m.info(),
            "lock of {n} clients shows (exclusive, shared) {info:?}, must be {:?}",
            m.info()
        );
        if let Some(x) = &h[i] {
            ensure!(
                (x.has_exclusive(), x.has_shared()) == (m.excl == Some(i), m.shared.contains(&i)),
                "client {i} of {n} does not know what it holds"
            );
        }
    }
    // Everybody leaves
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for i in order {
        h[i] = None;
        m.release(i);
        let l = parent.lock();
        ensure!(
            (l.exclusive_lock(), l.num_shared_locks()) == m.info(),
            "after client {i} of {n} left the lock shows {} {}, must be {:?}",
            l.exclusive_lock(),
            l.num_shared_locks(),
            m.info()
        );
    }
    ctx.count("clients in crowds", n as u64);
    if most > 255 {
        ctx.count("more than 255 sharing", 1);
    }
    ctx.eval(hash_of(&(n, most, refused)), most > 1, || {
        format!("{n} clients, up to {most} sharing with a key of {} bytes, {refused} refusals", keys[0].len())
    });
    Ok(())
}

/// A crowd waits, everybody gets through
pub fn wait_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let n = rng.range(20, 220);
    let parent = SharedLock::new();
    let dev = Arc::new(Mutex::new(0u32));
    let keys = keys(rng);
    let excl: Rc<Cell<Option<usize>>> = Rc::default();
    let share: Rc<RefCell<BTreeMap<usize, usize>>> = Rc::default();
    let bad: Rc<RefCell<Option<String>>> = Rc::default();
    let through = Rc::new(Cell::new(0usize));
    let mut ex = Exec::new();
    let mut ids = Vec::new();
    // The first one holds it, then releases
    let mut first = LockHandle::new(parent.clone(), dev.clone());
    let held_by_key = rng.chance(1, 2);
    if held_by_key {
        ensure!(first.try_acquire(&keys[0]).is_ok(), "a free lock is refused");
        share.borrow_mut().insert(usize::MAX, 0);
    } else {
        ensure!(first.try_acquire(b"").is_ok(), "a free lock is refused");
        excl.set(Some(usize::MAX));
    }
    for i in 0..n {
        let h = Arc::new(SpinMutex::new(LockHandle::new(parent.clone(), dev.clone())));
        let (excl, share, bad, through) = (excl.clone(), share.clone(), bad.clone(), through.clone());
        let what = rng.below(3);
        let key = rng.below(keys.len().min(3));
        let k = keys[key].clone();
        let rest = rng.below(3);
        ids.push(ex.spawn(async move {
            let r = RemoteLockHandle::new(h.clone());
            let err = |s: String| {
                bad.borrow_mut().get_or_insert(s);
            };
            match what {
                0 => {
                    if let Err(e) = r.async_acquire(b"").await {
                        err(format!("waiting for exclusive use ends with {e:?}"));
                    }
                    if excl.replace(Some(i)).is_some() || !share.borrow().is_empty() {
                        err(format!("client {i} of {n} got exclusive use while others hold the lock"));
                    }
                    for _ in 0..rest {
                        turn().await;
                    }
                    excl.set(None);
                }
                1 => {
                    if let Err(e) = r.async_acquire(&k).await {
                        err(format!("waiting to share ends with {e:?}"));
                    }
                    if excl.get().is_some() || share.borrow().values().any(|x| *x != key) {
                        err(format!("client {i} of {n} shares while others hold the lock"));
                    }
                    share.borrow_mut().insert(i, key);
                    for _ in 0..rest {
                        turn().await;
                    }
                    share.borrow_mut().remove(&i);
                }
                _ => {
                    let g = r.async_lock().await;
                    if g.is_err() {
                        err("waiting for the device ends with an error".into());
                    }
                    if excl.get().is_some() || !share.borrow().is_empty() {
                        err(format!("client {i} of {n} got the device while others hold the lock"));
                    }
                }
            }
            through.set(through.get() + 1);
            if what != 2 {
                let ok = h.lock().try_release().is_ok();
                if !ok {
                    err("releasing fails".into());
                }
            }
        }));
    }
    // All wait
    let some = rng.below(2 * n);
    for _ in 0..some {
        if ex.step(rng).is_none() {
            break;
        }
    }
    // Some give up
    let mut gone = 0;
    for &i in &ids {
        if rng.chance(1, 10) && ex.alive(i) {
            // Only those who hold nothing
            if excl.get() != Some(i) && !share.borrow().contains_key(&i) {
                ex.cancel(i);
                gone += 1;
            }
        }
    }
    excl.set(if held_by_key { excl.get() } else { None });
    share.borrow_mut().remove(&usize::MAX);
    let _ = first.try_release();
    let budget = 40 * n * n + 10_000;
    let calm = ex.settle(rng, budget);
    if let Some(b) = bad.borrow_mut().take() {
        return viol(b);
    }
    ensure!(calm, "a crowd of {n} does not come to rest within {budget} polls");
    let left = ids.iter().filter(|i| ex.alive(**i)).count();
    ensure!(
        left == 0,
        "{left} of {n} clients wait forever although nobody holds the lock; {} got through, {gone} gave up",
        through.get()
    );
    ctx.count("waiting clients in crowds", n as u64);
    ctx.eval(hash_of(&(n, gone, some, held_by_key)), through.get() > 10, || {
        format!("{n} clients wait, {gone} give up, {} get through", through.get())
    });
    Ok(())
}

/// Be polled again later
async fn turn() {
    let mut first = true;
    futures::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            std::task::Poll::Pending
        } else {
            std::task::Poll::Ready(())
        }
    })
    .await
}

// ---------------------------------------------------------------- the status channel

pub fn status_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[30usize, 130, 256, 300, 600, 1500]);
    let mut s = StatusSender::new();
    // Some never read
    let mut subs: Vec<_> = (0..n).map(|_| (s.get_new_receiver(), !rng.chance(1, 4))).collect();
    let rounds = rng.range(10, 400_000 / n / 4).min(600);
    let mut delivered = 0u64;
    for r in 0..rounds {
        let v = rng.u8();
        if rng.chance(1, 8) {
            s.clone().send_status(v);
        } else {
            s.send_status(v);
        }
        for (i, (rx, reads)) in subs.iter_mut().enumerate() {
            if !*reads {
                continue;
            }
            let got = rx.try_next();
            ensure!(
                matches!(got, Ok(Some(x)) if x == v),
                "subscriber {i} of {n} had read everything, announcement {r} is {v:#x}, it gets {got:?}"
            );
            let more = rx.try_next();
            ensure!(more.is_err(), "subscriber {i} of {n} gets {more:?} which was not announced");
            delivered += 1;
        }
        if rng.chance(1, 5) {
            // Come and go
            let i = rng.below(subs.len());
            subs.swap_remove(i);
            subs.push((s.get_new_receiver(), !rng.chance(1, 4)));
        }
    }
    // Those who did not read begin to
    for (i, (rx, reads)) in subs.iter_mut().enumerate() {
        if !*reads {
            while let Some(x) = rx.next().now_or_never() {
                ensure!(x.is_some(), "channel of subscriber {i} of {n} is closed although the announcer exists");
            }
        }
    }
    s.send_status(0x77);
    for (i, (rx, reads)) in subs.iter_mut().enumerate() {
        let got = rx.next().now_or_never();
        ensure!(
            got == Some(Some(0x77)),
            "subscriber {i} of {n} (reads: {reads}) has read everything in the end and gets {got:?} instead of what is announced then"
        );
    }
    ctx.count("values delivered to crowds", delivered);
    ctx.eval(hash_of(&(n, rounds)), true, || format!("{n} subscribers, {rounds} announcements"));
    Ok(())
}

use futures::StreamExt;

// ---------------------------------------------------------------- HiSLIP

fn many(rng: &mut Rng) -> R<usize> {
    let n = *rng.pick(&[70usize, 258, 270, 300]);
    if descriptors() < 5000 {
        return Ok(70);
    }
    Ok(n)
}

fn open_all(addr: std::net::SocketAddr, n: usize) -> R<Vec<Hs>> {
    let mut v = Vec::new();
    for i in 0..n {
        v.push(Hs::open(addr, "").what(&format!("session {i} of {n}"))?);
    }
    Ok(v)
}

pub fn sessions_lock_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let n = many(rng)?;
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_num_sessions(1000), &srq)?;
    let mut m = open_all(srv.addr, n)?;
    let len = *rng.pick(&[1usize, 8, 64, 255, 256]);
    let key: Vec<u8> = (0..len).map(|_| b'a' + rng.below(26) as u8).collect();
    let mut other = key.clone();
    *other.last_mut().unwrap() = b'A';
    for i in 0..n {
        let c = m[i].lock(0, &key)?;
        ensure!(c == 1, "session {i} of {n} asks to share and is answered {c}");
        if i % 16 == 15 || i > 250 {
            let who = rng.below(n);
            let info = m[who].lock_info()?;
            ensure!(info == (false, i as u32 + 1), "{} sessions share, session {who} is told {info:?}", i + 1);
        }
        if i + 1 < n && i % 50 == 20 {
            let c = m[i + 1].lock(0, &other)?;
            ensure!(c != 1, "session {} of {n} shares with another key", i + 1);
            let c = m[i + 1].lock(0, b"")?;
            ensure!(c != 1, "session {} of {n} gets exclusive use while {} share", i + 1, i + 1);
        }
    }
    // One who does not share waits until the last has released
    let mut w = Hs::open(srv.addr, "")?;
    let mid = w.cmd(b"LATE?")?;
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for (k, &i) in order.iter().enumerate() {
        if k + 1 == n {
            ensure!(!u.log.has_exec(b"LATE?"), "a command of a session not sharing was executed while one shares");
        }
        if rng.chance(1, 2) {
            let c = m[i].release()?;
            ensure!(c == 2, "session {i} of {n} releases its shared lock and is answered {c}");
        } else {
            m[i].check_query(format!("Q{i}?").as_bytes())?;
            let c = m[i].release()?;
            ensure!(c == 2, "session {i} of {n} releases its shared lock and is answered {c}");
        }
    }
    let (r, id) = w.response("LATE?")?;
    ensure!(r.concat() == b"R:LATE?" && id == mid, "response {:?} {id}", r.iter().map(|x| show(x)).collect::<Vec<_>>());
    // All wait for exclusive use, one after the other gets it
    let k = n.min(80);
    let c = w.lock(0, b"")?;
    ensure!(c == 1, "a free lock is refused with {c}");
    for h in m[..k].iter_mut() {
        h.lock_start(60_000, b"")?;
    }
    let info = w.lock_info()?;
    ensure!(info == (true, 0), "lock information {info:?} while one holds it exclusively");
    w.release()?;
    let mut waiting: Vec<usize> = (0..k).collect();
    let mut since = Instant::now();
    while !waiting.is_empty() {
        let mut got = None;
        for (x, &i) in waiting.iter().enumerate() {
            m[i].asy.set_nonblocking(true).ok();
            let mut b = [0u8; 1];
            let r = m[i].asy.peek(&mut b);
            m[i].asy.set_nonblocking(false).ok();
            if r.is_ok() {
                ensure!(got.is_none(), "two of {k} waiting sessions got exclusive use at once");
                got = Some(x);
            }
        }
        match got {
            Some(x) => {
                let i = waiting.swap_remove(x);
                let c = m[i].lock_answer()?;
                ensure!(c == 1, "session {i} waiting for 60 s is answered {c}");
                let c = m[i].release()?;
                ensure!(c == 1, "session {i} releases exclusive use and is answered {c}");
                since = Instant::now();
                beat();
            }
            None if since.elapsed() > DEADLINE => {
                return late(format!("{} of {k} sessions wait for a lock nobody holds", waiting.len()));
            }
            None => std::thread::sleep(Duration::from_micros(200)),
        }
    }
    ctx.count("sessions in crowds", n as u64);
    ctx.eval(hash_of(&(n, len, order[0])), true, || format!("{n} sessions share with a key of {len} bytes, {k} wait for exclusive use"));
    Ok(())
}

pub fn sessions_srq_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let mut srq = StatusSender::new();
    let n = many(rng)?;
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_num_sessions(1000), &srq)?;
    let mut m = open_all(srv.addr, n)?;
    let rounds = rng.range(2, 4);
    for round in 0..rounds {
        let v = rng.u8();
        u.log.set_status(v);
        srq.send_status(v);
        for (i, h) in m.iter_mut().enumerate() {
            match h.srq(DEADLINE)? {
                Some(x) => ensure!(x == v, "round {round}: session {i} of {n} is sent a service request with {x:#x}, announced was {v:#x}"),
                None => return late(format!("round {round}: session {i} of {n} is not told of the announcement")),
            }
        }
        beat();
        if round + 1 == rounds {
            // Nobody has asked for the status yet
            srq.send_status(!v);
            std::thread::sleep(Duration::from_millis(20));
            for (i, h) in m.iter_mut().enumerate() {
                let x = h.srq(Duration::from_millis(1))?;
                ensure!(x.is_none(), "session {i} of {n} got a second service request before it had asked for the status");
            }
        }
        for (i, h) in m.iter_mut().enumerate() {
            let s = h.status()?;
            ensure!(s & 0xef == v & 0xef, "session {i} of {n} reads status {s:#x}, the device's is {v:#x}");
        }
    }
    ctx.count("sessions in crowds", n as u64);
    ctx.eval(hash_of(&(n, rng.u32())), true, || format!("{n} sessions are told of every announcement"));
    Ok(())
}

// ---------------------------------------------------------------- VXI-11

/// Send calls without waiting, then collect the replies
fn pipelined(v: &mut Vxi, calls: &[(u32, Vec<u8>)]) -> R<Vec<Vec<u8>>> {
    let mut out = Vec::new();
    let base = 0x4000_0000;
    for (i, (proc, args)) in calls.iter().enumerate() {
        out.extend(record(&call_msg(base + i as u32, 2, CORE, 1, *proc, args)));
    }
    net::send(&mut v.rpc.s, &out)?;
    let mut r = Vec::new();
    for i in 0..calls.len() {
        let b = read_reply(&mut v.rpc.s, "pipelined call")?;
        let (xid, rep) = vxi::parse_reply(&b, "pipelined call")?;
        ensure!(xid == base + i as u32, "reply to pipelined call {i} carries another transaction id");
        match rep {
            vxi::Reply::Success(d) => r.push(d),
            x => return viol(format!("pipelined call {i}: {x:?}")),
        }
    }
    Ok(r)
}

fn create_args(dev: &str) -> Vec<u8> {
    X::new().u(1).u(0).u(0).op(dev.as_bytes()).0
}

pub fn links_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let units = [Unit::new(), Unit::new()];
    let srq = StatusSender::new();
    let srv = vxi::start(&[("inst0", &units[0]), ("inst1", &units[1])], &srq)?;
    let mut v = Vxi::connect(srv.core)?;
    let n = *rng.pick(&[40usize, 258, 300]);
    let mut links: Vec<(u32, usize)> = Vec::new();
    let mk = |v: &mut Vxi, rng: &mut Rng, k: usize| -> R<Vec<(u32, usize)>> {
        let d: Vec<usize> = (0..k).map(|_| rng.below(2)).collect();
        let calls: Vec<_> = d.iter().map(|x| (p::CREATE_LINK, create_args(["inst0", "inst1"][*x]))).collect();
        let mut out = Vec::new();
        for (r, d) in pipelined(v, &calls)?.iter().zip(d) {
            let mut r = Rd::new(r);
            let err = r.u("create_link")?;
            let lid = r.u("create_link")?;
            ensure!(err == 0, "create_link is answered {err}");
            out.push((lid, d));
        }
        Ok(out)
    };
    links.extend(mk(&mut v, rng, n / 2)?);
    // Many links come and go, so that ids get large
    let churn = if rng.chance(1, 2) { ctx.n(66_000, 140_000) } else { rng.range(300, 2000) };
    let mut done = 0;
    let mut seen_big = 0u32;
    while done < churn {
        let l = mk(&mut v, rng, 250)?;
        for (x, _) in &l {
            ensure!(
                !links.iter().any(|y| y.0 == *x),
                "a new link gets id {x} which is in use"
            );
            seen_big = seen_big.max(*x);
        }
        let calls: Vec<_> = l.iter().map(|x| (p::DESTROY_LINK, X::new().u(x.0).0)).collect();
        for (r, l) in pipelined(&mut v, &calls)?.iter().zip(&l) {
            let err = vxi::one_error(r, "destroy_link")?;
            ensure!(err == 0, "destroy_link of link {} is answered {err}", l.0);
        }
        done += 250;
        beat();
    }
    links.extend(mk(&mut v, rng, n - n / 2)?);
    let mut ids: Vec<u32> = links.iter().map(|x| x.0).collect();
    ids.sort();
    ids.dedup();
    ensure!(ids.len() == n, "{n} links have only {} different ids", ids.len());
    // Each has buffers of its own and its own device
    let from = [units[0].log.len(), units[1].log.len()];
    for (i, (lid, _)) in links.iter().enumerate() {
        let (err, _) = v.write(*lid, vxi::END | vxi::WAIT, 1000, format!("L{i}?").as_bytes())?;
        ensure!(err == 0, "write to link {lid} (one of {n}) is answered {err}");
    }
    let mut order: Vec<usize> = (0..n).collect();
    rng.shuffle(&mut order);
    for &i in &order {
        let r = v.read(links[i].0, 1000, vxi::WAIT, 1000, 0)?;
        ensure!(
            r.err == 0 && r.data == format!("R:L{i}?").into_bytes(),
            "read from link {} (one of {n}) gives error {} and {}",
            links[i].0,
            r.err,
            show(&r.data)
        );
    }
    for d in 0..2 {
        let want: Vec<Vec<u8>> = links.iter().enumerate().filter(|x| x.1 .1 == d).map(|x| format!("L{}?", x.0).into_bytes()).collect();
        let got: Vec<Vec<u8>> = units[d].log.since(from[d]).into_iter().filter_map(|e| match e {
            crate::dev::Ev::Exec(c) => Some(c),
            _ => None,
        }).collect();
        ensure!(got == want, "device {d} got {} commands, must be {} through {n} links", got.len(), want.len());
    }
    // One of them waits for a lock and is aborted by its id, the others are not affected
    let (holder, d) = links[0];
    let err = v.lock(holder, 0, 0)?;
    ensure!(err == 0, "device_lock is answered {err}");
    let victim = *rng.pick(&links.iter().filter(|x| x.1 == d && x.0 != holder).collect::<Vec<_>>());
    let mut ab = Rpc::connect(srv.abort, ABORT)?;
    // A low half which is the same as that of the victim
    for wrong in [victim.0 ^ 0x1_0000, victim.0 ^ 0x100_0000, victim.0.wrapping_add(0x8000_0000)] {
        if !ids.contains(&wrong) {
            let err = srv.abort_call(&mut ab, wrong)?;
            ensure!(err == e::INVALID_LINK, "device_abort of link {wrong} which does not exist is answered {err}");
            let (err, _) = v.write(wrong, vxi::END, 0, b"WRONG")?;
            ensure!(err == e::INVALID_LINK, "write to link {wrong} which does not exist is answered {err}");
        }
    }
    let x = v.rpc.start(p::WRITE, &vxi::write_args(victim.0, vxi::END | vxi::WAIT, 60_000, b"ABORTED"))?;
    std::thread::sleep(Duration::from_millis(30));
    let t = Instant::now();
    let err = srv.abort_call(&mut ab, victim.0)?;
    ensure!(err == 0, "device_abort of link {} is answered {err}", victim.0);
    let r = v.rpc.finish(x, "write waiting for a lock, aborted")?;
    let err = Rd::new(&r).u("write")?;
    ensure!(err == e::ABORT, "aborted write of link {} is answered {err} after {:?}", victim.0, t.elapsed());
    let err = v.unlock(holder)?;
    ensure!(err == 0, "device_unlock is answered {err}");
    // All can be destroyed
    for (lid, _) in &links {
        let err = v.destroy(*lid)?;
        ensure!(err == 0, "destroy_link of link {lid} is answered {err}");
        let err = v.op(p::TRIGGER, *lid, 0, 0)?;
        ensure!(err == e::INVALID_LINK, "device_trigger of destroyed link {lid} is answered {err}");
    }
    ctx.count("links in crowds", n as u64);
    ctx.count("links created and destroyed", done as u64);
    if seen_big > 0xffff {
        ctx.count("link ids above 65535", 1);
    }
    ctx.eval(hash_of(&(n, churn, order[0])), true, || format!("{n} links after {done} others, ids up to {seen_big}"));
    Ok(())
}

pub fn srq_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let mut srq = StatusSender::new();
    let srv = vxi::start(&[("inst0", &u)], &srq)?;
    let nc = rng.range(1, 3);
    let mut conns = Vec::new();
    let mut total = 0;
    for c in 0..nc {
        let mut v = Vxi::connect(srv.core)?;
        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let err = v.create_intr(Ipv4Addr::LOCALHOST, l.local_addr().unwrap().port(), 395185, 1, false)?;
        ensure!(err == 0, "create_intr_chan is answered {err}");
        let (s, _) = l.accept().map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let n = *rng.pick(&[5usize, 60, 130, 260, 300]);
        let mut want = BTreeMap::new();
        let mut lids = Vec::new();
        for i in 0..n {
            let lid = v.link("inst0")?;
            let h = format!("{c}/{i}").into_bytes();
            let err = v.enable_srq(lid, true, &h)?;
            ensure!(err == 0, "device_enable_srq of link {i} of {n} is answered {err}");
            want.insert(h, 0usize);
            lids.push(lid);
        }
        total += n;
        conns.push((v, s, want, lids));
    }
    let rounds = rng.range(1, 3);
    for r in 1..=rounds {
        srq.send_status(rng.u8());
        for (c, (_, s, want, _)) in conns.iter_mut().enumerate() {
            for _ in 0..want.len() {
                let b = vxi::read_record(s, "interrupt call")?;
                let mut d = Rd::new(&b);
                for _ in 0..10 {
                    d.u("interrupt call")?;
                }
                let h = d.op("interrupt call")?;
                let Some(k) = want.get_mut(&h) else {
                    return viol(format!("interrupt call with handle {} on connection {c}", show(&h)));
                };
                *k += 1;
                ensure!(*k <= r, "handle {} is called {k} times after {r} announcements", show(&h));
            }
            ensure!(
                want.values().all(|k| *k == r),
                "after {r} announcements not every link of connection {c} has made {r} calls"
            );
            net::quickack(s);
        }
        beat();
    }
    for (c, (v, s, want, lids)) in conns.iter_mut().enumerate() {
        if let Err(b) = net::quiet(s, Duration::from_millis(30)) {
            return viol(format!("{} more bytes on the interrupt channel of connection {c}", b.len()));
        }
        // The first half does not want any more
        let k = lids.len() / 2;
        for (i, lid) in lids[..k].iter().enumerate() {
            let err = if i % 2 == 0 { v.enable_srq(*lid, false, b"")? } else { v.destroy(*lid)? };
            ensure!(err == 0, "disabling or destroying link {i} is answered {err}");
            want.remove(format!("{c}/{i}").as_bytes());
        }
    }
    srq.send_status(rng.u8());
    for (c, (_, s, want, _)) in conns.iter_mut().enumerate() {
        for _ in 0..want.len() {
            let b = vxi::read_record(s, "interrupt call")?;
            let mut d = Rd::new(&b);
            for _ in 0..10 {
                d.u("interrupt call")?;
            }
            let h = d.op("interrupt call")?;
            ensure!(
                want.remove(&h).is_some(),
                "interrupt call with handle {} on connection {c} for a link which is disabled or gone, or twice",
                show(&h)
            );
        }
    }
    ctx.count("links announcing in crowds", total as u64);
    ctx.eval(hash_of(&(nc, total, rounds)), true, || format!("{total} links of {nc} connections, {rounds} announcements"));
    Ok(())
}
