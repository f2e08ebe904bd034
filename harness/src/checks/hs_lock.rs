//! C13, C14: the HiSLIP asynchronous channel.

use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;

use super::lock::{Kind, Model};
use crate::dev::{interleaving, Err3, Ev, Unit};
use crate::hislip::{self, encode, t, Hs};
use crate::net;
use crate::rt::*;

struct Member {
    h: Hs,
    unit: usize,
    /// Lock request not yet answered
    waits: Option<Kind>,
    /// Commands not yet known to be executed
    todo: Vec<Ev>,
    /// Responses still to be received
    responses: Vec<(u32, Vec<u8>)>,
    /// Was permitted for a moment since the last time everything was settled
    brief: u8,
    n: usize,
}

struct World<'a> {
    ctx: &'a Ctx,
    units: Vec<Unit>,
    models: Vec<Model>,
    /// How much of each device's log was judged
    judged: Vec<usize>,
    m: Vec<Member>,
    trace: String,
}

impl World<'_> {
    fn model(&self, i: usize) -> &Model {
        &self.models[self.m[i].unit]
    }

    /// Let everything happen which must happen, check that nothing else does
    fn settle(&mut self) -> R {
        // Lock requests
        loop {
            let mut cands = Vec::new();
            for i in 0..self.m.len() {
                if self.model(i).permitted(i) && !self.m[i].todo.is_empty() {
                    self.m[i].brief = 2;
                }
                if let Some(k) = &self.m[i].waits {
                    if self.model(i).grantable(i, k) {
                        cands.push(i);
                    }
                }
            }
            if cands.is_empty() {
                break;
            }
            let t0 = Instant::now();
            let mut got = None;
            while got.is_none() {
                for &i in &cands {
                    let s = &mut self.m[i].h.asy;
                    let _ = s.set_nonblocking(true);
                    let mut b = [0u8; 16];
                    let r = s.peek(&mut b);
                    let _ = s.set_nonblocking(false);
                    if let Ok(k) = r {
                        if k > 0 {
                            got = Some(i);
                            break;
                        }
                        return viol(format!("asynchronous channel of a waiting session closed: {}", self.trace));
                    }
                }
                if got.is_none() {
                    if t0.elapsed() > DEADLINE {
                        return late(format!(
                            "sessions {cands:?} wait for a lock which is free, none gets it: {}",
                            self.trace
                        ));
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
            let i = got.unwrap();
            let c = self.m[i].h.lock_answer()?;
            self.trace.push_str(&format!("[{i} gets it] "));
            ensure!(
                c == 1,
                "session {i} waiting for a lock which became free was refused with {c}: {}",
                self.trace
            );
            let k = self.m[i].waits.take().unwrap();
            let u = self.m[i].unit;
            self.models[u].grant(i, &k);
            self.ctx.count("locks granted after waiting", 1);
        }
        // Commands
        for u in 0..self.units.len() {
            let must: Vec<usize> = (0..self.m.len())
                .filter(|&i| self.m[i].unit == u && self.models[u].permitted(i))
                .collect();
            let members: Vec<usize> = (0..self.m.len())
                .filter(|&i| self.m[i].unit == u)
                .collect();
            let t0 = Instant::now();
            loop {
                let got = self.units[u].log.since(self.judged[u]);
                let got_eff: Vec<Ev> = got.iter().filter(|e| **e != Ev::Status && **e != Ev::Remote(true)).cloned().collect();
                let empty: Vec<Ev> = Vec::new();
                let lists: Vec<(&[Ev], bool)> = members
                    .iter()
                    .map(|&i| {
                        let whole = must.contains(&i);
                        if whole || self.m[i].brief > 0 {
                            (&self.m[i].todo[..], whole)
                        } else {
                            (&empty[..], false)
                        }
                    })
                    .collect();
                match interleaving(&got_eff, &lists) {
                    Ok(used) => {
                        for (&i, n) in members.iter().zip(used) {
                            self.m[i].todo.drain(..n);
                            if n > 0 {
                                self.ctx.count("commands executed", n as u64);
                            }
                        }
                        self.judged[u] += got.len();
                        break;
                    }
                    Err(e) => {
                        if e != "effects are missing" {
                            return viol(format!(
                                "{e}; holders {:?}, permitted {must:?}, not yet executed {:?}: {}",
                                self.models[u],
                                members.iter().map(|&i| (i, &self.m[i].todo)).collect::<Vec<_>>(),
                                self.trace
                            ));
                        }
                        if t0.elapsed() > DEADLINE {
                            return late(format!(
                                "permitted sessions {must:?} wait to execute {:?} with holders {:?}, executed {got_eff:?}: {}",
                                must.iter().map(|&i| &self.m[i].todo).collect::<Vec<_>>(),
                                self.models[u],
                                self.trace
                            ));
                        }
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            }
        }
        // Responses of what was executed
        for i in 0..self.m.len() {
            let m = &mut self.m[i];
            let left = m
                .todo
                .iter()
                .filter(|e| matches!(e, Ev::Exec(c) if crate::dev::std_response(c).is_some()))
                .count();
            while m.responses.len() > left {
                let (mid, want) = m.responses.remove(0);
                let (p, id) = m.h.response("response").what(self.trace.clone())?;
                let got = p.concat();
                ensure!(
                    id == mid && got == want,
                    "session {i} got response {} (message id {id:#x}) instead of {} ({mid:#x}): {}",
                    show(&got),
                    show(&want),
                    self.trace
                );
            }
            let m = &mut self.m[i];
            let u = m.unit;
            if self.models[u].permitted(i) {
                m.brief = 0;
            } else {
                // A command which was handed the device just before may still show up
                m.brief = m.brief.saturating_sub(1);
            }
        }
        Ok(())
    }

    fn check_info(&mut self, i: usize) -> R {
        let want = self.model(i).info();
        let got = self.m[i].h.lock_info()?;
        ensure!(
            got == want,
            "session {i} is told exclusive={} shared={}, it is {want:?}: {}",
            got.0,
            got.1,
            self.trace
        );
        self.ctx.count("lock infos", 1);
        Ok(())
    }
}

fn key(rng: &mut Rng) -> Vec<u8> {
    match rng.below(7) {
        0 => b"key".to_vec(),
        1 => b"key2".to_vec(),
        2 => b"ke".to_vec(),
        3 => "schl\u{fc}ssel".as_bytes().to_vec(),
        4 => vec![b'k'; 256],
        5 => rng.pick(&["key ", " key", "KEY", "\tkey", "key\n", " "]).as_bytes().to_vec(),
        _ => b"key".to_vec(),
    }
}

fn lock_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let nunits = rng.range(1, 2);
    let units: Vec<Unit> = (0..nunits).map(|_| Unit::new()).collect();
    let names = ["hislip0", "hislip1"];
    let srq = StatusSender::new();
    let list: Vec<(&str, &Unit)> = names.iter().copied().zip(&units).collect();
    let srv = hislip::start(&list, |c| c, &srq)?;
    let n = rng.range(2, 5);
    let mut w = World {
        ctx,
        models: vec![Model::default(); nunits],
        judged: vec![0; nunits],
        m: Vec::new(),
        trace: String::new(),
        units: units.clone(),
    };
    for i in 0..n {
        let unit = if i < 2 { 0 } else { rng.below(nunits) };
        w.m.push(Member {
            h: Hs::open(srv.addr, names[unit])?,
            unit,
            waits: None,
            todo: Vec::new(),
            responses: Vec::new(),
            brief: 0,
            n: 0,
        });
    }
    let steps = rng.range(8, 40);
    let mut excluded = 0;
    let mut expired = 0;
    for _ in 0..steps {
        let i = rng.below(n);
        match rng.below(12) {
            0..=3 => {
                // Lock request
                if w.m[i].waits.is_some() {
                    continue;
                }
                let kind = if rng.chance(1, 2) { Kind::Excl } else { Kind::Shared(key(rng)) };
                let mut payload = match &kind {
                    Kind::Excl => Vec::new(),
                    Kind::Shared(k) => k.clone(),
                };
                for _ in 0..*rng.pick(&[0, 0, 0, 1, 2]) {
                    payload.push(0);
                }
                let timeout = *rng.pick(&[0, 0, 1, 7, 30, 60_000, 60_000, u32::MAX]);
                w.trace.push_str(&format!("{i} locks {} for {timeout} ms; ", match &kind {
                    Kind::Excl => "exclusively".to_string(),
                    Kind::Shared(k) => format!("shared {}", show(k)),
                }));
                let ok = w.model(i).grantable(i, &kind);
                let t0 = Instant::now();
                if ok {
                    let c = w.m[i].h.lock(timeout, &payload)?;
                    ensure!(c == 1, "free lock refused with {c}: {}", w.trace);
                    let u = w.m[i].unit;
                    w.models[u].grant(i, &kind);
                } else if timeout >= 60_000 {
                    if w.model(i).holds_kind(i, &kind) {
                        // It can never be granted, how long it takes to say so is open
                        continue;
                    }
                    w.m[i].h.lock_start(timeout, &payload)?;
                    w.m[i].waits = Some(kind);
                    ctx.count("waiting lock requests", 1);
                } else {
                    let c = w.m[i].h.lock(timeout, &payload)?;
                    ensure!(
                        c != 1,
                        "lock request of session {i} with {timeout} ms granted although {:?}: {}",
                        w.model(i),
                        w.trace
                    );
                    let took = t0.elapsed();
                    if timeout > 0 && !w.model(i).holds_any(i) {
                        ensure!(
                            took >= Duration::from_millis(timeout as u64),
                            "lock request with {timeout} ms was refused after {took:?}: {}",
                            w.trace
                        );
                        ensure!(
                            c == 0,
                            "lock request whose {timeout} ms passed was answered with {c} instead of 0: {}",
                            w.trace
                        );
                        ctx.count("requests which timed out", 1);
                    }
                    if took > Duration::from_millis(timeout as u64 + 4000) {
                        return late(format!(
                            "lock request with {timeout} ms was answered after {took:?}: {}",
                            w.trace
                        ));
                    }
                    expired += 1;
                }
                w.settle()?;
            }
            4..=5 => {
                // Release
                if w.m[i].waits.is_some() {
                    continue;
                }
                w.trace.push_str(&format!("{i} releases; "));
                let u = w.m[i].unit;
                let want = match w.models[u].release(i) {
                    2 => 1,
                    1 => 2,
                    _ => 3,
                };
                let c = w.m[i].h.release()?;
                ensure!(
                    c == want,
                    "release by session {i} answered {c} instead of {want}: {}",
                    w.trace
                );
                w.settle()?;
            }
            6..=9 => {
                // Commands
                let k = rng.range(1, 3);
                let mut bytes = Vec::new();
                for _ in 0..k {
                    let first = w.m.iter().position(|m| m.unit == w.m[i].unit) == Some(i);
                    let m = &mut w.m[i];
                    m.n += 1;
                    if first && rng.chance(1, 4) {
                        bytes.extend(encode(t::TRIGGER, 0, m.h.next_mid(), b""));
                        m.todo.push(Ev::Trigger("Bus".into()));
                    } else {
                        let q = rng.chance(1, 2);
                        let c = format!("{i} {}{}", m.n, if q { "?" } else { "" }).into_bytes();
                        let mid = m.h.next_mid();
                        if let Some(r) = crate::dev::std_response(&c) {
                            m.responses.push((mid, r));
                        }
                        if rng.chance(1, 3) {
                            bytes.extend(encode(t::DATA, 0, mid, &c[..1]));
                            bytes.extend(encode(t::DATA_END, 0, mid, &c[1..]));
                        } else {
                            bytes.extend(encode(t::DATA_END, 0, mid, &c));
                        }
                        m.todo.push(Ev::Exec(c));
                    }
                }
                w.trace.push_str(&format!("{i} sends {k}; "));
                net::send(&mut w.m[i].h.sync, &bytes)?;
                if !w.model(i).permitted(i) {
                    excluded += 1;
                    if rng.chance(1, 2) {
                        std::thread::sleep(Duration::from_millis(rng.range(1, 4) as u64));
                    }
                }
                w.settle()?;
            }
            10 => {
                if w.m[i].waits.is_some() {
                    continue;
                }
                // A failed request for a name which is not text changes nothing
                w.trace.push_str(&format!("{i} locks non-text; "));
                let c = w.m[i].h.lock(*rng.pick(&[0, 20]), b"\xff\xfeabc")?;
                ensure!(c != 1, "lock with a key which is not text granted: {}", w.trace);
                w.settle()?;
            }
            _ => {
                // Idle sessions of any unit are served
                let st = w.m[i].unit as u8 * 2 + 1;
                w.units[w.m[i].unit].log.set_status(st);
                if w.m[i].waits.is_none() {
                    let s = w.m[i].h.status()?;
                    ensure!(s & 0xef == st, "status {s:#x} instead of {st:#x}: {}", w.trace);
                }
            }
        }
        for i in 0..n {
            if w.m[i].waits.is_none() && rng.chance(1, 2) {
                w.check_info(i)?;
            }
        }
        for (k, u) in w.units.iter().enumerate() {
            ensure!(
                u.lock_state() == w.models[k].info(),
                "lock of device {k} is {:?}, holders are {:?}: {}",
                u.lock_state(),
                w.models[k],
                w.trace
            );
        }
    }
    // Release everything: everybody must get what he waits for
    let mut rounds = 0;
    loop {
        rounds += 1;
        let mut open = false;
        for i in 0..n {
            if w.m[i].waits.is_none() && w.model(i).holds_any(i) {
                let u = w.m[i].unit;
                w.models[u].release(i);
                let c = w.m[i].h.release()?;
                ensure!(c != 3, "release of a held lock failed: {}", w.trace);
                w.trace.push_str(&format!("{i} releases; "));
                w.settle()?;
                open = true;
            }
        }
        let waiting: Vec<usize> = (0..n).filter(|&i| w.m[i].waits.is_some()).collect();
        if !open {
            if waiting.is_empty() {
                break;
            }
            // Holders which wait for an upgrade block each other: let one of them go
            let i = waiting[0];
            w.trace.push_str(&format!("{i} leaves; "));
            let unit = w.m[i].unit;
            if !w.m[i].todo.is_empty() {
                return Ok(());
            }
            let h = Hs::open(srv.addr, names[unit])?;
            let old = std::mem::replace(&mut w.m[i].h, h);
            // The connection of a waiting session is not looked at before the wait ends
            drop(old);
            return Ok(());
        }
        if rounds > 20 {
            break;
        }
    }
    for (k, u) in w.units.iter().enumerate() {
        ensure!(
            u.lock_state() == (false, 0) && w.models[k].info() == (false, 0),
            "after everything was released the lock is {:?}: {}",
            u.lock_state(),
            w.trace
        );
    }
    for i in 0..n {
        let m = &mut w.m[i];
        ensure!(m.todo.is_empty(), "commands never executed: {:?}: {}", m.todo, w.trace);
        m.h.sync_is_clean(&format!("{i}")).what(w.trace.clone())?;
    }
    ctx.count("sends while excluded", excluded);
    ctx.count("requests denied", expired);
    ctx.eval(hash_of(&w.trace), excluded > 0 || expired > 0, || w.trace.clone());
    Ok(())
}

/// Free for all from threads; the device's effects must respect the exclusive locks
fn race_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let n = rng.range(2, 4);
    let rounds = rng.range(5, 20);
    u.log.exec_us.store(rng.below(200) as u64, std::sync::atomic::Ordering::Relaxed);
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let res: Vec<R<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(i, s)| {
                let u = &u;
                sc.spawn(move || -> R<u64> {
                    let mut rng = Rng::new(*s);
                    let mut h = Hs::open(srv.addr, "")?;
                    let mut got = 0;
                    for k in 0..rounds {
                        let timeout = *rng.pick(&[0, 1, 3, 20_000]);
                        if h.lock(timeout, b"")? == 1 {
                            got += 1;
                            let n0 = u.log.len();
                            let m = rng.range(1, 4);
                            for j in 0..m {
                                h.check_query(format!("L{i} {k} {j}?").as_bytes())?;
                            }
                            ensure!(h.lock_info()? == (true, 0), "holder is told {:?}", u.lock_state());
                            let seen = u.log.effects_since(n0);
                            // What was handed the device before the lock was granted may show first
                            let mine = |e: &Ev| matches!(e, Ev::Exec(c) if c.starts_with(format!("L{i} ").as_bytes()));
                            let p = seen.iter().position(mine).unwrap_or(0);
                            ensure!(
                                p <= 1 && seen[p..].iter().filter(|e| **e != Ev::Status).all(mine),
                                "session {i} held the lock exclusively and executed {m} commands, the device saw {seen:?}"
                            );
                            ensure!(h.release()? == 1, "release of the exclusive lock failed");
                        } else {
                            ensure!(timeout < 10_000, "lock not obtained within 20 s");
                            ensure!(h.release()? == 3, "a lock is held after the request was refused");
                        }
                        if rng.chance(1, 2) {
                            h.check_query(format!("F{i} {k}?").as_bytes())?;
                        }
                    }
                    Ok(got)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut total = 0;
    for r in res {
        total += r?;
    }
    ensure!(
        u.wait_lock(DEADLINE, false, 0),
        "lock is {:?} after all sessions released it and left",
        u.lock_state()
    );
    let order: Vec<Ev> = u.log.effects_since(0);
    ctx.seen("orders of execution", hash_of(&order));
    ctx.count("locks held in races", total);
    ctx.eval(hash_of(&order), total > 1, || {
        format!("{n} sessions, {rounds} rounds, {total} locks")
    });
    Ok(())
}

/// Remote/local requests reach the device once the lock lets them
fn locked_remote_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let mut a = Hs::open(srv.addr, "")?;
    let mut b = Hs::open(srv.addr, "")?;
    let mut trace = String::new();
    let is_remote = |e: &Ev| matches!(e, Ev::Remote(_) | Ev::Lockout(_));
    for _ in 0..rng.range(1, 5) {
        let key: &[u8] = *rng.pick(&[&b""[..], b"k"]);
        let both = !key.is_empty() && rng.chance(1, 3);
        ensure!(a.lock(0, key)? == 1, "free lock refused: {trace}");
        if both {
            ensure!(b.lock(0, key)? == 1, "matching shared lock refused: {trace}");
        }
        let n0 = u.log.len();
        let req = *rng.pick(&[0u8, 2, 3, 4, 5, 6]);
        let mid = b.mid;
        b.send_async(t::ASYNC_REMOTE_LOCAL, req, mid, b"")?;
        trace.push_str(&format!("key {}, request {req} by a {}; ", show(key), if both { "holder" } else { "session without the lock" }));
        if !both {
            std::thread::sleep(Duration::from_millis(rng.range(2, 10) as u64));
            a.check_query(b"HOLDER?")?;
            let seen = u.log.since(n0);
            ensure!(
                !seen.iter().any(is_remote),
                "another session holds the lock, remote/local request {req} did {seen:?}: {trace}"
            );
            ensure!(a.release()? != 3, "release failed: {trace}");
        }
        let m = b.recv_async("remote/local response")?;
        ensure!(m.typ == t::ASYNC_REMOTE_LOCAL_RESPONSE, "remote/local request {req} answered with {m}: {trace}");
        let seen = u.log.since(n0);
        ensure!(
            seen.iter().any(is_remote),
            "remote/local request {req} was answered and did {seen:?}: {trace}"
        );
        if both {
            ensure!(a.release()? == 2 && b.release()? == 2, "release failed: {trace}");
        } else {
            ctx.count("remote/local requests held back", 1);
        }
        ensure!(u.lock_state() == (false, 0), "lock is {:?} after its release: {trace}", u.lock_state());
    }
    ctx.eval(hash_of(&trace), trace.contains("without"), || trace.clone());
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("random histories of lock requests (immediate, timed, waiting; shared and exclusive; NUL-terminated keys), releases, commands and triggers of 2-5 sessions on 1-2 devices against a lock model, executed commands checked after every step; plus free races. Non-trivial: a command was excluded or a request denied");
    ctx.cases_par("model", ctx.n(700, 20000), if ctx.thorough { 500 } else { 35 }, 6, |r, _| lock_case(ctx, r));
    ctx.cases_par("remote", ctx.n(60, 1500), 60, 4, |r, _| locked_remote_case(ctx, r));
    ctx.cases_par("crowd", ctx.n(6, 100), if ctx.thorough { 150 } else { 12 }, 2, |r, _| super::crowd::sessions_lock_case(ctx, r));
    ctx.cases_par("race", ctx.n(60, 1500), if ctx.thorough { 200 } else { 15 }, 2, |r, _| race_case(ctx, r));
    ctx.cases("long", 1, 60, |_, _| super::long::session_locks(ctx));
}

// ---------------------------------------------------------------- C14

#[derive(Default)]
struct Sub {
    /// A service request was sent and the status not queried since
    outstanding: bool,
    /// Announced while a request was outstanding, may still be queued
    stale: Vec<u8>,
}

fn srq_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let other = Unit::new();
    let mut srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u), ("x", &other)], |c| c, &srq)?;
    let n = rng.range(1, 4);
    let mut hs = Vec::new();
    let mut subs: Vec<Sub> = Vec::new();
    for i in 0..n {
        let mut h = Hs::open(srv.addr, if i == 3 { "x" } else { "" })?;
        h.status()?;
        hs.push(h);
        subs.push(Sub::default());
    }
    let mut locker = Hs::open(srv.addr, "")?;
    let mut trace = String::new();
    let mut value = rng.u8();
    let mut delivered = 0;
    let mut many = 0;
    let rounds = rng.range(4, 14);
    // Does the session which holds the lock for a while also get its requests?
    let mut locked = false;
    for _ in 0..rounds {
        match rng.below(10) {
            0..=4 => {
                // Announce one value
                value = value.wrapping_add(rng.range(1, 7) as u8);
                trace.push_str(&format!("announce {value:#x}; "));
                srq.send_status(value);
                for i in 0..n {
                    if subs[i].outstanding {
                        subs[i].stale.push(value);
                        continue;
                    }
                    loop {
                        let Some(v) = hs[i].srq(DEADLINE).what(trace.clone())? else {
                            return late(format!(
                                "session {i} got no service request for {value:#x}: {trace}"
                            ));
                        };
                        if v == value {
                            subs[i].stale.clear();
                            delivered += 1;
                            break;
                        }
                        ensure!(
                            subs[i].stale.contains(&v),
                            "session {i} got a service request with status {v:#x} when {value:#x} was announced: {trace}"
                        );
                        // Announced while the last one was outstanding; the new value counts as
                        // announced while this one is
                        let p = subs[i].stale.iter().position(|x| *x == v).unwrap();
                        subs[i].stale.drain(..=p);
                        subs[i].stale.push(value);
                        break;
                    }
                    subs[i].outstanding = true;
                }
            }
            5 => {
                // Many values at once
                let k = rng.range(2, 60);
                trace.push_str(&format!("announce {k} values; "));
                let mut vals = Vec::new();
                for _ in 0..k {
                    value = value.wrapping_add(1);
                    vals.push(value);
                    srq.send_status(value);
                    if rng.chance(1, 5) {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                }
                many += k;
                for i in 0..n {
                    if !subs[i].outstanding {
                        let Some(v) = hs[i].srq(DEADLINE).what(trace.clone())? else {
                            return late(format!(
                                "session {i} got no service request for {vals:?}: {trace}"
                            ));
                        };
                        ensure!(
                            vals.contains(&v) || subs[i].stale.contains(&v),
                            "session {i} got a service request with status {v:#x}, announced were {vals:x?}: {trace}"
                        );
                        subs[i].outstanding = true;
                    }
                    subs[i].stale.extend(&vals);
                }
            }
            6..=8 => {
                // Query
                let i = rng.below(n);
                let st = rng.u8();
                let unit = if i == 3 { &other } else { &u };
                unit.log.set_status(st);
                trace.push_str(&format!("{i} queries; "));
                let before = hs[i].srqs.len();
                let s = hs[i].status().what(trace.clone())?;
                ensure!(
                    s & 0xef == st & 0xef,
                    "status query of session {i} returned {s:#x}, the device has {st:#x}: {trace}"
                );
                // One sent before the query was answered
                if hs[i].srqs.len() > before {
                    ensure!(
                        !subs[i].outstanding,
                        "session {i} got a second service request before it queried the status: {trace}"
                    );
                    hs[i].srqs.clear();
                }
                subs[i].outstanding = false;
                // What is still queued may be reported now
                if !subs[i].stale.is_empty() {
                    while let Some(v) = hs[i].srq(Duration::from_millis(6))? {
                        ensure!(
                            subs[i].stale.contains(&v),
                            "session {i} got a service request with status {v:#x} never announced: {trace}"
                        );
                        let s = hs[i].status()?;
                        ensure!(s & 0xef == st & 0xef, "status {s:#x} instead of {st:#x}");
                    }
                }
                ctx.count("status queries", 1);
            }
            _ => {
                trace.push_str(if locked { "unlock; " } else { "lock; " });
                let c = if locked { locker.release()? } else { locker.lock(0, b"")? };
                ensure!(c == 1, "lock/release answered {c}");
                locked = !locked;
            }
        }
        // No second request while one is outstanding, other traffic works meanwhile
        for i in 0..n {
            if subs[i].outstanding && rng.chance(1, 3) {
                hs[i].lock_info()?;
                if let Some(v) = hs[i].srq(Duration::from_millis(2)).what(trace.clone())? {
                    return viol(format!(
                        "session {i} got a service request with {v:#x} before it queried the status: {trace}"
                    ));
                }
            }
        }
    }
    for h in hs.iter_mut() {
        h.lock_info().what(format!("connection after service requests: {trace}"))?;
    }
    ctx.count("service requests received", delivered);
    ctx.count("values announced in bursts", many as u64);
    ctx.eval(hash_of(&trace), delivered > 0, || trace.clone());
    Ok(())
}

fn fold(evs: &[Ev]) -> (Option<bool>, Option<bool>) {
    let mut r = (None, None);
    for e in evs {
        match e {
            Ev::Remote(x) => r.0 = Some(*x),
            Ev::Lockout(x) => r.1 = Some(*x),
            _ => {}
        }
    }
    r
}

fn remote_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let n = rng.range(1, 2);
    let mut hs = Vec::new();
    // What is known about remote being enabled in each session
    let mut enabled: Vec<Option<bool>> = vec![None; n];
    for _ in 0..n {
        hs.push(Hs::open_v(srv.addr, "", *rng.pick(&[0x0100, 0x0200]))?);
    }
    let mut trace = String::new();
    let steps = rng.range(5, 25);
    let mut disabled_queries = 0;
    for _ in 0..steps {
        let i = rng.below(n);
        let n0 = u.log.len();
        match rng.below(8) {
            0..=4 => {
                let req = match rng.below(12) {
                    0 => 7,
                    1 => rng.range(8, 255) as u8,
                    x => (x - 2) as u8 % 7,
                };
                trace.push_str(&format!("{i} requests {req}; "));
                let mid = hs[i].mid;
                hs[i].send_async(t::ASYNC_REMOTE_LOCAL, req, mid, b"")?;
                let m = hs[i].recv_async("remote/local")?;
                let eff = u.log.effects_since(n0);
                ensure!(
                    eff.iter().all(|e| matches!(e, Ev::Remote(_) | Ev::Lockout(_))),
                    "remote/local request {req} did {eff:?}: {trace}"
                );
                let got = fold(&eff);
                let want = match req {
                    0 | 2 => (Some(false), Some(false)),
                    1 => (None, None),
                    3 => (Some(true), None),
                    4 => (None, Some(true)),
                    5 => (Some(true), Some(true)),
                    6 => (Some(false), None),
                    _ => (None, None),
                };
                if req <= 6 {
                    ensure!(
                        m.typ == t::ASYNC_REMOTE_LOCAL_RESPONSE,
                        "remote/local request {req} answered with {m}: {trace}"
                    );
                } else {
                    ensure!(
                        m.typ == t::ERROR,
                        "unknown remote/local request {req} answered with {m}: {trace}"
                    );
                }
                ensure!(
                    got == want,
                    "remote/local request {req} set remote to {:?} and lockout to {:?}, prescribed are {:?} and {:?}: {trace}",
                    got.0, got.1, want.0, want.1
                );
                match req {
                    0 | 2 => enabled[i] = Some(false),
                    1 | 3 | 4 | 5 => enabled[i] = Some(true),
                    _ => {}
                }
                ctx.count(&format!("request {}", if req <= 6 { req.to_string() } else { "unknown".into() }), 1);
            }
            5..=6 => {
                let st = rng.u8();
                u.log.set_status(st);
                trace.push_str(&format!("{i} queries; "));
                let s = hs[i].status()?;
                ensure!(s & 0xef == st & 0xef, "status {s:#x} instead of {st:#x}: {trace}");
                let eff = u.log.effects_since(n0);
                let ok = match enabled[i] {
                    Some(false) => eff.is_empty(),
                    Some(true) => !eff.is_empty() && eff.iter().all(|e| *e == Ev::Remote(true)),
                    _ => eff.iter().all(|e| *e == Ev::Remote(true)),
                };
                ensure!(
                    ok,
                    "status query with remote enabled={:?} did {eff:?}: {trace}",
                    enabled[i]
                );
                if enabled[i] == Some(false) {
                    disabled_queries += 1;
                }
            }
            _ => {
                trace.push_str(&format!("{i} commands; "));
                hs[i].sync_is_clean("x")?;
            }
        }
    }
    ctx.count("queries while remote is disabled", disabled_queries);
    ctx.eval(hash_of(&trace), true, || trace.clone());
    Ok(())
}

/// Status queries while other sessions hold the lock or wait
fn locked_query_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let mut a = Hs::open(srv.addr, "")?;
    let mut b = Hs::open(srv.addr, "")?;
    let mut c = Hs::open(srv.addr, "")?;
    let k: &[u8] = if rng.chance(1, 2) { b"" } else { b"shared" };
    ensure!(a.lock(0, k)? == 1, "free lock refused");
    let waiting = rng.chance(1, 2);
    if waiting {
        b.cmd(b"WAIT")?;
    }
    let lock_wait = rng.chance(1, 2);
    if lock_wait {
        c.lock_start(60_000, b"other")?;
    }
    for _ in 0..rng.range(1, 5) {
        let st = rng.u8();
        u.log.set_status(st);
        let s = b.status()?;
        ensure!(
            s & 0xef == st & 0xef,
            "status query while locked returned {s:#x}, the device has {st:#x}"
        );
        let s = a.status()?;
        ensure!(s & 0xef == st & 0xef, "status query of the holder returned {s:#x}, the device has {st:#x}");
        ctx.count("status queries while locked", 2);
    }
    ensure!(!u.log.has_exec(b"WAIT"), "command executed while another session holds the lock");
    a.release()?;
    if lock_wait {
        ensure!(c.lock_answer()? == 1, "waiting lock request refused");
        c.release()?;
    }
    b.sync_is_clean("b")?;
    ctx.eval(hash_of(&(k, waiting, lock_wait, rng.next())), true, || {
        format!("lock {:?}, command waiting {waiting}, lock request waiting {lock_wait}", show(k))
    });
    Ok(())
}

/// A device which fails requests, every now and then
fn devfail_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let n = rng.range(1, 3);
    let mut hs = Vec::new();
    for _ in 0..n {
        hs.push(Hs::open_v(srv.addr, "", *rng.pick(&[0x0100, 0x0200]))?);
    }
    let mut trace = String::new();
    let mut enabled: Vec<Option<bool>> = vec![None; n];
    for step in 0..rng.range(4, 20) {
        let i = rng.below(n);
        let fail = match rng.below(5) {
            0 => Some(Err3::NotSupported),
            1 => Some(Err3::IoTimeout),
            2 => Some(Err3::IoError),
            3 => None,
            _ => *u.log.fail_with.lock().unwrap(),
        };
        u.log.set_fail(fail);
        let n0 = u.log.len();
        let what = match rng.below(9) {
            0..=3 => {
                let req = rng.below(7) as u8;
                let what = format!("{i} requests remote/local {req} of a device with {fail:?}");
                let mid = hs[i].mid;
                hs[i].send_async(t::ASYNC_REMOTE_LOCAL, req, mid, b"")?;
                let m = hs[i].recv_async("remote/local").what(format!("{what}; {trace}"))?;
                let eff = u.log.effects_since(n0);
                // What can fail is going to remote or local
                let asked: Vec<bool> =
                    eff.iter().filter_map(|e| if let Ev::Remote(x) = e { Some(*x) } else { None }).collect();
                let want: &[bool] = match req {
                    0 | 2 | 6 => &[false],
                    3 | 5 => &[true],
                    _ => &[],
                };
                ensure!(asked == want, "{what}: the device was asked {eff:?}: {trace}");
                let failed = fail.is_some() && !want.is_empty();
                ensure!(
                    m.typ == if failed { t::ERROR } else { t::ASYNC_REMOTE_LOCAL_RESPONSE },
                    "{what}: answered with {m}: {trace}"
                );
                enabled[i] = match req {
                    6 => enabled[i],
                    _ if failed => None,
                    0 | 2 => Some(false),
                    _ => Some(true),
                };
                if failed {
                    ctx.count("remote/local requests which the device failed", 1);
                }
                what
            }
            4 => {
                let what = format!("{i} triggers a device with {fail:?}");
                let mid = hs[i].next_mid();
                hs[i].send_sync(t::TRIGGER, 0, mid, b"")?;
                ctx.count("triggers", 1);
                hs[i].sync_is_clean("t").what(format!("{what}; {trace}"))?;
                let eff: Vec<_> =
                    u.log.effects_since(n0).into_iter().filter(|e| matches!(e, Ev::Trigger(_))).collect();
                ensure!(eff.len() == 1, "{what}: device saw {eff:?}: {trace}");
                what
            }
            5 => {
                let what = format!("{i} clears a device with {fail:?}");
                let left = hs[i].clear().what(format!("{what}; {trace}"))?;
                ensure!(left.is_empty(), "{what}: {} messages before the acknowledge: {trace}", left.len());
                let eff = u.log.effects_since(n0);
                ensure!(eff.contains(&Ev::Clear), "{what}: device saw {eff:?}: {trace}");
                ctx.count("clears", 1);
                what
            }
            6 | 7 => {
                let st = rng.u8();
                u.log.set_status(st);
                let what = format!("{i} queries the status of a device with {fail:?}");
                let s = hs[i].status().what(format!("{what}; {trace}"))?;
                if fail.is_none() {
                    ensure!(s & 0xef == st & 0xef, "{what}: {s:#x} instead of {st:#x}: {trace}");
                }
                let eff = u.log.effects_since(n0);
                let ok = match enabled[i] {
                    Some(false) => eff.is_empty(),
                    Some(true) => !eff.is_empty() && eff.iter().all(|e| *e == Ev::Remote(true)),
                    None => eff.iter().all(|e| *e == Ev::Remote(true)),
                };
                ensure!(ok, "{what}: device saw {eff:?} with remote enabled={:?}: {trace}", enabled[i]);
                ctx.count("status queries", 1);
                what
            }
            _ => {
                hs[i].sync_is_clean(&format!("c{step}")).what(&trace)?;
                format!("{i} commands a device with {fail:?}")
            }
        };
        trace.push_str(&what);
        trace.push_str("; ");
        // Exactly one answer, and the session goes on on both channels
        let (x, k) = hs[i].lock_info().what(format!("after {trace}"))?;
        ensure!(!x && k == 0, "locked ({x}, {k}) without any lock request: {trace}");
    }
    u.log.set_fail(None);
    for (i, h) in hs.iter_mut().enumerate() {
        h.sync_is_clean(&format!("e{i}")).what(&trace)?;
        h.lock_info().what(&trace)?;
    }
    if let Some(e) = srv.ended() {
        return viol(format!("server ended: {e}: {trace}"));
    }
    ctx.eval(hash_of(&trace), true, || trace.clone());
    Ok(())
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("random histories of announcements (single and bursts), status queries and locks of 1-4 sessions; remote/local requests 0-255 with the device's remote and lockout state folded from its log; status queries under another session's lock; all of these requests, triggers and clears of devices which fail them. Non-trivial: a service request was received or any request judged");
    ctx.cases_par("srq", ctx.n(500, 15000), if ctx.thorough { 350 } else { 25 }, 6, |r, _| srq_case(ctx, r));
    ctx.cases_par("remote", ctx.n(500, 15000), if ctx.thorough { 200 } else { 15 }, 6, |r, _| remote_case(ctx, r));
    ctx.cases_par("locked", ctx.n(150, 4000), if ctx.thorough { 100 } else { 10 }, 6, |r, _| locked_query_case(ctx, r));
    ctx.cases_par("crowd", ctx.n(6, 100), if ctx.thorough { 100 } else { 10 }, 2, |r, _| super::crowd::sessions_srq_case(ctx, r));
    ctx.cases_par("devfail", ctx.n(300, 8000), if ctx.thorough { 120 } else { 10 }, 6, |r, _| devfail_case(ctx, r));
    ctx.cases("long", 1, 60, |_, _| super::long::status_queries(ctx));
}
