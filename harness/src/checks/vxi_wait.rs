//! C18, C19: locks, waiting and aborts of the VXI-11 server.

use std::collections::BTreeMap;
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;

use crate::dev::{Ev, Unit};
use crate::net;
use crate::rt::*;
use crate::vxi::*;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Write(Vec<u8>),
    /// Data without END, has no effect on the device
    Partial,
    Read,
    Stb,
    Trigger,
    Clear,
    Remote(bool),
    Lock,
    /// create_link with lock
    Create,
}

impl Op {
    fn encode(&self, lid: u32, flags: u32, ms: u32, name: &str) -> (u32, Vec<u8>) {
        match self {
            Op::Write(d) => (p::WRITE, write_args(lid, flags | END, ms, d)),
            Op::Partial => (p::WRITE, write_args(lid, flags, ms, b"")),
            Op::Read => (p::READ, read_args(lid, 1 << 20, flags, ms, 0)),
            Op::Stb => (p::READSTB, generic(lid, flags, ms)),
            Op::Trigger => (p::TRIGGER, generic(lid, flags, ms)),
            Op::Clear => (p::CLEAR, generic(lid, flags, ms)),
            Op::Remote(true) => (p::REMOTE, generic(lid, flags, ms)),
            Op::Remote(false) => (p::LOCAL, generic(lid, flags, ms)),
            Op::Lock => (p::LOCK, X::new().u(lid).u(flags).u(ms).0),
            Op::Create => (
                p::CREATE_LINK,
                X::new().u(7).u(1).u(ms).op(name.as_bytes()).0,
            ),
        }
    }
    fn effect(&self) -> Option<Ev> {
        match self {
            Op::Write(d) => Some(Ev::Exec(d.clone())),
            Op::Stb => Some(Ev::Status),
            Op::Trigger => Some(Ev::Trigger("Bus".into())),
            Op::Clear => Some(Ev::Clear),
            Op::Remote(on) => Some(Ev::Remote(*on)),
            _ => None,
        }
    }
    fn locks(&self) -> bool {
        matches!(self, Op::Lock | Op::Create)
    }
}

#[derive(Clone)]
struct Pend {
    op: Op,
    xid: u32,
    /// Was allowed for a moment since it was sent
    brief: u8,
    /// Was aborted, or may time out
    may_fail: Option<u32>,
    since: Instant,
}

struct Member {
    v: Vxi,
    unit: usize,
    lid: Option<u32>,
    pend: Option<Pend>,
    n: usize,
}

struct World<'a> {
    ctx: &'a Ctx,
    srv: VxiSrv,
    abort: Rpc,
    units: Vec<Unit>,
    holder: Vec<Option<usize>>,
    m: Vec<Member>,
    /// Effects of operations which succeeded
    done: Vec<Vec<Ev>>,
    trace: String,
    key: u64,
}

const NAMES: [&str; 2] = ["inst0", "inst1"];

fn readable(v: &Vxi) -> R<bool> {
    let s = &v.rpc.s;
    let _ = s.set_nonblocking(true);
    let mut b = [0u8; 1];
    let r = s.peek(&mut b);
    let _ = s.set_nonblocking(false);
    match r {
        Ok(0) => viol("connection closed by the server"),
        Ok(_) => Ok(true),
        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(false),
        Err(e) => viol(format!("connection lost: {e}")),
    }
}

fn bag(l: &[Ev]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for e in l {
        *m.entry(format!("{e:?}")).or_insert(0) += 1;
    }
    m
}

impl World<'_> {
    fn hist(&self) -> String {
        let n = self.trace.chars().count();
        self.trace.chars().skip(n.saturating_sub(2200)).collect()
    }
    fn note(&mut self, s: String) {
        self.trace.push_str(&s);
        self.trace.push_str("; ");
    }
    fn free(&self, i: usize) -> bool {
        self.holder[self.m[i].unit].map_or(true, |h| h == i)
    }

    fn start(&mut self, i: usize, op: &Op, flags: u32, ms: u32) -> R<u32> {
        let name = NAMES[self.m[i].unit];
        let m = &mut self.m[i];
        let (proc, args) = op.encode(m.lid.unwrap_or(0), flags, ms, name);
        m.v.rpc.start(proc, &args)
    }

    /// Take a reply: error code, and account for what it means
    fn reply(&mut self, i: usize, op: &Op, xid: u32) -> R<u32> {
        let h = self.hist();
        let v = self.m[i].v.rpc.finish(xid, &format!("member {i}: {op:?}")).what(&h)?;
        let mut r = Rd::new(&v);
        let err = r.u("reply")?;
        match op {
            Op::Create => {
                let lid = r.u("reply")?;
                if err == 0 {
                    self.m[i].lid = Some(lid);
                }
            }
            Op::Read => {
                r.u("reply")?;
                r.op("reply")?;
            }
            _ => {}
        }
        if err == 0 {
            let u = self.m[i].unit;
            if op.locks() {
                ensure!(
                    self.holder[u].is_none(),
                    "member {i} was granted the lock while member {:?} holds it: {h}",
                    self.holder[u]
                );
                self.holder[u] = Some(i);
            } else if let Some(e) = op.effect() {
                self.done[u].push(e);
            }
        }
        self.key = hash_of(&(self.key, i, std::mem::discriminant(op), err));
        Ok(err)
    }

    fn freed(&mut self, u: usize) {
        self.holder[u] = None;
        for m in &mut self.m {
            if m.unit == u {
                if let Some(p) = &mut m.pend {
                    p.brief = 2;
                }
            }
        }
    }

    /// Take replies which have arrived
    fn poll(&mut self) -> R<bool> {
        let mut any = false;
        for i in 0..self.m.len() {
            if self.m[i].pend.is_none() || !readable(&self.m[i].v).what(&self.hist())? {
                continue;
            }
            any = true;
            let p = self.m[i].pend.take().unwrap();
            let free = self.free(i);
            let u = self.m[i].unit;
            let before = self.holder[u];
            let err = self.reply(i, &p.op, p.xid)?;
            self.note(format!("[{i} {:?} -> {err}]", p.op));
            if err == 0 {
                ensure!(
                    free || p.brief > 0,
                    "{:?} of member {i} succeeded while member {before:?} holds the lock: {}",
                    p.op,
                    self.hist()
                );
                self.ctx.count("waiting calls which succeeded", 1);
            } else {
                ensure!(
                    p.may_fail == Some(err),
                    "{:?} of member {i}, waiting with a long timeout, failed with error {err}: {}",
                    p.op,
                    self.hist()
                );
                self.ctx.count(
                    if err == e::ABORT { "calls aborted" } else { "calls timed out near the release" },
                    1,
                );
            }
        }
        Ok(any)
    }

    fn settle(&mut self) -> R {
        let t0 = Instant::now();
        loop {
            let any = self.poll()?;
            let must: Vec<usize> = (0..self.m.len())
                .filter(|&i| {
                    self.m[i]
                        .pend
                        .as_ref()
                        .map_or(false, |p| self.holder[self.m[i].unit].is_none() || p.may_fail == Some(e::LOCKED))
                })
                .collect();
            let logs: Vec<bool> = (0..self.units.len())
                .map(|u| bag(&self.units[u].log.all()) == bag(&self.done[u]))
                .collect();
            if must.is_empty() && logs.iter().all(|x| *x) {
                break;
            }
            if t0.elapsed() > DEADLINE {
                if !must.is_empty() {
                    return late(format!(
                        "calls of members {must:?} ({:?}) must complete (holders {:?}): {}",
                        must.iter().map(|&i| &self.m[i].pend.as_ref().unwrap().op).collect::<Vec<_>>(),
                        self.holder,
                        self.hist()
                    ));
                }
                let u = logs.iter().position(|x| !*x).unwrap();
                let (a, b) = (bag(&self.units[u].log.all()), bag(&self.done[u]));
                let odd: Vec<String> = a
                    .keys()
                    .chain(b.keys())
                    .filter(|k| a.get(*k) != b.get(*k))
                    .map(|k| format!("{k}: {:?} times, must be {:?}", a.get(k).unwrap_or(&0), b.get(k).unwrap_or(&0)))
                    .collect();
                return viol(format!(
                    "effects on device {u} are not those of the calls which succeeded: {odd:?} (holders {:?}): {}",
                    self.holder,
                    self.hist()
                ));
            }
            if !any {
                std::thread::sleep(Duration::from_micros(150));
            }
        }
        for m in &mut self.m {
            if let Some(p) = &mut m.pend {
                p.brief = p.brief.saturating_sub(1);
            }
        }
        for u in 0..self.units.len() {
            let st = self.units[u].lock_state();
            ensure!(
                st == (self.holder[u].is_some(), 0),
                "lock of device {u} is {st:?}, holder {:?}: {}",
                self.holder[u],
                self.hist()
            );
        }
        Ok(())
    }

    /// An abort for a link which waits: it ends with the abort error
    fn abort_waiting(&mut self, i: usize, patient: bool) -> R {
        let lid = self.m[i].lid.unwrap();
        if patient {
            // By now it certainly waits
            let since = self.m[i].pend.as_ref().unwrap().since;
            std::thread::sleep(Duration::from_millis(300).saturating_sub(since.elapsed()));
        }
        let certain = self.m[i].pend.as_ref().unwrap().since.elapsed() >= Duration::from_millis(300);
        let t = Instant::now();
        let mut sent = 0;
        self.note(format!("abort {i}"));
        let mut next = Instant::now();
        self.m[i].pend.as_mut().unwrap().may_fail = Some(e::ABORT);
        while self.m[i].pend.is_some() {
            // The call may still be on its way when the first abort arrives
            if Instant::now() >= next && sent < if certain { 1 } else { 3 } {
                let err = self.srv.abort_call(&mut self.abort, lid)?;
                ensure!(err == 0, "abort of live link {lid} answered {err}: {}", self.hist());
                sent += 1;
                next = Instant::now() + Duration::from_millis(if sent == 1 { 150 } else { 800 });
            }
            self.poll()?;
            if t.elapsed() > DEADLINE {
                return late(format!("aborted call of member {i} does not return: {}", self.hist()));
            }
            std::thread::sleep(Duration::from_micros(100));
        }
        if certain {
            self.ctx.count("aborts which had to work at the first attempt", 1);
        }
        if sent > 1 {
            self.ctx.count("aborts sent again since the call was not yet waiting", 1);
        }
        Ok(())
    }
}

fn op(rng: &mut Rng, m: &mut Member, i: usize, lockp: usize) -> Op {
    if rng.chance(lockp, 10) {
        return Op::Lock;
    }
    match rng.below(9) {
        0..=2 => {
            m.n += 1;
            let q = if rng.chance(1, 2) { "?" } else { "" };
            Op::Write(format!("m{i}n{}{q}", m.n).into_bytes())
        }
        3 => Op::Partial,
        4 => Op::Read,
        5 => Op::Stb,
        6 => Op::Trigger,
        7 => Op::Clear,
        _ => Op::Remote(rng.chance(1, 2)),
    }
}

struct Weights {
    abort: usize,
    steps: (usize, usize),
}

fn case(ctx: &Ctx, rng: &mut Rng, w8: &Weights) -> R {
    let nu = rng.range(1, 2);
    let units: Vec<Unit> = (0..nu).map(|_| Unit::new()).collect();
    let srq = StatusSender::new();
    let list: Vec<(&str, &Unit)> = NAMES.iter().copied().zip(&units).collect();
    let srv = start(&list, &srq)?;
    let n = rng.range(2, 6);
    let mut m = Vec::new();
    for i in 0..n {
        let unit = if i < 2 { 0 } else { rng.below(nu) };
        let mut v = Vxi::connect(srv.core)?;
        let lid = Some(v.link(NAMES[unit])?);
        m.push(Member { v, unit, lid, pend: None, n: 0 });
    }
    let mut witness = Vxi::connect(srv.core)?;
    let mut w = World {
        ctx,
        abort: Rpc::connect(srv.abort, ABORT)?,
        srv,
        holder: vec![None; nu],
        done: vec![Vec::new(); nu],
        units,
        m,
        trace: String::new(),
        key: 0,
    };
    let mut waited = 0;
    let mut refused = 0;
    for _ in 0..rng.range(w8.steps.0, w8.steps.1) {
        let i = rng.below(n);
        let u = w.m[i].unit;
        if w.m[i].pend.is_some() {
            if w.m[i].lid.is_some() && w.m[i].pend.as_ref().unwrap().op != Op::Create && rng.chance(w8.abort, 10) {
                let k = w.m[i].pend.as_ref().unwrap().op.clone();
                w.abort_waiting(i, rng.chance(1, 8))?;
                ctx.seen("kinds of calls aborted", hash_of(&std::mem::discriminant(&k)));
                w.settle()?;
            }
            continue;
        }
        if w.m[i].lid.is_none() {
            // Make a new link, with the lock
            let ms = *rng.pick(&[0, 20, 60_000, 60_000]);
            let held = w.holder[u].is_some();
            w.note(format!("{i} create_link with lock, {ms} ms"));
            let t = Instant::now();
            let x = w.start(i, &Op::Create, 0, ms)?;
            if !held && ms > 0 {
                let err = w.reply(i, &Op::Create, x)?;
                ensure!(err == 0, "create_link with a free lock answered {err}: {}", w.hist());
            } else if !held {
                // No time at all to take it
                let err = w.reply(i, &Op::Create, x)?;
                ensure!(err == 0 || err == e::LOCKED, "create_link answered {err}: {}", w.hist());
            } else if ms == 60_000 {
                w.m[i].pend = Some(Pend { op: Op::Create, xid: x, brief: 0, may_fail: None, since: Instant::now() });
                ctx.count("create_link waiting for the lock", 1);
                waited += 1;
            } else {
                let err = w.reply(i, &Op::Create, x)?;
                ensure!(err != 0, "create_link got a lock held by member {:?}: {}", w.holder[u], w.hist());
                ensure!(
                    t.elapsed() + Duration::from_millis(1) >= Duration::from_millis(ms as u64),
                    "create_link gave up after {:?} of {ms} ms: {}",
                    t.elapsed(),
                    w.hist()
                );
            }
            w.settle()?;
            continue;
        }
        match rng.below(16) {
            0..=2 if w.holder[u] == Some(i) => {
                // The lock is freed in one of several ways
                let lid = w.m[i].lid.unwrap();
                match rng.below(4) {
                    0 | 1 => {
                        w.note(format!("{i} unlocks"));
                        let err = w.m[i].v.unlock(lid)?;
                        ensure!(err == 0, "unlock by the holder answered {err}: {}", w.hist());
                    }
                    2 => {
                        w.note(format!("{i} destroys its link"));
                        let err = w.m[i].v.destroy(lid)?;
                        ensure!(err == 0, "destroy_link answered {err}: {}", w.hist());
                        w.m[i].lid = None;
                    }
                    _ => {
                        let how = *rng.pick(&net::LEAVES);
                        w.note(format!("{i} leaves ({how:?})"));
                        let new = Vxi::connect(w.srv.core)?;
                        let old = std::mem::replace(&mut w.m[i].v, new);
                        drop(net::leave(old.rpc.s, how));
                        w.m[i].lid = None;
                        if w.m.iter().all(|m| m.unit != u || m.pend.is_none())
                            && !w.units[u].wait_lock(DEADLINE, false, 0)
                        {
                            return late(format!("lock of a connection which is gone is still held: {}", w.hist()));
                        }
                    }
                }
                w.freed(u);
                w.settle()?;
                // A connection which left without anybody waiting, see above
                let lid = w.m[i].lid;
                if lid.is_none() && rng.chance(1, 2) {
                    w.m[i].lid = Some(w.m[i].v.link(NAMES[u])?);
                }
                continue;
            }
            3 => {
                // Unlock or lock again by whoever must not
                let lid = w.m[i].lid.unwrap();
                if w.holder[u] == Some(i) {
                    let fl = if rng.chance(1, 2) { WAIT } else { 0 };
                    let err = w.m[i].v.lock(lid, fl, 60_000)?;
                    w.note(format!("{i} locks again -> {err}"));
                    ensure!(err != 0, "second lock by the holder succeeded: {}", w.hist());
                } else {
                    let err = w.m[i].v.unlock(lid)?;
                    w.note(format!("{i} unlocks -> {err}"));
                    ensure!(err != 0, "unlock without the lock succeeded: {}", w.hist());
                }
                ctx.count("wrong lock and unlock", 1);
                w.settle()?;
                continue;
            }
            4 => {
                // Others are served meanwhile
                let t = Instant::now();
                let k = rng.below(nu);
                let lid = witness.link(NAMES[k]).what(w.hist())?;
                if w.holder[k].is_none() && w.m.iter().all(|m| m.unit != k || m.pend.is_none()) {
                    let (err, _) = witness.write(lid, WAIT | END, 10_000, b"witness")?;
                    ensure!(err == 0, "write of a witness answered {err}: {}", w.hist());
                    w.done[k].push(Ev::Exec(b"witness".to_vec()));
                } else if w.holder[k].is_some() {
                    let (err, _) = witness.stb(lid, 0, 50_000)?;
                    ensure!(err == e::LOCKED, "status read on a locked device answered {err}: {}", w.hist());
                }
                let err = witness.destroy(lid)?;
                ensure!(err == 0, "destroy_link of a witness answered {err}");
                if t.elapsed() > Duration::from_secs(6) {
                    return late(format!("a witness was delayed by {:?}: {}", t.elapsed(), w.hist()));
                }
                ctx.count("witnesses served", 1);
                w.settle()?;
                continue;
            }
            5 => {
                // Aborts of an idle link
                let lid = w.m[i].lid.unwrap();
                let k = rng.range(1, 4);
                w.note(format!("{k} aborts for idle {i}"));
                for _ in 0..k {
                    let err = w.srv.abort_call(&mut w.abort, lid)?;
                    ensure!(err == 0, "abort of an idle link answered {err}: {}", w.hist());
                }
                ctx.count("aborts of idle links", k as u64);
                continue;
            }
            _ => {}
        }
        let lockp = if w.holder[u].is_none() { 5 } else { 2 };
        let o = op(rng, &mut w.m[i], i, lockp);
        if o == Op::Lock && w.holder[u] == Some(i) {
            continue;
        }
        if w.free(i) {
            let wait = rng.chance(2, 3);
            let (fl, ms) = if wait { (WAIT, *rng.pick(&[10_000, u32::MAX])) } else { (0, rng.below(100) as u32) };
            w.note(format!("{i} {o:?}"));
            let x = w.start(i, &o, fl, ms)?;
            let err = w.reply(i, &o, x)?;
            ensure!(err == 0, "{o:?} of member {i} answered {err} although nobody excludes it: {}", w.hist());
            ctx.count("calls served", 1);
            w.settle()?;
            continue;
        }
        match rng.below(6) {
            0 | 1 => {
                // At once
                let x = w.start(i, &o, 0, 60_000)?;
                let t = Instant::now();
                let err = w.reply(i, &o, x)?;
                w.note(format!("{i} {o:?} without waiting -> {err}"));
                ensure!(err == e::LOCKED, "{o:?} of excluded member {i} answered {err}: {}", w.hist());
                if t.elapsed() > Duration::from_secs(6) {
                    return late(format!("{o:?} without the wait flag was answered after {:?}", t.elapsed()));
                }
                refused += 1;
                ctx.count("refused at once", 1);
            }
            2 => {
                let ms = *rng.pick(&[0, 1, 7, 30, 60]);
                let t = Instant::now();
                let x = w.start(i, &o, WAIT, ms)?;
                let err = w.reply(i, &o, x)?;
                w.note(format!("{i} {o:?} waiting {ms} ms -> {err} after {:?}", t.elapsed()));
                ensure!(err == e::LOCKED, "{o:?} of excluded member {i} answered {err}: {}", w.hist());
                ensure!(
                    t.elapsed() + Duration::from_millis(1) >= Duration::from_millis(ms as u64),
                    "gave up after {:?} of {ms} ms: {}",
                    t.elapsed(),
                    w.hist()
                );
                if t.elapsed() > Duration::from_millis(ms as u64 + 6000) {
                    return late(format!("timeout of {ms} ms took {:?}", t.elapsed()));
                }
                refused += 1;
                ctx.count("refused after the timeout", 1);
            }
            3 => {
                // Times out about when the lock is freed
                let h = w.holder[u].unwrap();
                if w.m[h].pend.is_some() || w.m[h].lid.is_none() {
                    continue;
                }
                let ms = rng.range(2, 40) as u32;
                w.note(format!("{i} {o:?} waiting {ms} ms, {h} unlocks about then"));
                let x = w.start(i, &o, WAIT, ms)?;
                w.m[i].pend = Some(Pend { op: o, xid: x, brief: 0, may_fail: Some(e::LOCKED), since: Instant::now() });
                std::thread::sleep(Duration::from_micros(rng.range(0, ms as usize * 1100) as u64));
                let lid = w.m[h].lid.unwrap();
                let err = w.m[h].v.unlock(lid)?;
                ensure!(err == 0, "unlock by the holder answered {err}: {}", w.hist());
                w.freed(u);
                waited += 1;
            }
            _ => {
                w.note(format!("{i} {o:?} waiting"));
                let ms = *rng.pick(&[60_000, 600_000, u32::MAX]);
                let x = w.start(i, &o, WAIT, ms)?;
                w.m[i].pend = Some(Pend { op: o, xid: x, brief: 0, may_fail: None, since: Instant::now() });
                waited += 1;
                ctx.count("calls waiting", 1);
                if rng.chance(1, 3) {
                    std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
                }
                // The abort may arrive anywhere between idle and waiting; the release too
                if rng.chance(w8.abort, 25) {
                    let k = rng.range(1, 2);
                    w.m[i].pend.as_mut().unwrap().may_fail = Some(e::ABORT);
                    let lid = w.m[i].lid.unwrap();
                    w.note(format!("{k} aborts at once"));
                    for _ in 0..k {
                        let err = w.srv.abort_call(&mut w.abort, lid)?;
                        ensure!(err == 0, "abort answered {err}: {}", w.hist());
                    }
                    let h = w.holder[u].unwrap();
                    if w.m[h].pend.is_none() && w.m[h].lid.is_some() {
                        let lid = w.m[h].lid.unwrap();
                        let err = w.m[h].v.unlock(lid)?;
                        ensure!(err == 0, "unlock by the holder answered {err}: {}", w.hist());
                        w.note(format!("{h} unlocks"));
                        w.freed(u);
                    } else {
                        w.abort_waiting(i, rng.chance(1, 8))?;
                    }
                    ctx.count("aborts racing with the call", 1);
                }
            }
        }
        w.settle()?;
    }
    // Everybody who holds lets go; everybody who waits gets it
    for _ in 0..4 * n {
        let Some(u) = (0..nu).find(|&u| w.holder[u].is_some()) else { break };
        let h = w.holder[u].unwrap();
        let lid = w.m[h].lid.unwrap();
        let err = w.m[h].v.unlock(lid)?;
        ensure!(err == 0, "unlock by the holder answered {err}: {}", w.hist());
        w.note(format!("{h} unlocks"));
        w.freed(u);
        w.settle()?;
    }
    for i in 0..n {
        ensure!(w.m[i].pend.is_none(), "member {i} still waits: {}", w.hist());
        if let Some(lid) = w.m[i].lid {
            let d = format!("end{i}").into_bytes();
            let (err, _) = w.m[i].v.write(lid, WAIT | END, 30_000, &d)?;
            ensure!(err == 0, "last write of member {i} answered {err}: {}", w.hist());
            w.done[w.m[i].unit].push(Ev::Exec(d));
        }
    }
    w.settle()?;
    ctx.seen("histories", w.key);
    let key = w.key;
    ctx.eval(key, waited + refused > 0, || w.trace.chars().take(500).collect());
    Ok(())
}

/// Calls waiting for the device itself, which executes a long command
fn busy_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = start(&[("inst0", &u)], &srq)?;
    let mut a = Vxi::connect(srv.core)?;
    let la = a.link("inst0")?;
    let nb = rng.range(1, 3);
    let mut bs = Vec::new();
    for _ in 0..nb {
        let mut v = Vxi::connect(srv.core)?;
        let l = v.link("inst0")?;
        bs.push((v, l));
    }
    let mut ab = Rpc::connect(srv.abort, ABORT)?;
    let busy = Duration::from_millis(700);
    u.log.exec_us.store(busy.as_micros() as u64, std::sync::atomic::Ordering::SeqCst);
    let t0 = Instant::now();
    let xa = a.rpc.start(p::WRITE, &write_args(la, WAIT | END, 60_000, b"slow?"))?;
    if !u.log.wait_exec(DEADLINE, b"slow?") {
        return late("command does not reach the device");
    }
    u.log.exec_us.store(0, std::sync::atomic::Ordering::SeqCst);
    let target = rng.below(nb);
    let mut want = vec![Ev::Exec(b"slow?".to_vec())];
    let mut pend = Vec::new();
    for (i, (v, l)) in bs.iter_mut().enumerate() {
        let op = match rng.below(4) {
            0 => Op::Trigger,
            1 => Op::Stb,
            2 => Op::Remote(true),
            _ => Op::Write(format!("b{i}").into_bytes()),
        };
        let (proc, args) = op.encode(*l, WAIT, 60_000, "inst0");
        pend.push((v.rpc.start(proc, &args)?, op));
    }
    std::thread::sleep(Duration::from_millis(rng.range(20, 80) as u64));
    let mut aborted = false;
    while t0.elapsed() < busy {
        let err = srv.abort_call(&mut ab, bs[target].1)?;
        ensure!(err == 0, "abort of a live link answered {err}");
        std::thread::sleep(Duration::from_millis(25));
        if readable(&bs[target].0)? {
            aborted = true;
            break;
        }
    }
    let when = t0.elapsed();
    let finish = |v: &mut Vxi, x: u32, op: &Op| -> R<u32> {
        let r = v.rpc.finish(x, &format!("{op:?}"))?;
        Rd::new(&r).u("reply")
    };
    let err = finish(&mut bs[target].0, pend[target].0, &pend[target].1)?;
    if err != e::ABORT || !aborted || when > busy {
        if !aborted || err == 0 {
            return late(format!(
                "{:?}, waiting for the busy device, was aborted for {when:?} but answered {err}",
                pend[target].1
            ));
        }
        return viol(format!("aborted call {:?} answered {err}", pend[target].1));
    }
    for i in 0..nb {
        if i != target {
            let err = finish(&mut bs[i].0, pend[i].0, &pend[i].1)?;
            ensure!(err == 0, "{:?} of another link was answered {err} after an abort", pend[i].1);
            want.extend(pend[i].1.effect());
        }
    }
    let err = finish(&mut a, xa, &Op::Trigger)?;
    ensure!(err == 0, "the executing call answered {err}");
    // The link works as before
    let lid = bs[target].1;
    let (err, _) = bs[target].0.write(lid, WAIT | END, 10_000, b"after")?;
    ensure!(err == 0, "call after an abort answered {err}");
    want.push(Ev::Exec(b"after".to_vec()));
    ensure!(
        bag(&u.log.all()) == bag(&want),
        "device saw {:?}, must have seen {want:?}",
        u.log.all()
    );
    ctx.count("calls aborted while the device was busy", 1);
    ctx.eval(hash_of(&(nb, target, format!("{:?}", pend[target].1))), true, || {
        format!("{:?} aborted while the device executes a long command", pend[target].1)
    });
    Ok(())
}

/// Aborts aimed at ids which are not the one of the waiting link
fn wrong_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = start(&[("inst0", &u)], &srq)?;
    let mut v = Vxi::connect(srv.core)?;
    let mut ab = Rpc::connect(srv.abort, ABORT)?;
    // The waiting link may be the only one, the first, the last or between others
    let n = *rng.pick(&[1usize, 1, 2, 3, 5]);
    let mut dead = Vec::new();
    let mut live = Vec::new();
    for _ in 0..n + rng.below(4) {
        live.push(v.link("inst0")?);
    }
    while live.len() > n {
        let l = live.remove(rng.below(live.len()));
        let err = v.destroy(l)?;
        ensure!(err == 0, "destroy_link answered {err}");
        dead.push(l);
    }
    if rng.chance(1, 3) {
        // And of a connection which is gone
        let mut x = Vxi::connect(srv.core)?;
        let l = x.link("inst0")?;
        drop(x);
        let t = Instant::now();
        while srv.abort_call(&mut ab, l)? == 0 {
            if t.elapsed() > DEADLINE {
                return late("the link of a connection which is gone can still be aborted");
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        dead.push(l);
    }
    let at = rng.below(live.len());
    let lid = live[at];
    // Held by something which is not a link
    let mut holder = lxi_device::lock::LockHandle::new(u.lock.clone(), u.dev.clone());
    if holder.try_acquire_exclusive().is_err() {
        return inconc("a fresh lock cannot be taken");
    }
    let op = match rng.below(8) {
        0 => Op::Trigger,
        1 => Op::Stb,
        2 => Op::Remote(rng.chance(1, 2)),
        3 => Op::Read,
        4 => Op::Clear,
        5 => Op::Lock,
        6 => Op::Partial,
        _ => Op::Write(b"waits".to_vec()),
    };
    let (proc, args) = op.encode(lid, WAIT, 60_000, "inst0");
    let x = v.rpc.start(proc, &args)?;
    std::thread::sleep(Duration::from_millis(rng.range(10, 40) as u64));
    let mut others: Vec<u32> = dead.clone();
    others.extend([
        0,
        lid.wrapping_add(1),
        lid.wrapping_sub(1),
        lid | 0x1_0000,
        lid | 0x8000_0000,
        lid.swap_bytes(),
        !lid,
        u32::MAX,
        rng.next() as u32,
    ]);
    others.retain(|o| !live.contains(o));
    let mut sent = Vec::new();
    for _ in 0..rng.range(2, 8) {
        let idle = live.len() > 1 && rng.chance(1, 3);
        let o = if idle {
            let o = *rng.pick(&live);
            if o == lid {
                continue;
            }
            o
        } else {
            *rng.pick(&others)
        };
        let err = srv.abort_call(&mut ab, o)?;
        sent.push((o, err));
        let want = if idle { 0 } else { e::INVALID_LINK };
        ensure!(
            err == want,
            "abort of {o} answered {err} instead of {want}, live links are {live:?}, destroyed {dead:?}"
        );
    }
    std::thread::sleep(Duration::from_millis(rng.range(5, 40) as u64));
    if readable(&v)? {
        let r = v.rpc.finish(x, "reply")?;
        let err = Rd::new(&r).u("reply")?;
        return viol(format!(
            "{op:?} of link {lid} waiting for the lock answered {err} after aborts for other ids {sent:?} (live links {live:?})"
        ));
    }
    let right = rng.chance(1, 3);
    if right {
        // The call may not yet have been waiting
        let t = Instant::now();
        while !readable(&v)? {
            let err = srv.abort_call(&mut ab, lid)?;
            ensure!(err == 0, "abort of live link {lid} answered {err}");
            if t.elapsed() > DEADLINE {
                return late(format!("aborted {op:?} of link {lid} does not return"));
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    } else {
        holder.force_release();
    }
    let r = v.rpc.finish(x, &format!("{op:?}"))?;
    let err = Rd::new(&r).u("reply")?;
    let want = if right { e::ABORT } else { 0 };
    if right && err == 0 {
        return inconc("the lock was released early");
    }
    ensure!(err == want, "{op:?} of link {lid} answered {err} instead of {want} after aborts {sent:?}");
    if right {
        holder.force_release();
    }
    let want: Vec<Ev> = if right { vec![] } else { op.effect().into_iter().filter(|e| *e != Ev::Status).collect() };
    let got = u.log.effects_since(0);
    ensure!(got == want, "device saw {got:?} instead of {want:?} (aborted: {right})");
    ctx.count("aborts for other ids", sent.len() as u64);
    ctx.eval(hash_of(&(n, at, dead.len(), right, format!("{op:?}"), sent.len())), !sent.is_empty(), || {
        format!("{op:?} of link {lid} (live {live:?}, destroyed {dead:?}) waits while {sent:?} are aborted; aborted itself: {right}")
    });
    Ok(())
}

const RULE: &str =
    "world: links of several connections lock, unlock, destroy, disconnect and issue every operation on \
     shared devices without waiting, with timeouts which expire, which expire about when the lock is \
     freed, and with long ones; several calls wait at once; aborts are aimed at waiting, starting and \
     idle links; witnesses work meanwhile. Replies, their times, the holder of the lock and the multiset \
     of effects on every device are compared with a model after every step; an effect must belong to a \
     call which succeeded. busy: calls which wait for a device executing a long command are aborted. \
     wrong: a waiting call must survive aborts for every other id, live, destroyed or never given out. \
     Non-trivial: at least one call was refused or waited; distinct by sequence of members, operations \
     and outcomes.";

pub fn c18(ctx: &Ctx) {
    ctx.rule(RULE);
    ctx.cases_par("world", ctx.n(1200, 20_000), ctx.n(22, 600) as u64, 6, |rng, _| {
        case(ctx, rng, &Weights { abort: 1, steps: (15, 70) })
    });
    ctx.cases("long", 1, 60, |_, _| super::long::links_locks(ctx));
}

pub fn c19(ctx: &Ctx) {
    ctx.rule(RULE);
    ctx.cases_par("world", ctx.n(700, 14_000), ctx.n(18, 600) as u64, 6, |rng, _| {
        case(ctx, rng, &Weights { abort: 7, steps: (15, 60) })
    });
    ctx.cases_par("busy", ctx.n(16, 400), ctx.n(8, 300) as u64, 4, |rng, _| busy_case(ctx, rng));
    ctx.cases_par("crowd", ctx.n(4, 60), ctx.n(12, 150) as u64, 4, |rng, _| super::crowd::links_case(ctx, rng));
    ctx.cases_par("wrong", ctx.n(200, 6000), ctx.n(6, 200) as u64, 6, |rng, _| wrong_case(ctx, rng));
}
