//! C26, section "ops": a lock of any kind against every operation of every protocol.

use std::time::{Duration, Instant};

use super::common::*;
use crate::dev::{interleaving, std_response, Ev};
use crate::hislip::t;
use crate::net;
use crate::rt::*;
use crate::vxi::{self, p};

/// A client, what it had done and what it waits for
struct Who {
    proto: Proto,
    c: Option<Cli>,
    /// Effects in order, those which are over and those which wait
    done: Vec<Ev>,
    queue: Vec<Ev>,
    /// The same for the asynchronous channel of HiSLIP
    adone: Vec<Ev>,
    aqueue: Vec<Ev>,
    /// Responses to queries which wait
    owed: Vec<Vec<u8>>,
    /// VXI-11 call on the way
    call: Option<(u32, String)>,
    /// Answer to a HiSLIP remote/local request is outstanding
    remote: bool,
    /// Lock request on the way
    wants: bool,
    excl: bool,
    shared: bool,
}

struct Scene<'a> {
    ctx: &'a Ctx,
    w: World,
    who: Vec<Who>,
    hist: String,
    key: u64,
    n: usize,
}

impl Scene<'_> {
    fn note(&mut self, s: String) {
        self.key = hash_of(&(self.key, &s));
        if self.hist.len() < 2500 {
            self.hist.push_str(&s);
            self.hist.push_str("; ");
        }
    }

    fn permitted(&self, i: usize) -> bool {
        if self.who.iter().any(|w| w.excl) {
            return self.who[i].excl;
        }
        self.who[i].shared || !self.who.iter().any(|w| w.shared)
    }

    /// The effects are those of finished operations and nothing else
    fn check(&mut self) -> R {
        let want: usize = self.who.iter().map(|w| w.done.len() + w.adone.len()).sum();
        let log = self.w.units[0].log.clone();
        let enough = log.wait(DEADLINE, |l| l.iter().filter(|r| r.ev != Ev::Status).count() >= want);
        let got = log.effects_since(0);
        if !enough {
            let done: Vec<_> = self.who.iter().flat_map(|w| w.done.iter().chain(&w.adone)).collect();
            return late(format!(
                "operations which nothing prevents were not executed: device saw {got:?}, of {done:?}: {}",
                self.hist
            ));
        }
        let lists: Vec<(&[Ev], bool)> =
            self.who.iter().flat_map(|w| [(w.done.as_slice(), true), (w.adone.as_slice(), true)]).collect();
        if let Err(e) = interleaving(&got, &lists) {
            let waits: Vec<_> = self
                .who
                .iter()
                .enumerate()
                .filter(|(i, w)| !self.permitted(*i) && (!w.queue.is_empty() || !w.aqueue.is_empty()))
                .map(|(i, w)| format!("{:?} client {i}: {:?} {:?}", w.proto, w.queue, w.aqueue))
                .collect();
            return viol(format!(
                "{e}: device saw {got:?}; kept from executing by a lock are {waits:?}: {}",
                self.hist
            ));
        }
        Ok(())
    }

    /// Nothing happens for a while
    fn still(&mut self, rng: &mut Rng) -> R {
        std::thread::sleep(Duration::from_millis(rng.range(2, 15) as u64));
        self.check()
    }

    /// Whatever a client waits for is over now
    fn complete(&mut self, i: usize) -> R {
        let hist = self.hist.clone();
        let w = &mut self.who[i];
        let Some(c) = &mut w.c else { return Ok(()) };
        for want in std::mem::take(&mut w.owed) {
            let got = match c {
                Cli::Raw(s) => read_line(s, "raw response")?,
                Cli::Tel(t) => t.line("telnet response")?,
                Cli::Hs(h) => h.response("response").what(hist.clone())?.0.concat(),
                Cli::Vx(..) => unreachable!(),
            };
            ensure!(got == want, "response {}: {hist}", diff(&got, &want));
        }
        match c {
            Cli::Vx(v, _) => {
                if let Some((x, what)) = w.call.take() {
                    let r = v.rpc.finish(x, &what).what(hist.clone())?;
                    let err = vxi::Rd::new(&r).u(&what)?;
                    ensure!(err == 0, "{what}, which waited until the lock was released, answered {err}: {hist}");
                }
            }
            Cli::Hs(h) => {
                if std::mem::take(&mut w.remote) {
                    let m = h.recv_async("answer to a remote/local request").what(hist.clone())?;
                    ensure!(
                        m.typ == t::ASYNC_REMOTE_LOCAL_RESPONSE,
                        "remote/local request answered with {m}: {hist}"
                    );
                }
            }
            _ => {}
        }
        let mut q = std::mem::take(&mut w.queue);
        w.done.append(&mut q);
        let mut q = std::mem::take(&mut w.aqueue);
        w.adone.append(&mut q);
        Ok(())
    }

    /// A lock was released. Those who waited for one get it in turn, then everybody else goes on.
    fn go_on(&mut self) -> R {
        let free = !self.who.iter().any(|w| w.excl || w.shared);
        if free {
            let t = Instant::now();
            while self.who.iter().any(|w| w.wants) {
                for i in 0..self.who.len() {
                    if !self.who[i].wants {
                        continue;
                    }
                    let s = match self.who[i].c.as_ref().unwrap() {
                        Cli::Hs(h) => &h.asy,
                        Cli::Vx(v, _) => &v.rpc.s,
                        _ => unreachable!(),
                    };
                    let _ = s.set_read_timeout(Some(Duration::from_millis(1)));
                    let mut b = [0u8; 1];
                    let r = s.peek(&mut b);
                    let _ = s.set_read_timeout(Some(DEADLINE));
                    if r.is_err() {
                        continue;
                    }
                    self.who[i].wants = false;
                    let hist = self.hist.clone();
                    let call = self.who[i].call.take();
                    match self.who[i].c.as_mut().unwrap() {
                        Cli::Hs(h) => {
                            let r = h.lock_answer()?;
                            ensure!(r == 1, "lock request which waited for a release answered {r}: {hist}");
                            let r = h.release()?;
                            ensure!(r == 1, "release of an exclusive lock answered {r}: {hist}");
                        }
                        Cli::Vx(v, lid) => {
                            let (x, what) = call.unwrap();
                            let r = v.rpc.finish(x, &what)?;
                            let mut rd = vxi::Rd::new(&r);
                            let err = rd.u(&what)?;
                            ensure!(err == 0, "{what} which waited for a release answered {err}: {hist}");
                            if what.starts_with("create") {
                                let old = *lid;
                                *lid = rd.u(&what)?;
                                let err = v.destroy(old)?;
                                ensure!(err == 0, "destroy_link answered {err}: {hist}");
                            }
                            let err = v.unlock(*lid)?;
                            ensure!(err == 0, "unlock after {what} answered {err}: {hist}");
                        }
                        _ => unreachable!(),
                    }
                    self.ctx.count("locks granted to those who waited", 1);
                    self.note(format!("{i} got the lock and released it"));
                }
                if t.elapsed() > DEADLINE {
                    return late(format!("lock requests are not answered though nobody holds a lock: {}", self.hist));
                }
            }
        }
        for i in 0..self.who.len() {
            if self.permitted(i) && !self.who[i].wants {
                self.complete(i)?;
            }
        }
        self.check()
    }

    fn text(&mut self, i: usize, q: bool) -> Vec<u8> {
        self.n += 1;
        format!("C{i}.{}{}", self.n, if q { "?" } else { "" }).into_bytes()
    }

    /// Commands of a client which may use the device
    fn use_it(&mut self, rng: &mut Rng, i: usize) -> R {
        let q = rng.chance(1, 2);
        let x = self.text(i, q);
        let hist = self.hist.clone();
        let what;
        match self.who[i].c.as_mut().unwrap() {
            Cli::Hs(h) => match rng.below(3) {
                0 => {
                    let m = h.next_mid();
                    h.send_sync(t::TRIGGER, 0, m, &[])?;
                    self.who[i].done.push(Ev::Trigger("Bus".into()));
                    what = "trigger";
                }
                _ if q => {
                    h.check_query(&x).what(hist)?;
                    self.who[i].done.push(Ev::Exec(x));
                    what = "query";
                }
                _ => {
                    h.cmd(&x)?;
                    self.who[i].done.push(Ev::Exec(x));
                    what = "command";
                }
            },
            Cli::Vx(v, lid) => {
                let fl = if rng.chance(1, 2) { vxi::WAIT } else { 0 };
                let (err, ev) = match rng.below(4) {
                    0 => (v.op(p::TRIGGER, *lid, fl, 30_000)?, Ev::Trigger("Bus".into())),
                    1 => (v.op(p::REMOTE, *lid, fl, 30_000)?, Ev::Remote(true)),
                    2 => (v.op(p::CLEAR, *lid, fl, 30_000)?, Ev::Clear),
                    _ => {
                        let x = format!("V{i}.{}", self.n).into_bytes();
                        (v.write(*lid, fl | vxi::END, 30_000, &x)?.0, Ev::Exec(x))
                    }
                };
                // Something else may be executing at this moment
                let busy = fl == 0 && err != 0 && err != vxi::e::LOCKED;
                ensure!(err == 0 || busy, "{ev:?} by the holder of the lock answered {err}: {hist}");
                if err == 0 {
                    self.who[i].done.push(ev);
                }
                what = "call";
            }
            _ => unreachable!(),
        }
        self.note(format!("{i} {what}"));
        self.ctx.count("operations by a holder", 1);
        self.check()
    }

    /// Operations of a client which is excluded
    fn kept_out(&mut self, rng: &mut Rng, i: usize) -> R {
        let hist = self.hist.clone();
        let proto = self.who[i].proto;
        match proto {
            Proto::Raw | Proto::Telnet => {
                let end: &[u8] = if proto == Proto::Raw { b"\n" } else { b"\r\n" };
                let mut out = Vec::new();
                for _ in 0..rng.range(1, 3) {
                    let q = rng.chance(1, 2);
                    let x = self.text(i, q);
                    out.extend_from_slice(&x);
                    out.extend_from_slice(end);
                    if q {
                        self.who[i].owed.push(std_response(&x).unwrap());
                    }
                    self.who[i].queue.push(Ev::Exec(x));
                }
                let s = match self.who[i].c.as_mut().unwrap() {
                    Cli::Raw(s) => s,
                    Cli::Tel(t) => &mut t.s,
                    _ => unreachable!(),
                };
                for p in rng.split(&out, 2) {
                    net::send(s, &p)?;
                }
                self.note(format!("{i} lines"));
            }
            Proto::Hislip => match rng.below(10) {
                0..=3 => {
                    let q = rng.chance(1, 2);
                    let x = self.text(i, q);
                    if q {
                        self.who[i].owed.push(std_response(&x).unwrap());
                    }
                    let Some(Cli::Hs(h)) = &mut self.who[i].c else { unreachable!() };
                    h.cmd(&x)?;
                    self.who[i].queue.push(Ev::Exec(x));
                    self.note(format!("{i} command"));
                }
                4 | 5 => {
                    let Some(Cli::Hs(h)) = &mut self.who[i].c else { unreachable!() };
                    let m = h.next_mid();
                    h.send_sync(t::TRIGGER, 0, m, &[])?;
                    self.who[i].queue.push(Ev::Trigger("Bus".into()));
                    self.note(format!("{i} trigger"));
                }
                6 | 7 if !self.who[i].remote && !self.who[i].wants => {
                    let code = *rng.pick(&[0u8, 2, 3, 4, 5, 6]);
                    let Some(Cli::Hs(h)) = &mut self.who[i].c else { unreachable!() };
                    let m = h.mid;
                    h.send_async(t::ASYNC_REMOTE_LOCAL, code, m, &[])?;
                    self.who[i].remote = true;
                    self.who[i].aqueue.extend(match code {
                        0 | 2 => vec![Ev::Lockout(false), Ev::Remote(false)],
                        3 => vec![Ev::Remote(true)],
                        4 => vec![Ev::Lockout(true)],
                        5 => vec![Ev::Lockout(true), Ev::Remote(true)],
                        _ => vec![Ev::Remote(false)],
                    });
                    self.note(format!("{i} remote/local {code}"));
                }
                8 if !self.who[i].remote && !self.who[i].wants => {
                    // Gives up whatever waits on the synchronous channel, and must not clear the device
                    let Some(Cli::Hs(h)) = &mut self.who[i].c else { unreachable!() };
                    let before = h.clear().what(hist.clone())?;
                    ensure!(before.is_empty(), "responses of commands which wait for a lock: {before:?}: {hist}");
                    self.who[i].queue.clear();
                    self.who[i].owed.clear();
                    self.note(format!("{i} device clear"));
                    self.ctx.count("device clears kept from the device", 1);
                }
                _ if !self.who[i].remote && !self.who[i].wants && !self.who[i].shared => {
                    let Some(Cli::Hs(h)) = &mut self.who[i].c else { unreachable!() };
                    if rng.chance(1, 3) {
                        h.lock_start(60_000, b"")?;
                        self.who[i].wants = true;
                        self.note(format!("{i} wants the lock"));
                    } else {
                        let ms = *rng.pick(&[0, 3]);
                        let key: &[u8] = if rng.chance(1, 2) { b"" } else { b"other" };
                        let r = h.lock(ms, key)?;
                        ensure!(r != 1, "lock request {} by an excluded session answered {r}: {hist}", show(key));
                        self.note(format!("{i} lock={r}"));
                    }
                }
                _ => {}
            },
            Proto::Vxi => {
                if self.who[i].call.is_some() {
                    return Ok(());
                }
                let fl = if rng.chance(1, 2) { vxi::WAIT } else { 0 };
                let ms = if fl == 0 { *rng.pick(&[0u32, 60_000]) } else { *rng.pick(&[0u32, 1, 8]) };
                let wait = rng.chance(1, 3);
                let (fl, ms) = if wait { (vxi::WAIT, *rng.pick(&[60_000, u32::MAX])) } else { (fl, ms) };
                let x = format!("V{i}.{}", self.n).into_bytes();
                self.n += 1;
                let Some(Cli::Vx(v, lid)) = &mut self.who[i].c else { unreachable!() };
                let (proc, args, ev, what) = match rng.below(9) {
                    0 | 1 => (p::WRITE, vxi::write_args(*lid, fl | vxi::END, ms, &x), Some(Ev::Exec(x)), "write"),
                    2 => (p::TRIGGER, vxi::generic(*lid, fl, ms), Some(Ev::Trigger("Bus".into())), "trigger"),
                    3 | 4 => (p::CLEAR, vxi::generic(*lid, fl, ms), Some(Ev::Clear), "clear"),
                    5 => (p::REMOTE, vxi::generic(*lid, fl, ms), Some(Ev::Remote(true)), "remote"),
                    6 => (p::LOCAL, vxi::generic(*lid, fl, ms), Some(Ev::Remote(false)), "local"),
                    7 => (p::LOCK, vxi::X::new().u(*lid).u(fl).u(ms).0, None, "lock"),
                    _ => {
                        let ms = if wait { 60_000 } else { rng.below(9) as u32 };
                        (p::CREATE_LINK, vxi::X::new().u(7).u(1).u(ms).op(VX_NAMES[0].as_bytes()).0, None, "create_link with lock")
                    }
                };
                let lock = ev.is_none();
                let xid = v.rpc.start(proc, &args)?;
                if wait {
                    self.who[i].call = Some((xid, what.to_string()));
                    self.who[i].wants = lock;
                    self.who[i].queue.extend(ev);
                    self.note(format!("{i} {what} waits"));
                } else {
                    let r = v.rpc.finish(xid, what)?;
                    let err = vxi::Rd::new(&r).u(what)?;
                    ensure!(
                        err == vxi::e::LOCKED,
                        "{what} (flags {fl}, {ms} ms) of a link excluded by a lock answered {err}: {hist}"
                    );
                    self.note(format!("{i} {what}={err}"));
                    self.ctx.count("calls refused because of a lock", 1);
                }
            }
        }
        self.ctx.count(&format!("{proto:?} operations under somebody's lock"), 1);
        Ok(())
    }
}

pub fn case(ctx: &Ctx, rng: &mut Rng) -> R {
    let w = World::new(10)?;
    let mut protos = vec![*rng.pick(&[Proto::Hislip, Proto::Hislip, Proto::Vxi])];
    for _ in 0..rng.range(2, 5) {
        protos.push(*rng.pick(&[Proto::Raw, Proto::Telnet, Proto::Hislip, Proto::Hislip, Proto::Vxi, Proto::Vxi]));
    }
    let mut who = Vec::new();
    for &proto in &protos {
        who.push(Who {
            proto,
            c: Some(Cli::open(&w, proto, 0)?),
            done: vec![],
            queue: vec![],
            adone: vec![],
            aqueue: vec![],
            owed: vec![],
            call: None,
            remote: false,
            wants: false,
            excl: false,
            shared: false,
        });
    }
    let mut s = Scene { ctx, w, who, hist: format!("{protos:?}: "), key: 0, n: 0 };
    let n = s.who.len();
    for _round in 0..rng.range(1, 4) {
        if s.who[0].c.is_none() {
            // It left with its lock
            let c = Cli::open(&s.w, protos[0], 0)?;
            s.who[0].c = Some(c);
        }
        // The lock
        let kind = rng.below(3);
        let hist = s.hist.clone();
        match s.who[0].c.as_mut().unwrap() {
            Cli::Hs(h) => {
                if kind != 0 {
                    let r = h.lock(1000, b"key")?;
                    ensure!(r == 1, "shared lock, which is free, answered {r}: {hist}");
                }
                if kind != 1 {
                    let r = h.lock(1000, b"")?;
                    ensure!(r == 1, "exclusive lock, which is free, answered {r}: {hist}");
                }
                s.who[0].shared = kind != 0;
                s.who[0].excl = kind != 1;
            }
            Cli::Vx(v, lid) => {
                let err = if kind == 0 {
                    let l = v.create(VX_NAMES[0], true, 1000)?;
                    if l.err == 0 {
                        let old = *lid;
                        *lid = l.lid;
                        let err = v.destroy(old)?;
                        ensure!(err == 0, "destroy_link answered {err}: {hist}");
                    }
                    l.err
                } else {
                    v.lock(*lid, if kind == 1 { vxi::WAIT } else { 0 }, 1000)?
                };
                ensure!(err == 0, "lock, which is free, answered {err}: {hist}");
                s.who[0].excl = true;
            }
            _ => unreachable!(),
        }
        let (e, sh) = (s.who[0].excl, s.who[0].shared);
        s.note(format!("0 locks (exclusive {e}, shared {sh})"));
        // Others with the same key
        if s.who[0].shared {
            for i in 1..n {
                if protos[i] == Proto::Hislip && rng.chance(1, 3) {
                    let Some(Cli::Hs(h)) = &mut s.who[i].c else { unreachable!() };
                    let r = h.lock(1000, b"key")?;
                    let hist = s.hist.clone();
                    ensure!(r == 1, "shared lock with the same key answered {r}: {hist}");
                    s.who[i].shared = true;
                    s.note(format!("{i} joins"));
                    ctx.count("clients which joined a shared lock", 1);
                }
            }
        }
        // Everybody does something until all locks are released
        while s.who.iter().any(|w| w.excl || w.shared) {
            for _ in 0..rng.range(2, 8) {
                let i = rng.below(n);
                if s.who[i].c.is_none() {
                    continue;
                }
                if s.permitted(i) {
                    if s.who[i].c.is_some() {
                        s.use_it(rng, i)?;
                    }
                } else {
                    s.kept_out(rng, i)?;
                }
            }
            s.still(rng)?;
            // One of them releases
            let held: Vec<usize> = (0..n).filter(|&i| s.who[i].excl || s.who[i].shared).collect();
            // A member under another's exclusive lock may let go as well
            let i = *rng.pick(&held);
            if s.who[i].c.is_none() || s.who[i].remote || s.who[i].wants {
                // Waits for an answer on its asynchronous channel
                let Some(&k) = held.iter().find(|&&k| s.who[k].excl) else {
                    return inconc("nobody can release");
                };
                release(rng, &mut s, k)?;
            } else {
                release(rng, &mut s, i)?;
            }
            s.go_on()?;
        }
    }
    // All are served
    for i in 0..n {
        let Some(c) = &mut s.who[i].c else { continue };
        let tag = format!("END{i}?").into_bytes();
        let h = s.hist.clone();
        c.check_query(&tag).what(h)?;
        s.who[i].done.push(Ev::Exec(tag));
        s.check()?;
    }
    let locked = s.w.units[0].lock_state();
    ensure!(locked == (false, 0), "nobody holds a lock, but the lock is {locked:?}: {}", s.hist);
    let key = s.key;
    ctx.eval(key, true, || s.hist.chars().take(600).collect());
    Ok(())
}

fn release(rng: &mut Rng, s: &mut Scene, i: usize) -> R {
    let (e, sh) = (s.who[i].excl, s.who[i].shared);
    let hist = s.hist.clone();
    // Only the first one leaves, and nothing of it may be on the way
    if i == 0 && rng.chance(1, 4) && s.who[i].queue.is_empty() && s.who[i].call.is_none() {
        let how = *rng.pick(&net::LEAVES);
        s.note(format!("{i} leaves {how:?}"));
        let others = s.who.iter().skip(1).filter(|w| w.shared).count() as u32;
        // Keeps half closed connections until the server has noticed
        let _keep: Vec<_> = match s.who[i].c.take().unwrap() {
            Cli::Hs(h) => h.leave(how).into_iter().flat_map(|(a, b)| [a, b]).collect(),
            Cli::Vx(v, _) => net::leave(v.rpc.s, how).into_iter().collect(),
            _ => unreachable!(),
        };
        s.who[i].excl = false;
        s.who[i].shared = false;
        let waits = s.who.iter().any(|w| w.wants);
        if !(waits && others == 0) && !s.w.units[0].wait_lock(DEADLINE, false, others) {
            return late(format!("the lock of a client which left is still held: {hist}"));
        }
        return Ok(());
    }
    match s.who[i].c.as_mut().unwrap() {
        Cli::Hs(h) => {
            let r = h.release().what(hist.clone())?;
            ensure!(
                r == if e { 1 } else { 2 },
                "release of a lock (exclusive {e}, shared {sh}) answered {r}: {hist}"
            );
        }
        Cli::Vx(v, lid) => {
            if rng.chance(1, 2) {
                let err = v.unlock(*lid)?;
                ensure!(err == 0, "unlock of a held lock answered {err}: {hist}");
            } else {
                let err = v.destroy(*lid)?;
                ensure!(err == 0, "destroy_link answered {err}: {hist}");
                *lid = v.link(VX_NAMES[0])?;
            }
        }
        _ => unreachable!(),
    }
    s.who[i].excl = false;
    s.who[i].shared = false;
    s.note(format!("{i} releases"));
    Ok(())
}
