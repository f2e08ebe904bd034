//! C26: one device and lock behind raw, telnet, HiSLIP and VXI-11 at once.

use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

use super::common::*;
use super::lock::{install_hook, set_delays};
use crate::dev::{std_response, DevLog, Ev};
use crate::hislip::t;
use crate::net;
use crate::rt::*;
use crate::vxi;

/// One command and what became of it as far as its client knows
struct Cmd {
    text: Vec<u8>,
    /// Just before its last byte was sent
    sent: Instant,
    /// Refused by the server: must never execute
    refused: bool,
}

/// A lock which was certainly held while the device log grew from `from` to `to`
struct Held {
    from: usize,
    to: usize,
    granted: Instant,
    /// None: exclusive
    key: Option<Vec<u8>>,
}

/// A shared lock which may have been held between two lengths of the device log
struct Maybe {
    from: usize,
    to: usize,
    key: Vec<u8>,
}

struct Story {
    proto: Proto,
    cmds: Vec<Cmd>,
    held: Vec<Held>,
    maybe: Vec<Maybe>,
    /// Left without waiting for its commands
    vanished: bool,
    trace: String,
}

struct Actor<'a> {
    id: usize,
    rng: Rng,
    log: &'a DevLog,
    st: Story,
    seq: usize,
    /// Index in `held` of the exclusive and shared lock
    excl: Option<usize>,
    shared: Option<usize>,
    maybe: Option<usize>,
    /// Responses which have not been read
    owed: Vec<Vec<u8>>,
}

impl Actor<'_> {
    fn note(&mut self, s: &str) {
        if self.st.trace.len() < 1500 {
            self.st.trace.push_str(s);
            self.st.trace.push(' ');
        }
    }

    fn text(&mut self, query: bool, proto: Proto) -> Vec<u8> {
        self.seq += 1;
        let mut v = format!("C{}.{} ", self.id, self.seq).into_bytes();
        let n = match self.rng.below(20) {
            0 => self.rng.range(2_000, 60_000),
            1..=3 => self.rng.range(100, 2_000),
            _ => self.rng.below(30),
        };
        for _ in 0..n {
            let b = match proto {
                Proto::Raw | Proto::Telnet => self.rng.range(32, 126) as u8,
                _ => self.rng.u8(),
            };
            // Only queries have a question mark
            v.push(if b == b'?' { b'!' } else { b });
        }
        if query {
            v.push(b'?');
        }
        v
    }

    fn push(&mut self, text: &[u8]) -> usize {
        self.st.cmds.push(Cmd { text: text.to_vec(), sent: Instant::now(), refused: false });
        self.st.cmds.len() - 1
    }

    fn sent(&mut self, i: usize) {
        self.st.cmds[i].sent = Instant::now();
    }

    fn granted(&mut self, key: Option<Vec<u8>>, from: usize) {
        let h = Held { from, to: usize::MAX, granted: Instant::now(), key };
        let shared = h.key.is_some();
        self.st.held.push(h);
        let i = Some(self.st.held.len() - 1);
        if shared {
            self.shared = i;
        } else {
            self.excl = i;
        }
    }

    /// The best guess at the state of every window when the client goes away
    fn over(&mut self, n: usize) {
        for i in [self.excl.take(), self.shared.take()].into_iter().flatten() {
            self.st.held[i].to = n;
        }
    }

    fn lines(&mut self, c: &mut Cli) -> R {
        // A few commands in one go, cut anywhere
        let tel = matches!(c, Cli::Tel(_));
        let n = self.rng.range(1, 4);
        let mut bytes = Vec::new();
        let mut idx = Vec::new();
        for _ in 0..n {
            let q = self.rng.chance(1, 2);
            let x = self.text(q, Proto::Raw);
            bytes.extend_from_slice(&x);
            bytes.extend_from_slice(if tel { b"\r\n" } else { b"\n" });
            if q {
                self.owed.push(std_response(&x).unwrap());
            }
            let i = self.push(&x);
            idx.push(i);
        }
        self.note(&format!("{n} lines"));
        let s = match c {
            Cli::Raw(s) => s,
            Cli::Tel(t) => &mut t.s,
            _ => unreachable!(),
        };
        for piece in self.rng.split(&bytes, 3) {
            // The earliest of what may complete now
            for &i in &idx {
                self.st.cmds[i].sent = Instant::now();
            }
            net::send(s, &piece)?;
            if self.rng.chance(1, 4) {
                std::thread::sleep(Duration::from_micros(self.rng.below(800) as u64));
            }
        }
        if self.rng.chance(2, 3) {
            self.collect(c)?;
        }
        Ok(())
    }

    /// Read what is owed
    fn collect(&mut self, c: &mut Cli) -> R {
        for want in std::mem::take(&mut self.owed) {
            let got = match c {
                Cli::Raw(s) => {
                    let v = net::read_n(s, want.len() + 1, "raw response")?;
                    ensure!(v[want.len()] == b'\n', "raw response does not end where it should: got {}, want {}", show(&v), show(&want));
                    v[..want.len()].to_vec()
                }
                Cli::Tel(t) => t.line("telnet response")?,
                Cli::Hs(h) => h.response("response")?.0.concat(),
                Cli::Vx(..) => unreachable!(),
            };
            ensure!(got == want, "response of somebody or something else: {}", diff(&got, &want));
        }
        Ok(())
    }

    fn hs(&mut self, c: &mut Cli) -> R {
        let act = self.rng.below(10);
        if act < 5 {
            let q = self.rng.chance(1, 2);
            let x = self.text(q, Proto::Hislip);
            let i = self.push(&x);
            if q {
                self.owed.push(std_response(&x).unwrap());
            }
            let parts = self.rng.split(&x, 3);
            let last = parts.len() - 1;
            let Cli::Hs(h) = c else { unreachable!() };
            for (k, part) in parts.iter().enumerate() {
                let m = h.next_mid();
                if k == last {
                    self.sent(i);
                }
                h.send_sync(if k == last { t::DATA_END } else { t::DATA }, 0, m, part)?;
                if k != last && self.rng.chance(1, 5) {
                    std::thread::sleep(Duration::from_micros(self.rng.below(500) as u64));
                }
            }
            self.note(if q { "query" } else { "command" });
            if self.rng.chance(2, 3) {
                self.collect(c)?;
            }
            return Ok(());
        }
        // Locks. What is still executing must be over before a release, or it may come too
        // late for this window
        if act < 8 {
            let excl = self.excl.is_none() && (self.shared.is_some() || self.rng.chance(1, 2));
            if !excl && (self.shared.is_some() || self.excl.is_some()) {
                return self.release(c);
            }
            let key: Option<Vec<u8>> = (!excl).then(|| self.rng.pick(&[&b"k1"[..], b"k2"]).to_vec());
            let ms = *self.rng.pick(&[0u32, 3, 30]);
            let before = self.log.len();
            if let Some(k) = &key {
                self.st.maybe.push(Maybe { from: before, to: usize::MAX, key: k.clone() });
                self.maybe = Some(self.st.maybe.len() - 1);
            }
            let Cli::Hs(h) = c else { unreachable!() };
            let r = h.lock(ms, key.as_deref().unwrap_or(b""))?;
            let now = self.log.len();
            self.note(&format!("lock({:?})={r}", key.as_ref().map(|k| show(k))));
            if r == 1 {
                self.granted(key, now);
            } else if let Some(m) = self.maybe.take() {
                self.st.maybe[m].to = now;
            }
            return Ok(());
        }
        self.release(c)
    }

    fn release(&mut self, c: &mut Cli) -> R {
        if self.excl.is_none() && self.shared.is_none() {
            return Ok(());
        }
        if self.rng.chance(1, 2) {
            self.collect(c)?;
        }
        let excl = self.excl.is_some();
        // One release releases both
        let n = self.log.len();
        self.over(n);
        match c {
            Cli::Hs(h) => {
                let r = h.release()?;
                ensure!(r == if excl { 1 } else { 2 }, "release of a lock (exclusive: {excl}) answered {r}");
                if let Some(m) = self.maybe.take() {
                    self.st.maybe[m].to = self.log.len();
                }
            }
            Cli::Vx(v, lid) => {
                let err = v.unlock(*lid)?;
                ensure!(err == 0, "unlock of a held lock answered {err}");
            }
            _ => unreachable!(),
        }
        self.note("release");
        Ok(())
    }

    fn vx(&mut self, c: &mut Cli) -> R {
        let act = self.rng.below(10);
        if act < 6 {
            let q = self.rng.chance(1, 2);
            let x = self.text(q, Proto::Vxi);
            let wait = self.rng.chance(2, 3);
            let flags = if wait { vxi::WAIT } else { 0 };
            let i = self.push(&x);
            let parts = self.rng.split(&x, 3);
            let last = parts.len() - 1;
            let Cli::Vx(v, lid) = c else { unreachable!() };
            for (k, part) in parts.iter().enumerate() {
                // A part is refused as well while another client holds the lock
                loop {
                    if k == last {
                        self.st.cmds[i].sent = Instant::now();
                    }
                    let f = flags | if k == last { vxi::END } else { 0 };
                    let (err, n) = v.write(*lid, f, 60_000, part)?;
                    if err == 0 {
                        ensure!(n as usize == part.len(), "write of {} bytes reports {n}", part.len());
                        break;
                    }
                    ensure!((err == vxi::e::LOCKED || err == vxi::e::NOT_ACCESSIBLE) && !wait, "write (wait {wait}) answered {err}");
                    if k == 0 && last == 0 {
                        self.st.cmds[i].refused = true;
                        self.note("refused");
                        return Ok(());
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
            }
            self.note(if q { "query" } else { "command" });
            if q {
                let want = std_response(&x).unwrap();
                let mut got = Vec::new();
                let size = *self.rng.pick(&[1 << 20, 1 << 20, 100_000, 20_000]);
                loop {
                    let r = v.read(*lid, size, vxi::WAIT, 60_000, 0)?;
                    ensure!(r.err == 0, "read of a pending response answered {}", r.err);
                    got.extend_from_slice(&r.data);
                    if r.reason & vxi::R_END != 0 {
                        break;
                    }
                    ensure!(!r.data.is_empty(), "read returns nothing and no end");
                }
                ensure!(got == want, "response of somebody or something else: {}", diff(&got, &want));
            }
            return Ok(());
        }
        if self.excl.is_some() {
            return self.release(c);
        }
        let wait = self.rng.chance(1, 2);
        let ms = *self.rng.pick(&[0u32, 3, 30]);
        let Cli::Vx(v, lid) = c else { unreachable!() };
        let err = v.lock(*lid, if wait { vxi::WAIT } else { 0 }, ms)?;
        let now = self.log.len();
        ensure!(err == 0 || err == vxi::e::LOCKED, "lock request answered {err}");
        self.note(&format!("lock={err}"));
        if err == 0 {
            self.granted(None, now);
        }
        Ok(())
    }

    fn run(&mut self, mut c: Cli, steps: usize, leaves: bool, stop: &AtomicBool) -> R<Option<Cli>> {
        for k in 0..steps {
            if stop.load(Ordering::Relaxed) {
                return Ok(None);
            }
            match &c {
                Cli::Raw(_) | Cli::Tel(_) => self.lines(&mut c)?,
                Cli::Hs(_) => self.hs(&mut c)?,
                Cli::Vx(..) => self.vx(&mut c)?,
            }
            if leaves && k + 1 == steps {
                return self.vanish(c).map(|_| None);
            }
            // Not to keep a lock for too long
            if (self.excl.is_some() || self.shared.is_some()) && self.rng.chance(1, 4) {
                self.release(&mut c)?;
            }
        }
        while self.excl.is_some() || self.shared.is_some() {
            self.release(&mut c)?;
        }
        self.collect(&mut c)?;
        Ok(Some(c))
    }

    /// Leave abruptly, perhaps in the middle of a command
    fn vanish(&mut self, c: Cli) -> R {
        self.st.vanished = true;
        let how = *self.rng.pick(&net::LEAVES);
        self.note(&format!("leaves {how:?}"));
        let part = b"PARTIAL, NEVER COMPLETED";
        let n = self.log.len();
        self.over(n);
        match c {
            Cli::Raw(mut s) => {
                let _ = net::send(&mut s, part);
                net::leave(s, how);
            }
            Cli::Tel(mut t) => {
                let _ = net::send(&mut t.s, part);
                net::leave(t.s, how);
            }
            Cli::Hs(mut h) => {
                let m = h.next_mid();
                let _ = match self.rng.below(3) {
                    0 => h.send_sync(t::DATA, 0, m, part),
                    1 => h.send_sync(t::DATA_END, 0, m, part).and(Ok(())).and_then(|_| {
                        self.push(part);
                        Ok(())
                    }),
                    _ => {
                        let e = crate::hislip::encode(t::DATA_END, 0, m, part);
                        net::send(&mut h.sync, &e[..e.len() - 1])
                    }
                };
                h.leave(how);
            }
            Cli::Vx(mut v, lid) => {
                match self.rng.below(3) {
                    0 => {
                        let x = self.text(false, Proto::Vxi);
                        self.push(&x);
                        let _ = v.rpc.start(vxi::p::WRITE, &vxi::write_args(lid, vxi::END | vxi::WAIT, 60_000, &x));
                    }
                    1 => {
                        let _ = v.rpc.start(vxi::p::WRITE, &vxi::write_args(lid, vxi::WAIT, 60_000, part));
                    }
                    _ => {}
                }
                net::leave(v.rpc.s, how);
            }
        }
        Ok(())
    }
}

fn judge(ctx: &Ctx, stories: &[Story], evs: &[Ev]) -> R {
    // Who executed what, by position in the log
    let mut whose: HashMap<&[u8], (usize, usize)> = HashMap::new();
    for (i, s) in stories.iter().enumerate() {
        for (k, c) in s.cmds.iter().enumerate() {
            // A partial command may be the same for several clients
            whose.insert(&c.text, (i, k));
        }
    }
    let partial = b"PARTIAL, NEVER COMPLETED".to_vec();
    let mut done: Vec<Vec<usize>> = vec![Vec::new(); stories.len()];
    let mut by: Vec<Option<(usize, usize)>> = vec![None; evs.len()];
    let mut partials = 0;
    for (n, e) in evs.iter().enumerate() {
        let Ev::Exec(c) = e else { continue };
        if *c == partial {
            partials += 1;
            continue;
        }
        let Some(&(i, k)) = whose.get(c.as_slice()) else {
            return viol(format!("the device executed {}, which nobody sent as a command", show(c)));
        };
        ensure!(
            !stories[i].cmds[k].refused,
            "{:?} client {i}: command {} was refused because of a lock but executed",
            stories[i].proto,
            show(c)
        );
        done[i].push(k);
        by[n] = Some((i, k));
    }
    let allowed: usize = stories.iter().flat_map(|s| &s.cmds).filter(|c| c.text == partial).count();
    ensure!(partials <= allowed, "a command executed which was never completed ({partials} of {allowed})");
    for (i, s) in stories.iter().enumerate() {
        let want: Vec<usize> = (0..s.cmds.len()).filter(|&k| !s.cmds[k].refused && s.cmds[k].text != partial).collect();
        let ok = if s.vanished { want.starts_with(&done[i]) } else { want == done[i] };
        ensure!(
            ok,
            "{:?} client {i} (left early: {}) sent commands {:?}, executed were, in this order, {:?}; it did {}",
            s.proto,
            s.vanished,
            want.iter().map(|k| k + 1).collect::<Vec<_>>(),
            done[i].iter().map(|k| k + 1).collect::<Vec<_>>(),
            s.trace
        );
    }
    // Locks
    for (i, s) in stories.iter().enumerate() {
        for h in &s.held {
            let mut first = true;
            for n in h.from..h.to.min(evs.len()) {
                let Some((j, k)) = by[n] else { continue };
                let earlier = !first;
                first = false;
                if j == i {
                    ctx.count("commands of a lock's holder inside its window", 1);
                    continue;
                }
                if let Some(key) = &h.key {
                    if stories[j].maybe.iter().any(|m| m.key == *key && m.from <= n && n <= m.to) {
                        ctx.count("commands of another sharer inside a shared lock's window", 1);
                        continue;
                    }
                }
                let o = &stories[j].cmds[k];
                // One client may have been handed the device before the lock was granted
                if !earlier && o.sent <= h.granted {
                    ctx.count("commands which had the device when a lock was granted", 1);
                    continue;
                }
                return viol(format!(
                    "{:?} client {i} held the {} lock while the log of the device grew from {} to {}, but number {n} is {} of {:?} client {j}, {} any other command in that time; holder did {}; the other did {}",
                    s.proto,
                    match &h.key {
                        None => "exclusive".to_string(),
                        Some(k) => format!("shared ({})", show(k)),
                    },
                    h.from,
                    h.to,
                    show(&o.text),
                    stories[j].proto,
                    if earlier { "after" } else { "sent after the grant, before" },
                    s.trace,
                    stories[j].trace,
                ));
            }
        }
    }
    Ok(())
}

fn case(ctx: &Ctx, rng: &mut Rng) -> R {
    let w = World::new(10)?;
    let log = w.units[0].log.clone();
    log.exec_us.store(*rng.pick(&[0, 0, 50, 400]), Ordering::Relaxed);
    set_delays(*rng.pick(&[0, 0, 40, 150]));
    let n = rng.range(3, 8);
    let mut protos: Vec<Proto> = (0..n).map(|_| *rng.pick(&PROTOS)).collect();
    // Somebody who locks and somebody who cannot
    protos[0] = *rng.pick(&[Proto::Hislip, Proto::Vxi]);
    protos[1] = *rng.pick(&[Proto::Raw, Proto::Telnet]);
    let stop = AtomicBool::new(false);
    let bytes = AtomicU64::new(0);
    let mut inputs = Vec::new();
    for &pr in &protos {
        inputs.push((pr, Cli::open(&w, pr, 0)?, rng.fork(), rng.range(8, 30), rng.chance(1, 4)));
    }
    let res: Vec<(Story, R<Option<Cli>>)> = std::thread::scope(|s| {
        let hs: Vec<_> = inputs
            .into_iter()
            .enumerate()
            .map(|(id, (proto, c, rng, steps, leaves))| {
                let (log, stop, bytes) = (&log, &stop, &bytes);
                s.spawn(move || {
                    let mut a = Actor {
                        id,
                        rng,
                        log,
                        st: Story {
                            proto,
                            cmds: Vec::new(),
                            held: Vec::new(),
                            maybe: Vec::new(),
                            vanished: false,
                            trace: String::new(),
                        },
                        seq: 0,
                        excl: None,
                        shared: None,
                        maybe: None,
                        owed: Vec::new(),
                    };
                    let r = a.run(c, steps, leaves, stop);
                    if r.is_err() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    bytes.fetch_add(a.st.cmds.iter().map(|c| c.text.len() as u64).sum(), Ordering::Relaxed);
                    (a.st, r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    beat();
    let mut stories = Vec::new();
    let mut fails = Vec::new();
    let mut clients = Vec::new();
    for (i, (st, r)) in res.into_iter().enumerate() {
        match r {
            Ok(Some(c)) => clients.push((i, c)),
            Ok(None) => {}
            Err(f) => fails.push(f.ctx(&format!("{:?} client {i} of {protos:?} ({})", st.proto, st.trace))),
        }
        stories.push(st);
    }
    fails.sort_by_key(|f| match f {
        Fail::Violation(_) => 0,
        Fail::Late(_) => 1,
        Fail::Inconclusive(_) => 2,
    });
    if let Some(f) = fails.into_iter().next() {
        return Err(f);
    }
    // All commands of those who stayed execute
    let partial = b"PARTIAL, NEVER COMPLETED";
    let want: Vec<&[u8]> = stories
        .iter()
        .filter(|s| !s.vanished)
        .flat_map(|s| &s.cmds)
        .filter(|c| !c.refused && c.text != partial)
        .map(|c| c.text.as_slice())
        .collect();
    let complete = log.wait(DEADLINE, |l| {
        let have: std::collections::HashSet<&[u8]> = l
            .iter()
            .filter_map(|r| if let Ev::Exec(c) = &r.ev { Some(c.as_slice()) } else { None })
            .collect();
        want.iter().all(|c| have.contains(c))
    });
    // Nothing more arrives, neither at the device nor at a client
    for (i, mut c) in clients {
        let tag = format!("LAST {i}?");
        c.check_query(tag.as_bytes()).what(format!("last query of {:?} client {i} of {protos:?}", protos[i]))?;
        let s = match &mut c {
            Cli::Raw(s) => s,
            Cli::Hs(h) => &mut h.sync,
            Cli::Vx(v, _) => &mut v.rpc.s,
            Cli::Tel(_) => continue,
        };
        if let Err(b) = net::quiet(s, Duration::from_millis(1)) {
            return viol(format!("{:?} client {i} received something nobody asked for: {}", protos[i], show(&b)));
        }
    }
    let evs: Vec<Ev> = log
        .all()
        .into_iter()
        .map(|e| match e {
            Ev::Exec(c) if c.starts_with(b"LAST ") => Ev::Status,
            e => e,
        })
        .collect();
    judge(ctx, &stories, &evs)?;
    if !complete {
        return late(format!("commands of {protos:?} have not executed though no lock is held"));
    }
    // Locks of those who are gone are gone
    ensure!(
        w.units[0].wait_lock(DEADLINE, false, 0),
        "nobody holds a lock, but the device has {:?}",
        w.units[0].lock_state()
    );
    let execs = evs.iter().filter(|e| matches!(e, Ev::Exec(_))).count();
    let windows: usize = stories.iter().map(|s| s.held.len()).sum();
    ctx.count("commands executed", execs as u64);
    ctx.count("locks granted", windows as u64);
    ctx.count("commands refused because of a lock", stories.iter().flat_map(|s| &s.cmds).filter(|c| c.refused).count() as u64);
    ctx.count("clients which vanished", stories.iter().filter(|s| s.vanished).count() as u64);
    ctx.count("bytes of commands", bytes.load(Ordering::Relaxed));
    let order: Vec<u8> = evs
        .iter()
        .filter_map(|e| match e {
            Ev::Exec(c) => c.get(1).copied(),
            _ => None,
        })
        .collect();
    ctx.seen("mixes of protocols", {
        let mut p = protos.clone();
        p.sort_by_key(|p| *p as u8);
        hash_of(&p)
    });
    ctx.eval(hash_of(&order), execs > 10 && windows > 0, || {
        format!("{protos:?}: {execs} commands, {windows} locks, order of the clients {}", show(&order))
    });
    Ok(())
}

pub fn c26(ctx: &Ctx) {
    ctx.rule(
        "3 to 8 clients of raw, telnet, HiSLIP and VXI-11 servers sharing one device send tagged commands (pipelined, in \
         parts, up to 60 kB), take and release exclusive and shared locks, some vanish; random delays inside the lock. The \
         device's log is compared with what every client sent, and with the windows in which locks were certainly held. \
         Counted: distinct orders in which the clients' commands reached the device, with more than 10 commands and a lock. \
         ops: while a HiSLIP or VXI-11 client holds an exclusive lock, a shared one or both, clients of every protocol \
         try every operation: none reaches the device before the release, all which wait do afterwards.",
    );
    install_hook();
    ctx.cases_par("share", ctx.n(150, 6000), ctx.n(35, 700) as u64, 4, |rng, _| case(ctx, rng));
    ctx.cases_par("ops", ctx.n(900, 30_000), ctx.n(20, 500) as u64, 6, |rng, _| super::share_ops::case(ctx, rng));
    set_delays(0);
}
