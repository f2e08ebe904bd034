//! C20: service requests over the VXI-11 interrupt channel.

use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::fd::AsRawFd;
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;

use crate::dev::Unit;
use crate::net;
use crate::rt::*;
use crate::vxi::*;

/// The client's end of an interrupt channel
enum Sink {
    Tcp { s: TcpStream, buf: Vec<u8> },
    Udp(UdpSocket),
}

struct Chan {
    sink: Sink,
    prog: u32,
    vers: u32,
    xids: HashSet<u32>,
    closed: bool,
}

fn parse_intr(b: &[u8], c: &mut Chan) -> R<Vec<u8>> {
    let what = "interrupt call";
    let mut r = Rd::new(b);
    let xid = r.u(what)?;
    let head: Vec<u32> = (0..5).map(|_| r.u(what)).collect::<R<_>>()?;
    ensure!(
        head == [0, 2, c.prog, c.vers, 30],
        "interrupt call has type, RPC version, program, version, procedure {head:?}, must be {:?}",
        [0, 2, c.prog, c.vers, 30]
    );
    for _ in 0..2 {
        ensure!(
            r.u(what)? == 0 && r.op(what)?.is_empty(),
            "interrupt call carries credentials: {}",
            show(b)
        );
    }
    let h = r.op(what)?;
    r.end(what)?;
    ensure!(
        c.xids.insert(xid),
        "two interrupt calls carry transaction id {xid:#x}"
    );
    Ok(h)
}

impl Chan {
    /// What has arrived by now
    fn take(&mut self) -> R<Vec<Vec<u8>>> {
        let mut msgs = Vec::new();
        match &mut self.sink {
            Sink::Tcp { s, buf } => {
                let mut b = [0u8; 4096];
                loop {
                    match s.read(&mut b) {
                        Ok(0) => {
                            self.closed = true;
                            break;
                        }
                        Ok(n) => buf.extend_from_slice(&b[..n]),
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                        Err(_) => {
                            self.closed = true;
                            break;
                        }
                    }
                }
                let mut msg = Vec::new();
                let mut at = 0;
                let mut done = 0;
                while buf.len() - at >= 4 {
                    let h = u32::from_be_bytes(buf[at..at + 4].try_into().unwrap());
                    let n = (h & 0x7fff_ffff) as usize;
                    ensure!(n < 10_000, "interrupt call of {n} bytes");
                    if buf.len() - at - 4 < n {
                        break;
                    }
                    msg.extend_from_slice(&buf[at + 4..at + 4 + n]);
                    at += 4 + n;
                    if h & 0x8000_0000 != 0 {
                        msgs.push(std::mem::take(&mut msg));
                        done = at;
                    }
                }
                buf.drain(..done);
                net::quickack(s);
            }
            Sink::Udp(s) => {
                let mut b = vec![0u8; 4096];
                while let Ok(n) = s.recv(&mut b) {
                    msgs.push(b[..n].to_vec());
                }
            }
        }
        msgs.iter().map(|m| parse_intr(m, self)).collect()
    }
}

struct Conn {
    v: Vxi,
    chan: Option<Chan>,
    /// Channels which were given up
    old: Vec<Chan>,
    /// Link and its handle, if enabled
    links: BTreeMap<u32, Option<Vec<u8>>>,
    /// Announcements made for a handle while there was no channel. The link may get to them only
    /// after one has been opened
    slack: BTreeMap<Vec<u8>, usize>,
}

struct World<'a> {
    ctx: &'a Ctx,
    srv: VxiSrv,
    abort: Rpc,
    srq: StatusSender,
    conns: Vec<Conn>,
    trace: String,
    key: u64,
}

fn bag(l: &[Vec<u8>]) -> BTreeMap<Vec<u8>, usize> {
    let mut m = BTreeMap::new();
    for e in l {
        *m.entry(e.clone()).or_insert(0) += 1;
    }
    m
}

fn enough(got: &[Vec<u8>], want: &BTreeMap<Vec<u8>, usize>) -> bool {
    let got = bag(got);
    want.iter().all(|(h, n)| got.get(h).is_some_and(|g| g >= n))
}

impl World<'_> {
    fn note(&mut self, s: String) {
        self.key = hash_of(&(self.key, s.split('=').next()));
        self.trace.push_str(&s);
        self.trace.push_str("; ");
    }

    /// Announce `k` statuses, every enabled link of every connection with a channel must make `k` calls
    fn announce(&mut self, rng: &mut Rng, k: usize) -> R {
        self.note(format!("announce {k}"));
        for _ in 0..k {
            self.srq.send_status(rng.u8());
        }
        let mut got: Vec<Vec<Vec<u8>>> = vec![Vec::new(); self.conns.len()];
        let want: Vec<BTreeMap<Vec<u8>, usize>> = self
            .conns
            .iter()
            .map(|c| {
                let mut m = BTreeMap::new();
                if c.chan.is_some() {
                    for h in c.links.values().flatten() {
                        *m.entry(h.clone()).or_insert(0) += k;
                    }
                }
                m
            })
            .collect();
        for c in self.conns.iter_mut().filter(|c| c.chan.is_none()) {
            for h in c.links.values().flatten() {
                *c.slack.entry(h.clone()).or_insert(0) += k;
            }
        }
        let t = Instant::now();
        let mut calm = None;
        loop {
            for (i, c) in self.conns.iter_mut().enumerate() {
                if let Some(ch) = &mut c.chan {
                    got[i].extend(ch.take().what(&self.trace)?);
                    ensure!(!ch.closed, "interrupt channel of connection {i} was closed: {}", self.trace);
                }
                for ch in &mut c.old {
                    let x = ch.take().what(&self.trace)?;
                    ensure!(
                        x.is_empty(),
                        "interrupt call with handle {} over a channel which was destroyed: {}",
                        show(&x[0]),
                        self.trace
                    );
                }
                for (h, n) in bag(&got[i]) {
                    let w = *want[i].get(&h).unwrap_or(&0) + *c.slack.get(&h).unwrap_or(&0);
                    ensure!(
                        n <= w,
                        "connection {i} got {n} interrupt calls with handle {}, must be {w}: {}",
                        show(&h),
                        self.trace
                    );
                }
            }
            if got.iter().zip(&want).all(|(g, w)| enough(g, w)) {
                // Nothing more may come
                let since = *calm.get_or_insert(Instant::now());
                if since.elapsed() > Duration::from_millis(if rng.chance(1, 200) { 25 } else { 3 }) {
                    break;
                }
            } else if t.elapsed() > DEADLINE {
                let i = got.iter().zip(&want).position(|(g, w)| !enough(g, w)).unwrap();
                return late(format!(
                    "connection {i} got interrupt calls {:?}, must be {:?}: {}",
                    bag(&got[i]),
                    want[i],
                    self.trace
                ));
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        for (i, c) in self.conns.iter_mut().enumerate() {
            for (h, n) in bag(&got[i]) {
                let extra = n.saturating_sub(*want[i].get(&h).unwrap_or(&0));
                if extra > 0 {
                    *c.slack.get_mut(&h).unwrap() -= extra;
                    self.ctx.count("late calls for announcements made before the channel was open", extra as u64);
                }
            }
        }
        let total: usize = got.iter().map(|g| g.len()).sum();
        self.ctx.count("interrupt calls", total as u64);
        self.ctx.count("announcements", k as u64);
        Ok(())
    }
}

fn handle(rng: &mut Rng) -> Vec<u8> {
    let n = *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 16, 39, 40]);
    rng.bytes(n)
}

fn unused_port() -> u16 {
    net::pick_port()
}

fn case(ctx: &Ctx, rng: &mut Rng) -> R {
    let units = [Unit::new(), Unit::new()];
    let srq = StatusSender::new();
    let srv = start(&[("inst0", &units[0]), ("inst1", &units[1])], &srq)?;
    let nc = rng.range(1, 4);
    let mut w = World {
        ctx,
        abort: Rpc::connect(srv.abort, ABORT)?,
        conns: Vec::new(),
        srv,
        srq,
        trace: String::new(),
        key: 0,
    };
    for _ in 0..nc {
        let v = Vxi::connect(w.srv.core)?;
        w.conns.push(Conn { v, chan: None, old: Vec::new(), links: BTreeMap::new(), slack: BTreeMap::new() });
    }
    for _ in 0..rng.range(10, 60) {
        let i = rng.below(nc);
        match rng.below(20) {
            0..=1 => {
                if w.conns[i].links.len() < 4 {
                    let lid = w.conns[i].v.link(*rng.pick(&["inst0", "inst1"]))?;
                    w.conns[i].links.insert(lid, None);
                    w.note(format!("{i} creates link={lid}"));
                }
            }
            2..=5 => {
                // Enable, perhaps again
                let l: Vec<u32> = w.conns[i].links.keys().copied().collect();
                if l.is_empty() {
                    continue;
                }
                let lid = *rng.pick(&l);
                let h = handle(rng);
                let again = w.conns[i].links[&lid].is_some();
                w.note(format!("{i} enables{}={lid} {}", if again { " again" } else { "" }, show(&h)));
                let err = w.conns[i].v.enable_srq(lid, true, &h)?;
                ensure!(err == 0, "device_enable_srq answered {err}: {}", w.trace);
                w.conns[i].links.insert(lid, Some(h));
                ctx.count(if again { "enabled again" } else { "enabled" }, 1);
            }
            6 => {
                let l: Vec<u32> = w.conns[i].links.keys().copied().collect();
                if l.is_empty() {
                    continue;
                }
                let lid = *rng.pick(&l);
                w.note(format!("{i} disables={lid}"));
                let h = handle(rng);
                let err = w.conns[i].v.enable_srq(lid, false, &h)?;
                ensure!(err == 0, "disabling service requests answered {err}: {}", w.trace);
                w.conns[i].links.insert(lid, None);
                ctx.count("disabled", 1);
            }
            7 => {
                // Somebody else's link, or none
                let others: Vec<u32> = w
                    .conns
                    .iter()
                    .enumerate()
                    .filter(|(k, _)| *k != i)
                    .flat_map(|(_, c)| c.links.keys().copied())
                    .collect();
                let lid = if others.is_empty() || rng.chance(1, 2) { 0x1000_0000 } else { *rng.pick(&others) };
                let on = rng.chance(1, 2);
                w.note(format!("{i} sets wrong link={lid} {on}"));
                let err = w.conns[i].v.enable_srq(lid, on, &handle(rng))?;
                ensure!(err == e::INVALID_LINK, "device_enable_srq for a wrong link answered {err}: {}", w.trace);
                ctx.count("refused: not this connection's link", 1);
            }
            8 => {
                let l: Vec<u32> = w.conns[i].links.keys().copied().collect();
                if l.is_empty() {
                    continue;
                }
                let lid = *rng.pick(&l);
                w.note(format!("{i} destroys={lid}"));
                let err = w.conns[i].v.destroy(lid)?;
                ensure!(err == 0, "destroy_link answered {err}: {}", w.trace);
                w.conns[i].links.remove(&lid);
            }
            9 => {
                // The connection goes away
                let how = *rng.pick(&net::LEAVES);
                w.note(format!("{i} leaves {how:?}"));
                let v = Vxi::connect(w.srv.core)?;
                let mut old = std::mem::replace(&mut w.conns[i], Conn { v, chan: None, old: Vec::new(), links: BTreeMap::new(), slack: BTreeMap::new() });
                let keep = net::leave(old.v.rpc.s, how);
                // The server has noticed when it has forgotten the links
                let t = Instant::now();
                for lid in old.links.keys() {
                    while w.srv.abort_call(&mut w.abort, *lid)? == 0 {
                        if t.elapsed() > DEADLINE {
                            return late(format!("link of a closed connection is still alive: {}", w.trace));
                        }
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
                std::thread::sleep(Duration::from_millis(15));
                if let Some(c) = old.chan.take() {
                    w.conns[i].old.push(c);
                }
                w.conns[i].old.append(&mut old.old);
                drop(keep);
                ctx.count("connections closed", 1);
            }
            10..=12 => {
                // Interrupt channel
                let udp = rng.chance(1, 2);
                let host = Ipv4Addr::new(127, 0, 0, rng.range(1, 3) as u8);
                let (prog, vers) = (*rng.pick(&[0x0607B1, 1, rng.clone().u32()]), *rng.pick(&[1, 2, u32::MAX]));
                if w.conns[i].chan.is_some() {
                    let err = w.conns[i].v.create_intr(host, unused_port(), prog, vers, udp)?;
                    w.note(format!("{i} second channel={err}"));
                    ensure!(err == e::CHAN_ESTABLISHED, "second interrupt channel answered {err}: {}", w.trace);
                    ctx.count("second channels refused", 1);
                    continue;
                }
                if rng.chance(1, 5) {
                    let err = w.conns[i].v.create_intr(host, unused_port(), prog, vers, false)?;
                    w.note(format!("{i} channel to nobody={err}"));
                    ensure!(
                        err == e::CHAN_NOT_ESTABLISHED,
                        "interrupt channel to a port where nobody listens answered {err}: {}",
                        w.trace
                    );
                    ctx.count("channels which could not be connected", 1);
                    continue;
                }
                w.note(format!("{i} channel {}", if udp { "udp" } else { "tcp" }));
                let sink;
                if udp {
                    let s = UdpSocket::bind((host, 0)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                    let port = s.local_addr().unwrap().port();
                    let err = w.conns[i].v.create_intr(host, port, prog, vers, true)?;
                    ensure!(err == 0, "create_intr_chan over UDP answered {err}: {}", w.trace);
                    let _ = s.set_nonblocking(true);
                    sink = Sink::Udp(s);
                } else {
                    let l = TcpListener::bind((host, 0)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                    let port = l.local_addr().unwrap().port();
                    let err = w.conns[i].v.create_intr(host, port, prog, vers, false)?;
                    ensure!(err == 0, "create_intr_chan over TCP answered {err}: {}", w.trace);
                    let _ = l.set_nonblocking(true);
                    let t = Instant::now();
                    let s = loop {
                        match l.accept() {
                            Ok((s, _)) => break s,
                            Err(_) if t.elapsed() < DEADLINE => std::thread::sleep(Duration::from_millis(1)),
                            Err(_) => return late(format!("no connection to the interrupt port: {}", w.trace)),
                        }
                    };
                    let _ = s.set_nonblocking(true);
                    sink = Sink::Tcp { s, buf: Vec::new() };
                }
                w.conns[i].chan = Some(Chan { sink, prog, vers, xids: HashSet::new(), closed: false });
                ctx.count(if udp { "UDP channels" } else { "TCP channels" }, 1);
            }
            13 => {
                let has = w.conns[i].chan.is_some();
                w.note(format!("{i} destroys channel {has}"));
                let err = w.conns[i].v.destroy_intr()?;
                let want = if has { 0 } else { e::CHAN_NOT_ESTABLISHED };
                ensure!(err == want, "destroy_intr_chan answered {err} instead of {want}: {}", w.trace);
                if let Some(c) = w.conns[i].chan.take() {
                    w.conns[i].old.push(c);
                }
            }
            14 => {
                // The client's end of the channel breaks, it makes a new one
                let Some(c) = w.conns[i].chan.take() else { continue };
                if matches!(c.sink, Sink::Udp(_)) {
                    w.conns[i].chan = Some(c);
                    continue;
                }
                w.note(format!("{i} channel breaks"));
                drop(c);
                for _ in 0..rng.below(4) {
                    w.announce(rng, 1)?;
                }
                let err = w.conns[i].v.destroy_intr()?;
                ensure!(err == 0 || err == e::CHAN_NOT_ESTABLISHED, "destroy_intr_chan answered {err}: {}", w.trace);
                ctx.count("channels broken", 1);
            }
            15..=16 => {
                // Whatever else a link is used for leaves its service requests alone
                let l: Vec<u32> = w.conns[i].links.keys().copied().collect();
                if l.is_empty() {
                    continue;
                }
                let lid = *rng.pick(&l);
                let what = rng.below(10);
                w.note(format!("{i} {}={lid}", [
                    "queries", "writes half", "clears", "triggers", "reads status", "goes remote and local", "locks and unlocks", "is aborted",
                    "unlocks", "tries a link to nothing",
                ][what]));
                let c = &mut w.conns[i];
                let err = match what {
                    0 => c.v.check_query(lid, b"m0n4").map(|_| 0)?,
                    1 => c.v.write(lid, 0, 0, b"m0n")?.0,
                    2 => c.v.op(p::CLEAR, lid, 0, 0)?,
                    3 => c.v.op(p::TRIGGER, lid, 0, 0)?,
                    4 => c.v.stb(lid, 0, 0)?.0,
                    5 => c.v.op(p::REMOTE, lid, 0, 0)?.max(c.v.op(p::LOCAL, lid, 0, 0)?),
                    6 => c.v.lock(lid, 0, 0)?.max(c.v.unlock(lid)?),
                    7 => w.srv.abort_call(&mut w.abort, lid)?,
                    8 => (c.v.unlock(lid)? != e::NO_LOCK) as u32,
                    _ => (c.v.create("inst7", false, 0)?.err == 0) as u32,
                };
                ensure!(err == 0, "failed with {err}: {}", w.trace);
                if what == 1 {
                    // Nobody shall find half a command in the way later
                    let err = w.conns[i].v.op(p::CLEAR, lid, 0, 0)?;
                    ensure!(err == 0, "device_clear answered {err}: {}", w.trace);
                }
                ctx.count("other operations in between", 1);
            }
            17 => {
                // Even while somebody holds the lock
                let l: Vec<u32> = w.conns[i].links.keys().copied().collect();
                if l.is_empty() {
                    continue;
                }
                let lid = *rng.pick(&l);
                w.note(format!("{i} locks={lid}"));
                let err = w.conns[i].v.lock(lid, 0, 0)?;
                ensure!(err == 0, "device_lock answered {err}: {}", w.trace);
                w.announce(rng, 1)?;
                w.note(format!("{i} unlocks={lid}"));
                let err = w.conns[i].v.unlock(lid)?;
                ensure!(err == 0, "device_unlock answered {err}: {}", w.trace);
                ctx.count("announcements under a lock", 1);
            }
            _ => {
                let k = rng.range(1, 2);
                w.announce(rng, k)?;
            }
        }
    }
    for _ in 0..2 {
        w.announce(rng, 1)?;
    }
    ctx.seen("histories", w.key);
    let key = w.key;
    ctx.eval(key, w.conns.iter().any(|c| c.chan.is_some() && !c.links.is_empty()), || {
        w.trace.chars().take(500).collect()
    });
    let _: SocketAddr = w.srv.core;
    Ok(())
}

/// Addresses outside of this host must be as good as local ones. Nothing is sent to them.
fn remote_case(ctx: &Ctx) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = start(&[("inst0", &u)], &srq)?;
    let mut v = Vxi::connect(srv.core)?;
    for a in [[192, 0, 2, 1], [192, 0, 2, 77], [10, 1, 2, 3], [172, 16, 0, 9], [8, 8, 8, 8]] {
        let host = Ipv4Addr::from(a);
        let s = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        if s.connect((host, 9)).is_err() {
            // No route here
            continue;
        }
        let err = v.create_intr(host, 9, 0x0607B1, 1, true)?;
        ensure!(err == 0, "UDP interrupt channel to host {host} answered {err}");
        let err = v.destroy_intr()?;
        ensure!(err == 0, "destroy_intr_chan answered {err}");
        ctx.count("UDP channels to other hosts", 1);
    }
    Ok(())
}

/// Bytes under way between a listener and whoever is connected to it
fn under_way(port: u16) -> u64 {
    let s = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
    let mut n = 0;
    for l in s.lines().skip(1) {
        let f: Vec<&str> = l.split_whitespace().collect();
        let is = |a: &str| a.rsplit_once(':').map_or(false, |(_, p)| u16::from_str_radix(p, 16) == Ok(port));
        if f.len() > 4 && (is(f[1]) || is(f[2])) {
            for q in f[4].split(':') {
                n += u64::from_str_radix(q, 16).unwrap_or(0);
            }
        }
    }
    n
}

/// The client does not read its interrupt channel until it is full, and disables, enables again or destroys
/// links whose service requests are stuck there. What it reads afterwards must be whole calls.
fn stalled_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let mut srq = StatusSender::new();
    let srv = start(&[("inst0", &u)], &srq)?;
    let mut v = Vxi::connect(srv.core)?;
    let (prog, vers) = (rng.u32(), rng.u32());
    let inc = |e: std::io::Error| Fail::Inconclusive(e.to_string());
    let open = |v: &mut Vxi| -> R<Chan> {
        let l = TcpListener::bind("127.0.0.1:0").map_err(inc)?;
        let n: libc::c_int = 4096;
        unsafe {
            libc::setsockopt(l.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const _, 4);
            libc::listen(l.as_raw_fd(), 8);
        }
        let port = l.local_addr().map_err(inc)?.port();
        let err = v.create_intr(Ipv4Addr::LOCALHOST, port, prog, vers, false)?;
        ensure!(err == 0, "create_intr_chan answered {err}");
        let (s, _) = l.accept().map_err(inc)?;
        s.set_nonblocking(true).map_err(inc)?;
        Ok(Chan { sink: Sink::Tcp { s, buf: Vec::new() }, prog, vers, xids: HashSet::new(), closed: false })
    };
    let mut chan = open(&mut v)?;
    let port = match &chan.sink {
        Sink::Tcp { s, .. } => s.local_addr().map_err(inc)?.port(),
        _ => 0,
    };
    // Links and the handles they were ever enabled with
    let mut links: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut ever: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let mut next = 0u32;
    let mut fresh = |rng: &mut Rng| {
        next += 1;
        let mut h = format!("h{next}-").into_bytes();
        let k = rng.range(0, 34);
        h.extend(rng.bytes(k));
        h
    };
    let mut announced = 0usize;
    for _ in 0..rng.range(1, 3) {
        let lid = v.link("inst0")?;
        let h = fresh(rng);
        ensure!(v.enable_srq(lid, true, &h)? == 0, "enable_srq failed");
        ever.insert(h.clone(), announced);
        links.insert(lid, h);
    }
    // Until there are more of them than fit, and nothing moves any more. A link which lags behind is not told
    // of everything
    let (mut last, mut same) = (0, 0);
    while same < 6 {
        if announced > 400_000 {
            return inconc("the interrupt channel does not fill up");
        }
        for i in 0..500 {
            srq.send_status(rng.u8());
            if i % 4 == 0 {
                std::thread::sleep(Duration::from_micros(60));
            }
        }
        announced += 500;
        let n = under_way(port);
        same = if n == last && n > 0 { same + 1 } else { 0 };
        last = n;
    }
    let mut trace = format!("{last} bytes are stuck;");
    let all: Vec<u32> = links.keys().copied().collect();
    for _ in 0..rng.range(1, 4) {
        let lid = *rng.pick(&all);
        match rng.below(4) {
            0 | 1 => {
                trace.push_str(&format!(" disable {lid}"));
                let err = v.enable_srq(lid, false, b"").what(&trace)?;
                ensure!((err == 0) == links.contains_key(&lid) || err == 0, "disable answered {err}: {trace}");
                links.remove(&lid);
            }
            2 => {
                let h = fresh(rng);
                trace.push_str(&format!(" enable {lid} with {}", show(&h)));
                if v.enable_srq(lid, true, &h).what(&trace)? == 0 {
                    ever.insert(h.clone(), announced);
                    links.insert(lid, h);
                }
            }
            _ => {
                trace.push_str(&format!(" destroy {lid}"));
                v.destroy(lid).what(&trace)?;
                links.remove(&lid);
            }
        }
        for _ in 0..rng.below(4) {
            srq.send_status(rng.u8());
            announced += 1;
        }
    }
    let lid = v.link("inst0")?;
    let h = fresh(rng);
    trace.push_str(&format!(" enable {lid} with {}", show(&h)));
    ensure!(v.enable_srq(lid, true, &h).what(&trace)? == 0, "enable_srq failed: {trace}");
    ever.insert(h.clone(), announced);
    srq.send_status(rng.u8());
    announced += 1;
    // Read all of it
    let mut seen: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    let t = Instant::now();
    let mut read = 0;
    while seen.get(&h).copied().unwrap_or(0) == 0 {
        let got = chan.take().what(&trace)?;
        read += got.len();
        for h in &got {
            *seen.entry(h.clone()).or_insert(0) += 1;
        }
        for (h, n) in &seen {
            let Some(from) = ever.get(h) else {
                return viol(format!("interrupt call with handle {}, never used: {trace}", show(h)));
            };
            ensure!(*n <= announced - from, "{n} interrupt calls with handle {}: {trace}", show(h));
        }
        if chan.closed {
            // Giving up a stalled channel is the server's right; it can then be opened again
            trace.push_str(" closed");
            let _ = v.destroy_intr()?;
            chan = open(&mut v).what(&trace)?;
            srq.send_status(rng.u8());
            announced += 1;
            ctx.count("stalled channels given up", 1);
        }
        if t.elapsed() > DEADLINE + Duration::from_secs(8) {
            return late(format!("after {read} calls link {lid} makes none for an announcement: {trace}"));
        }
        if got.is_empty() {
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    ctx.count("calls read from a channel which was stalled", read as u64);
    ctx.eval(hash_of(&trace), true, || trace.clone());
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    ctx.rule(
        "Random histories of up to 4 connections which create and destroy links, enable (also again, with \
         new handles), disable, open and close interrupt channels over TCP and UDP to several loopback \
         addresses with random programs and versions, break channels, disconnect, use the links for every \
         other operation, and announcements of one or two statuses, also under a lock. The harness is the interrupt server: every received call is decoded strictly and \
         the multiset of handles per connection must be the enabled links' times the announcements; \
         nothing may arrive for disabled, destroyed or closed ones. stalled: links are disabled, enabled again and \
         destroyed while the channel is full and unread; what is read later must be whole calls. Non-trivial: ends with an open \
         channel and a link; distinct by history.",
    );
    ctx.cases("remote", 1, 10, |_, _| remote_case(ctx));
    ctx.cases_par("crowd", ctx.n(6, 120), ctx.n(10, 120) as u64, 2, |rng, _| super::crowd::srq_case(ctx, rng));
    ctx.cases_par("stalled", ctx.n(12, 300), ctx.n(15, 200) as u64, 4, |rng, _| stalled_case(ctx, rng));
    ctx.cases_par("world", ctx.n(1000, 20_000), ctx.n(22, 600) as u64, 4, |rng, _| case(ctx, rng));
}
