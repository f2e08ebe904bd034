//! C30: servers run as they were configured, where they were told to.

use std::collections::HashMap;
use std::io::Read;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

use async_std::task;
use lxi_device::status::Sender as StatusSender;
use lxi_hislip::server::{Server as HsServer, ServerBuilder, ServerConfig as HsConfig};
use lxi_socket::server::ServerConfig as RawConfig;
use lxi_telnet::server::ServerConfig as TelConfig;
use lxi_vxi11::server::portmapper::prelude::{Mapping, StaticPortMap};
use lxi_vxi11::server::vxi11::prelude::*;

use super::common::*;
use crate::dev::{std_response, Ev, RecDev, Unit};
use crate::hislip::{self, t, Hs};
use crate::net::{self, Srv};
use crate::rt::*;
use crate::vxi::{self, Rpc, Vxi, X};

static IP: AtomicU32 = AtomicU32::new(0);

/// A loopback address nobody else uses
fn own_ip() -> Ipv4Addr {
    let n = IP.fetch_add(1, Ordering::Relaxed);
    let p = std::process::id();
    Ipv4Addr::new(127, 80 + (p >> 8 & 63) as u8, p as u8, 1 + (n % 250) as u8)
}

type Res = std::io::Result<()>;

/// Start a server which must come up and accept connections
fn boot(addr: SocketAddr, fut: impl std::future::Future<Output = Res> + Send + 'static, what: &str) -> R<Srv> {
    let s = Srv::running(addr, fut)?;
    let t0 = Instant::now();
    loop {
        if let Some(e) = s.ended() {
            return viol(format!("{what} at the free address {addr} ended with {e}"));
        }
        if listening(addr) {
            return Ok(s);
        }
        if t0.elapsed() > DEADLINE {
            return late(format!("{what} does not listen at {addr}, listening are {:?}", listeners(addr.port())));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

/// A server at an address which is in use must say so
fn must_fail(fut: impl std::future::Future<Output = Res> + Send + 'static, what: &str) -> R {
    match task::block_on(async_std::future::timeout(DEADLINE, fut)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => viol(format!("{what}: ended without an error")),
        Err(_) => late(format!("{what}: no error")),
    }
}

/// Addresses with a listening TCP socket at a port
fn listeners(port: u16) -> Vec<Ipv4Addr> {
    let s = std::fs::read_to_string("/proc/net/tcp").unwrap_or_default();
    s.lines()
        .skip(1)
        .filter_map(|l| {
            let mut f = l.split_whitespace().skip(1);
            let local = f.next()?;
            f.next();
            if f.next()? != "0A" {
                return None;
            }
            let (a, p) = local.split_once(':')?;
            (u16::from_str_radix(p, 16).ok()? == port)
                .then(|| u32::from_str_radix(a, 16).ok().map(|x| Ipv4Addr::from(x.to_le_bytes())))?
        })
        .collect()
}

fn listening(a: SocketAddr) -> bool {
    listeners(a.port()).iter().any(|x| IpAddr::V4(*x) == a.ip() || x.is_unspecified())
}

/// Of more clients than the limit as many as the limit are served, and another when one leaves
fn check_limit(
    addr: SocketAddr,
    limit: usize,
    what: &str,
    ask: impl Fn(&mut TcpStream) -> R,
    answered: impl Fn(&mut TcpStream) -> R,
) -> R {
    let mut cs = Vec::new();
    for _ in 0..limit + 2 {
        let mut s = net::connect(addr)?;
        ask(&mut s)?;
        cs.push(s);
    }
    let ready = |s: &TcpStream| -> R<bool> {
        let _ = s.set_read_timeout(Some(Duration::from_millis(1)));
        let r = s.peek(&mut [0u8; 1]);
        let _ = s.set_read_timeout(Some(DEADLINE));
        match r {
            Ok(0) => viol(format!("{what}: a client was disconnected")),
            Ok(_) => Ok(true),
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Ok(false),
            Err(e) => viol(format!("{what}: a client was disconnected: {e}")),
        }
    };
    let count = |cs: &[TcpStream]| -> R<Vec<bool>> { cs.iter().map(ready).collect() };
    let wait = |cs: &[TcpStream], n: usize| -> R<Vec<bool>> {
        let t0 = Instant::now();
        loop {
            let v = count(cs)?;
            if v.iter().filter(|x| **x).count() >= n {
                return Ok(v);
            }
            if t0.elapsed() > DEADLINE {
                return late(format!(
                    "{what}: only {} of {} clients are served",
                    v.iter().filter(|x| **x).count(),
                    cs.len()
                ));
            }
        }
    };
    wait(&cs, limit)?;
    std::thread::sleep(Duration::from_millis(20));
    let v = count(&cs)?;
    let n = v.iter().filter(|x| **x).count();
    ensure!(n <= limit, "{what}: {n} clients are served");
    let i = v.iter().position(|x| *x).unwrap();
    answered(&mut cs[i])?;
    drop(cs.remove(i));
    wait(&cs, limit)?;
    Ok(())
}

// ---------------------------------------------------------------- raw

#[derive(Debug, Clone)]
struct RawModel {
    rd: u8,
    wr: u8,
    limit: usize,
    rb: usize,
    said: String,
}

const CONTROL: [u8; 9] = [b'\n', b'\r', 0, 3, 4, 0x1b, 0x1e, 0x7f, b'\t'];

fn raw_cfg(rng: &mut Rng) -> (RawConfig, RawModel) {
    let mut m = RawModel { rd: b'\n', wr: b'\n', limit: 10, rb: 512 * 1024, said: String::new() };
    let mut c;
    if rng.chance(1, 2) {
        m.said = "default".into();
        c = RawConfig::default();
    } else {
        let (rb, x) = (rng.range(1, 3000), *rng.pick(&CONTROL));
        m = RawModel { rd: x, wr: x, rb, said: format!("new({rb}, {x})"), ..m };
        c = RawConfig::new(rb, x);
    }
    for _ in 0..rng.below(6) {
        match rng.below(4) {
            0 => {
                m.rb = rng.range(1, 3000);
                c = c.read_buffer(m.rb);
                m.said.push_str(&format!(" read_buffer({})", m.rb));
            }
            1 => {
                m.rd = *rng.pick(&CONTROL);
                c = c.read_termination(m.rd);
                m.said.push_str(&format!(" read_termination({})", m.rd));
            }
            2 => {
                m.wr = *rng.pick(&CONTROL);
                c = c.write_termination(m.wr);
                m.said.push_str(&format!(" write_termination({})", m.wr));
            }
            _ => {
                m.limit = rng.range(1, 5);
                c = c.backpressure(m.limit);
                m.said.push_str(&format!(" backpressure({})", m.limit));
            }
        }
    }
    (c, m)
}

/// One command with its response
fn raw_query(s: &mut (impl Read + std::io::Write), m: &RawModel, rng: &mut Rng) -> R<Vec<u8>> {
    let mut c = format!("Q{}", rng.u32()).into_bytes();
    // Other control characters do not end a command, and more than the buffer is no limit
    for _ in 0..rng.below(4) {
        let x = *rng.pick(&CONTROL);
        if x != m.rd {
            c.push(x);
            c.push(b'x');
        }
    }
    if rng.chance(1, 4) {
        c.resize(c.len() + rng.range(1, 4000), b'y');
    }
    c.push(b'?');
    net::send(s, &[&c[..], &[m.rd]].concat())?;
    let mut want = std_response(&c).unwrap();
    want.push(m.wr);
    let got = net::read_n(s, want.len(), "raw response").what(format!("raw server {}: {}", m.said, show(&c)))?;
    ensure!(got == want, "raw server {}: response to {} {}", m.said, show(&c), diff(&got, &want));
    Ok(c)
}

fn raw_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    // Two servers of different configurations on one device
    let mut ms = Vec::new();
    let mut srvs = Vec::new();
    for _ in 0..rng.range(1, 3) {
        let (c, m) = raw_cfg(rng);
        let addr = SocketAddr::from((own_ip(), net::pick_port()));
        srvs.push(boot(addr, c.build().accept(addr, u.lock.clone(), u.dev.clone()), "raw server")?);
        ms.push(m);
    }
    let mut sent = Vec::new();
    for _ in 0..3 {
        for (s, m) in srvs.iter().zip(&ms) {
            let mut c = net::connect(s.addr)?;
            for _ in 0..rng.range(1, 3) {
                sent.push(Ev::Exec(raw_query(&mut c, m, rng)?));
            }
        }
    }
    ensure!(u.log.effects_since(0) == sent, "raw servers {ms:?}: device saw something else than {} commands", sent.len());
    let i = rng.below(ms.len());
    let m = &ms[i];
    check_limit(
        srvs[i].addr,
        m.limit,
        &format!("raw server {}", m.said),
        |s| net::send(s, &[b"L?", &[m.rd][..]].concat()),
        |s| {
            let got = net::read_n(s, 5, "raw response")?;
            ensure!(got == [b"R:L?", &[m.wr][..]].concat(), "response {}", show(&got));
            Ok(())
        },
    )?;
    if rng.chance(1, 3) {
        let (c, m) = raw_cfg(rng);
        let s = super::raw::start_unix(&u, c)?;
        raw_query(&mut super::raw::unix_connect(&s.path)?, &m, rng).what("unix")?;
        let mut cs = Vec::new();
        for i in 0..m.limit + 2 {
            let mut c = super::raw::unix_connect(&s.path)?;
            net::send(&mut c, &[format!("UNIX{i}?").as_bytes(), &[m.rd][..]].concat())?;
            cs.push(c);
        }
        let ran = || u.log.execs().iter().filter(|c| c.starts_with(b"UNIX")).count();
        let t0 = Instant::now();
        while ran() < m.limit {
            if t0.elapsed() > DEADLINE {
                return late(format!("unix server {}: only {} clients are served", m.said, ran()));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        std::thread::sleep(Duration::from_millis(20));
        ensure!(ran() <= m.limit, "unix server {}: {} clients are served", m.said, ran());
        drop(cs);
        ctx.count("unix servers", 1);
        ms.push(m);
    }
    ctx.count("raw servers", srvs.len() as u64);
    let said: Vec<_> = ms.iter().map(|m| m.said.clone()).collect();
    ctx.eval(hash_of(&said), true, || format!("{said:?}"));
    Ok(())
}

// ---------------------------------------------------------------- telnet

fn telnet_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let (mut limit, mut c, mut said);
    limit = 10;
    if rng.chance(1, 2) {
        c = TelConfig::default();
        said = "default".to_string();
    } else {
        let rb = rng.range(0, 3000);
        c = TelConfig::new(rb);
        said = format!("new({rb})");
    }
    for _ in 0..rng.below(5) {
        if rng.chance(1, 2) {
            let rb = rng.range(0, 3000);
            c = c.read_buffer(rb);
            said.push_str(&format!(" read_buffer({rb})"));
        } else {
            limit = rng.range(1, 5);
            c = c.backpressure(limit);
            said.push_str(&format!(" backpressure({limit})"));
        }
    }
    let addr = SocketAddr::from((own_ip(), net::pick_port()));
    let _srv = boot(addr, c.build().accept(addr, u.lock.clone(), u.dev.clone()), "telnet server")?;
    // More than the limit, one after another
    for i in 0..3 {
        let mut c = Cli::Tel(Tel::connect(addr)?);
        c.check_query(format!("T{i}{}?", "z".repeat(rng.below(4000))).as_bytes()).what(format!("telnet server {said}"))?;
    }
    // Prompts come at once, so the answer itself is what tells a client which is served
    let n = limit + 2;
    let mut cs: Vec<Tel> = (0..n).map(|_| Tel::connect(addr)).collect::<R<_>>()?;
    for (i, c) in cs.iter_mut().enumerate() {
        net::send(&mut c.s, format!("LIM{i}?\r\n").as_bytes())?;
    }
    let ran = || u.log.execs().iter().filter(|c| c.starts_with(b"LIM")).count();
    let t0 = Instant::now();
    while ran() < limit {
        if t0.elapsed() > DEADLINE {
            return late(format!("telnet server {said}: only {} of {n} clients are served", ran()));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    std::thread::sleep(Duration::from_millis(20));
    ensure!(ran() <= limit, "telnet server {said}: {} clients are served", ran());
    let served = |i: usize| u.log.has_exec(format!("LIM{i}?").as_bytes());
    let i = (0..n).find(|i| served(*i)).unwrap();
    let got = cs[i].line("telnet response")?;
    ensure!(got == format!("R:LIM{i}?").as_bytes(), "telnet server {said}: response {}", show(&got));
    drop(cs.remove(i));
    let t0 = Instant::now();
    while ran() < limit + 1 {
        if t0.elapsed() > DEADLINE {
            return late(format!("telnet server {said}: no waiting client is served after one left"));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    ctx.count("telnet servers", 1);
    ctx.eval(hash_of(&said), true, || said.clone());
    Ok(())
}

// ---------------------------------------------------------------- HiSLIP

#[derive(Debug, Clone)]
struct HsModel {
    vendor: u16,
    max: u64,
    overlap: bool,
    sessions: usize,
    idn: Option<Vec<u8>>,
    said: String,
}

fn hs_cfg(rng: &mut Rng) -> (HsConfig, HsModel) {
    let mut m = HsModel {
        vendor: 0xBEEF,
        max: 1 << 20,
        overlap: true,
        sessions: 64,
        idn: None,
        said: "default".into(),
    };
    let mut c = HsConfig::default();
    for _ in 0..rng.below(8) {
        match rng.below(6) {
            0 => {
                m.vendor = rng.u32() as u16;
                c = c.vendor_id(m.vendor);
                m.said.push_str(&format!(" vendor_id({:#x})", m.vendor));
            }
            1 => {
                m.max = *rng.pick(&[64, 100, 4096, 1 << 20, 1 << 24, 123_457]) + rng.below(5) as u64;
                c = c.max_message_size(m.max);
                m.said.push_str(&format!(" max_message_size({})", m.max));
            }
            2 => {
                m.overlap = true;
                c = c.prefer_overlap();
                m.said.push_str(" prefer_overlap");
            }
            3 => {
                m.overlap = false;
                c = c.prefer_synchronized();
                m.said.push_str(" prefer_synchronized");
            }
            4 => {
                m.sessions = rng.range(1, 6);
                c = c.max_num_sessions(m.sessions);
                m.said.push_str(&format!(" max_num_sessions({})", m.sessions));
            }
            _ => {
                let mut i = format!("Maker,Model {},{},1.0", rng.below(100), rng.u32()).into_bytes();
                i.extend_from_slice(*rng.pick(&[&b""[..], b"\n", b"\r\n", b"\0"]));
                c = c.short_idn(&i);
                m.said.push_str(&format!(" short_idn({})", show(&i)));
                m.idn = Some(i);
            }
        }
    }
    (c, m)
}

const HS: [&str; 5] = ["hislip0", "hislip1", "Inst", "dev/one", "x"];

fn hs_case(ctx: &Ctx, rng: &mut Rng, idx: u64) -> R {
    let (c, m) = if idx == 0 {
        // The default limit
        let m = HsModel { vendor: 0xBEEF, max: 1 << 20, overlap: true, sessions: 64, idn: None, said: "default, full".into() };
        (HsConfig::default(), m)
    } else {
        hs_cfg(rng)
    };
    // The devices, some of them under a name another one had before
    let n = rng.range(1, 4);
    let mut named: Vec<(&str, Unit)> = Vec::new();
    let mut units: HashMap<&str, Unit> = HashMap::new();
    for i in 0..n + rng.below(3) {
        let name = if i == 0 { HS[0] } else { *rng.pick(&HS[..n + 1]) };
        named.push((name, Unit::new()));
    }
    let first = rng.below(named.len());
    named.swap(0, first);
    for (n, u) in &named {
        units.insert(n, u.clone());
    }
    let plain = m.said == "default";
    let how = rng.below(4);
    let server = match how {
        0 => {
            let mut map = HashMap::new();
            for (n, u) in &units {
                map.insert(n.to_string(), (u.lock.clone(), u.dev.clone()));
            }
            if plain {
                HsServer::<RecDev>::new(map)
            } else {
                HsServer::<RecDev>::with_config(c.clone(), map)
            }
        }
        k => {
            let mut it = named.iter();
            let mut b = match k {
                1 => {
                    let (n, u) = it.next().unwrap();
                    ServerBuilder::<RecDev>::new_with_device(c.clone(), n.to_string(), u.dev.clone(), u.lock.clone())
                }
                2 if plain => ServerBuilder::<RecDev>::default(),
                _ => ServerBuilder::<RecDev>::new(c.clone()),
            };
            for (n, u) in it {
                b = b.device(n.to_string(), u.dev.clone(), u.lock.clone());
            }
            b.build()
        }
    };
    let what = format!("HiSLIP server {} with {:?} (way {how})", m.said, named.iter().map(|x| x.0).collect::<Vec<_>>());
    let addr = SocketAddr::from((own_ip(), net::pick_port()));
    let srq = StatusSender::new();
    let srv = boot(addr, server.accept(addr, srq.clone(), hislip::pool()), &what)?;
    let mut open: Vec<(Hs, &str)> = Vec::new();
    let mut names: Vec<&str> = units.keys().copied().collect();
    names.sort_unstable();
    // As many sessions as are allowed
    for i in 0..m.sessions.min(if idx == 0 { 64 } else { 8 }) {
        let name = names[i % names.len()];
        let sub = if name == HS[0] && rng.chance(1, 2) { "" } else { name };
        let mut h = Hs::open(addr, sub).what(&what)?;
        ensure!(
            h.init.ctl & 1 == m.overlap as u8,
            "{what}: prefers mode {} in its initialize response",
            h.init.ctl
        );
        ensure!(
            h.async_init.par == m.vendor as u32,
            "{what}: vendor id {:#x}",
            h.async_init.par
        );
        if i < 3 {
            // The client's own limit is large
            let max = h.max_msg(1 << 30)?;
            ensure!(max == m.max, "{what}: announces messages of at most {max} bytes");
            let u = &units[name];
            let n0 = u.log.len();
            let others: Vec<usize> = names.iter().map(|x| units[x].log.len()).collect();
            let got = h.query(b"*IDN?").what(&what)?;
            let execs = u.log.effects_since(n0).len();
            match &m.idn {
                Some(x) => ensure!(
                    got == *x && execs == 0,
                    "{what}: identification {} and {execs} commands to the device",
                    show(&got)
                ),
                None => ensure!(
                    got == b"R:*IDN?" && execs == 1,
                    "{what}: identification {} and {execs} commands to the device",
                    show(&got)
                ),
            }
            // The largest message, and one byte more
            let k = m.max.min(200_000) as usize;
            let mut cmd = format!("M{i}{name}").into_bytes();
            cmd.resize(k - 1, b'm');
            cmd.push(b'?');
            h.check_query(&cmd).what(&what)?;
            if m.max < 200_000 {
                cmd.push(b'?');
                let mid = h.next_mid();
                h.send_sync(t::DATA_END, 0, mid, &cmd)?;
                let e = h.recv_sync("error").what(&what)?;
                ensure!(e.typ == t::ERROR, "{what}: a message of {} bytes answered with {e}", cmd.len());
                cmd.pop();
            }
            let want: Vec<Ev> =
                m.idn.is_none().then(|| Ev::Exec(b"*IDN?".to_vec())).into_iter().chain([Ev::Exec(cmd)]).collect();
            ensure!(u.log.effects_since(n0) == want, "{what}: {name} saw something else than its commands");
            for (x, n) in names.iter().zip(others) {
                ensure!(*x == name || units[x].log.len() == n, "{what}: commands for {name} reached {x}");
            }
            let ack = {
                h.send_async(t::ASYNC_DEVICE_CLEAR, 0, 0, &[])?;
                h.recv_async("clear")?
            };
            ensure!(
                ack.typ == t::ASYNC_DEVICE_CLEAR_ACK && ack.ctl & 1 == m.overlap as u8,
                "{what}: device clear answered with {ack}"
            );
            h.clear_complete(ack.ctl & 1)?;
        }
        open.push((h, name));
    }
    // One more is refused, until one leaves. Names nobody has are refused
    if m.sessions <= 8 || idx == 0 {
        let (_, e) = hislip::open_sync(addr, names[0].as_bytes(), 0x200)?;
        ensure!(e.typ == t::FATAL, "{what}: session number {} answered with {e}", m.sessions + 1);
        ctx.count("sessions beyond the limit refused", 1);
        drop(open.pop());
        hislip::eventually("session after one left", || {
            let (_, e) = hislip::open_sync(addr, names[0].as_bytes(), 0x200)?;
            Ok(e.typ == t::INITIALIZE_RESPONSE)
        })?;
    }
    for x in HS.iter().filter(|x| !names.contains(x)) {
        let (_, e) = hislip::open_sync(addr, x.as_bytes(), 0x200)?;
        ensure!(e.typ == t::FATAL, "{what}: session with {x} answered with {e}");
    }
    // Replaced devices have seen nothing
    for (n, u) in &named {
        if !std::sync::Arc::ptr_eq(&units[n].log, &u.log) {
            ensure!(u.log.len() == 0, "{what}: a device which was replaced by another of its name saw {:?}", u.log.all());
            ctx.count("replaced devices", 1);
        }
    }
    // Every device's own lock
    if let Some((h, name)) = open.first_mut() {
        let k = h.lock(0, b"")?;
        ensure!(k == 1, "{what}: lock of the free device {name} answered {k}");
        for x in &names {
            let want = *x == *name;
            ensure!(
                units[x].lock_state() == (want, 0),
                "{what}: after a lock of {name} the lock of {x} is {:?}",
                units[x].lock_state()
            );
        }
        h.release()?;
    }
    if let Some(e) = srv.ended() {
        return viol(format!("{what} ended: {e}"));
    }
    ctx.count("HiSLIP servers", 1);
    ctx.eval(hash_of(&what), true, || what.clone());
    Ok(())
}

// ---------------------------------------------------------------- VXI-11

fn vxi_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let ip = own_ip();
    let (mut core, mut abort) = (4322, 4323);
    let mut b = if rng.chance(1, 2) { VxiServerBuilder::<RecDev>::new() } else { VxiServerBuilder::<RecDev>::default() };
    let mut said = String::new();
    let mut units: HashMap<&str, Unit> = HashMap::new();
    let mut named = Vec::new();
    let names = ["inst0", "inst1", "gpib0,2", ""];
    let mut add = |b: VxiServerBuilder<RecDev>, rng: &mut Rng, said: &mut String| {
        let name = *rng.pick(&names);
        let u = Unit::new();
        named.push((name, u.clone()));
        units.insert(name, u.clone());
        said.push_str(&format!(" device({name:?})"));
        b.device(name.to_string(), u.dev, u.lock)
    };
    for _ in 0..rng.below(6) {
        match rng.below(4) {
            0 => {
                core = net::pick_port();
                b = b.core_port(core);
                said.push_str(&format!(" core_port({core})"));
            }
            1 => {
                abort = net::pick_port();
                b = b.async_port(abort);
                said.push_str(&format!(" async_port({abort})"));
            }
            _ => b = add(b, rng, &mut said),
        }
    }
    if rng.chance(1, 4) {
        let p = net::pick_port();
        core = p;
        b = b.core_port(p);
        said.push_str(&format!(" core_port({p})"));
    }
    b = add(b, rng, &mut said);
    // Announced to a portmapper on the way, which changes nothing else
    if rng.chance(1, 3) {
        let l = TcpListener::bind((ip, 0)).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let at = l.local_addr().map_err(|e| Fail::Inconclusive(e.to_string()))?;
        // Ports which are not known yet cannot be announced
        if rng.chance(1, 4) {
            let d = match rng.below(3) {
                0 => VxiServerBuilder::<RecDev>::new().core_port(0),
                1 => VxiServerBuilder::<RecDev>::new().async_port(0).core_port(net::pick_port()),
                _ => VxiServerBuilder::<RecDev>::new().core_port(0).async_port(0),
            };
            let _ = l.set_nonblocking(true);
            // Nobody answers: were the call made, it would wait
            let r = task::block_on(async_std::future::timeout(Duration::from_secs(5), d.register_portmap(at)));
            let asked = l.accept().is_ok();
            let _ = l.set_nonblocking(false);
            ensure!(
                matches!(r, Ok(Err(_))) && !asked,
                "registration of a VXI-11 server with a dynamic port: {}, connected: {asked}",
                if matches!(r, Ok(Ok(_))) { "no error" } else if r.is_err() { "does not end" } else { "error" }
            );
            ctx.count("registrations of dynamic ports refused", 1);
        }
        let refuse = rng.chance(1, 5).then(|| rng.below(2));
        let th = std::thread::spawn(move || -> R<Vec<Vec<u8>>> {
            let (mut s, _) = l.accept().map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let _ = s.set_read_timeout(Some(DEADLINE));
            let mut seen = Vec::new();
            for i in 0..2 {
                let Ok(b) = vxi::read_record(&mut s, "registration") else { break };
                let xid = u32::from_be_bytes(b[..4].try_into().unwrap());
                seen.push(b[4..].to_vec());
                net::send(&mut s, &vxi::record(&X::new().u(xid).u(1).u(0).u(0).u(0).u(0).u((refuse != Some(i)) as u32).0))?;
            }
            Ok(seen)
        });
        let r = task::block_on(async_std::future::timeout(DEADLINE, b.register_portmap(at)));
        let Ok(r) = r else {
            return late(format!("registration of a VXI-11 server{said} does not end"));
        };
        let seen = th.join().map_err(|_| Fail::Inconclusive("portmapper thread".into()))??;
        let call = |prog: u32, port: u16| vxi::call_msg(0, 2, vxi::PMAP, 2, 1, &X::new().u(prog).u(1).u(6).u(port as u32).0)[4..].to_vec();
        let want = [call(vxi::CORE, core), call(vxi::ABORT, abort)];
        let n = if refuse == Some(0) { seen.len().clamp(1, 2) } else { 2 };
        ensure!(seen == want[..n], "registration of a VXI-11 server{said} made the calls {seen:?}");
        said.push_str(" register_portmap");
        ctx.count("registrations", 1);
        b = match (r, refuse) {
            (Ok(b), None) => b,
            (Err(_), Some(_)) => return Ok(()),
            (Ok(_), _) => return viol(format!("a VXI-11 server{said} was refused by the portmapper without an error")),
            (Err(e), _) => return viol(format!("registration of a VXI-11 server{said} failed with {e:?}")),
        };
    }
    let what = format!("VXI-11 server{said} at {ip}");
    let srq = StatusSender::new();
    let (sc, sa) = b.build(srq);
    let (ac, aa) = (SocketAddr::from((ip, core)), SocketAddr::from((ip, abort)));
    let (c2, a2) = (sc.clone(), sa.clone());
    let busy = rng.below(5);
    let mut guard = None;
    if busy < 2 {
        // Somebody is there already
        let at = if busy == 0 { ac } else { aa };
        guard = Some(TcpListener::bind(at).map_err(|e| Fail::Inconclusive(e.to_string()))?);
        if busy == 0 {
            must_fail(c2.clone().bind(IpAddr::V4(ip)), &format!("{what}: core port in use"))?;
        } else {
            must_fail(a2.clone().bind(IpAddr::V4(ip)), &format!("{what}: abort port in use"))?;
        }
        ctx.count("starts at an address in use", 1);
    }
    drop(guard);
    let s1 = boot(ac, sc.bind(IpAddr::V4(ip)), &format!("{what}: core"))?;
    let s2 = boot(aa, sa.bind(IpAddr::V4(ip)), &format!("{what}: abort"))?;
    for (a, n) in [(ac, "core"), (aa, "abort")] {
        ensure!(
            !listeners(a.port()).iter().any(|x| x.is_unspecified()),
            "{what}: {n} listens at other addresses too"
        );
    }
    if busy == 2 {
        must_fail(c2.bind(IpAddr::V4(ip)), &format!("{what}: second core"))?;
        must_fail(a2.bind(IpAddr::V4(ip)), &format!("{what}: second abort"))?;
        ctx.count("starts at an address in use", 2);
    }
    let mut list: Vec<&str> = units.keys().copied().collect();
    list.sort_unstable();
    let mut v = Vxi::connect(ac)?;
    let mut ab = Rpc::connect(aa, vxi::ABORT)?;
    for name in &list {
        let u = &units[name];
        let l = v.create(name, true, 0)?;
        ensure!(l.err == 0, "{what}: link to {name:?} refused with error {}", l.err);
        ensure!(
            l.abort_port == abort as u32,
            "{what}: link to {name:?} reports abort port {}",
            l.abort_port
        );
        for x in &list {
            ensure!(
                units[x].lock_state().0 == (x == name),
                "{what}: after a locking link to {name:?} the lock of {x:?} is {:?}",
                units[x].lock_state()
            );
        }
        let cmd = format!("Q {name}?");
        v.check_query(l.lid, cmd.as_bytes()).what(&what)?;
        ensure!(u.log.execs() == [cmd.as_bytes().to_vec()], "{what}: {name:?} saw {:?}", u.log.all());
        let r = vxi::one_error(&ab.call(1, &X::new().u(l.lid).0, "device_abort").what(&what)?, "device_abort")?;
        ensure!(r == 0, "{what}: abort of a link answered {r}");
        ensure!(v.unlock(l.lid)? == 0, "{what}: unlock failed");
    }
    for x in names.iter().filter(|x| !list.contains(x)) {
        let l = v.create(x, false, 0)?;
        ensure!(l.err == vxi::e::INVALID_ADDRESS, "{what}: link to {x:?} answered error {}", l.err);
    }
    for (n, u) in &named {
        if !std::sync::Arc::ptr_eq(&units[n].log, &u.log) {
            ensure!(u.log.len() == 0, "{what}: a device which was replaced by another of its name saw {:?}", u.log.all());
            ctx.count("replaced devices", 1);
        }
    }
    for s in [&s1, &s2] {
        if let Some(e) = s.ended() {
            return viol(format!("{what} ended: {e}"));
        }
    }
    ctx.count("VXI-11 servers", 1);
    if core == 4322 || abort == 4323 {
        ctx.count("VXI-11 servers with a default port", 1);
    }
    ctx.eval(hash_of(&said), true, || what.clone());
    Ok(())
}

// ---------------------------------------------------------------- portmapper

fn pmap_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let ip = own_ip();
    let addr = SocketAddr::from((ip, net::pick_port()));
    let ports: [u32; 3] = std::array::from_fn(|_| 1 + rng.below(65000) as u32);
    let ms = || [Mapping::new(1, 1, 6, ports[0]), Mapping::new(1, 1, 17, ports[1]), Mapping::new(2, 1, 6, ports[2])];
    let what = format!("portmapper at {addr}");
    let busy = rng.below(4);
    match busy {
        0 => {
            let g = TcpListener::bind(addr).map_err(|e| Fail::Inconclusive(e.to_string()))?;
            must_fail(StaticPortMap::new(ms()).bind(addr), &format!("{what}: TCP port in use"))?;
            ensure!(UdpSocket::bind(addr).is_ok(), "{what}: UDP port still in use after the start failed");
            drop(g);
        }
        1 => {
            let g = UdpSocket::bind(addr).map_err(|e| Fail::Inconclusive(e.to_string()))?;
            must_fail(StaticPortMap::new(ms()).bind(addr), &format!("{what}: UDP port in use"))?;
            ensure!(TcpListener::bind(addr).is_ok(), "{what}: TCP port still in use after the start failed");
            drop(g);
        }
        _ => {}
    }
    if busy < 2 {
        ctx.count("starts at an address in use", 1);
    }
    let ask = |ports: [u32; 3]| -> R {
        let want = [(1, 1, 6, ports[0]), (1, 1, 17, ports[1]), (2, 1, 6, ports[2]), (2, 1, 17, 0), (3, 1, 6, 0)];
        let mut c = Rpc::connect(addr, vxi::PMAP)?;
        for (p, v, k, port) in want {
            let args = X::new().u(p).u(v).u(k).u(0).0;
            let r = vxi::one_error(&c.call(3, &args, "getport").what(&what)?, "getport")?;
            ensure!(r == port, "{what}: TCP getport {p} {v} {k} answers {r} instead of {port}");
            let u = vxi::udp_client(addr)?;
            let m = vxi::call_msg(77, 2, vxi::PMAP, 2, 3, &args);
            let mut buf = [0u8; 1000];
            let mut got = None;
            for _ in 0..3 {
                let _ = u.send(&m);
                if let Ok(n) = u.recv(&mut buf) {
                    got = Some(n);
                    break;
                }
            }
            let Some(n) = got else {
                return late(format!("{what}: UDP getport is not answered"));
            };
            let (x, r) = vxi::parse_reply(&buf[..n], "UDP getport")?;
            let vxi::Reply::Success(v) = r else {
                return viol(format!("{what}: UDP getport answered with {r:?}"));
            };
            let r = vxi::one_error(&v, "getport")?;
            ensure!(x == 77 && r == port, "{what}: UDP getport answers {r} instead of {port}");
        }
        Ok(())
    };
    let mut s = boot(addr, StaticPortMap::new(ms()).bind(addr), &what)?;
    ask(ports)?;
    if busy == 2 {
        must_fail(StaticPortMap::new(ms()).bind(addr), &format!("{what}: second one"))?;
        ask(ports)?;
        ctx.count("starts at an address in use", 1);
    }
    // Another one at its place, with another table
    if rng.chance(1, 2) {
        s.stop();
        let p2 = [ports[1], ports[2], ports[0]];
        let t = [Mapping::new(1, 1, 6, p2[0]), Mapping::new(1, 1, 17, p2[1]), Mapping::new(2, 1, 6, p2[2])];
        s = boot(addr, StaticPortMap::new(t).bind(addr), &format!("{what}, restarted"))?;
        ask(p2).what("restarted")?;
        ctx.count("restarts", 1);
    }
    if let Some(e) = s.ended() {
        return viol(format!("{what} ended: {e}"));
    }
    ctx.count("portmappers", 1);
    ctx.eval(hash_of(&(ports, busy)), true, || what.clone());
    Ok(())
}

// ---------------------------------------------------------------- restarts

fn restart_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let proto = *rng.pick(&PROTOS);
    let addr = SocketAddr::from((own_ip(), net::pick_port()));
    let srq = StatusSender::new();
    let (vc, va) = (net::pick_port(), net::pick_port());
    type Fut = std::pin::Pin<Box<dyn std::future::Future<Output = Res> + Send>>;
    let make = |u: &Unit| -> Vec<(SocketAddr, Fut)> {
        let (l, d) = (u.lock.clone(), u.dev.clone());
        match proto {
            Proto::Raw => vec![(addr, Box::pin(RawConfig::default().build().accept(addr, l, d)))],
            Proto::Telnet => vec![(addr, Box::pin(TelConfig::default().build().accept(addr, l, d)))],
            Proto::Hislip => {
                let s = ServerBuilder::<RecDev>::new(HsConfig::default()).device("hislip0".into(), d, l).build();
                vec![(addr, Box::pin(s.accept(addr, srq.clone(), hislip::pool())))]
            }
            Proto::Vxi => {
                let (c, a) = VxiServerBuilder::<RecDev>::new()
                    .core_port(vc)
                    .async_port(va)
                    .device("inst0".into(), d, l)
                    .build(srq.clone());
                vec![
                    (SocketAddr::from((addr.ip(), vc)), Box::pin(c.bind(addr.ip())) as Fut),
                    (SocketAddr::from((addr.ip(), va)), Box::pin(a.bind(addr.ip()))),
                ]
            }
        }
    };
    let start = |u: &Unit| -> R<Vec<Srv>> {
        make(u).into_iter().map(|(a, f)| boot(a, f, &format!("{proto:?} server"))).collect()
    };
    let open = || -> R<Cli> {
        Ok(match proto {
            Proto::Raw => Cli::Raw(net::connect(addr)?),
            Proto::Telnet => Cli::Tel(Tel::connect(addr)?),
            Proto::Hislip => Cli::Hs(Hs::open(addr, "")?),
            Proto::Vxi => {
                let mut v = Vxi::connect(SocketAddr::from((addr.ip(), vc)))?;
                let l = v.link("inst0")?;
                Cli::Vx(v, l)
            }
        })
    };
    let mut keep = Vec::new();
    let rounds = rng.range(1, 4);
    for round in 0..rounds {
        let u = Unit::new();
        let mut srvs = start(&u).what(format!("round {round}"))?;
        let mut c = open()?;
        c.check_query(format!("a{round}?").as_bytes())?;
        // A second one is refused the address and the first goes on
        let other = Unit::new();
        for (a, f) in make(&other) {
            must_fail(f, &format!("{proto:?} server at {a} where one is running"))?;
            ctx.count("starts at an address in use", 1);
        }
        c.check_query(format!("b{round}?").as_bytes()).what("after another server failed to start")?;
        let mut d = open()?;
        d.check_query(format!("c{round}?").as_bytes()).what("after another server failed to start")?;
        ensure!(other.log.len() == 0, "a server which could not start reached its device: {:?}", other.log.all());
        ensure!(
            u.log.execs().len() == 3,
            "{proto:?} round {round}: device saw {:?}",
            u.log.execs().iter().map(|x| show(x)).collect::<Vec<_>>()
        );
        if rng.chance(1, 2) {
            keep.push(c);
        }
        for s in srvs.iter_mut() {
            if let Some(e) = s.ended() {
                return viol(format!("{proto:?} server ended: {e}"));
            }
            s.stop();
        }
        for s in &srvs {
            let t0 = Instant::now();
            while listening(s.addr) {
                if t0.elapsed() > DEADLINE {
                    return late(format!("{proto:?} server was dropped and still listens at {}", s.addr));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        ctx.count("restarts", 1);
    }
    ctx.eval(hash_of(&(proto, rounds, keep.len(), rng.below(50))), true, || {
        format!("{proto:?} server started {rounds} times at {addr}, {} old clients stay", keep.len())
    });
    Ok(())
}

pub fn c30(ctx: &Ctx) {
    ctx.rule("random sequences of builder calls (any order, repeated, constructors of every kind, one to three differently configured servers at once), every setting observed on the wire; VXI-11 and portmapper bound by address with free and used ports; restarts. Distinct by settings");
    ctx.cases_par("raw", ctx.n(150, 4000), if ctx.thorough { 120 } else { 12 }, 6, |r, _| raw_case(ctx, r));
    ctx.cases_par("telnet", ctx.n(100, 3000), if ctx.thorough { 120 } else { 12 }, 6, |r, _| telnet_case(ctx, r));
    ctx.cases_par("hislip", ctx.n(250, 6000), if ctx.thorough { 200 } else { 15 }, 6, |r, i| hs_case(ctx, r, i));
    ctx.cases_par("vxi", ctx.n(200, 6000), if ctx.thorough { 150 } else { 12 }, 6, |r, _| vxi_case(ctx, r));
    ctx.cases_par("pmap", ctx.n(100, 3000), if ctx.thorough { 100 } else { 12 }, 6, |r, _| pmap_case(ctx, r));
    ctx.cases_par("restart", ctx.n(60, 2000), if ctx.thorough { 120 } else { 12 }, 4, |r, _| restart_case(ctx, r));
}
