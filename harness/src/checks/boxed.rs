//! C29: devices in boxes and the bundled devices.

use std::net::SocketAddr;
use std::sync::Arc;

use futures::lock::Mutex;
use lxi_device::lock::SharedLock;
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::util::{EchoDevice, SimpleDevice};
use lxi_device::{Device, DeviceError};
use lxi_hislip::server::{ServerBuilder, ServerConfig};
use lxi_vxi11::server::vxi11::prelude::*;

use super::common::*;
use crate::dev::{std_response, DevLog, Err3, RecDev};
use crate::hislip::{self, t, Hs};
use crate::net::{self, Srv};
use crate::rt::*;
use crate::vxi::{self, p, Vxi};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Kind {
    Rec,
    Echo,
    Simple,
}

/// What the documentation says about the bundled devices, or a recording device
enum Ref {
    Rec(RecDev),
    Echo,
    Simple { rmt: bool, trig: bool, clear: bool },
}

fn respond(k: Kind, cmd: &[u8]) -> Option<Vec<u8>> {
    match k {
        Kind::Rec => std_response(cmd),
        Kind::Echo => Some(cmd.to_vec()),
        Kind::Simple => {
            let upper: Vec<u8> = cmd.iter().map(|c| c.to_ascii_uppercase()).collect();
            match &upper[..] {
                b"*IDN?" | b"*IDN?\n" => Some(b"Cyberdyne systems,T800 Model 101,A9012.C,V2.4".to_vec()),
                b"EVENT" | b"EVENT\n" => None,
                b"QUERY?" | b"QUERY?\n" => Some(b"RESPONSE".to_vec()),
                _ => Some(cmd.iter().rev().copied().collect()),
            }
        }
    }
}

impl Ref {
    fn new(k: Kind, log: &Arc<DevLog>) -> Ref {
        match k {
            Kind::Rec => Ref::Rec(RecDev(log.clone())),
            Kind::Echo => Ref::Echo,
            Kind::Simple => Ref::Simple { rmt: false, trig: false, clear: false },
        }
    }
}

impl Device for Ref {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        match self {
            Ref::Rec(r) => r.execute(cmd),
            Ref::Echo => respond(Kind::Echo, cmd),
            Ref::Simple { .. } => respond(Kind::Simple, cmd),
        }
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        match self {
            Ref::Rec(r) => r.get_status(),
            Ref::Echo => Ok(0),
            Ref::Simple { rmt, trig, clear } => Ok(if *rmt { 128 } else { 0 } + if *trig { 64 } else { 0 } + if *clear { 32 } else { 0 }),
        }
    }
    fn trigger(&mut self, source: Source) -> Result<(), DeviceError> {
        match self {
            Ref::Rec(r) => return r.trigger(source),
            Ref::Echo => {}
            Ref::Simple { trig, .. } => *trig = true,
        }
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        match self {
            Ref::Rec(r) => return r.clear(),
            Ref::Echo => {}
            Ref::Simple { trig, clear, .. } => {
                *trig = false;
                *clear = true;
            }
        }
        Ok(())
    }
    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        match self {
            Ref::Rec(r) => return r.set_remote(remote),
            Ref::Echo => {}
            Ref::Simple { rmt, .. } => *rmt = remote,
        }
        Ok(())
    }
    fn set_local_lockout(&mut self, enable: bool) {
        if let Ref::Rec(r) = self {
            r.set_local_lockout(enable)
        }
    }
}

const SOURCES: [Source; 20] = [
    Source::Bus,
    Source::Immediate,
    Source::Internal,
    Source::External,
    Source::Lxi0,
    Source::Lxi1,
    Source::Lxi2,
    Source::Lxi3,
    Source::Lxi4,
    Source::Lxi5,
    Source::Lxi6,
    Source::Lxi7,
    Source::Lan0,
    Source::Lan1,
    Source::Lan2,
    Source::Lan3,
    Source::Lan4,
    Source::Lan5,
    Source::Lan6,
    Source::Lan7,
];

/// Commands which may mean something to a bundled device, or nearly do
fn text(rng: &mut Rng, newline: bool) -> Vec<u8> {
    let mut c: Vec<u8> = match rng.below(12) {
        0..=2 => b"*IDN?".to_vec(),
        3..=4 => b"EVENT".to_vec(),
        5..=6 => b"QUERY?".to_vec(),
        7 => (*rng.pick(&[
            &b"*IDN"[..], b"IDN?", b"*IDN? ", b" *IDN?", b"*IDN?;", b"EVENT?", b"EVENTS", b"EVEN", b"QUERY", b"QUERY?1", b"QUERRY?",
            b"*IDN?*IDN?", b"EVENT EVENT",
        ]))
        .to_vec(),
        8 => format!("LEN{}:q?", rng.below(3000)).into_bytes(),
        9 if newline => Vec::new(),
        _ => (0..rng.range(1, 60)).map(|_| rng.range(0x21, 0x7e) as u8).collect(),
    };
    match rng.below(4) {
        0 => c.make_ascii_lowercase(),
        1 => {
            for x in c.iter_mut() {
                if rng.chance(1, 2) {
                    *x = x.to_ascii_lowercase()
                }
            }
        }
        _ => {}
    }
    if newline {
        match rng.below(8) {
            0..=2 => c.push(b'\n'),
            3 => c.extend_from_slice(b"\n\n"),
            4 => c.extend_from_slice(b"\r\n"),
            5 => c = rng.bytes(20),
            _ => {}
        }
    }
    c
}

// ---------------------------------------------------------------- called directly

#[derive(Debug, Clone)]
enum Op {
    Exec(Vec<u8>),
    Status,
    Trigger(usize),
    Clear,
    Remote(bool),
    Lockout(bool),
}

fn apply<D: Device>(d: &mut D, op: &Op) -> String {
    match op {
        Op::Exec(c) => format!("{:?}", d.execute(c)),
        Op::Status => format!("{:?}", d.get_status()),
        Op::Trigger(i) => format!("{:?}", d.trigger(SOURCES[*i])),
        Op::Clear => format!("{:?}", d.clear()),
        Op::Remote(x) => format!("{:?}", d.set_remote(*x)),
        Op::Lockout(x) => {
            d.set_local_lockout(*x);
            String::new()
        }
    }
}

fn make(k: Kind, log: &Arc<DevLog>) -> Box<dyn Device + Send> {
    match k {
        Kind::Rec => Box::new(RecDev(log.clone())),
        Kind::Echo => Box::new(EchoDevice),
        Kind::Simple => Box::new(SimpleDevice::new()),
    }
}

/// A device under test in one of several wrappings
enum Wrapped {
    Dyn(Box<dyn Device + Send>),
    Nested(Box<Box<dyn Device + Send>>),
    Rec(Box<RecDev>),
    Simple(Box<SimpleDevice>),
    Echo(Box<EchoDevice>),
    Bare(SimpleDevice),
    BareEcho(EchoDevice),
}

impl Wrapped {
    fn new(rng: &mut Rng, k: Kind, log: &Arc<DevLog>) -> (Wrapped, &'static str) {
        match (rng.below(4), k) {
            (0, _) => (Wrapped::Dyn(make(k, log)), "Box<dyn Device>"),
            (1, _) => (Wrapped::Nested(Box::new(make(k, log))), "Box<Box<dyn Device>>"),
            (_, Kind::Rec) => (Wrapped::Rec(Box::new(RecDev(log.clone()))), "Box<RecDev>"),
            (2, Kind::Simple) => (Wrapped::Simple(Box::default()), "Box<SimpleDevice>"),
            (2, Kind::Echo) => (Wrapped::Echo(Box::new(EchoDevice)), "Box<EchoDevice>"),
            (_, Kind::Simple) => (Wrapped::Bare(SimpleDevice::new()), "SimpleDevice"),
            (_, Kind::Echo) => (Wrapped::BareEcho(EchoDevice), "EchoDevice"),
        }
    }
    fn apply(&mut self, op: &Op) -> String {
        match self {
            Wrapped::Dyn(d) => apply(d, op),
            Wrapped::Nested(d) => apply(d, op),
            Wrapped::Rec(d) => apply(d, op),
            Wrapped::Simple(d) => apply(d, op),
            Wrapped::Echo(d) => apply(d, op),
            Wrapped::Bare(d) => apply(d, op),
            Wrapped::BareEcho(d) => apply(d, op),
        }
    }
}

fn direct_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let k = *rng.pick(&[Kind::Rec, Kind::Rec, Kind::Echo, Kind::Simple, Kind::Simple]);
    let (la, lb) = (DevLog::new(), DevLog::new());
    let mut a = Vec::new();
    let mut b = Vec::new();
    // A clone goes its own way from then on
    let (w, name) = Wrapped::new(rng, k, &la);
    a.push(w);
    b.push(Ref::new(k, &lb));
    let mut trace = format!("{name} of {k:?}: ");
    let mut key = hash_of(&(name, k));
    for _ in 0..rng.range(3, 40) {
        if rng.chance(1, 12) {
            if let (Some(Wrapped::Bare(d)), Some(Ref::Simple { rmt, trig, clear })) = (a.last(), b.last()) {
                let r = Ref::Simple { rmt: *rmt, trig: *trig, clear: *clear };
                let d = d.clone();
                a.push(Wrapped::Bare(d));
                b.push(r);
                trace.push_str("cloned; ");
                ctx.count("clones", 1);
            }
        }
        let i = rng.below(a.len());
        if rng.chance(1, 5) {
            let f = *rng.pick(&[None, Some(Err3::NotSupported), Some(Err3::IoTimeout), Some(Err3::IoError)]);
            la.set_fail(f);
            lb.set_fail(f);
        }
        let st = rng.u8();
        la.set_status(st);
        lb.set_status(st);
        let op = match rng.below(9) {
            0..=2 => Op::Exec(text(rng, true)),
            3..=4 => Op::Status,
            5 => Op::Trigger(rng.below(SOURCES.len())),
            6 => Op::Clear,
            7 => Op::Remote(rng.chance(1, 2)),
            _ => Op::Lockout(rng.chance(1, 2)),
        };
        let got = a[i].apply(&op);
        let want = apply(&mut b[i], &op);
        if trace.len() < 1500 {
            trace.push_str(&format!("{i} {op:?}; "));
        }
        ensure!(got == want, "{op:?} returned {got} instead of {want}: {trace}");
        ensure!(
            la.all() == lb.all(),
            "the device inside saw {:?}, asked for was {:?}: {trace}",
            la.all().last(),
            lb.all().last()
        );
        key = hash_of(&(key, format!("{op:?}"), got));
        ctx.count(
            match op {
                Op::Exec(_) => "direct commands",
                Op::Status => "direct status reads",
                Op::Trigger(_) => "direct triggers",
                Op::Clear => "direct clears",
                Op::Remote(_) => "direct remote changes",
                Op::Lockout(_) => "direct lockout changes",
            },
            1,
        );
    }
    // What is forgotten inside a box is forgotten
    let n = Arc::strong_count(&la);
    drop(a);
    ensure!(
        k != Kind::Rec || n == 2 && Arc::strong_count(&la) == 1,
        "dropping the box did not drop the device: {trace}"
    );
    ctx.eval(key, true, || trace.clone());
    Ok(())
}

// ---------------------------------------------------------------- behind servers

const NAMES: [&str; 3] = ["dev0", "dev1", "dev2"];

struct Side {
    logs: Vec<Arc<DevLog>>,
    raw: Vec<Srv>,
    tel: Vec<Srv>,
    hs: Srv,
    core: SocketAddr,
    _vx: Vec<Srv>,
    clients: Vec<(Cli, usize)>,
}

fn side<D: Device + Send + 'static>(
    kinds: &[Kind],
    mk: impl Fn(Kind, &Arc<DevLog>) -> D,
) -> R<Side> {
    let logs: Vec<_> = kinds.iter().map(|_| DevLog::new()).collect();
    let devs: Vec<_> = kinds.iter().zip(&logs).map(|(k, l)| Arc::new(Mutex::new(mk(*k, l)))).collect();
    let locks: Vec<_> = kinds.iter().map(|_| SharedLock::new()).collect();
    let srq = StatusSender::new();
    let mut raw = Vec::new();
    let mut tel = Vec::new();
    for (d, l) in devs.iter().zip(&locks) {
        raw.push(net::start(|a| {
            lxi_socket::server::ServerConfig::default().build().accept(a, l.clone(), d.clone())
        })?);
        tel.push(net::start(|a| {
            lxi_telnet::server::ServerConfig::default().build().accept(a, l.clone(), d.clone())
        })?);
    }
    let hs = net::start(|a| {
        let mut b = ServerBuilder::<D>::new(ServerConfig::default());
        for i in 0..devs.len() {
            b = b.device(NAMES[i].to_string(), devs[i].clone(), locks[i].clone());
        }
        b.build().accept(a, srq.clone(), hislip::pool())
    })?;
    let core = net::pick_port();
    let abort = net::pick_port();
    let mut b = VxiServerBuilder::<D>::new().core_port(core).async_port(abort);
    for i in 0..devs.len() {
        b = b.device(NAMES[i].to_string(), devs[i].clone(), locks[i].clone());
    }
    let (c, a) = b.build(srq.clone());
    let lo = std::net::Ipv4Addr::LOCALHOST;
    let bind = |port: u16| {
        async_std::task::block_on(async_std::net::TcpListener::bind((lo, port)))
            .map_err(|e| Fail::Inconclusive(format!("bind {port}: {e}")))
    };
    let lc = bind(core)?;
    let la = bind(abort)?;
    let vx = vec![
        vxi::serve(SocketAddr::from((lo, core)), c.serve(lc))?,
        vxi::serve(SocketAddr::from((lo, abort)), a.serve(la))?,
    ];
    Ok(Side { logs, raw, tel, hs, core: SocketAddr::from((lo, core)), _vx: vx, clients: Vec::new() })
}

impl Side {
    fn open(&mut self, p: Proto, u: usize) -> R {
        let c = match p {
            Proto::Raw => Cli::Raw(net::connect(self.raw[u].addr)?),
            Proto::Telnet => Cli::Tel(Tel::connect(self.tel[u].addr)?),
            Proto::Hislip => Cli::Hs(Hs::open(self.hs.addr, NAMES[u])?),
            Proto::Vxi => {
                let mut v = Vxi::connect(self.core)?;
                let lid = v.link(NAMES[u])?;
                Cli::Vx(v, lid)
            }
        };
        self.clients.push((c, u));
        Ok(())
    }

    /// What the client observes
    fn act(&mut self, i: usize, k: Kind, act: &Act) -> R<String> {
        let c = &mut self.clients[i].0;
        let out = match act {
            Act::Cmd(cmd) => match respond(k, cmd) {
                Some(_) => show_all(&c.query(cmd)?),
                None => {
                    match c {
                        Cli::Raw(s) => net::send(s, &[cmd, &b"\n"[..]].concat())?,
                        Cli::Tel(t) => net::send(&mut t.s, &[cmd, &b"\r\n"[..]].concat())?,
                        Cli::Hs(h) => {
                            h.cmd(cmd)?;
                        }
                        Cli::Vx(v, lid) => {
                            let r = v.write(*lid, vxi::END | vxi::WAIT, 10_000, cmd)?;
                            let s = v.stb(*lid, 0, 0)?;
                            return Ok(format!("{r:?} then status {s:?}"));
                        }
                    }
                    // The next response is that of the next command
                    show_all(&c.query(b"sync?")?)
                }
            },
            Act::Status => match c {
                Cli::Hs(h) => format!("{:#x}", h.status()?),
                Cli::Vx(v, lid) => format!("{:?}", v.stb(*lid, vxi::WAIT, 10_000)?),
                _ => String::new(),
            },
            Act::Trigger => match c {
                Cli::Hs(h) => {
                    let m = h.next_mid();
                    h.send_sync(t::TRIGGER, 0, m, b"")?;
                    show_all(&h.query(b"sync?")?)
                }
                Cli::Vx(v, lid) => v.op(p::TRIGGER, *lid, vxi::WAIT, 10_000)?.to_string(),
                _ => String::new(),
            },
            Act::Clear => match c {
                Cli::Hs(h) => format!("{:?}", h.clear()?),
                Cli::Vx(v, lid) => v.op(p::CLEAR, *lid, vxi::WAIT, 10_000)?.to_string(),
                _ => String::new(),
            },
            Act::Remote(r) => match c {
                Cli::Hs(h) => {
                    let m = h.mid;
                    h.send_async(t::ASYNC_REMOTE_LOCAL, *r, m, b"")?;
                    let m = h.recv_async("remote/local")?;
                    format!("{} {}", m.typ, m.ctl)
                }
                Cli::Vx(v, lid) => {
                    v.op(if *r % 2 == 1 { p::REMOTE } else { p::LOCAL }, *lid, vxi::WAIT, 10_000)?.to_string()
                }
                _ => String::new(),
            },
        };
        Ok(out)
    }
}

fn show_all(b: &[u8]) -> String {
    if b.len() < 200 {
        show(b)
    } else {
        format!("{}.. ({} bytes, {:#x})", show(&b[..60]), b.len(), hash_of(b))
    }
}

#[derive(Debug, Clone)]
enum Act {
    Cmd(Vec<u8>),
    Status,
    Trigger,
    Clear,
    Remote(u8),
}

fn served_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let n = rng.range(1, 3);
    let kinds: Vec<Kind> = (0..n).map(|_| *rng.pick(&[Kind::Rec, Kind::Echo, Kind::Simple, Kind::Simple])).collect();
    // Unboxed devices of our own against boxes of everything
    let same = n == 1 && rng.chance(1, 3);
    let mut a = match kinds[0] {
        // Also the bundled types themselves
        Kind::Simple if same => side(&kinds, |_, _| SimpleDevice::new())?,
        Kind::Echo if same => side(&kinds, |_, _| EchoDevice)?,
        _ if rng.chance(1, 4) => side(&kinds, |k, l| Box::new(make(k, l)))?,
        _ => side(&kinds, make)?,
    };
    let mut b = side(&kinds, Ref::new)?;
    let mut who = Vec::new();
    for _ in 0..rng.range(2, 6) {
        let pr = *rng.pick(&[Proto::Raw, Proto::Telnet, Proto::Hislip, Proto::Hislip, Proto::Vxi, Proto::Vxi]);
        let u = rng.below(n);
        a.open(pr, u)?;
        b.open(pr, u)?;
        who.push((pr, u));
    }
    let mut trace = format!("{kinds:?} ");
    let mut key = hash_of(&(&kinds, &who));
    for _ in 0..rng.range(4, 20) {
        let i = rng.below(who.len());
        let (pr, u) = who[i];
        let stateful = matches!(pr, Proto::Hislip | Proto::Vxi);
        let act = match rng.below(if stateful { 9 } else { 3 }) {
            0..=2 => {
                let mut c = text(rng, stateful);
                if !stateful {
                    c.retain(|x| (0x20..0x7f).contains(x));
                    // Binary responses have no end there
                    if c.starts_with(b"LEN") {
                        c.make_ascii_lowercase()
                    }
                }
                if c.is_empty() {
                    c.push(b'e')
                }
                Act::Cmd(c)
            }
            3..=4 => Act::Status,
            5 => Act::Trigger,
            6 => Act::Clear,
            _ => Act::Remote(rng.below(7) as u8),
        };
        if kinds[u] == Kind::Rec {
            let st = rng.u8();
            let f = *rng.pick(&[None, None, Some(Err3::NotSupported), Some(Err3::IoTimeout), Some(Err3::IoError)]);
            for l in [&a.logs[u], &b.logs[u]] {
                l.set_status(st);
                l.set_fail(f);
            }
        }
        if trace.len() < 1500 {
            trace.push_str(&format!("{pr:?} client {i} of {u}: {act:?}; "));
        }
        let want = b.act(i, kinds[u], &act).map_err(|e| match e {
            // Not what is compared here
            Fail::Violation(s) => Fail::Violation(format!("reference: {s}: {trace}")),
            e => e.ctx("reference"),
        })?;
        let got = a.act(i, kinds[u], &act).what(&trace)?;
        ensure!(got == want, "{act:?} gave {got}, a device as documented gives {want}: {trace}");
        if let Act::Cmd(c) = &act {
            if let (Some(r), false) = (respond(kinds[u], c), pr == Proto::Telnet) {
                let r = show_all(&r);
                ensure!(got == r, "{act:?} gave {got} instead of {r}: {trace}");
            }
        }
        for j in 0..n {
            let (x, y) = (a.logs[j].all(), b.logs[j].all());
            ensure!(x == y, "device {j} saw {x:?} inside the box, {y:?} without: {trace}");
        }
        key = hash_of(&(key, i, format!("{act:?}"), got));
        ctx.count(
            &format!("{pr:?} {}", match act {
                Act::Cmd(_) => "commands",
                Act::Status => "status reads",
                Act::Trigger => "triggers",
                Act::Clear => "clears",
                Act::Remote(_) => "remote/local",
            }),
            1,
        );
    }
    for s in a.raw.iter().chain(&a.tel).chain([&a.hs]).chain(&a._vx) {
        if let Some(e) = s.ended() {
            return viol(format!("server ended: {e}: {trace}"));
        }
    }
    ctx.seen("mixes of devices and clients", hash_of(&(&kinds, &who)));
    ctx.eval(key, true, || trace.clone());
    Ok(())
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("random sequences of all device operations on bundled devices and on recording devices (random status bytes and errors), bare, boxed, boxed twice and as trait objects, compared with a model of the documentation and with the device unboxed; the same through servers of all protocols with one to three devices of different types. Distinct by operations and results");
    ctx.cases_par("direct", ctx.n(20_000, 400_000), if ctx.thorough { 150 } else { 10 }, 6, |r, _| direct_case(ctx, r));
    ctx.cases_par("served", ctx.n(900, 20_000), if ctx.thorough { 400 } else { 25 }, 6, |r, _| served_case(ctx, r));
}
