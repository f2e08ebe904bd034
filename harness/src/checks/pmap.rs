//! C22: the portmapper server answers from its table. C23: the portmapper client returns the
//! answer to its own call or an error.

use std::io::Read;
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::time::Duration;

use async_std::task;
use lxi_vxi11::client::portmapper::prelude::PortMapperClient;
use lxi_vxi11::server::portmapper::prelude::{Mapping, StaticPortMap};
use lxi_vxi11::server::vxi11::prelude::VxiServerBuilder;

use crate::dev::RecDev;
use crate::net;
use crate::rt::*;
use crate::vxi::*;

// ---------------------------------------------------------------- server

fn random_mapping(rng: &mut Rng) -> Mapping {
    // Few values, so that tables have duplicates and near misses
    let prog = match rng.below(8) {
        0 => rng.u32(),
        1 => 0,
        2 => u32::MAX,
        3 => PMAP,
        4 | 5 => CORE,
        _ => ABORT,
    };
    let vers = match rng.below(6) {
        0 => rng.u32(),
        1 => 0,
        2 | 3 => 1,
        _ => 2,
    };
    let prot = *rng.pick(&[6, 6, 6, 17, 17, 17, 0, 1, u32::MAX]);
    let port = match rng.below(10) {
        0 => 0,
        1 => 65535,
        2 => 111,
        3 => 65536 + rng.below(100_000) as u32,
        4 => rng.u32(),
        _ => rng.below(65536) as u32,
    };
    Mapping::new(prog, vers, prot, port)
}

#[derive(Clone, Debug)]
enum Ask {
    Null,
    GetPort(Mapping),
    Dump,
    Other(u32),
}

impl Ask {
    fn random(rng: &mut Rng, table: &[Mapping]) -> Ask {
        match rng.below(12) {
            0 => Ask::Null,
            1 | 2 => Ask::Dump,
            3 => Ask::Other(*rng.pick(&[1, 2, 5, 6, 7, 255, 0x8000_0000, u32::MAX])),
            4 => Ask::GetPort(random_mapping(rng)),
            _ => {
                let mut m = match table {
                    [] => random_mapping(rng),
                    t => *rng.pick(t),
                };
                // The port of a query means nothing
                if rng.chance(1, 2) {
                    m.port = rng.u32();
                }
                match rng.below(8) {
                    0 => m.prog = rng.u32(),
                    1 => m.prog ^= 1 << rng.below(32),
                    2 => m.vers ^= 1 << rng.below(32),
                    3 => m.prot ^= 1 << rng.below(32),
                    4 => std::mem::swap(&mut m.vers, &mut m.prot),
                    _ => {}
                }
                Ask::GetPort(m)
            }
        }
    }
    fn proc(&self) -> u32 {
        match self {
            Ask::Null => 0,
            Ask::GetPort(_) => 3,
            Ask::Dump => 4,
            Ask::Other(p) => *p,
        }
    }
    fn args(&self, rng: &mut Rng) -> Vec<u8> {
        match self {
            Ask::GetPort(m) => mapping_bytes(m),
            // As for the procedures which are not provided
            Ask::Other(1 | 2) => mapping_bytes(&random_mapping(rng)),
            Ask::Other(5) => X::new().u(CORE).u(1).u(0).op(b"").0,
            _ => Vec::new(),
        }
    }
    fn answer(&self, table: &[Mapping]) -> Reply {
        match self {
            Ask::Null => Reply::Success(Vec::new()),
            Ask::GetPort(q) => {
                let mut port = 0;
                for m in table.iter().rev() {
                    if (m.prog, m.vers, m.prot) == (q.prog, q.vers, q.prot) {
                        port = m.port;
                    }
                }
                Reply::Success(X::new().u(port).0)
            }
            Ask::Dump => {
                let mut x = X::new();
                for m in table {
                    x = x.u(1).raw(&mapping_bytes(m));
                }
                Reply::Success(x.u(0).0)
            }
            Ask::Other(_) => Reply::ProcUnavail,
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Ask::Null => "null",
            Ask::GetPort(_) => "getport",
            Ask::Dump => "dump",
            Ask::Other(_) => "other procedure",
        }
    }
}

fn mapping_bytes(m: &Mapping) -> Vec<u8> {
    X::new().u(m.prog).u(m.vers).u(m.prot).u(m.port).0
}

fn fits<const N: usize>(t: &[Mapping]) -> R<PmapSrv> {
    let mut a = [Mapping::new(0, 0, 0, 0); N];
    a.copy_from_slice(t);
    start_pmap(a)
}

const SIZES: [usize; 10] = [0, 1, 2, 3, 4, 7, 16, 33, 64, 200];

fn start_table(t: &[Mapping]) -> R<PmapSrv> {
    match t.len() {
        0 => fits::<0>(t),
        1 => fits::<1>(t),
        2 => fits::<2>(t),
        3 => fits::<3>(t),
        4 => fits::<4>(t),
        7 => fits::<7>(t),
        16 => fits::<16>(t),
        33 => fits::<33>(t),
        64 => fits::<64>(t),
        200 => fits::<200>(t),
        n => inconc(format!("no table of size {n}")),
    }
}

fn describe(a: &Ask, t: &[Mapping]) -> String {
    let t: Vec<String> = t
        .iter()
        .take(8)
        .map(|m| format!("({},{},{},{})", m.prog, m.vers, m.prot, m.port))
        .collect();
    format!("{a:?} with table {}", t.join(" "))
}

fn ask_tcp(ctx: &Ctx, rng: &mut Rng, s: &mut TcpStream, t: &[Mapping], n: usize) -> R<u64> {
    // Some calls may be sent ahead of the replies
    let mut key = 0;
    let asks: Vec<(u32, Ask)> = (0..n).map(|_| (rng.u32(), Ask::random(rng, t))).collect();
    let mut out = Vec::new();
    for (x, a) in &asks {
        let m = call_msg(*x, 2, PMAP, 2, a.proc(), &a.args(rng));
        let nf = if rng.chance(1, 3) { rng.range(1, 5) } else { 1 };
        out.extend(fragments(rng, &m, nf));
    }
    for p in rng.split(&out, 3) {
        net::send(s, &p)?;
    }
    for (x, a) in &asks {
        let b = read_reply(s, &describe(a, t))?;
        let (gx, r) = parse_reply(&b, &describe(a, t))?;
        ensure!(gx == *x, "TCP: {}: transaction {gx:#x} instead of {x:#x}", describe(a, t));
        let want = a.answer(t);
        ensure!(r == want, "TCP: {}: answered {r:?}, not {want:?}", describe(a, t));
        count_ask(ctx, "TCP", a, &want);
        key = hash_of(&(key, a.proc(), format!("{want:?}")));
    }
    Ok(key)
}

fn count_ask(ctx: &Ctx, how: &str, a: &Ask, want: &Reply) {
    let hit = match (a, want) {
        (Ask::GetPort(_), Reply::Success(v)) if v == &[0, 0, 0, 0] => " (no or port 0)",
        (Ask::GetPort(_), _) => " (found)",
        _ => "",
    };
    ctx.count(&format!("{how} {}{hit}", a.name()), 1);
}

fn ask_udp(ctx: &Ctx, rng: &mut Rng, s: &UdpSocket, t: &[Mapping], n: usize) -> R<u64> {
    let mut key = 0;
    for i in 0..n {
        let a = Ask::random(rng, t);
        let x = (rng.u32() << 8) | (i as u32 & 0xff);
        let m = call_msg(x, 2, PMAP, 2, a.proc(), &a.args(rng));
        s.send(&m).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let mut buf = vec![0; 65536];
        let k = match s.recv(&mut buf) {
            Ok(k) => k,
            Err(e) => return late(format!("UDP: {}: no answer ({e})", describe(&a, t))),
        };
        let (gx, r) = parse_reply(&buf[..k], &describe(&a, t))?;
        ensure!(gx == x, "UDP: {}: transaction {gx:#x} instead of {x:#x}", describe(&a, t));
        let want = a.answer(t);
        ensure!(r == want, "UDP: {}: answered {r:?}, not {want:?}", describe(&a, t));
        count_ask(ctx, "UDP", &a, &want);
        key = hash_of(&(key, a.proc(), format!("{want:?}")));
    }
    Ok(key)
}

fn table_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&SIZES);
    let mut t: Vec<Mapping> = (0..n).map(|_| random_mapping(rng)).collect();
    for i in 1..n {
        // Exact copies and copies with another port
        if rng.chance(1, 5) {
            t[i] = t[rng.below(i)];
            if rng.chance(2, 3) {
                t[i].port = rng.u32() & 0xffff;
            }
        }
    }
    let srv = start_table(&t)?;
    let mut key = hash_of(&format!("{t:?}"));
    // All connections are open at once, the server takes ten
    let mut tcp: Vec<TcpStream> = (0..rng.range(1, 3))
        .map(|_| net::connect(srv.tcp))
        .collect::<R<_>>()?;
    let udp: Vec<UdpSocket> = (0..rng.range(1, 3))
        .map(|_| udp_client(srv.udp))
        .collect::<R<_>>()?;
    for _ in 0..rng.range(2, 6) {
        let k = rng.range(1, 8);
        let i = rng.below(tcp.len());
        key = hash_of(&(key, ask_tcp(ctx, rng, &mut tcp[i], &t, k)?));
        let k = rng.range(1, 8);
        let i = rng.below(udp.len());
        key = hash_of(&(key, ask_udp(ctx, rng, &udp[i], &t, k)?));
    }
    // One query of each entry, over both
    for m in t.iter().take(40) {
        let a = Ask::GetPort(*m);
        let want = a.answer(&t);
        let x = rng.u32();
        let msg = call_msg(x, 2, PMAP, 2, 3, &mapping_bytes(m));
        net::send(&mut tcp[0], &record(&msg))?;
        let b = read_reply(&mut tcp[0], "getport")?;
        let (_, r) = parse_reply(&b, "getport")?;
        ensure!(r == want, "TCP: {}: answered {r:?}, not {want:?}", describe(&a, &t));
        udp[0].send(&msg).map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let mut buf = vec![0; 2000];
        let k = match udp[0].recv(&mut buf) {
            Ok(k) => k,
            Err(e) => return late(format!("UDP: {}: no answer ({e})", describe(&a, &t))),
        };
        ensure!(
            buf[..k] == b[..],
            "{}: answers over UDP and TCP differ: {}",
            describe(&a, &t),
            diff(&buf[..k], &b)
        );
        ctx.count("entries queried over both", 1);
    }
    ensure!(srv.ended().is_none(), "server ended: {:?}", srv.ended());
    ctx.seen("tables", hash_of(&format!("{t:?}")));
    ctx.count(&format!("tables of {n:3} entries"), 1);
    ctx.eval(key, n > 0, || format!("{} entries: {:?}", n, &t[..n.min(3)]));
    Ok(())
}

fn many_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let n = *rng.pick(&[1, 4, 16, 64]);
    let t: Vec<Mapping> = (0..n).map(|_| random_mapping(rng)).collect();
    let srv = start_table(&t)?;
    let jobs: Vec<(bool, Rng)> = (0..rng.range(4, 14))
        .map(|i| (i % 3 != 2, rng.fork()))
        .take(13)
        .collect();
    let clients = jobs.len();
    let keys: Vec<R<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|(tcp, mut r)| {
                let (srv, t) = (&srv, &t);
                sc.spawn(move || {
                    if tcp {
                        let mut s = net::connect(srv.tcp)?;
                        let mut k = 0;
                        for _ in 0..4 {
                            k ^= ask_tcp(ctx, &mut r, &mut s, t, 5)?;
                        }
                        Ok(k)
                    } else {
                        let s = udp_client(srv.udp)?;
                        ask_udp(ctx, &mut r, &s, t, 15)
                    }
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| inconc("thread panicked")))
            .collect()
    });
    let keys = keys.into_iter().collect::<R<Vec<_>>>()?;
    ctx.count("concurrent clients", clients as u64);
    ctx.eval(hash_of(&keys), true, || format!("{clients} clients at once, {n} entries"));
    Ok(())
}

/// Both transports from one call of bind
fn bind_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let t: Vec<Mapping> = (0..4).map(|_| random_mapping(rng)).collect();
    let arr = [t[0], t[1], t[2], t[3]];
    let srv = net::start(|a| StaticPortMap::new(arr).bind(a))?;
    let mut s = net::connect(srv.addr)?;
    let u = udp_client(srv.addr)?;
    let mut key = 0;
    for _ in 0..3 {
        key ^= ask_tcp(ctx, rng, &mut s, &t, 4)?;
        key ^= ask_udp(ctx, rng, &u, &t, 4)?;
    }
    ensure!(srv.ended().is_none(), "server ended: {:?}", srv.ended());
    ctx.eval(hash_of(&("bind", key)), true, || format!("bind: {t:?}"));
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    ctx.rule(
        "table: random tables of 0 to 200 entries drawn from few values, so that they hold duplicates and \
         near misses; every entry, perturbed entries, listings, null and unknown procedures are asked over \
         several TCP connections (sent ahead, in fragments) and UDP sockets and compared with the answer \
         from the table, byte for byte between the transports. many: up to 13 clients at once. bind: \
         both transports from one bind. Non-trivial: a table with entries; distinct by table and answers.",
    );
    ctx.cases_par("table", ctx.n(4000, 60_000), ctx.n(12, 300) as u64, 4, |rng, _| table_case(ctx, rng));
    ctx.cases("many", ctx.n(400, 6000), ctx.n(6, 150) as u64, |rng, _| many_case(ctx, rng));
    ctx.cases("bind", ctx.n(30, 400), ctx.n(4, 60) as u64, |rng, _| bind_case(ctx, rng));
}

// ---------------------------------------------------------------- client

/// What the client of the library returned, made comparable
#[derive(Clone, Debug, PartialEq)]
enum Got {
    Unit,
    Bool(bool),
    Port(u16),
    Words(Vec<u32>),
    Text(String),
    Err(String),
}

#[derive(Clone, Debug)]
enum Do {
    Null,
    Set(Mapping),
    Unset(Mapping),
    GetPort(Mapping),
    CallWords(u32, u32, u32, Vec<u32>),
    CallText(u32, u32, u32, String),
    Register(Mapping),
}

/// How one call is answered
#[derive(Clone, Debug)]
enum Answer {
    Reply(Reply),
    /// Result cut off after so many bytes
    Short(Vec<u8>, usize),
    /// Whole message cut off
    ShortMessage(usize),
    /// Neither success nor a known status
    Unknown(Vec<u8>),
    /// Connection ends instead (TCP)
    Gone(usize, bool),
}

impl Answer {
    fn is_fatal(&self) -> bool {
        matches!(self, Answer::Gone(..))
    }
}

struct Call {
    proc: u32,
    args: Vec<u8>,
    answer: Answer,
}

fn random_status(rng: &mut Rng) -> Reply {
    match rng.below(7) {
        0 => Reply::ProgUnavail,
        1 => Reply::ProgMismatch(rng.u32(), rng.u32()),
        2 => Reply::ProcUnavail,
        3 => Reply::GarbageArgs,
        4 => Reply::SystemErr,
        5 => Reply::RpcMismatch(rng.u32(), rng.u32()),
        _ => Reply::AuthError(rng.below(8) as u32),
    }
}

const AUTH: [&str; 8] = [
    "Ok",
    "BadCred",
    "RejectedCred",
    "BadVerf",
    "RejectedVerf",
    "TooWeak",
    "InvalidResp",
    "Failed",
];

/// Does the error say what the status said?
fn matches_status(err: &str, r: &Reply) -> bool {
    let has = |n: u32| {
        err.split(|c: char| !c.is_ascii_digit())
            .any(|w| w == n.to_string())
    };
    match r {
        Reply::Success(_) => false,
        Reply::ProgUnavail => err == "ProgUnavail",
        Reply::ProcUnavail => err == "ProcUnavail",
        Reply::GarbageArgs => err == "GarbageArgs",
        Reply::SystemErr => err == "SystemErr",
        Reply::ProgMismatch(a, b) => {
            err.starts_with("ProgMissmatch") && has(*a) && has(*b) && low_first(err, *a, *b)
        }
        Reply::RpcMismatch(a, b) => {
            err.starts_with("RpcMissmatch") && has(*a) && has(*b) && low_first(err, *a, *b)
        }
        Reply::AuthError(k) => {
            err.starts_with("AuthError(") && err.contains(&format!("({})", AUTH[*k as usize]))
        }
    }
}

fn low_first(err: &str, a: u32, b: u32) -> bool {
    match (err.find("low"), err.find("high")) {
        (Some(l), Some(h)) => {
            err[l..].contains(&format!("low: {a}")) && err[h..].contains(&format!("high: {b}"))
        }
        _ => true,
    }
}

/// Encode a reply. Verifiers of any flavour are allowed.
fn encode_reply(rng: &mut Rng, xid: u32, r: &Reply) -> Vec<u8> {
    let mut x = X::new().u(xid).u(1);
    let denied = matches!(r, Reply::RpcMismatch(..) | Reply::AuthError(_));
    if denied {
        x = x.u(1);
    } else {
        x = x.u(0);
        x = match rng.below(6) {
            0 => {
                let n = rng.below(41);
                x.u(rng.below(4) as u32).op(&rng.bytes(n))
            }
            1 => x.u(6).op(&rng.bytes(17)),
            _ => x.u(0).op(b""),
        };
    }
    match r {
        Reply::Success(v) => x.u(0).raw(v),
        Reply::ProgUnavail => x.u(1),
        Reply::ProgMismatch(a, b) => x.u(2).u(*a).u(*b),
        Reply::ProcUnavail => x.u(3),
        Reply::GarbageArgs => x.u(4),
        Reply::SystemErr => x.u(5),
        Reply::RpcMismatch(a, b) => x.u(0).u(*a).u(*b),
        Reply::AuthError(a) => x.u(1).u(*a),
    }
    .0
}

fn unknown_message(rng: &mut Rng, xid: u32) -> (Vec<u8>, &'static str) {
    match rng.below(5) {
        0 => (X::new().u(xid).u(1).u(0).u(0).u(0).u(6 + rng.u32() % 1000).u(1).0, "accept status"),
        1 => (X::new().u(xid).u(1).u(2 + rng.u32() % 1000).u(0).u(0).u(0).u(1).0, "reply status"),
        2 => (X::new().u(xid).u(1).u(1).u(2 + rng.u32() % 1000).u(0).u(0).0, "reject status"),
        3 => (X::new().u(xid).u(1).u(1).u(1).u(1000 + rng.u32() % 1000).0, "auth status"),
        // Verifier longer than the message
        _ => (X::new().u(xid).u(1).u(0).u(0).u(200).u(0).u(1).0, "verifier length"),
    }
}

/// A result for the call and what the client must make of it
fn good_result(d: &Do, rng: &mut Rng) -> (Vec<u8>, Got) {
    match d {
        Do::Null => (Vec::new(), Got::Unit),
        Do::Set(_) | Do::Unset(_) | Do::Register(_) => {
            let ok = rng.chance(2, 3);
            (X::new().u(ok as u32).0, Got::Bool(ok))
        }
        Do::GetPort(_) => {
            let p = match rng.below(4) {
                0 => 0,
                1 => 65535,
                _ => rng.below(65536) as u16,
            };
            (X::new().u(p as u32).0, Got::Port(p))
        }
        Do::CallWords(..) => {
            // Up to what fits in a datagram
            let n = if rng.chance(1, 12) { rng.range(200, 15_000) } else { rng.below(9) };
            let w: Vec<u32> = (0..n).map(|_| rng.u32()).collect();
            let mut x = X::new().u(w.len() as u32);
            for v in &w {
                x = x.u(*v);
            }
            (X::new().u(rng.u32() & 0xffff).op(&x.0).0, Got::Words(w))
        }
        Do::CallText(..) => {
            let s = random_text(rng);
            (
                X::new().u(rng.u32() & 0xffff).op(&X::new().op(s.as_bytes()).0).0,
                Got::Text(s),
            )
        }
    }
}

fn random_text(rng: &mut Rng) -> String {
    let n = if rng.chance(1, 20) { rng.range(200, 12_000) } else { rng.below(30) };
    (0..n)
        .map(|_| *rng.pick(&['a', 'b', 'Z', '0', ' ', '\0', 'é', '√', '😀']))
        .collect()
}

fn proc_args(d: &Do) -> (u32, Vec<u8>) {
    match d {
        Do::Null => (0, Vec::new()),
        Do::Set(m) => (1, mapping_bytes(m)),
        Do::Unset(m) => (2, mapping_bytes(m)),
        Do::GetPort(m) => (3, mapping_bytes(m)),
        Do::CallWords(a, b, c, w) => {
            let mut x = X::new().u(w.len() as u32);
            for v in w {
                x = x.u(*v);
            }
            (5, X::new().u(*a).u(*b).u(*c).op(&x.0).0)
        }
        Do::CallText(a, b, c, s) => (
            5,
            X::new().u(*a).u(*b).u(*c).op(&X::new().op(s.as_bytes()).0).0,
        ),
        Do::Register(_) => unreachable!(),
    }
}

async fn run(c: &mut PortMapperClient, d: &Do) -> Got {
    fn r<T, E: std::fmt::Debug>(x: Result<T, E>, f: impl FnOnce(T) -> Got) -> Got {
        match x {
            Ok(v) => f(v),
            Err(e) => Got::Err(format!("{e:?}")),
        }
    }
    match d.clone() {
        Do::Null => r(c.null().await, |_| Got::Unit),
        Do::Set(m) => r(c.set(m).await, Got::Bool),
        Do::Unset(m) => r(c.unset(m).await, Got::Bool),
        Do::GetPort(m) => r(c.getport(m).await, Got::Port),
        Do::CallWords(a, b, p, w) => r(c.callit::<Vec<u32>, Vec<u32>>(a, b, p, w).await, Got::Words),
        Do::CallText(a, b, p, s) => r(c.callit::<String, String>(a, b, p, s).await, Got::Text),
        Do::Register(m) => r(c.register(m).await, |_| Got::Unit),
    }
}

/// The scripted server's end
enum Peer {
    Tcp(TcpStream),
    Udp(UdpSocket, Option<SocketAddr>),
}

impl Peer {
    fn recv(&mut self) -> R<Vec<u8>> {
        match self {
            Peer::Tcp(s) => read_reply(s, "call of the client"),
            Peer::Udp(s, from) => {
                let mut b = vec![0; 65536];
                match s.recv_from(&mut b) {
                    Ok((k, a)) => {
                        *from = Some(a);
                        b.truncate(k);
                        Ok(b)
                    }
                    Err(e) => late(format!("no call arrived over UDP: {e}")),
                }
            }
        }
    }
    fn send(&mut self, rng: &mut Rng, m: &[u8]) -> R {
        match self {
            Peer::Tcp(s) => {
                let nf = if rng.chance(1, 3) { rng.range(1, 5) } else { 1 };
                let b = fragments(rng, m, nf);
                let np = rng.range(1, 3);
                for p in rng.split(&b, np) {
                    // The client may be done, what counts is what it returned
                    use std::io::Write;
                    if s.write_all(&p).is_err() {
                        break;
                    }
                }
                Ok(())
            }
            Peer::Udp(s, to) => {
                let Some(to) = *to else { return Ok(()) };
                let _ = s.send_to(m, to);
                Ok(())
            }
        }
    }
    /// Nothing more may have been sent
    fn silent(&mut self) -> R {
        match self {
            Peer::Tcp(s) => match net::quiet(s, Duration::from_millis(2)) {
                Ok(()) => Ok(()),
                Err(b) if b.is_empty() => Ok(()),
                Err(b) => viol(format!("the client sent more than its calls: {}", show(&b))),
            },
            Peer::Udp(s, _) => {
                let _ = s.set_read_timeout(Some(Duration::from_millis(2)));
                let mut b = vec![0; 2000];
                let r = s.recv(&mut b);
                let _ = s.set_read_timeout(Some(DEADLINE));
                match r {
                    Ok(k) => viol(format!("the client sent more than its calls: {}", show(&b[..k]))),
                    Err(_) => Ok(()),
                }
            }
        }
    }
}

/// Play the server for one call
fn serve_one(
    ctx: &Ctx,
    rng: &mut Rng,
    peer: &mut Peer,
    c: &Call,
    xids: &mut Vec<u32>,
    last: &mut Option<Vec<u8>>,
) -> R {
    let m = peer.recv()?;
    let mut r = Rd::new(&m);
    let w = "call of the client";
    let xid = r.u(w)?;
    let want = call_msg(xid, 2, PMAP, 2, c.proc, &c.args);
    ensure!(m == want, "call of procedure {} was sent as {}", c.proc, diff(&m, &want));
    ensure!(!xids.contains(&xid), "transaction id {xid:#x} used twice on one connection");
    answer_call(ctx, rng, peer, c, xid, xids, last)
}

fn answer_call(
    ctx: &Ctx,
    rng: &mut Rng,
    peer: &mut Peer,
    c: &Call,
    xid: u32,
    xids: &mut Vec<u32>,
    last: &mut Option<Vec<u8>>,
) -> R {
    xids.push(xid);
    // Things which are not the reply to this call
    for _ in 0..if rng.chance(1, 2) { rng.range(1, 4) } else { 0 } {
        let other = loop {
            let x = match rng.below(5) {
                0 => xid.wrapping_add(1),
                1 => xid.wrapping_sub(1),
                2 if xids.len() > 1 => xids[rng.below(xids.len() - 1)],
                3 => xid.swap_bytes(),
                _ => rng.u32(),
            };
            if x != xid {
                break x;
            }
        };
        let plausible = rng.u32() % 3;
        let (m, what) = match rng.below(6) {
            0 => (
                // A call with the same transaction id
                call_msg(xid, 2, PMAP, 2, c.proc, &c.args),
                "call with this id",
            ),
            1 => (call_msg(other, 2, 7, 1, 0, &[]), "call with another id"),
            2 if last.is_some() => (last.clone().unwrap(), "duplicate of the last reply"),
            3 => {
                let s = random_status(rng);
                (encode_reply(rng, other, &s), "error to another id")
            }
            4 => (
                encode_reply(rng, other, &Reply::Success(X::new().u(plausible).op(b"\0\0\0\x01abcd").0)),
                "result for another id",
            ),
            _ => {
                let v = match &c.answer {
                    Answer::Reply(Reply::Success(v)) => v.clone(),
                    _ => X::new().u(1).0,
                };
                // The same result with one bit turned
                let mut v = v;
                if !v.is_empty() {
                    let i = v.len() - 1;
                    v[i] ^= 1;
                }
                (encode_reply(rng, other, &Reply::Success(v)), "different result for another id")
            }
        };
        peer.send(rng, &m)?;
        ctx.count(&format!("ahead of the reply: {what}"), 1);
    }
    match &c.answer {
        Answer::Reply(r) => {
            let m = encode_reply(rng, xid, r);
            peer.send(rng, &m)?;
            *last = Some(m);
            // Duplicates which arrive late
            if rng.chance(1, 8) {
                let m = last.clone().unwrap();
                peer.send(rng, &m)?;
                ctx.count("replies sent twice", 1);
            }
        }
        Answer::Short(v, n) => {
            let m = encode_reply(rng, xid, &Reply::Success(v[..*n].to_vec()));
            peer.send(rng, &m)?;
        }
        Answer::ShortMessage(n) => {
            let m = X::new().u(xid).u(1).u(0).u(0).u(0).u(0).0;
            peer.send(rng, &m[..*n])?;
        }
        Answer::Unknown(_) => {
            let (m, what) = unknown_message(rng, xid);
            peer.send(rng, &m)?;
            ctx.count(&format!("unknown {what}"), 1);
        }
        Answer::Gone(n, reset) => {
            if let Peer::Tcp(s) = peer {
                let m = record(&encode_reply(rng, xid, &Reply::Success(vec![0, 0, 0, 1, 0, 0, 0, 0])));
                let m = if *n == 1000 {
                    // Record of half a gigabyte
                    let mut h = 0xa000_0000u32.to_be_bytes().to_vec();
                    h.extend_from_slice(&m[4..]);
                    h
                } else {
                    m[..(*n).min(m.len() - 1)].to_vec()
                };
                let _ = net::send(s, &m);
                let _ = s.shutdown(std::net::Shutdown::Both);
                if *reset {
                    if let Ok(c) = s.try_clone() {
                        net::reset(c);
                    }
                }
            }
        }
    }
    Ok(())
}

fn random_answer(rng: &mut Rng, d: &Do, tcp: bool) -> (Answer, Option<Got>) {
    match rng.below(20) {
        0..=9 => {
            let (v, g) = good_result(d, rng);
            (Answer::Reply(Reply::Success(v)), Some(g))
        }
        10..=13 => (Answer::Reply(random_status(rng)), None),
        14 | 15 => {
            let (v, _) = good_result(d, rng);
            if v.is_empty() {
                return (Answer::Reply(Reply::ProcUnavail), None);
            }
            let n = rng.below(v.len());
            (Answer::Short(v, n), None)
        }
        16 => (Answer::ShortMessage(rng.below(24)), None),
        17 => (Answer::Unknown(Vec::new()), None),
        18 => match d {
            // Not a port number
            Do::GetPort(_) => (
                Answer::Short(X::new().u(65536 + rng.u32() % 100_000).0, 4),
                None,
            ),
            Do::CallWords(..) => {
                // Result of the indirect call ends early though the reply is complete
                let n = rng.range(1, 5) as u32;
                let mut x = X::new().u(n);
                for _ in 0..rng.below(n as usize) {
                    x = x.u(rng.u32());
                }
                let v = X::new().u(1).op(&x.0).0;
                let n = v.len();
                (Answer::Short(v, n), None)
            }
            Do::CallText(..) => {
                let v = match rng.below(3) {
                    0 => X::new().u(1).op(b"\0\0\0\x05abcd").0,
                    1 => X::new().u(1).op(b"\0\0\0\x04ab\xff\xfe").0,
                    _ => X::new().u(1).op(b"\0\0\0").0,
                };
                let n = v.len();
                (Answer::Short(v, n), None)
            }
            _ => (Answer::ShortMessage(4), None),
        },
        _ if tcp => (
            Answer::Gone(*rng.pick(&[0, 1, 3, 4, 5, 20, 30, 1000]), rng.chance(1, 3)),
            None,
        ),
        _ => (Answer::Reply(random_status(rng)), None),
    }
}

fn judge_call(d: &str, got: &Got, a: &Answer, want: &Option<Got>) -> R {
    match (want, a) {
        (Some(w), _) => ensure!(got == w, "{d}: the client returned {got:?} where the reply said {w:?}"),
        (None, Answer::Reply(r)) => match got {
            Got::Err(e) if matches_status(e, r) => {}
            g => return viol(format!("{d}: the client returned {g:?} where the reply said {r:?}")),
        },
        (None, a) => {
            ensure!(
                matches!(got, Got::Err(_)),
                "{d}: the client made {got:?} of a reply which cannot be decoded ({a:?})"
            );
        }
    }
    Ok(())
}

fn listen(tcp: bool) -> R<(SocketAddr, Option<TcpListener>, Option<UdpSocket>)> {
    let bad = |e: std::io::Error| Fail::Inconclusive(e.to_string());
    if tcp {
        let l = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).map_err(bad)?;
        Ok((l.local_addr().map_err(bad)?, Some(l), None))
    } else {
        let u = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).map_err(bad)?;
        let _ = u.set_read_timeout(Some(DEADLINE));
        Ok((u.local_addr().map_err(bad)?, None, Some(u)))
    }
}

fn accept(l: &TcpListener) -> R<TcpStream> {
    let _ = l.set_nonblocking(true);
    let t = std::time::Instant::now();
    loop {
        match l.accept() {
            Ok((s, _)) => {
                let _ = s.set_nonblocking(false);
                let _ = s.set_nodelay(true);
                let _ = s.set_read_timeout(Some(DEADLINE));
                let _ = s.set_write_timeout(Some(DEADLINE));
                return Ok(s);
            }
            Err(_) if t.elapsed() < DEADLINE => std::thread::sleep(Duration::from_micros(200)),
            Err(e) => return late(format!("the client does not connect: {e}")),
        }
    }
}

fn client_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let tcp = rng.chance(1, 2);
    let (addr, l, u) = listen(tcp)?;
    // The calls of this session and how they are answered
    let mut steps: Vec<(Do, Vec<Call>, Vec<Option<Got>>)> = Vec::new();
    let mut over = false;
    for _ in 0..rng.range(1, 12) {
        if over {
            break;
        }
        let m = random_mapping(rng);
        let d = match rng.below(14) {
            0 => Do::Null,
            1 | 2 => Do::Set(m),
            3 => Do::Unset(m),
            4..=7 => Do::GetPort(m),
            8 | 9 => {
                let w = (0..rng.below(7)).map(|_| rng.u32()).collect();
                Do::CallWords(rng.u32(), rng.u32(), rng.u32(), w)
            }
            10 | 11 => Do::CallText(rng.u32(), rng.u32(), rng.u32(), random_text(rng)),
            _ => Do::Register(m),
        };
        let mut calls = Vec::new();
        let mut wants = Vec::new();
        if let Do::Register(m) = &d {
            for proc in [2, 1] {
                let (a, w) = random_answer(rng, &d, tcp);
                let go_on = w == Some(Got::Bool(true));
                over |= a.is_fatal();
                calls.push(Call { proc, args: mapping_bytes(m), answer: a });
                wants.push(w);
                if !go_on {
                    break;
                }
            }
        } else {
            let (proc, args) = proc_args(&d);
            let (a, w) = random_answer(rng, &d, tcp);
            over |= a.is_fatal();
            calls.push(Call { proc, args, answer: a });
            wants.push(w);
        }
        steps.push((d, calls, wants));
    }
    let mut server_rng = rng.fork();
    let key = hash_of(&format!("{:?}", steps.iter().map(|s| (&s.0, s.1.iter().map(|c| &c.answer).collect::<Vec<_>>())).collect::<Vec<_>>()));
    let (gots, served) = std::thread::scope(|sc| {
        let plan = &steps;
        let h = sc.spawn(move || -> R {
            let rng = &mut server_rng;
            let mut peer = match (l, u) {
                (Some(l), _) => Peer::Tcp(accept(&l)?),
                (_, Some(u)) => Peer::Udp(u, None),
                _ => unreachable!(),
            };
            let mut xids = Vec::new();
            let mut last = None;
            for (_, calls, _) in plan {
                for c in calls {
                    serve_one(ctx, rng, &mut peer, c, &mut xids, &mut last)?;
                }
            }
            if !over {
                peer.silent()?;
            }
            Ok(())
        });
        let mut gots: Vec<R<Got>> = Vec::new();
        task::block_on(async {
            let conn = async_std::future::timeout(DEADLINE, async {
                if tcp {
                    PortMapperClient::connect_tcp(addr).await
                } else {
                    PortMapperClient::connect_udp(addr).await
                }
            })
            .await;
            let mut c = match conn {
                Ok(Ok(c)) => c,
                Ok(Err(e)) => {
                    gots.push(inconc(format!("connect: {e}")));
                    return;
                }
                Err(_) => {
                    gots.push(late("connecting does not end"));
                    return;
                }
            };
            for (d, _, _) in &steps {
                match async_std::future::timeout(DEADLINE, run(&mut c, d)).await {
                    Ok(g) => gots.push(Ok(g)),
                    Err(_) => {
                        gots.push(late(format!("{d:?} did not return")));
                        break;
                    }
                }
            }
        });
        let served = h.join().unwrap_or_else(|_| inconc("thread panicked"));
        (gots, served)
    });
    let how = if tcp { "TCP" } else { "UDP" };
    // What the server saw explains more than a client which waits
    if let Err(Fail::Violation(v)) = &served {
        return viol(format!("{how}: {v}"));
    }
    for ((d, calls, wants), g) in steps.iter().zip(gots) {
        let g = g.what(format!("{how} client, answers {:?}", calls.iter().map(|c| &c.answer).collect::<Vec<_>>()))?;
        let n = calls.len() - 1;
        if let Do::Register(_) = d {
            let done = n == 1 && wants[1] == Some(Got::Bool(true));
            if done {
                ensure!(g == Got::Unit, "{how}: register returned {g:?} though both calls succeeded");
            } else if wants[n].is_some() {
                ensure!(
                    matches!(g, Got::Err(_)),
                    "{how}: register returned {g:?} though call {n} was refused"
                );
            } else {
                judge_call(&format!("{how} {d:?}"), &g, &calls[n].answer, &wants[n])?;
            }
            ctx.count(if done { "registrations done" } else { "registrations failed" }, 1);
        } else {
            judge_call(&format!("{how} {d:?}"), &g, &calls[n].answer, &wants[n])?;
        }
        let a = match &calls[n].answer {
            Answer::Reply(Reply::Success(_)) => "success",
            Answer::Reply(_) => "error status",
            Answer::Short(..) => "result which cannot be decoded",
            Answer::ShortMessage(_) => "reply cut off",
            Answer::Unknown(_) => "unknown status",
            Answer::Gone(..) => "connection ends",
        };
        ctx.count(&format!("{how} {a}"), 1);
    }
    served.what(format!("{how} client"))?;
    ctx.seen("sessions", key);
    ctx.eval(key, true, || {
        format!("{how}: {:?}", steps.iter().map(|s| (&s.0, s.1.iter().map(|c| &c.answer).collect::<Vec<_>>())).take(3).collect::<Vec<_>>())
    });
    Ok(())
}

/// register_portmap of the server builder
fn announce_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let (addr, l, _) = listen(true)?;
    let l = l.unwrap();
    let core = if rng.chance(1, 12) { 0 } else { rng.range(1, 65535) as u16 };
    let abort = if rng.chance(1, 12) { 0 } else { rng.range(1, 65535) as u16 };
    let dynamic = core == 0 || abort == 0;
    let d = Do::Set(Mapping::new(0, 0, 0, 0));
    let answers: Vec<(Answer, Option<Got>)> = (0..2).map(|_| {
        if rng.chance(1, 2) {
            (Answer::Reply(Reply::Success(X::new().u(1).0)), Some(Got::Bool(true)))
        } else {
            random_answer(rng, &d, true)
        }
    }).collect();
    let mut srng = rng.fork();
    let plan = &answers;
    let (got, served) = std::thread::scope(|sc| {
        let h = sc.spawn(move || -> R<Vec<(u32, u32, u32, u32)>> {
            let mut seen = Vec::new();
            if dynamic {
                return Ok(seen);
            }
            let rng = &mut srng;
            let mut peer = Peer::Tcp(accept(&l)?);
            let mut xids = Vec::new();
            let mut last = None;
            for (a, _) in plan {
                let m = {
                    // Stop when the client gives up after an error
                    let Peer::Tcp(s) = &mut peer else { unreachable!() };
                    net::quickack(s);
                    let mut b = [0u8; 1];
                    match s.peek(&mut b) {
                        Ok(0) => break,
                        Ok(_) => {}
                        Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => break,
                        Err(_) => return late("no call arrived"),
                    }
                    peer.recv()?
                };
                let mut r = Rd::new(&m);
                let x = r.u("call")?;
                let head = call_msg(x, 2, PMAP, 2, 1, &[]);
                ensure!(m.starts_with(&head) && m.len() == head.len() + 16, "not a SET call: {}", show(&m));
                let mut r = Rd::new(&m[head.len()..]);
                let k = (r.u("x")?, r.u("x")?, r.u("x")?, r.u("x")?);
                seen.push(k);
                let c = Call { proc: 1, args: m[head.len()..].to_vec(), answer: a.clone() };
                ensure!(!xids.contains(&x), "transaction id {x:#x} used twice");
                answer_call(ctx, rng, &mut peer, &c, x, &mut xids, &mut last)?;
                if a.is_fatal() {
                    break;
                }
            }
            if let Peer::Tcp(s) = &mut peer {
                let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
                let mut b = [0u8; 100];
                if let Ok(k) = s.read(&mut b) {
                    ensure!(k == 0, "more calls than two: {}", show(&b[..k]));
                }
            }
            Ok(seen)
        });
        let got = task::block_on(async {
            let b = VxiServerBuilder::<RecDev>::new().core_port(core).async_port(abort);
            match async_std::future::timeout(DEADLINE, b.register_portmap(addr)).await {
                Ok(Ok(_)) => Ok(true),
                Ok(Err(_)) => Ok(false),
                Err(_) => late("register_portmap did not return"),
            }
        });
        (got, h.join().unwrap_or_else(|_| inconc("thread panicked")))
    });
    if let Err(Fail::Violation(v)) = &served {
        return viol(v.clone());
    }
    let got = got?;
    let mut seen = served?;
    let all_ok = answers.iter().all(|a| a.1 == Some(Got::Bool(true)));
    let want_ok = !dynamic && all_ok;
    ensure!(
        got == want_ok,
        "register_portmap of core {core} and abort {abort} {} where the answers were {answers:?}",
        if got { "succeeded" } else { "failed" }
    );
    if want_ok {
        seen.sort();
        let want = [(CORE, 1, 6, core as u32), (ABORT, 1, 6, abort as u32)];
        ensure!(seen == want, "announced {seen:?} instead of {want:?}");
        ctx.count("announcements", 1);
    } else {
        for s in &seen {
            ensure!(
                *s == (CORE, 1, 6, core as u32) || *s == (ABORT, 1, 6, abort as u32),
                "announced {s:?} for core {core} and abort {abort}"
            );
        }
        ctx.count("announcements which fail", 1);
    }
    ctx.eval(hash_of(&(core, abort, format!("{answers:?}"))), !dynamic, || {
        format!("core {core} abort {abort} {answers:?}")
    });
    Ok(())
}

/// The real server at the other end
fn together_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let t: Vec<Mapping> = (0..4).map(|_| random_mapping(rng)).collect();
    let srv = start_pmap([t[0], t[1], t[2], t[3]])?;
    let tcp = rng.chance(1, 2);
    let addr = if tcp { srv.tcp } else { srv.udp };
    let asks: Vec<Mapping> = (0..12)
        .map(|_| if rng.chance(2, 3) { *rng.pick(&t) } else { random_mapping(rng) })
        .collect();
    let got: R<Vec<Got>> = task::block_on(async {
        async_std::future::timeout(DEADLINE, async {
            let mut c = if tcp {
                PortMapperClient::connect_tcp(addr).await
            } else {
                PortMapperClient::connect_udp(addr).await
            }
            .map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let mut out = Vec::new();
            for m in &asks {
                out.push(run(&mut c, &Do::GetPort(*m)).await);
            }
            out.push(run(&mut c, &Do::Null).await);
            out.push(run(&mut c, &Do::Set(asks[0])).await);
            Ok(out)
        })
        .await
        .unwrap_or_else(|_| late("the client does not return"))
    });
    let got = got?;
    for (m, g) in asks.iter().zip(&got) {
        let p = t
            .iter()
            .find(|x| (x.prog, x.vers, x.prot) == (m.prog, m.vers, m.prot))
            .map_or(0, |x| x.port);
        match u16::try_from(p) {
            Ok(p) => ensure!(*g == Got::Port(p), "client and server: {m:?} is {g:?} and not {p}, table {t:?}"),
            Err(_) => ensure!(
                matches!(g, Got::Err(_)),
                "client and server: {m:?} is {g:?} though the port is {p}"
            ),
        }
    }
    ensure!(got[12] == Got::Unit, "client and server: null returned {:?}", got[12]);
    ensure!(
        got[13] == Got::Err("ProcUnavail".into()),
        "client and server: set returned {:?}",
        got[13]
    );
    ctx.count("calls of the client to the server", got.len() as u64);
    ctx.eval(hash_of(&format!("{got:?}")), true, || format!("client and server: {got:?}"));
    Ok(())
}

/// Calls the user gives up waiting for. Their replies come during later calls, and are not those calls' answers
fn abandoned_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let tcp = rng.chance(1, 2);
    let inc = |e: std::io::Error| Fail::Inconclusive(e.to_string());
    let (l, u, addr) = if tcp {
        let l = TcpListener::bind("127.0.0.1:0").map_err(inc)?;
        let a = l.local_addr().map_err(inc)?;
        (Some(l), None, a)
    } else {
        let u = UdpSocket::bind("127.0.0.1:0").map_err(inc)?;
        let _ = u.set_read_timeout(Some(DEADLINE));
        let a = u.local_addr().map_err(inc)?;
        (None, Some(u), a)
    };
    // Which calls are answered in time, and every call's port
    let n = rng.range(3, 8);
    let mut plan: Vec<(bool, u32)> = (0..n).map(|i| (rng.chance(1, 2), 1000 * (i as u32 + 1) + rng.below(1000) as u32)).collect();
    plan[0].0 = false;
    plan[n - 1].0 = true;
    let ms: Vec<Mapping> = (0..n).map(|_| random_mapping(rng)).collect();
    let mut srng = rng.fork();
    let (got, served) = std::thread::scope(|sc| {
        let (plan, ms) = (&plan, &ms);
        let h = sc.spawn(move || -> R {
            let rng = &mut srng;
            let mut peer = match (l, u) {
                (Some(l), _) => Peer::Tcp(accept(&l)?),
                (_, Some(u)) => Peer::Udp(u, None),
                _ => unreachable!(),
            };
            let mut xids = Vec::new();
            let mut late: Vec<Vec<u8>> = Vec::new();
            for ((now, port), m) in plan.iter().zip(ms) {
                let b = peer.recv()?;
                let xid = Rd::new(&b).u("call")?;
                let want = call_msg(xid, 2, PMAP, 2, 3, &mapping_bytes(m));
                ensure!(b == want, "getport was sent as {}", diff(&b, &want));
                ensure!(!xids.contains(&xid), "transaction id {xid:#x} used again after a call was given up");
                xids.push(xid);
                let reply = X::new().u(xid).u(1).u(0).u(0).u(0).u(0).u(*port).0;
                if *now {
                    while !late.is_empty() {
                        let i = rng.below(late.len());
                        let m = late.swap_remove(i);
                        peer.send(rng, &m)?;
                    }
                    peer.send(rng, &reply)?;
                } else {
                    late.push(reply);
                }
            }
            Ok(())
        });
        let got: R<Vec<Option<Got>>> = task::block_on(async {
            let mut c = if tcp {
                PortMapperClient::connect_tcp(addr).await
            } else {
                PortMapperClient::connect_udp(addr).await
            }
            .map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let mut out = Vec::new();
            for ((now, _), m) in plan.iter().zip(ms) {
                let d = Do::GetPort(*m);
                let t = if *now { DEADLINE } else { Duration::from_millis(6) };
                match async_std::future::timeout(t, run(&mut c, &d)).await {
                    Ok(g) => out.push(Some(g)),
                    Err(_) if *now => return late("a call after ones which were given up does not return"),
                    Err(_) => out.push(None),
                }
            }
            Ok(out)
        });
        let served = h.join().unwrap_or_else(|_| inconc("thread panicked"));
        (got, served)
    });
    if let Err(Fail::Violation(v)) = served {
        return viol(v);
    }
    let how = if tcp { "TCP" } else { "UDP" };
    for ((now, port), g) in plan.iter().zip(got?) {
        match g {
            Some(g) if *now => ensure!(
                g == Got::Port(*port as u16),
                "{how}: getport returned {g:?}, its answer was {port}, calls (answered in time, port) {plan:?}"
            ),
            Some(g) => return viol(format!("{how}: getport returned {g:?} before it was answered: {plan:?}")),
            None => {}
        }
    }
    ctx.count("calls given up", plan.iter().filter(|x| !x.0).count() as u64);
    ctx.eval(hash_of(&format!("{tcp} {plan:?}")), true, || format!("{how} {plan:?}"));
    Ok(())
}

/// So many calls with one client that an identifier shorter than the protocol's comes around
fn long_case(ctx: &Ctx, idx: u64) -> R {
    let tcp = idx == 0;
    let n = if ctx.thorough { 300_000u32 } else { 66_000 };
    let inc = |e: std::io::Error| Fail::Inconclusive(e.to_string());
    let (l, u, addr) = if tcp {
        let l = TcpListener::bind("127.0.0.1:0").map_err(inc)?;
        let a = l.local_addr().map_err(inc)?;
        (Some(l), None, a)
    } else {
        let u = UdpSocket::bind("127.0.0.1:0").map_err(inc)?;
        let _ = u.set_read_timeout(Some(DEADLINE));
        let a = u.local_addr().map_err(inc)?;
        (None, Some(u), a)
    };
    let how = if tcp { "TCP" } else { "UDP" };
    std::thread::scope(|sc| {
        let h = sc.spawn(move || -> R {
            let mut peer = match (l, u) {
                (Some(l), _) => Peer::Tcp(accept(&l)?),
                (_, Some(u)) => Peer::Udp(u, None),
                _ => unreachable!(),
            };
            let mut xids = std::collections::HashSet::new();
            for i in 0..n {
                let b = peer.recv()?;
                let xid = Rd::new(&b).u("call")?;
                ensure!(xids.insert(xid), "{how}: transaction id {xid:#x} is used again for call {i} of a client");
                let m = X::new().u(xid).u(1).u(0).u(0).u(0).u(0).u(i & 0xffff).0;
                match &mut peer {
                    Peer::Tcp(s) => {
                        use std::io::Write;
                        let _ = s.write_all(&record(&m));
                    }
                    Peer::Udp(s, Some(to)) => {
                        let _ = s.send_to(&m, *to);
                    }
                    _ => {}
                }
            }
            Ok(())
        });
        let got: R = task::block_on(async {
            let mut c = if tcp {
                PortMapperClient::connect_tcp(addr).await
            } else {
                PortMapperClient::connect_udp(addr).await
            }
            .map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let d = Do::GetPort(Mapping::new(1, 2, 6, 0));
            for i in 0..n {
                match async_std::future::timeout(DEADLINE, run(&mut c, &d)).await {
                    Ok(g) => ensure!(g == Got::Port(i as u16), "{how}: call {i} of a client returned {g:?}"),
                    Err(_) => return late(format!("{how}: call {i} of a client does not return")),
                }
            }
            Ok(())
        });
        let served = h.join().unwrap_or_else(|_| inconc("thread panicked"));
        if let Err(Fail::Violation(v)) = served {
            return viol(v);
        }
        got
    })?;
    ctx.count("calls of long-lived clients", n as u64);
    ctx.eval(hash_of(&(how, n)), true, || format!("{how}: {n} calls of one client"));
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    ctx.rule(
        "client: random sessions of the client over TCP and UDP with a scripted server: every call is \
         compared byte for byte with the one expected and needs an unused transaction id; ahead of the \
         reply come replies to other transactions, duplicates of the last reply and calls (also with the \
         same id); replies are successes, every error status, results and messages cut at random points, \
         unknown statuses, and connections which end. The returned value must be the result or the matching \
         error. announce: register_portmap of the server builder likewise. together: client and server of \
         the library. abandoned: calls given up by the user are answered during later ones. long: clients which make more than 65536 calls. Non-trivial: all but dynamic ports; distinct by calls and answers.",
    );
    ctx.cases_par("client", ctx.n(5000, 120_000), ctx.n(16, 500) as u64, 8, |rng, _| client_case(ctx, rng));
    ctx.cases_par("abandoned", ctx.n(300, 5000), ctx.n(5, 60) as u64, 8, |rng, _| abandoned_case(ctx, rng));
    ctx.cases_par("long", 2, 60, 2, |_, i| long_case(ctx, i));
    ctx.cases_par("announce", ctx.n(300, 5000), ctx.n(6, 100) as u64, 6, |rng, _| announce_case(ctx, rng));
    ctx.cases_par("together", ctx.n(200, 3000), ctx.n(5, 60) as u64, 4, |rng, _| together_case(ctx, rng));
}
