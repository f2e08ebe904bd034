//! C15: the RPC servers answer every call exactly once.

use std::io::Read;
use std::net::TcpStream;
use std::time::Duration;

use lxi_device::status::Sender as StatusSender;
use lxi_vxi11::server::portmapper::prelude::Mapping;

use crate::dev::{interleaving, Ev, Unit};
use crate::net::{self, Leave};
use crate::rt::*;
use crate::vxi::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Core,
    Abort,
    Pmap,
}
const KINDS: [Kind; 3] = [Kind::Core, Kind::Abort, Kind::Pmap];

impl Kind {
    fn prog(self) -> u32 {
        match self {
            Kind::Core => CORE,
            Kind::Abort => ABORT,
            Kind::Pmap => PMAP,
        }
    }
    fn vers(self) -> u32 {
        match self {
            Kind::Pmap => 2,
            _ => 1,
        }
    }
}

fn table() -> [Mapping; 4] {
    [
        Mapping::new(CORE, 1, 6, 1234),
        Mapping::new(ABORT, 1, 6, 1235),
        Mapping::new(7, 8, 17, 9),
        Mapping::new(PMAP, 2, 6, 111),
    ]
}

/// What a well-formed call must be answered with
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Is(Reply),
    /// One of several
    AnyOf(Vec<Reply>),
}

struct Call {
    xid: u32,
    msg: Vec<u8>,
    want: Want,
    effect: Option<Ev>,
    kind: &'static str,
}

/// State of one connection to a core server, to know what succeeds
#[derive(Default)]
struct LinkSt {
    lid: u32,
    input: Vec<u8>,
    output: Vec<u8>,
}

struct Header {
    rpcvers: u32,
    prog: u32,
    vers: u32,
    proc: u32,
    cred: (u32, Vec<u8>),
    verf: (u32, Vec<u8>),
}

fn encode(xid: u32, h: &Header, args: &[u8]) -> Vec<u8> {
    X::new()
        .u(xid)
        .u(0)
        .u(h.rpcvers)
        .u(h.prog)
        .u(h.vers)
        .u(h.proc)
        .u(h.cred.0)
        .op(&h.cred.1)
        .u(h.verf.0)
        .op(&h.verf.1)
        .raw(args)
        .0
}

fn xid(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 => 1,
        3 => 0x8000_0000,
        _ => rng.u32(),
    }
}

/// A call which must succeed, with its effect on the device
fn good(rng: &mut Rng, k: Kind, links: &mut [LinkSt]) -> (u32, Vec<u8>, Vec<u8>, Option<Ev>) {
    if rng.chance(1, 6) {
        return (0, Vec::new(), Vec::new(), None);
    }
    match k {
        Kind::Pmap => {
            if rng.chance(1, 4) {
                let mut x = X::new();
                for m in table() {
                    x = x.u(1).u(m.prog).u(m.vers).u(m.prot).u(m.port);
                }
                return (4, Vec::new(), x.u(0).0, None);
            }
            let t = table();
            let m = rng.pick(&t);
            if rng.chance(3, 4) {
                let a = X::new().u(m.prog).u(m.vers).u(m.prot).u(rng.u32()).0;
                (3, a, X::new().u(m.port).0, None)
            } else {
                let a = X::new().u(m.prog).u(m.vers + 17).u(m.prot).u(0).0;
                (3, a, X::new().u(0).0, None)
            }
        }
        Kind::Abort => {
            // No such link, or an idle one
            if links.is_empty() || rng.chance(1, 2) {
                (1, X::new().u(0xdead_0000 | rng.u32() >> 16).0, X::new().u(e::INVALID_LINK).0, None)
            } else {
                let l = rng.below(links.len());
                (1, X::new().u(links[l].lid).0, X::new().u(0).0, None)
            }
        }
        Kind::Core => {
            let i = rng.below(links.len());
            let l = &mut links[i];
            match rng.below(8) {
                0..=2 => {
                    let n = rng.range(0, 40);
                    let mut d = format!("W{}:", rng.below(1000)).into_bytes();
                    for b in rng.bytes(n) {
                        d.push(b"abcdefgh"[b as usize % 8]);
                    }
                    if rng.chance(1, 2) {
                        d.push(b'?');
                    }
                    let end = rng.chance(2, 3);
                    l.input.extend_from_slice(&d);
                    let mut ev = None;
                    if end {
                        let c = std::mem::take(&mut l.input);
                        if let Some(r) = crate::dev::std_response(&c) {
                            l.output.extend(r);
                        }
                        ev = Some(Ev::Exec(c));
                    }
                    let fl = WAIT | if end { END } else { 0 };
                    (
                        p::WRITE,
                        write_args(l.lid, fl, 10_000, &d),
                        X::new().u(0).u(d.len() as u32).0,
                        ev,
                    )
                }
                3 | 4 => {
                    let d = std::mem::take(&mut l.output);
                    (
                        p::READ,
                        read_args(l.lid, 1 << 20, WAIT, 10_000, 0),
                        X::new().u(0).u(R_END).op(&d).0,
                        None,
                    )
                }
                5 => (
                    p::TRIGGER,
                    generic(l.lid, WAIT, 10_000),
                    X::new().u(0).0,
                    Some(Ev::Trigger("Bus".into())),
                ),
                6 => {
                    l.input.clear();
                    l.output.clear();
                    (p::CLEAR, generic(l.lid, WAIT, 10_000), X::new().u(0).0, Some(Ev::Clear))
                }
                _ => {
                    let r = rng.chance(1, 2);
                    (
                        if r { p::REMOTE } else { p::LOCAL },
                        generic(l.lid, WAIT, 10_000),
                        X::new().u(0).0,
                        Some(Ev::Remote(r)),
                    )
                }
            }
        }
    }
}

fn unknown_proc(rng: &mut Rng, k: Kind) -> u32 {
    match k {
        Kind::Core => *rng.pick(&[1, 2, 9, 21, 24, 27, 30, 100, u32::MAX, 0x8000_000a]),
        Kind::Abort => *rng.pick(&[2, 3, 10, 11, 22, u32::MAX, 0x101]),
        Kind::Pmap => *rng.pick(&[1, 2, 5, 6, 7, 100, u32::MAX, 0x103]),
    }
}

fn call(rng: &mut Rng, k: Kind, links: &mut [LinkSt]) -> Call {
    let x = xid(rng);
    let mut h = Header {
        rpcvers: 2,
        prog: k.prog(),
        vers: k.vers(),
        proc: 0,
        cred: (0, Vec::new()),
        verf: (0, Vec::new()),
    };
    if rng.chance(3, 5) {
        let (proc, args, ret, effect) = good(rng, k, links);
        h.proc = proc;
        // What AUTH_NONE carries has no meaning
        if rng.chance(1, 6) {
            let n = *rng.pick(&[1usize, 4, 37, 200, 399, 400]);
            h.cred.1 = rng.bytes(n);
            if rng.chance(1, 2) {
                let n = *rng.pick(&[3usize, 8, 100, 397, 400]);
                h.verf.1 = rng.bytes(n);
            }
        }
        return Call {
            xid: x,
            msg: encode(x, &h, &args),
            want: Want::Is(Reply::Success(ret)),
            effect,
            kind: "valid call",
        };
    }
    // Arguments which would have an effect if they were looked at
    let mut copy: Vec<LinkSt> = links
        .iter()
        .map(|l| LinkSt {
            lid: l.lid,
            ..Default::default()
        })
        .collect();
    let (proc, args, ..) = good(rng, k, &mut copy);
    h.proc = proc;
    let (want, kind) = match rng.below(6) {
        0 => {
            h.prog = match rng.below(4) {
                0 => *rng.pick(&[CORE, ABORT, PMAP, 0x0607B1]),
                1 => k.prog() ^ (1 << rng.below(32)),
                _ => rng.u32(),
            };
            if h.prog == k.prog() {
                h.prog ^= 0x100;
            }
            if rng.chance(1, 2) {
                h.vers = rng.u32();
            }
            (Want::Is(Reply::ProgUnavail), "unknown program")
        }
        1 => {
            h.vers = *rng.pick(&[0, 1, 2, 3, 4, u32::MAX, 0x102, 0x10001]);
            if h.vers == k.vers() {
                h.vers += 1;
            }
            if rng.chance(1, 3) {
                h.proc = unknown_proc(rng, k);
            }
            (Want::Is(Reply::ProgMismatch(k.vers(), k.vers())), "unknown version")
        }
        2 => {
            h.proc = unknown_proc(rng, k);
            (Want::Is(Reply::ProcUnavail), "unknown procedure")
        }
        3 => {
            h.rpcvers = *rng.pick(&[0, 1, 3, 4, u32::MAX, 0x0200_0000, 0x102]);
            if rng.chance(1, 3) {
                h.prog = rng.u32();
            }
            if rng.chance(1, 3) {
                h.cred = (1, rng.bytes(8));
            }
            (Want::Is(Reply::RpcMismatch(2, 2)), "unknown RPC version")
        }
        4 => {
            let n = rng.below(60);
            h.cred = (*rng.pick(&[1, 2, 3, 6, 390_000, u32::MAX]), rng.bytes(n));
            if rng.chance(1, 3) {
                h.prog = rng.u32();
            }
            let mut any = vec![Reply::AuthError(2), Reply::AuthError(1), Reply::AuthError(5)];
            if rng.chance(1, 3) {
                h.verf = (1, rng.bytes(n));
                any.push(Reply::AuthError(4));
                any.push(Reply::AuthError(3));
            }
            (Want::AnyOf(any), "unacceptable credentials")
        }
        _ => {
            let n = rng.below(60);
            h.verf = (*rng.pick(&[1, 2, 3, 6, 390_000, u32::MAX]), rng.bytes(n));
            (
                Want::AnyOf(vec![
                    Reply::AuthError(4),
                    Reply::AuthError(3),
                    Reply::AuthError(5),
                ]),
                "unacceptable verifier",
            )
        }
    };
    Call {
        xid: x,
        msg: encode(x, &h, &args),
        want,
        effect: None,
        kind,
    }
}

fn judge(c: &Call, b: &[u8], n: usize) -> R {
    let what = format!("reply to call {n} ({}, transaction {:#x})", c.kind, c.xid);
    let (x, r) = parse_reply(b, &what)?;
    ensure!(x == c.xid, "{what} carries transaction id {x:#x}");
    let ok = match &c.want {
        Want::Is(w) => *w == r,
        Want::AnyOf(w) => w.contains(&r),
    };
    ensure!(ok, "{what} is {r:?}, must be {:?}", c.want);
    Ok(())
}

/// A message which is not a valid call
fn bad(rng: &mut Rng, k: Kind, links: &[LinkSt]) -> (Vec<u8>, &'static str) {
    let mut copy: Vec<LinkSt> = links
        .iter()
        .map(|l| LinkSt {
            lid: l.lid,
            ..Default::default()
        })
        .collect();
    let (mut proc, mut args);
    loop {
        let g = good(rng, k, &mut copy);
        (proc, args) = (g.0, g.1);
        if args.len() >= 4 {
            break;
        }
    }
    let x = rng.u32();
    let full = call_msg(x, 2, k.prog(), k.vers(), proc, &args);
    match rng.below(6) {
        0 => {
            // Arguments end early
            let keep = 40 + rng.below(args.len());
            (full[..keep].to_vec(), "call whose arguments end early")
        }
        1 => (full[..rng.below(40)].to_vec(), "call whose header ends early"),
        2 => {
            let mut v = full;
            v[7] = 1;
            (v, "reply instead of a call")
        }
        3 => {
            let mut v = full;
            let t = rng.range(2, 200) as u32;
            v[4..8].copy_from_slice(&t.to_be_bytes());
            (v, "message of unknown type")
        }
        4 => {
            // Length of the credentials beyond the end of the message
            let mut v = full;
            let n = *rng.pick(&[0x7fff_ffffu32, 0xffff_ffff, 100_000, 0x8000_0000]);
            v[28..32].copy_from_slice(&n.to_be_bytes());
            (v, "credentials longer than the message")
        }
        _ => {
            if k == Kind::Core {
                let n = *rng.pick(&[0x7fff_ffffu32, 0xffff_ffff, 5000, 0xffff_fffc]);
                proc = p::WRITE;
                args = X::new()
                    .u(links[0].lid)
                    .u(1000)
                    .u(1000)
                    .u(WAIT | END)
                    .u(n)
                    .raw(b"HARMFUL!")
                    .0;
            } else {
                args.truncate(3);
            }
            (
                call_msg(x, 2, k.prog(), k.vers(), proc, &args),
                "call whose data is longer than the message",
            )
        }
    }
}

struct Bench {
    u: Unit,
    v: VxiSrv,
    p: PmapSrv,
}

impl Bench {
    fn new() -> R<Bench> {
        let u = Unit::new();
        let srq = StatusSender::new();
        Ok(Bench {
            v: crate::vxi::start(&[("inst0", &u)], &srq)?,
            p: start_pmap(table())?,
            u,
        })
    }
    fn connect(&self, k: Kind) -> R<TcpStream> {
        net::connect(match k {
            Kind::Core => self.v.core,
            Kind::Abort => self.v.abort,
            Kind::Pmap => self.p.tcp,
        })
    }
}

/// Send in pieces of any size
fn send_pieces(rng: &mut Rng, s: &mut TcpStream, b: &[u8]) -> R {
    let n = if rng.chance(1, 2) { 1 } else { rng.range(2, 30) };
    for p in rng.split(b, n) {
        net::send(s, &p)?;
        if n > 1 && rng.chance(1, 4) {
            std::thread::sleep(Duration::from_micros(rng.below(1500) as u64));
        }
    }
    Ok(())
}

fn links_of(rng: &mut Rng, v: &mut Vxi) -> R<Vec<LinkSt>> {
    (0..rng.range(1, 3))
        .map(|_| {
            Ok(LinkSt {
                lid: v.link("inst0")?,
                ..Default::default()
            })
        })
        .collect()
}

enum Finale {
    Leave(Leave),
    /// A message which is not valid
    Bad(Vec<u8>, &'static str),
    /// Raw bytes, then the end of the stream
    Cut(Vec<u8>, &'static str),
    /// Raw bytes after which the server must end the connection by itself, or wait for more
    TooLarge(Vec<u8>, &'static str),
}

/// One connection: its calls, their replies and how it ends. Returns effects which must reach the device.
fn conversation(ctx: &Ctx, rng: &mut Rng, b: &Bench, k: Kind, max: usize, finale: bool) -> R<Vec<Ev>> {
    // Links for the abort server belong to a core connection of their own
    let mut owner: Option<Vxi> = None;
    let mut links = Vec::new();
    let mut s;
    match k {
        Kind::Core => {
            let mut v = Vxi::connect(b.v.core)?;
            links = links_of(rng, &mut v)?;
            s = v.rpc.s;
        }
        Kind::Abort => {
            let mut v = Vxi::connect(b.v.core)?;
            links = links_of(rng, &mut v)?;
            owner = Some(v);
            s = b.connect(k)?;
        }
        Kind::Pmap => s = b.connect(k)?,
    }
    let n = rng.range(1, max);
    let mut calls = Vec::new();
    let mut key = 0u64;
    for _ in 0..n {
        let c = call(rng, k, &mut links);
        key = hash_of(&(key, c.kind, c.msg.len()));
        calls.push(c);
    }
    // How far ahead of the replies calls are sent
    let ahead = *rng.pick(&[1, 1, 2, 5, 1000]);
    let style = rng.below(4);
    let mut sent = 0;
    let mut pending = Vec::new();
    let mut effects = Vec::new();
    for i in 0..n {
        while sent < n && sent < i + ahead {
            let m = &calls[sent].msg;
            let nf = rng.range(1, 8);
            pending.extend(match style {
                0 => record(m),
                _ => fragments(rng, m, nf),
            });
            sent += 1;
            if ahead == 1 || rng.chance(1, 2) || sent == n || sent == i + ahead {
                send_pieces(rng, &mut s, &pending)?;
                pending.clear();
            }
        }
        let r = read_reply(&mut s, &format!("reply to call {i} ({})", calls[i].kind))?;
        judge(&calls[i], &r, i)?;
        ctx.count(&format!("replies to: {}", calls[i].kind), 1);
        if let Some(e) = &calls[i].effect {
            effects.push(e.clone());
        }
    }
    // No further reply
    if rng.chance(1, 3) {
        if let Err(x) = net::quiet(&mut s, Duration::from_millis(4)) {
            return viol(format!(
                "{k:?}: after all {n} replies the server sent {} or closed the connection",
                show(&x)
            ));
        }
    }
    if !finale {
        drop(owner);
        return Ok(effects);
    }
    let fin = match rng.below(8) {
        0 => Finale::Leave(*rng.pick(&net::LEAVES)),
        1 | 2 | 3 => {
            let (m, w) = bad(rng, k, &links);
            Finale::Bad(m, w)
        }
        4 | 5 => {
            let c = call(rng, k, &mut links);
            let nf = rng.range(1, 5);
            let r = fragments(rng, &c.msg, nf);
            let at = rng.below(r.len());
            Finale::Cut(r[..at].to_vec(), "record cut off")
        }
        6 => {
            // A complete call, but the record does not end there
            let c = call(rng, k, &mut links);
            let mut r = record(&c.msg);
            r[0] &= 0x7f;
            Finale::Cut(r, "record without its last fragment")
        }
        _ => {
            let (_, args, ..) = loop {
                let g = good(rng, k, &mut links);
                if g.0 != 0 || k != Kind::Core {
                    break g;
                }
            };
            let msg = call_msg(1, 2, k.prog(), k.vers(), p::TRIGGER, &args);
            let mut v = Vec::new();
            if rng.chance(1, 2) {
                // Grows fragment by fragment
                v.extend_from_slice(&(msg.len() as u32).to_be_bytes());
                v.extend_from_slice(&msg);
            }
            let h = *rng.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x9000_0000, 0x8100_0000, 0x4000_0000]);
            v.extend_from_slice(&h.to_be_bytes());
            v.extend_from_slice(&msg);
            Finale::TooLarge(v, "record which is too large")
        }
    };
    let what = match &fin {
        Finale::Leave(l) => {
            ctx.count(&format!("ended by {l:?}"), 1);
            match net::leave(s, *l) {
                Some(mut s) => {
                    let rest = net::read_all(&mut s, "after the calls were answered")?;
                    ensure!(rest.is_empty(), "{k:?}: the server sent {} after all replies", show(&rest));
                }
                None => {}
            }
            return Ok(effects);
        }
        Finale::Bad(_, w) | Finale::Cut(_, w) | Finale::TooLarge(_, w) => *w,
    };
    ctx.count(&format!("ended by a {what}"), 1);
    let (bytes, cut) = match fin {
        Finale::Bad(m, _) => {
            let nf = rng.range(1, 4);
            (fragments(rng, &m, nf), false)
        }
        Finale::Cut(m, _) => (m, true),
        Finale::TooLarge(m, _) => (m, false),
        Finale::Leave(_) => unreachable!(),
    };
    let mut out = bytes;
    let follow = !cut && rng.chance(1, 3) && what != "record which is too large";
    let next = call(rng, k, &mut links);
    if follow {
        out.extend(record(&next.msg));
    }
    for p in rng.split(&out, 3) {
        use std::io::Write;
        // The server may close the connection meanwhile
        if s.write_all(&p).is_err() {
            break;
        }
    }
    let half = s.shutdown(std::net::Shutdown::Write);
    let mut rest = Vec::new();
    let mut buf = [0u8; 4096];
    loop {
        match s.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => rest.extend_from_slice(&buf[..n]),
            Err(e)
                if e.kind() == std::io::ErrorKind::WouldBlock
                    || e.kind() == std::io::ErrorKind::TimedOut =>
            {
                return late(format!(
                    "{k:?}: connection neither ended nor answered after a {what} (half closed: {half:?})"
                ));
            }
            Err(_) => break,
        }
    }
    // At most it may say that the arguments are garbage, and then go on
    let mut r = &rest[..];
    let mut first = true;
    while !r.is_empty() {
        if r.len() < 4 {
            break;
        }
        let rec = match read_record(&mut r, "x") {
            Ok(x) => x,
            Err(_) => break,
        };
        let (_, rep) = parse_reply(&rec, &format!("reply after a {what}"))?;
        if first && !cut && rep == Reply::GarbageArgs {
            first = false;
            continue;
        }
        if !first && follow {
            judge(&next, &rec, n)?;
            if let Some(e) = &next.effect {
                effects.push(e.clone());
            }
            continue;
        }
        return viol(format!("{k:?}: a {what} was answered with {rep:?}"));
    }
    drop(owner);
    Ok(effects)
}

fn check_effects(b: &Bench, lists: &[Vec<Ev>], what: &str) -> R {
    let t0 = std::time::Instant::now();
    loop {
        let got: Vec<Ev> = b.u.log.effects_since(0);
        let l: Vec<(&[Ev], bool)> = lists.iter().map(|l| (&l[..], true)).collect();
        match interleaving(&got, &l) {
            Ok(_) => return Ok(()),
            Err(e) => {
                if t0.elapsed() > Duration::from_millis(1500) || !e.contains("missing") {
                    return viol(format!("{what}: {e}; the device saw {:?}", got.len()));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Witness connections which must keep working
struct Witness {
    v: Vxi,
    lid: u32,
    a: Rpc,
    p: Rpc,
}

impl Witness {
    fn new(b: &Bench) -> R<Witness> {
        let mut v = Vxi::connect(b.v.core)?;
        let lid = v.link("inst0")?;
        Ok(Witness {
            v,
            lid,
            a: Rpc::connect(b.v.abort, ABORT)?,
            p: Rpc::connect(b.p.tcp, PMAP)?,
        })
    }
    fn check(&mut self, b: &Bench) -> R {
        let (err, _) = self.v.stb(self.lid, WAIT, 10_000)?;
        ensure!(err == 0, "status read on an unrelated link failed: {err}");
        ensure!(b.v.abort_call(&mut self.a, self.lid)? == 0, "abort of a live link refused");
        let r = self.p.call(
            3,
            &X::new().u(7).u(8).u(17).u(0).0,
            "getport of an unrelated connection",
        )?;
        ensure!(r == X::new().u(9).0, "getport of an unrelated connection: {}", show(&r));
        Ok(())
    }
}

fn udp_case(ctx: &Ctx, rng: &mut Rng, p: &PmapSrv) -> R {
    let n = rng.range(1, 3);
    let socks: Vec<_> = (0..n).map(|_| udp_client(p.udp)).collect::<R<_>>()?;
    let mut key = 0u64;
    for _ in 0..rng.range(1, 6) {
        // Rounds of a few datagrams, so that no socket buffer runs over
        let mut want: Vec<Vec<Call>> = (0..n).map(|_| Vec::new()).collect();
        for _ in 0..rng.range(1, 10) {
            let i = rng.below(n);
            let s = &socks[i];
            if rng.chance(1, 2) {
                let c = call(rng, Kind::Pmap, &mut []);
                s.send(&c.msg).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                key = hash_of(&(key, c.kind, c.msg.len()));
                want[i].push(c);
            } else {
                let (m, w) = match rng.below(4) {
                    0 => (Vec::new(), "empty datagram"),
                    1 => {
                        let n = rng.below(39);
                        (rng.bytes(n), "random datagram")
                    }
                    2 => {
                        // Makes the message end early
                        let c = call(rng, Kind::Pmap, &mut []);
                        let n = rng.below(40);
                        (c.msg[..n].to_vec(), "datagram which ends early")
                    }
                    _ => bad(rng, Kind::Pmap, &[]),
                };
                s.send(&m).map_err(|e| Fail::Inconclusive(e.to_string()))?;
                key = hash_of(&(key, w, m.len()));
                ctx.count(&format!("datagram: {w}"), 1);
            }
        }
        for (i, w) in want.iter().enumerate() {
            let mut left: Vec<&Call> = w.iter().collect();
            while !left.is_empty() {
                let mut buf = vec![0; 2000];
                let k = match socks[i].recv(&mut buf) {
                    Ok(k) => k,
                    Err(e) => {
                        return late(format!(
                            "{} of {} calls over UDP were not answered ({e}), first: {} {:#x}",
                            left.len(),
                            w.len(),
                            left[0].kind,
                            left[0].xid
                        ))
                    }
                };
                // Datagrams may be reordered in principle
                let (x, _) = parse_reply(&buf[..k], "UDP reply")?;
                let Some(at) = left
                    .iter()
                    .position(|c| c.xid == x && judge(c, &buf[..k], 0).is_ok())
                else {
                    if let Some(c) = left.iter().find(|c| c.xid == x) {
                        judge(c, &buf[..k], 0)?;
                    }
                    return viol(format!("UDP reply {} is to no outstanding call", show(&buf[..k])));
                };
                let c = left.remove(at);
                ctx.count(&format!("replies over UDP to: {}", c.kind), 1);
            }
        }
    }
    for s in &socks {
        let _ = s.set_read_timeout(Some(Duration::from_millis(3)));
        let mut buf = vec![0; 2000];
        if let Ok(k) = s.recv(&mut buf) {
            return viol(format!("UDP reply {} to no valid call", show(&buf[..k])));
        }
    }
    ctx.seen("UDP conversations", key);
    ctx.eval(hash_of(&("udp", key)), true, || format!("UDP: {n} clients"));
    Ok(())
}

/// Calls about as large as the server takes: in fragments they fare as in one piece
fn size_case(ctx: &Ctx, rng: &mut Rng, b: &Bench) -> R {
    const M: usize = 1 << 20;
    let total = match rng.below(6) {
        0 => rng.range(1000, 300_000),
        1 => M - 4 * rng.below(40),
        2 => M + 4 * rng.range(1, 40),
        3 => M + rng.range(1000, M / 2),
        4 => rng.range(M / 2, M - 1000),
        _ => *rng.pick(&[M, M + 4, 2 * M, 3 * M]),
    };
    // Does the server answer it, and with which error?
    let attempt = |rng: &mut Rng, whole: bool| -> R<Option<u32>> {
        let mut v = Vxi::connect(b.v.core)?;
        let lid = v.link("inst0")?;
        let n = (total - 60) & !3;
        let mut data = rng.bytes(n);
        for c in &mut data {
            if *c == b'?' {
                *c = b'!';
            }
        }
        let from = b.u.log.len();
        let m = call_msg(7, 2, CORE, 1, p::WRITE, &crate::vxi::write_args(lid, WAIT | END, 60_000, &data));
        let out = if whole {
            record(&m)
        } else {
            let k = m.len() / 300_000 + 1 + rng.below(6);
            let mut out = Vec::new();
            let mut at = 0;
            for i in 0..k {
                let to = if i + 1 == k { m.len() } else { (at + m.len() / k).min(m.len()) };
                let h = (to - at) as u32 | if i + 1 == k { 0x8000_0000 } else { 0 };
                out.extend_from_slice(&h.to_be_bytes());
                out.extend_from_slice(&m[at..to]);
                at = to;
            }
            out
        };
        {
            use std::io::Write;
            // The connection may end before all of it is sent
            let _ = v.rpc.s.write_all(&out);
        }
        let _ = v.rpc.s.shutdown(std::net::Shutdown::Write);
        net::quickack(&v.rpc.s);
        let mut first = [0u8; 1];
        let got = loop {
            match v.rpc.s.read(&mut first) {
                Ok(0) => break None,
                Ok(_) => {
                    let mut s = std::io::Read::chain(&first[..], &mut v.rpc.s);
                    let r = read_record(&mut s, "reply to a large write")?;
                    break Some(r);
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e)
                    if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut =>
                {
                    return late(format!("write of {n} bytes is neither answered nor the connection ended"));
                }
                Err(_) => break None,
            }
        };
        let seen = b.u.log.effects_since(from);
        let Some(r) = got else {
            ensure!(
                seen.is_empty(),
                "write of {n} bytes (in one fragment: {whole}) was not answered, but the device saw {} commands",
                seen.len()
            );
            return Ok(None);
        };
        let (x, rep) = parse_reply(&r, "reply to a large write")?;
        ensure!(x == 7, "reply to a large write carries transaction id {x}");
        let Reply::Success(ret) = rep else {
            ensure!(seen.is_empty(), "write answered {rep:?}, but the device saw it");
            return Ok(Some(u32::MAX));
        };
        let mut rd = crate::vxi::Rd::new(&ret);
        let (err, size) = (rd.u("error")?, rd.u("size")?);
        if err == 0 {
            ensure!(
                size as usize == n && seen == [Ev::Exec(data)],
                "write of {n} bytes in {} fragments: answered size {size}, device saw {} commands",
                if whole { 1 } else { 2 },
                seen.len()
            );
        } else {
            ensure!(seen.is_empty(), "write of {n} bytes answered error {err}, but the device saw it");
        }
        b.u.log.drop_log();
        Ok(Some(err))
    };
    let one = attempt(rng, true)?;
    let many = attempt(rng, false)?;
    ensure!(
        one == many,
        "a device_write call of {total} bytes is answered {one:?} when sent as one fragment and {many:?} in several"
    );
    ctx.count(if one == Some(0) { "large calls executed" } else { "large calls refused" }, 2);
    ctx.eval(hash_of(&total), true, || format!("device_write call of {total} bytes, whole and in fragments: {one:?}"));
    Ok(())
}

pub fn c15(ctx: &Ctx) {
    ctx.rule(
        "one: conversations with the core, abort and portmapper servers over TCP: valid calls, calls with \
         unknown program/version/procedure/RPC version and bad credentials or verifiers, cut in random \
         fragments and segments, up to all of them sent ahead of the replies; every reply is compared \
         with the call at its place (transaction id, status, result), then the connection ends by a \
         close, reset, cut off, oversized or undecodable record, which must have no effect and no \
         answer; the device's log must equal the effects of the valid calls, witness connections must \
         keep working. conc: several such connections at once. udp: valid and invalid datagrams. size: calls around the \
         largest record taken fare in fragments as in one piece. \
         Non-trivial: a conversation with at least one call; distinct by kinds and sizes of the calls.",
    );
    ctx.cases_par("one", ctx.n(900, 20000), ctx.n(14, 400) as u64, 4, |rng, i| {
        let b = Bench::new()?;
        let mut w = Witness::new(&b)?;
        let k = KINDS[i as usize % 3];
        let mut lists = Vec::new();
        for _ in 0..rng.range(1, 3) {
            let l = conversation(ctx, rng, &b, k, 40, true).what(format!("{k:?} server"))?;
            lists.push(l);
            w.check(&b).what("after a conversation of another connection")?;
        }
        check_effects(&b, &lists, "effects of the calls")?;
        let key = rng.next();
        ctx.eval(key, true, || format!("{k:?}: {} connections, effects {:?}", lists.len(), lists));
        Ok(())
    });
    ctx.cases("conc", ctx.n(250, 4000), ctx.n(8, 300) as u64, |rng, _| {
        let b = Bench::new()?;
        let jobs: Vec<(Kind, Rng)> = (0..rng.range(3, 8))
            .map(|_| (*rng.pick(&[Kind::Core, Kind::Core, Kind::Abort, Kind::Pmap]), rng.fork()))
            .collect();
        let n = jobs.len();
        let lists: Vec<R<Vec<Ev>>> = std::thread::scope(|sc| {
            let hs: Vec<_> = jobs
                .into_iter()
                .map(|(k, mut r)| {
                    let b = &b;
                    sc.spawn(move || {
                        let fin = r.chance(1, 2);
                        conversation(ctx, &mut r, b, k, 20, fin).what(format!("{k:?} server"))
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().unwrap_or_else(|_| inconc("thread panicked")))
                .collect()
        });
        let lists = lists.into_iter().collect::<R<Vec<_>>>()?;
        check_effects(&b, &lists, "effects of concurrent connections")?;
        let order = hash_of(&format!("{:?}", b.u.log.effects_since(0)));
        ctx.seen("orders of concurrent effects", order);
        ctx.eval(order, true, || format!("{n} connections at once: {lists:?}"));
        Ok(())
    });
    ctx.cases_par("udp", ctx.n(400, 8000), ctx.n(6, 200) as u64, 4, |rng, _| {
        let p = start_pmap(table())?;
        udp_case(ctx, rng, &p)?;
        ensure!(p.ended().is_none(), "server ended: {:?}", p.ended());
        Ok(())
    });
    ctx.cases_par("size", ctx.n(60, 1500), ctx.n(8, 120) as u64, 4, |rng, _| size_case(ctx, rng, &Bench::new()?));
}
