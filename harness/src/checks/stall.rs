//! C25: clients which stall in every way, and bystanders which must not notice.

use std::any::Any;
use std::io::Write;
use std::net::{Ipv4Addr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use super::common::*;
use crate::hislip::{self, raw_header, t, Hs};
use crate::net;
use crate::rt::*;
use crate::vxi::{self, call_msg, e, generic, p, read_args, record, write_args, Rpc, Vxi, X};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum S {
    RawIdle,
    RawMid,
    RawBig,
    RawFlood,
    TelIdle,
    TelMid,
    TelBig,
    TelFlood,
    TelEchoFlood,
    TelNegFlood,
    TelSub,
    HsTcp,
    HsHalfHeader,
    HsHalfInit,
    HsSyncOnly,
    HsVendorInit,
    HsHalfPayload,
    HsPartial,
    HsBig,
    HsBigSmallParts,
    HsFlood,
    HsVendorFlood,
    HsUnknownFlood,
    HsCompleteFlood,
    HsAsyncOnSyncFlood,
    HsOversizeFlood,
    HsStatusFlood,
    HsInfoFlood,
    HsAsyVendorFlood,
    HsAsyDataFlood,
    HsAsyRemoteFlood,
    HsAsyReleaseFlood,
    HsAsyMaxFlood,
    HsAsyHalf,
    HsClearOpen,
    HsClearMid,
    HsBigClear,
    HsClearFlood,
    HsWaitData,
    HsWaitTrigger,
    HsWaitLock,
    HsWaitRemote,
    HsWaitThenMore,
    VxTcp,
    VxMidHeader,
    VxMidRecord,
    VxMidFragment,
    VxBigRead,
    VxStbFlood,
    VxNullFlood,
    VxErrorFlood,
    VxIntrStalled,
    VxIntrConnect,
    VxWaitWrite,
    VxWaitRead,
    VxWaitStb,
    VxWaitLock,
    VxWaitCreate,
    VxWaitLockThenMore,
    AbMid,
    AbFlood,
    PmMid,
    PmFlood,
    HolderBig,
    HolderMid,
}
use S::*;

const ALL: &[S] = &[
    RawIdle, RawMid, RawBig, RawFlood, TelIdle, TelMid, TelBig, TelFlood, TelEchoFlood, TelNegFlood,
    TelSub, HsTcp, HsHalfHeader, HsHalfInit, HsSyncOnly, HsVendorInit, HsHalfPayload, HsPartial, HsBig,
    HsBigSmallParts, HsFlood, HsVendorFlood, HsUnknownFlood, HsCompleteFlood, HsAsyncOnSyncFlood,
    HsOversizeFlood, HsStatusFlood, HsInfoFlood, HsAsyVendorFlood, HsAsyDataFlood, HsAsyRemoteFlood,
    HsAsyReleaseFlood, HsAsyMaxFlood, HsAsyHalf, HsClearOpen, HsClearMid, HsBigClear, HsClearFlood,
    HsWaitData, HsWaitTrigger, HsWaitLock, HsWaitRemote, HsWaitThenMore, VxTcp, VxMidHeader, VxMidRecord,
    VxMidFragment, VxBigRead, VxStbFlood, VxNullFlood, VxErrorFlood, VxIntrStalled, VxIntrConnect,
    VxWaitWrite, VxWaitRead, VxWaitStb, VxWaitLock, VxWaitCreate, VxWaitLockThenMore, AbMid, AbFlood,
    PmMid, PmFlood, HolderBig, HolderMid,
];

impl S {
    /// Which listener the stalled connection takes a place of
    fn server(self) -> usize {
        match format!("{self:?}").as_bytes() {
            [b'R', ..] => 0,
            [b'T', ..] => 1,
            [b'H', b's', ..] => 2,
            [b'V', ..] => 3,
            [b'A', ..] => 4,
            [b'P', ..] => 5,
            _ => 6,
        }
    }
    fn needs_holder(self) -> bool {
        matches!(
            self,
            HsWaitData
                | HsWaitTrigger
                | HsWaitLock
                | HsWaitRemote
                | HsWaitThenMore
                | VxWaitWrite
                | VxWaitRead
                | VxWaitStb
                | VxWaitLock
                | VxWaitCreate
                | VxWaitLockThenMore
                | HolderBig
                | HolderMid
        )
    }
}

const HOURS: u32 = 20_000_000;

/// Send a message again and again without reading, until the server does not take any more.
/// Was that point reached?
fn flood(s: &TcpStream, msg: &[u8], cap: usize) -> R<bool> {
    let _ = s.set_write_timeout(Some(Duration::from_millis(250)));
    let many = msg.repeat((16_384 / msg.len()).max(1));
    let mut sent = 0;
    let mut at = 0;
    let mut s2 = s;
    let mut blocked = false;
    let t0 = Instant::now();
    while sent < cap && t0.elapsed() < Duration::from_secs(6) {
        match s2.write(&many[at..]) {
            Ok(n) => {
                sent += n;
                at = (at + n) % many.len();
            }
            Err(e)
                if e.kind() == std::io::ErrorKind::WouldBlock
                    || e.kind() == std::io::ErrorKind::TimedOut =>
            {
                blocked = true;
                break;
            }
            Err(e) => return inconc(format!("a client which floods was disconnected: {e}")),
        }
    }
    beat();
    Ok(blocked)
}

fn big(n: usize, tag: &str) -> Vec<u8> {
    format!("LEN{n}:{tag}?").into_bytes()
}

fn rpc_msg(prog: u32, proc: u32, args: &[u8]) -> Vec<u8> {
    record(&call_msg(77, 2, prog, 1 + (prog == vxi::PMAP) as u32, proc, args))
}

type Held = Vec<Box<dyn Any + Send>>;

struct Out {
    held: Held,
    /// The server could not send any more to this client
    full: Option<bool>,
}

fn out(x: impl Any + Send) -> R<Out> {
    Ok(Out { held: vec![Box::new(x)], full: None })
}
fn out_full(x: impl Any + Send, full: bool) -> R<Out> {
    Ok(Out { held: vec![Box::new(x)], full: Some(full) })
}

/// Open and use a connection up to the point where it stalls
fn stall(w: &mut World, k: S, rng: &mut Rng) -> R<Out> {
    const CAP: usize = 48 << 20;
    let qline = |c: &[u8]| [&vec![b'q'; 1500][..], c, b"?\n"].concat();
    let tiny = |s: &TcpStream| net::set_rcvbuf(s, 2048);
    let hs_session = |unit: usize| -> R<Hs> {
        let h = Hs::open(w.hs.addr, HS_NAMES[unit])?;
        net::set_rcvbuf(&h.sync, 2048);
        net::set_rcvbuf(&h.asy, 2048);
        Ok(h)
    };
    let vx = |unit: usize| -> R<(Vxi, u32)> {
        let mut v = Vxi::connect(w.vx.core)?;
        let lid = v.link(VX_NAMES[unit])?;
        Ok((v, lid))
    };
    match k {
        RawIdle => out(net::connect(w.raw.addr)?),
        RawMid => {
            let mut s = net::connect(w.raw.addr)?;
            net::send(&mut s, b"HALF A LIN")?;
            out(s)
        }
        RawBig => {
            let mut s = net::connect(w.raw.addr)?;
            tiny(&s);
            net::send(&mut s, &[&big(12 << 20, "raw")[..], b"\n"].concat())?;
            out(s)
        }
        RawFlood => {
            let s = net::connect(w.raw.addr)?;
            tiny(&s);
            let f = flood(&s, &qline(b"raw"), CAP)?;
            out_full(s, f)
        }
        TelIdle => out(net::connect(w.tel.addr)?),
        TelMid => {
            let mut s = net::connect(w.tel.addr)?;
            net::send(&mut s, rng.pick(&[&b"HALF"[..], b"HALF\r", b"\xff", b"\xff\xfd", b"X\xff\xff"]))?;
            out(s)
        }
        TelBig => {
            let mut s = net::connect(w.tel.addr)?;
            tiny(&s);
            net::send(&mut s, &[&big(12 << 20, "tel")[..], b"\r\n"].concat())?;
            out(s)
        }
        TelFlood => {
            let s = net::connect(w.tel.addr)?;
            tiny(&s);
            let f = flood(&s, &qline(b"tel"), CAP)?;
            out_full(s, f)
        }
        TelEchoFlood => {
            let mut s = net::connect(w.tel.addr)?;
            tiny(&s);
            net::send(&mut s, b"\xff\xfd\x01")?;
            let f = flood(&s, b"echo this please, over and over again, it never ends ", CAP)?;
            out_full(s, f)
        }
        TelNegFlood => {
            let s = net::connect(w.tel.addr)?;
            tiny(&s);
            let f = flood(&s, b"\xff\xfd\x22\xff\xfb\x22", CAP)?;
            out_full(s, f)
        }
        TelSub => {
            let mut s = net::connect(w.tel.addr)?;
            net::send(&mut s, b"\xff\xfa\x18\x00never finished")?;
            out(s)
        }
        HsTcp => out(net::connect(w.hs.addr)?),
        HsHalfHeader => {
            let mut s = net::connect(w.hs.addr)?;
            let h = raw_header(t::INITIALIZE, 0, 0x0200_4142, 7);
            net::send(&mut s, &h[..rng.range(1, 15)])?;
            out(s)
        }
        HsHalfInit => {
            let mut s = net::connect(w.hs.addr)?;
            net::send(&mut s, &raw_header(t::INITIALIZE, 0, 0x0200_4142, 7))?;
            net::send(&mut s, b"hisl")?;
            out(s)
        }
        HsSyncOnly => out(hislip::open_sync(w.hs.addr, HS_NAMES[rng.below(2)].as_bytes(), 0x0200)?.0),
        HsVendorInit => {
            let s = net::connect(w.hs.addr)?;
            tiny(&s);
            let f = flood(&s, &hislip::encode(200, 0, 0, b""), CAP)?;
            out_full(s, f)
        }
        HsHalfPayload => {
            let mut h = hs_session(0)?;
            net::send(&mut h.sync, &raw_header(t::DATA_END, 0, 2, 1000))?;
            net::send(&mut h.sync, &vec![b'x'; rng.range(0, 999)])?;
            out(h)
        }
        HsPartial => {
            let mut h = hs_session(0)?;
            h.send_sync(t::DATA, 0, 2, b"only the first part")?;
            out(h)
        }
        HsBig => {
            let mut h = hs_session(0)?;
            h.cmd(&big(12 << 20, "hs"))?;
            out(h)
        }
        HsBigSmallParts => {
            let mut h = hs_session(0)?;
            h.max_msg(rng.range(1, 2000) as u64)?;
            h.cmd(&big(12 << 20, "hs"))?;
            out(h)
        }
        HsFlood => {
            let h = hs_session(0)?;
            let f = flood(&h.sync, &hislip::encode(t::DATA_END, 0, 2, &qline(b"hs")), CAP)?;
            out_full(h, f)
        }
        HsVendorFlood | HsUnknownFlood | HsCompleteFlood | HsAsyncOnSyncFlood | HsOversizeFlood => {
            let mut h = hs_session(0)?;
            let m = match k {
                HsVendorFlood => hislip::encode(rng.range(128, 255) as u8, 0, 0, b""),
                HsUnknownFlood => hislip::encode(rng.range(40, 127) as u8, 0, 0, b""),
                HsCompleteFlood => hislip::encode(t::CLEAR_COMPLETE, 0, 0, b""),
                HsAsyncOnSyncFlood => hislip::encode(*rng.pick(&[t::ASYNC_LOCK, t::ASYNC_STATUS_QUERY, t::ASYNC_LOCK_INFO]), 0, 0, b""),
                _ => {
                    let n = (1 << 20) + 1;
                    hislip::encode(t::DATA, 0, 0, &vec![0; n])
                }
            };
            if k == HsOversizeFlood {
                // Not worth to send gigabytes until the errors fill the connection
                net::send(&mut h.sync, &m.repeat(4))?;
                return out(h);
            }
            let f = flood(&h.sync, &m, CAP)?;
            out_full(h, f)
        }
        HsStatusFlood | HsInfoFlood | HsAsyVendorFlood | HsAsyDataFlood | HsAsyRemoteFlood
        | HsAsyReleaseFlood | HsAsyMaxFlood => {
            let h = hs_session(0)?;
            let m = match k {
                HsStatusFlood => hislip::encode(t::ASYNC_STATUS_QUERY, 0, 0, b""),
                HsInfoFlood => hislip::encode(t::ASYNC_LOCK_INFO, 0, 0, b""),
                HsAsyVendorFlood => hislip::encode(200, 0, 0, b""),
                HsAsyDataFlood => hislip::encode(t::DATA_END, 0, 0, b"abc?"),
                HsAsyRemoteFlood => hislip::encode(t::ASYNC_REMOTE_LOCAL, rng.below(8) as u8, 0, b""),
                HsAsyReleaseFlood => hislip::encode(t::ASYNC_LOCK, 0, 0, b""),
                _ => hislip::encode(t::ASYNC_MAX_MSG, 0, 0, &1_000_000u64.to_be_bytes()),
            };
            let f = flood(&h.asy, &m, CAP)?;
            out_full(h, f)
        }
        HsAsyHalf => {
            let mut h = hs_session(0)?;
            let m = hislip::encode(t::ASYNC_MAX_MSG, 0, 0, &1_000_000u64.to_be_bytes());
            net::send(&mut h.asy, &m[..rng.range(1, m.len() - 1)])?;
            out(h)
        }
        HsClearOpen => {
            let mut h = hs_session(0)?;
            h.send_async(t::ASYNC_DEVICE_CLEAR, 0, 0, &[])?;
            out(h)
        }
        HsClearMid => {
            let mut h = hs_session(0)?;
            h.send_async(t::ASYNC_DEVICE_CLEAR, 0, 0, &[])?;
            let m = h.recv_async("device clear acknowledge")?;
            ensure!(m.typ == t::ASYNC_DEVICE_CLEAR_ACK, "device clear answered with {m}");
            // The server waits for the completion, it comes in half
            h.send_sync(t::DATA_END, 0, 2, b"ignored")?;
            let m = raw_header(t::CLEAR_COMPLETE, 0, 0, 0);
            net::send(&mut h.sync, &m[..rng.range(0, 15)])?;
            out(h)
        }
        HsBigClear => {
            let mut h = hs_session(0)?;
            h.cmd(&big(12 << 20, "hs"))?;
            std::thread::sleep(Duration::from_millis(20));
            h.send_async(t::ASYNC_DEVICE_CLEAR, 0, 0, &[])?;
            out(h)
        }
        HsClearFlood => {
            let h = hs_session(0)?;
            let f = flood(&h.asy, &hislip::encode(t::ASYNC_DEVICE_CLEAR, 0, 0, b""), CAP)?;
            out_full(h, f)
        }
        // Another client has the second device locked
        HsWaitData | HsWaitTrigger => {
            let mut h = hs_session(1)?;
            h.send_sync(if k == HsWaitData { t::DATA_END } else { t::TRIGGER }, 0, 2, if k == HsWaitData { b"WAITING" } else { b"" })?;
            out(h)
        }
        HsWaitLock => {
            let mut h = hs_session(1)?;
            h.lock_start(HOURS, rng.pick(&[&b""[..], b"key"]))?;
            out(h)
        }
        HsWaitRemote => {
            let mut h = hs_session(1)?;
            h.send_async(t::ASYNC_REMOTE_LOCAL, *rng.pick(&[0u8, 2, 3, 4, 5, 6]), 0, b"")?;
            out(h)
        }
        HsWaitThenMore => {
            let mut h = hs_session(1)?;
            h.lock_start(HOURS, b"")?;
            let f = flood(&h.asy, &hislip::encode(t::ASYNC_LOCK_INFO, 0, 0, b""), CAP)?;
            let f2 = flood(&h.sync, &hislip::encode(t::DATA_END, 0, 2, &qline(b"hs")), CAP)?;
            out_full(h, f && f2)
        }
        VxTcp => out(net::connect(w.vx.core)?),
        VxMidHeader | VxMidRecord | VxMidFragment => {
            let (mut v, lid) = vx(0)?;
            let m = record(&call_msg(1, 2, vxi::CORE, 1, p::READSTB, &generic(lid, 0, 0)));
            let part = match k {
                VxMidHeader => m[..rng.range(1, 3)].to_vec(),
                VxMidRecord => m[..rng.range(4, m.len() - 1)].to_vec(),
                _ => {
                    // A first fragment, complete, nothing after it
                    let mut f = 20u32.to_be_bytes().to_vec();
                    f.extend_from_slice(&m[4..24]);
                    f
                }
            };
            net::send(&mut v.rpc.s, &part)?;
            out(v)
        }
        VxBigRead => {
            let (mut v, lid) = vx(0)?;
            let cmd = big(12 << 20, "vx");
            let (err, _) = v.write(lid, vxi::END | vxi::WAIT, 60_000, &cmd)?;
            ensure!(err == 0, "write failed with error {err}");
            tiny(&v.rpc.s);
            v.rpc.start(p::READ, &read_args(lid, 12 << 20, vxi::WAIT, 60_000, 0))?;
            out(v)
        }
        VxStbFlood | VxNullFlood | VxErrorFlood => {
            let (v, lid) = vx(0)?;
            tiny(&v.rpc.s);
            let m = match k {
                VxStbFlood => rpc_msg(vxi::CORE, p::READSTB, &generic(lid, vxi::WAIT, 60_000)),
                VxNullFlood => rpc_msg(vxi::CORE, 0, &[]),
                _ => rpc_msg(vxi::CORE, rng.range(200, 300) as u32, &[]),
            };
            let f = flood(&v.rpc.s, &m, CAP)?;
            out_full(v, f)
        }
        VxIntrStalled => {
            let (mut v, lid) = vx(0)?;
            let l = TcpListener::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let n: libc::c_int = 2048;
            unsafe {
                libc::setsockopt(
                    l.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_RCVBUF,
                    &n as *const _ as *const libc::c_void,
                    4,
                );
            }
            let port = l.local_addr().unwrap().port();
            let err = v.create_intr(Ipv4Addr::LOCALHOST, port, 5, 1, false)?;
            ensure!(err == 0, "create_intr_chan answered {err}");
            let err = v.enable_srq(lid, true, &[7; 40])?;
            ensure!(err == 0, "device_enable_srq answered {err}");
            for i in 0..6000 {
                w.srq.send_status(0x40);
                if i % 8 == 0 {
                    std::thread::yield_now();
                }
            }
            out((v, l))
        }
        VxIntrConnect => {
            // A listener which has no place for another connection
            let (mut v, _) = vx(0)?;
            let l = TcpListener::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
            unsafe { libc::listen(l.as_raw_fd(), 0) };
            let a = l.local_addr().unwrap();
            let mut fill = Vec::new();
            for _ in 0..4 {
                match TcpStream::connect_timeout(&a, Duration::from_millis(60)) {
                    Ok(s) => fill.push(s),
                    Err(_) => break,
                }
            }
            let args = X::new().u(u32::from(Ipv4Addr::LOCALHOST)).u(a.port() as u32).u(5).u(1).u(0).0;
            v.rpc.start(p::CREATE_INTR, &args)?;
            out((v, l, fill))
        }
        VxWaitWrite | VxWaitRead | VxWaitStb | VxWaitLock | VxWaitLockThenMore => {
            let (mut v, lid) = vx(1)?;
            match k {
                VxWaitWrite => v.rpc.start(p::WRITE, &write_args(lid, vxi::END | vxi::WAIT, HOURS, b"WAITING"))?,
                VxWaitRead => v.rpc.start(p::READ, &read_args(lid, 100, vxi::WAIT, HOURS, 0))?,
                VxWaitStb => v.rpc.start(
                    *rng.pick(&[p::READSTB, p::TRIGGER, p::CLEAR, p::REMOTE, p::LOCAL]),
                    &generic(lid, vxi::WAIT, HOURS),
                )?,
                _ => v.rpc.start(p::LOCK, &X::new().u(lid).u(vxi::WAIT).u(HOURS).0)?,
            };
            if k == VxWaitLockThenMore {
                let f = flood(&v.rpc.s, &rpc_msg(vxi::CORE, 0, &[]), CAP)?;
                return out_full(v, f);
            }
            out(v)
        }
        VxWaitCreate => {
            let mut v = Vxi::connect(w.vx.core)?;
            v.create_start(VX_NAMES[1], true, HOURS)?;
            out(v)
        }
        AbMid => {
            let mut s = net::connect(w.vx.abort)?;
            let m = rpc_msg(vxi::ABORT, 1, &X::new().u(1).0);
            net::send(&mut s, &m[..rng.range(1, m.len() - 1)])?;
            out(s)
        }
        AbFlood => {
            let s = net::connect(w.vx.abort)?;
            tiny(&s);
            let f = flood(&s, &rpc_msg(vxi::ABORT, 1, &X::new().u(0x7000_0000).0), CAP)?;
            out_full(s, f)
        }
        PmMid => {
            let mut s = net::connect(w.pm.tcp)?;
            let m = rpc_msg(vxi::PMAP, 3, &X::new().u(vxi::CORE).u(1).u(6).u(0).0);
            net::send(&mut s, &m[..rng.range(1, m.len() - 1)])?;
            out(s)
        }
        PmFlood => {
            let s = net::connect(w.pm.tcp)?;
            tiny(&s);
            let m = rpc_msg(vxi::PMAP, 3, &X::new().u(vxi::CORE).u(1).u(6).u(0).0);
            let f = flood(&s, &m, CAP)?;
            out_full(s, f)
        }
        HolderBig | HolderMid => unreachable!(),
    }
}

/// Holder of the lock of the second device
enum Holder {
    Hs(Hs),
    Vx(Vxi, u32),
}

fn pmap_bystander(w: &World, rounds: usize) -> R<u64> {
    let args = X::new().u(vxi::CORE).u(1).u(6).u(0).0;
    let udp = vxi::udp_client(w.pm.udp)?;
    let mut old = Rpc::connect(w.pm.tcp, vxi::PMAP)?;
    let mut n = 0;
    for i in 0..rounds {
        let v = old.call(3, &args, "getport")?;
        ensure!(v == 1024u32.to_be_bytes(), "getport answered {}", show(&v));
        let mut new = Rpc::connect(w.pm.tcp, vxi::PMAP)?;
        let v = new.call(3, &args, "getport on a new connection")?;
        ensure!(v == 1024u32.to_be_bytes(), "getport answered {}", show(&v));
        let m = call_msg(i as u32, 2, vxi::PMAP, 2, 3, &args);
        // A datagram may be lost
        let mut b = [0u8; 512];
        let mut ok = false;
        for _ in 0..4 {
            let _ = udp.send(&m);
            let _ = udp.set_read_timeout(Some(DEADLINE / 4));
            if let Ok(k) = udp.recv(&mut b) {
                let (x, r) = vxi::parse_reply(&b[..k], "getport over udp")?;
                ensure!(
                    x == i as u32 && r == vxi::Reply::Success(1024u32.to_be_bytes().to_vec()),
                    "getport over udp answered {r:?} for {x}"
                );
                ok = true;
                break;
            }
        }
        if !ok {
            return late("the portmapper does not answer over udp");
        }
        n += 3;
    }
    Ok(n)
}

fn client_bystander(w: &World, mut c: Cli, pr: Proto, rounds: usize, tag: usize) -> R<u64> {
    let mut n = 0;
    for i in 0..rounds {
        c.check_query(format!("OLD {tag} {i}?").as_bytes()).what("connected before")?;
        let mut f = Cli::open(w, pr, 0).what("new client")?;
        f.check_query(format!("NEW {tag} {i}?").as_bytes()).what("new client")?;
        n += 2;
        match &mut c {
            Cli::Hs(h) => {
                h.status()?;
                h.lock_info()?;
                let r = h.lock(60_000, b"")?;
                ensure!(r == 1, "lock request of a bystander answered {r}");
                h.check_query(format!("LOCKED {tag} {i}?").as_bytes())?;
                let r = h.release()?;
                ensure!(r == 1, "release of a bystander answered {r}");
                let r = h.lock(60_000, b"shared")?;
                ensure!(r == 1, "shared lock request of a bystander answered {r}");
                let r = h.release()?;
                ensure!(r == 2, "release of a bystander's shared lock answered {r}");
                h.clear()?;
                h.sync_is_clean(&format!("{tag} {i}"))?;
                n += 9;
            }
            Cli::Vx(v, lid) => {
                let (err, _) = v.stb(*lid, vxi::WAIT, 60_000)?;
                ensure!(err == 0, "device_readstb of a bystander answered {err}");
                let err = v.lock(*lid, vxi::WAIT, 60_000)?;
                ensure!(err == 0, "device_lock of a bystander answered {err}");
                v.check_query(*lid, format!("LOCKED {tag} {i}?").as_bytes())?;
                let err = v.unlock(*lid)?;
                ensure!(err == 0, "device_unlock of a bystander answered {err}");
                for proc in [p::TRIGGER, p::CLEAR, p::REMOTE, p::LOCAL] {
                    let err = v.op(proc, *lid, vxi::WAIT, 60_000)?;
                    ensure!(err == 0, "procedure {proc} of a bystander answered {err}");
                }
                n += 8;
            }
            _ => {}
        }
    }
    Ok(n)
}

/// New sessions and links for the second device, and everything which needs no lock
fn other_bystander(w: &World, rounds: usize, held: bool) -> R<u64> {
    let mut n = 0;
    let mut ab = Rpc::connect(w.vx.abort, vxi::ABORT)?;
    let mut v = Vxi::connect(w.vx.core)?;
    for i in 0..rounds {
        let mut h = Hs::open(w.hs.addr, HS_NAMES[1]).what("new session for the second device")?;
        h.status()?;
        let (x, _) = h.lock_info()?;
        ensure!(x == held, "lock info of the second device tells exclusive={x}");
        let lid = v.link(VX_NAMES[1])?;
        abort_link(w, &mut ab, lid)?;
        let mut ab2 = Rpc::connect(w.vx.abort, vxi::ABORT)?;
        abort_link(w, &mut ab2, lid)?;
        let (err, _) = v.write(lid, vxi::END, 0, b"X")?;
        let want = if held { e::LOCKED } else { 0 };
        ensure!(err == want, "write to the second device answered {err}, expected {want}");
        let err = v.destroy(lid)?;
        ensure!(err == 0, "destroy_link answered {err}");
        if !held {
            h.check_query(format!("SECOND {i}?").as_bytes())?;
        }
        n += 7;
    }
    Ok(n)
}

fn srq_bystander(w: &World, rounds: usize) -> R<u64> {
    let mut h = Hs::open(w.hs.addr, HS_NAMES[0])?;
    let mut v = Vxi::connect(w.vx.core)?;
    let lid = v.link(VX_NAMES[0])?;
    let l = TcpListener::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let port = l.local_addr().unwrap().port();
    let err = v.create_intr(Ipv4Addr::LOCALHOST, port, 5, 1, false)?;
    ensure!(err == 0, "create_intr_chan of a bystander answered {err}");
    let (mut intr, _) = l.accept().map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let _ = intr.set_read_timeout(Some(DEADLINE));
    let err = v.enable_srq(lid, true, b"me")?;
    ensure!(err == 0, "device_enable_srq of a bystander answered {err}");
    let mut srq = w.srq.clone();
    let mut n = 0;
    for _ in 0..rounds {
        h.srqs.clear();
        h.status()?;
        h.srqs.clear();
        srq.send_status(0x41);
        let got = h.srq(DEADLINE)?;
        if got.is_none() {
            return late("a HiSLIP service request did not arrive");
        }
        let m = vxi::read_record(&mut intr, "VXI-11 service request")?;
        ensure!(m.windows(2).any(|x| x == b"me"), "interrupt call without the handle: {}", show(&m));
        n += 2;
    }
    Ok(n)
}

fn case(ctx: &Ctx, rng: &mut Rng, idx: u64) -> R {
    let mut w = World::new(10)?;
    // The stalls of this case
    let mut kinds = vec![ALL[idx as usize % ALL.len()]];
    let mut used = [0; 7];
    used[kinds[0].server()] += 1;
    for _ in 0..rng.below(6) {
        let k = *rng.pick(ALL);
        // At most three places of each listener are taken, one holder
        let max = if k.server() == 6 { 1 } else { 3 };
        if used[k.server()] < max {
            used[k.server()] += 1;
            kinds.push(k);
        }
    }
    rng.shuffle(&mut kinds);
    // Holders come last, they have to hold what others wait for
    let held = kinds.iter().any(|k| k.needs_holder()) || rng.chance(1, 4);
    let mut holder = None;
    if held {
        holder = Some(if rng.chance(1, 2) {
            let mut h = Hs::open(w.hs.addr, HS_NAMES[1])?;
            let r = h.lock(5000, b"")?;
            ensure!(r == 1, "lock of an unlocked device answered {r}");
            Holder::Hs(h)
        } else {
            let mut v = Vxi::connect(w.vx.core)?;
            let lid = v.link(VX_NAMES[1])?;
            let err = v.lock(lid, vxi::WAIT, 5000)?;
            ensure!(err == 0, "lock of an unlocked device answered {err}");
            Holder::Vx(v, lid)
        });
    }
    // Bystanders who are there before
    let mut olds = Vec::new();
    for pr in PROTOS {
        olds.push((pr, Cli::open(&w, pr, 0)?));
    }
    let names = format!("{kinds:?}");
    let mut keep: Held = Vec::new();
    for &k in &kinds {
        match k {
            HolderBig => match holder.take() {
                Some(Holder::Hs(mut h)) => {
                    net::set_rcvbuf(&h.sync, 2048);
                    h.cmd(&big(12 << 20, "holder"))?;
                    keep.push(Box::new(h));
                }
                Some(Holder::Vx(mut v, lid)) => {
                    let (err, _) = v.write(lid, vxi::END, 0, &big(12 << 20, "holder"))?;
                    ensure!(err == 0, "write of the lock holder answered {err}");
                    net::set_rcvbuf(&v.rpc.s, 2048);
                    v.rpc.start(p::READ, &read_args(lid, 12 << 20, 0, 0, 0))?;
                    keep.push(Box::new(v));
                }
                None => {}
            },
            HolderMid => match holder.take() {
                Some(Holder::Hs(mut h)) => {
                    net::send(&mut h.sync, b"HS\x06")?;
                    net::send(&mut h.asy, b"HS\x15\0\0")?;
                    keep.push(Box::new(h));
                }
                Some(Holder::Vx(mut v, _)) => {
                    net::send(&mut v.rpc.s, b"\x80\0\0\x44abcdef")?;
                    keep.push(Box::new(v));
                }
                None => {}
            },
            k => {
                let o = stall(&mut w, k, rng).what(format!("setting up {k:?} of {names}"))?;
                keep.extend(o.held);
                match o.full {
                    Some(true) => ctx.count("connections filled until the server stopped reading", 1),
                    Some(false) => ctx.count("floods the server took completely", 1),
                    None => {}
                }
            }
        }
        ctx.count(&format!("stalled {k:?}"), 1);
        ctx.seen("ways of stalling", hash_of(&k));
    }
    // Let the servers run into the stalls
    std::thread::sleep(Duration::from_millis(rng.range(10, 60) as u64));
    let rounds = rng.range(2, 5);
    let errs: Mutex<Vec<Fail>> = Mutex::new(Vec::new());
    let ops = std::sync::atomic::AtomicU64::new(0);
    let t0 = Instant::now();
    let note = |r: R<u64>, what: &str| match r {
        Ok(n) => {
            ops.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        }
        Err(f) => errs.lock().unwrap().push(f.ctx(what)),
    };
    std::thread::scope(|s| {
        let (w, note) = (&w, &note);
        for (i, (pr, c)) in olds.into_iter().enumerate() {
            s.spawn(move || note(client_bystander(w, c, pr, rounds, i), &format!("{pr:?} bystander")));
        }
        s.spawn(move || note(pmap_bystander(w, rounds), "portmapper bystander"));
        s.spawn(move || note(other_bystander(w, rounds, held), "bystander of the second device"));
        s.spawn(move || note(srq_bystander(w, rounds), "bystander waiting for service requests"));
        if let Some(h) = &mut holder {
            s.spawn(move || {
                let r = (|| {
                    match h {
                        Holder::Hs(h) => {
                            for i in 0..rounds {
                                h.check_query(format!("HOLDER {i}?").as_bytes())?;
                                h.status()?;
                                h.lock_info()?;
                            }
                        }
                        Holder::Vx(v, lid) => {
                            for i in 0..rounds {
                                v.check_query(*lid, format!("HOLDER {i}?").as_bytes())?;
                                v.stb(*lid, 0, 0)?;
                            }
                        }
                    }
                    Ok(rounds as u64 * 2)
                })();
                note(r, "holder of the lock of the second device")
            });
        }
    });
    let took = t0.elapsed();
    // Violations before things which came too late
    let mut l = errs.into_inner().unwrap();
    l.sort_by_key(|f| match f {
        Fail::Violation(_) => 0,
        Fail::Late(_) => 1,
        Fail::Inconclusive(_) => 2,
    });
    if let Some(f) = l.into_iter().next() {
        return Err(f.ctx(&format!("with clients stalled as {names}")));
    }
    if let Some(en) = w.ended() {
        return viol(format!("a server ended ({en}) with clients stalled as {names}"));
    }
    let n = ops.load(std::sync::atomic::Ordering::Relaxed);
    ctx.count("operations of bystanders completed", n);
    kinds.sort_by_key(|k| format!("{k:?}"));
    ctx.eval(hash_of(&kinds), true, || {
        format!("stalled {names}: {n} operations of bystanders done in {} ms", took.as_millis())
    });
    drop(keep);
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    ctx.rule(
        "A case starts servers of all protocols on two devices, lets 1 to 6 clients stall (each listed way in turn, \
         others random), then bystanders of every protocol, connected before and new ones, do queries, status, locks, \
         clears, links, sessions, aborts, port lookups and receive service requests; every one must complete. \
         Counted: distinct sets of stalled clients.",
    );
    ctx.cases_par("stall", ctx.n(ALL.len(), 40 * ALL.len()), ctx.n(60, 700) as u64, 6, |rng, i| {
        case(ctx, rng, i)
    });
}
