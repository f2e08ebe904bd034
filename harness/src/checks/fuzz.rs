//! C24: hostile traffic at every server, with witnesses which must be served correctly.

use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;
use lxi_socket::server::ServerConfig;
use lxi_vxi11::server::portmapper::prelude::{Mapping, StaticPortMap};

use super::common::{read_line, Tel};
use super::raw::{start_unix, unix_connect, UnixSrv};
use crate::dev::{std_response, Unit};
use crate::hislip::{self, Hs};
use crate::net::{self, Manual, Srv};
use crate::rt::*;
use crate::vxi::{self, call_msg, record, PmapSrv, Rpc, Vxi, VxiSrv, X};

// ---------------------------------------------------------------- the servers

const WIT: &str = "witness";
const MAX_MSG: u64 = 5000;

struct Target {
    raw: Srv,
    unix: UnixSrv,
    tel: Srv,
    hs: Srv,
    vx: VxiSrv,
    pm: PmapSrv,
    srq: StatusSender,
    /// raw + unix, telnet, HiSLIP, VXI-11, witness of the last two
    units: Vec<Unit>,
    /// Link ids not to be aborted
    spare: Mutex<Vec<u32>>,
}

fn respond(cmd: &[u8]) -> Option<Vec<u8>> {
    if cmd.starts_with(b"WIT") {
        return std_response(cmd);
    }
    if !cmd.contains(&b'?') {
        return None;
    }
    let h = hash_of(cmd);
    let mut r = Rng::new(h);
    let n = match h % 8 {
        0 => 0,
        1 => r.range(1000, 20_000),
        _ => r.below(200),
    };
    Some(r.bytes(n))
}

impl Target {
    fn new() -> R<Target> {
        let units: Vec<Unit> = (0..5).map(|_| Unit::new()).collect();
        for u in &units {
            u.log.set_responder(respond);
        }
        let srq = StatusSender::new();
        Ok(Target {
            raw: net::start_raw(&units[0], || ServerConfig::default().backpressure(40))?,
            unix: start_unix(&units[0], ServerConfig::default().read_buffer(64).backpressure(40))?,
            tel: net::start_telnet(&units[1], 40)?,
            hs: hislip::start(
                &[("hislip0", &units[2]), (WIT, &units[4])],
                |c| c.max_message_size(MAX_MSG).short_idn(b"SHORT IDN"),
                &srq,
            )?,
            vx: vxi::start(&[("inst0", &units[3]), (WIT, &units[4])], &srq)?,
            pm: vxi::start_pmap([Mapping::new(vxi::CORE, 1, 6, 1024), Mapping::new(vxi::ABORT, 1, 6, 4880)])?,
            srq,
            units,
            spare: Mutex::new(Vec::new()),
        })
    }

    fn ended(&self) -> Option<String> {
        let mut l = Vec::new();
        for (n, e) in [
            ("raw", self.raw.ended()),
            ("unix", self.unix.ended.lock().unwrap().clone()),
            ("telnet", self.tel.ended()),
            ("hislip", self.hs.ended()),
            ("vxi-11", self.vx.ended()),
            ("portmapper", self.pm.ended()),
        ] {
            if let Some(e) = e {
                l.push(format!("{n}: {e}"));
            }
        }
        (!l.is_empty()).then(|| l.join(", "))
    }
}

// ---------------------------------------------------------------- sending anything

trait Link: Read + Write + Send {
    fn wait(&self, d: Duration);
    fn end(self: Box<Self>, how: usize);
}

impl Link for TcpStream {
    fn wait(&self, d: Duration) {
        let _ = self.set_read_timeout(Some(d));
        let _ = self.set_write_timeout(Some(d.max(Duration::from_millis(50))));
    }
    fn end(self: Box<Self>, how: usize) {
        match how {
            0 => net::reset(*self),
            1 => {
                let _ = self.shutdown(std::net::Shutdown::Write);
                self.wait(Duration::from_millis(3));
                let mut b = [0u8; 4096];
                let mut s = *self;
                for _ in 0..20 {
                    if !matches!(s.read(&mut b), Ok(n) if n > 0) {
                        break;
                    }
                }
            }
            _ => drop(self),
        }
    }
}

impl Link for UnixStream {
    fn wait(&self, d: Duration) {
        let _ = self.set_read_timeout(Some(d));
        let _ = self.set_write_timeout(Some(d.max(Duration::from_millis(50))));
    }
    fn end(self: Box<Self>, how: usize) {
        if how == 1 {
            let _ = self.shutdown(std::net::Shutdown::Write);
        }
    }
}

/// Send pieces, reading now and then what comes back. Errors are expected.
fn pour(rng: &mut Rng, mut s: Box<dyn Link>, data: &[u8]) {
    s.wait(Duration::from_millis(1));
    let n = *rng.pick(&[1, 1, 2, 3, 8, 40]);
    let mut b = [0u8; 8192];
    let mut alive = true;
    'all: for piece in rng.split(data, n) {
        let mut at = 0;
        let mut stuck = 0;
        while at < piece.len() {
            match s.write(&piece[at..]) {
                Ok(k) => at += k,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                    stuck += 1;
                    if stuck > 20 {
                        break 'all;
                    }
                }
                Err(_) => {
                    alive = false;
                    break 'all;
                }
            }
            if stuck > 0 {
                let _ = s.read(&mut b);
            }
        }
        if rng.chance(1, 4) {
            let _ = s.read(&mut b);
        }
    }
    if alive && rng.chance(2, 3) {
        for _ in 0..rng.below(6) {
            if !matches!(s.read(&mut b), Ok(n) if n > 0) {
                break;
            }
        }
    }
    let how = rng.below(3);
    s.end(how);
}

fn tcp(a: SocketAddr) -> R<TcpStream> {
    net::connect(a)
}

/// Change bytes of valid traffic
fn mutate(rng: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 4) {
        if v.is_empty() {
            v.push(rng.u8());
            continue;
        }
        let i = rng.below(v.len());
        match rng.below(8) {
            0 => v[i] ^= 1 << rng.below(8),
            1 => v[i] = *rng.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            2 => {
                v.remove(i);
            }
            3 => v.insert(i, rng.u8()),
            4 => v.truncate(i),
            5 => {
                let n = rng.range(1, 30).min(v.len() - i);
                let c = v[i..i + n].to_vec();
                let j = rng.below(v.len() + 1);
                v.splice(j..j, c);
            }
            6 => {
                let n = (v.len() - i).min(4);
                let x = *rng.pick(&[0u32, 1, 3, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000, 0xffff]);
                v[i..i + n].copy_from_slice(&x.to_be_bytes()[..n]);
            }
            _ => {
                let n = rng.range(1, 8);
                let more = rng.bytes(n);
                v.extend(more);
            }
        }
    }
}

// ---------------------------------------------------------------- raw and telnet traffic

fn raw_bytes(rng: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..rng.range(0, 30) {
        match rng.below(8) {
            0 => v.push(b'\n'),
            1 => v.extend_from_slice(b"\r\n"),
            2 => v.extend_from_slice(b"*IDN?\n"),
            3 => {
                let n = rng.range(1, 200);
                v.extend(rng.bytes(n))
            }
            4 => {
                let n = rng.range(1, 4) * 1000;
                v.extend(std::iter::repeat(rng.u8()).take(n))
            }
            5 => v.extend(b"Q?\n".repeat(rng.range(1, 20))),
            6 => v.push(0),
            7 if rng.chance(1, 2) => v.extend(text(rng)),
            _ => v.extend_from_slice(b"SET 5;VAL?"),
        }
    }
    if rng.chance(1, 60) {
        v.extend(vec![b'x'; 900_000]);
    }
    v
}

fn telnet_bytes(rng: &mut Rng) -> Vec<u8> {
    const OPTS: [u8; 14] = [0, 1, 3, 5, 24, 31, 34, 39, 42, 70, 85, 86, 200, 255];
    let mut v = Vec::new();
    for _ in 0..rng.range(0, 40) {
        let o = if rng.chance(5, 6) { *rng.pick(&OPTS) } else { rng.u8() };
        match rng.below(14) {
            0..=3 => v.extend([255, *rng.pick(&[251, 252, 253, 254]), o]),
            4 => v.extend([255, rng.range(236, 255) as u8]),
            5 => {
                v.extend([255, 250, o]);
                for _ in 0..rng.below(12) {
                    v.push(rng.u8());
                }
                v.extend([255, 240]);
            }
            6 => v.extend([255, 250, o, 255, 240]),
            7 => v.extend([255, 250, 255, 240]),
            8 => v.extend([255, 250, o]),
            9 => v.push(255),
            10 => v.extend([255, 247].repeat(rng.range(1, 5))),
            11 => v.extend_from_slice(b"ABC?\r\n"),
            12 => {
                let n = rng.range(1, 60);
                v.extend(rng.bytes(n))
            }
            13 if rng.chance(1, 2) => v.extend(text(rng)),
            _ => v.extend([255, 240]),
        }
    }
    // Negotiate an option so that it is in force, then compressed data and the like
    if rng.chance(1, 3) {
        let o = *rng.pick(&OPTS);
        let mut w = vec![255, 251, o, 255, 253, o, 255, 250, o];
        let n = rng.below(5);
        w.extend(rng.bytes(n));
        w.extend([255, 240]);
        w.extend_from_slice(b"x\x9cdata after it\r\n");
        v.splice(0..0, w);
    }
    v
}

// ---------------------------------------------------------------- HiSLIP traffic

/// Text with characters of several bytes, cut by whatever length a server might cut it at
fn text(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(8) {
        0..=2 => rng.below(45),
        3 | 4 => (*rng.pick(&[64usize, 80, 100, 128, 255, 256, 257, 512, 1000, 1024, 4096]) + rng.below(12)).saturating_sub(5),
        5 | 6 => rng.range(40, MAX_MSG as usize),
        _ => MAX_MSG as usize,
    };
    let mut v = Vec::new();
    for _ in 0..rng.below(4) {
        v.push(*rng.pick(b"ahislip0?\0,"));
    }
    let one = *rng.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}"]);
    let mix = rng.chance(1, 3);
    loop {
        let c = if mix { *rng.pick(&["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "?", "\u{130}", "\u{df}"]) } else { one };
        if v.len() + c.len() > n {
            break;
        }
        v.extend_from_slice(c.as_bytes());
    }
    v
}

fn hs_payload(rng: &mut Rng, typ: u8) -> Vec<u8> {
    match rng.below(10) {
        0 => Vec::new(),
        1 => {
            let n = *rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17]);
            rng.bytes(n)
        }
        2 => {
            let n = rng.range(1, 400);
            rng.bytes(n)
        }
        3 => {
            let n = (MAX_MSG as i64 + rng.range(0, 4) as i64 - 2) as usize;
            rng.bytes(n)
        }
        4 => {
            if rng.chance(1, 4) {
                vec![0xff, 0xfe, 0x80]
            } else {
                text(rng)
            }
        }
        5 if typ == hislip::t::INITIALIZE || typ == hislip::t::ASYNC_LOCK => text(rng),
        _ => match typ {
            hislip::t::INITIALIZE => rng.pick(&[&b"hislip0"[..], b"", b"hislip0\0", b"nothing", b"\xff\xff", b"hislip0,1"]).to_vec(),
            hislip::t::DATA | hislip::t::DATA_END => {
                rng.pick(&[&b"*IDN?"[..], b"*idn?\n", b"ABC?", b"SET", b"?", b"Q?;Q?;Q?"]).to_vec()
            }
            hislip::t::ASYNC_LOCK => rng.pick(&[&b""[..], b"key", b"key\0", b"\0", b"\0\0\0", b"\xc3\x28"]).to_vec(),
            hislip::t::ASYNC_MAX_MSG => rng
                .pick(&[0u64, 1, 2, 255, 256, 5000, 1 << 20, 1 << 31, 1 << 32, 1 << 63, u64::MAX])
                .to_be_bytes()
                .to_vec(),
            29 | 32 => {
                let n = *rng.pick(&[0usize, 3, 4, 4, 5, 8]);
                rng.bytes(n)
            }
            _ => {
                let n = rng.below(9);
                rng.bytes(n)
            }
        },
    }
}

fn hs_msg(rng: &mut Rng, types: &[u8], own: u16) -> Vec<u8> {
    let typ = match rng.below(6) {
        0 => rng.range(0, 45) as u8,
        1 => rng.u8(),
        _ => *rng.pick(types),
    };
    let mut ctl = if rng.chance(2, 3) { rng.below(8) as u8 } else { rng.u8() };
    let mut par = match rng.below(6) {
        0 => 0,
        1 => 0xffff_ffff,
        2 => rng.u32(),
        3 => 0xffff_ff00u32.wrapping_add(rng.below(600) as u32),
        _ => rng.below(10) as u32,
    };
    if typ == hislip::t::INITIALIZE && rng.chance(2, 3) {
        par = hislip::init_par(*rng.pick(&[0, 0x0001, 0x0100, 0x0101, 0x0200, 0x0300, 0xffff]), rng.u32() as u16);
    }
    if typ == hislip::t::ASYNC_INITIALIZE {
        // Not somebody else's session
        par = if rng.chance(1, 2) { own as u32 } else { rng.u32() | 0x8001 };
    }
    if typ == hislip::t::ASYNC_LOCK && rng.chance(5, 6) {
        ctl = rng.below(2) as u8;
        par = *rng.pick(&[0, 1, 5, 20, 60, u32::MAX]);
    }
    let data = hs_payload(rng, typ);
    let mut m = hislip::encode(typ, ctl, par, &data);
    if rng.chance(1, 12) {
        // A wrong length
        let len = match rng.below(8) {
            0 => u64::MAX,
            1 => 1 << 63,
            2 => 1 << 32,
            3 => MAX_MSG,
            4 => MAX_MSG + 1,
            5 => data.len() as u64 + 1,
            6 => (data.len() as u64).saturating_sub(1),
            _ => rng.next(),
        };
        m[8..16].copy_from_slice(&len.to_be_bytes());
    }
    if rng.chance(1, 25) {
        m[rng.below(2)] = rng.u8();
    }
    m
}

const SYNC_TYPES: &[u8] = &[6, 7, 7, 7, 8, 12, 26, 28, 31, 34, 36, 37, 2, 3, 0, 17, 200];
const ASYNC_TYPES: &[u8] = &[4, 4, 4, 10, 15, 19, 21, 21, 24, 29, 32, 2, 3, 17, 0, 6, 7, 129];

fn messages(rng: &mut Rng, types: &[u8], own: u16, max: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..rng.below(max + 1) {
        v.extend(hs_msg(rng, types, own));
    }
    if rng.chance(1, 10) {
        mutate(rng, &mut v);
    }
    if rng.chance(1, 8) {
        let n = rng.below(v.len() + 1);
        v.truncate(n);
    }
    v
}

fn hs_attack(ctx: &Ctx, t: &Target, rng: &mut Rng) -> R {
    // Only one channel with anything
    if rng.chance(1, 4) {
        let s = tcp(t.hs.addr)?;
        let mut v = if rng.chance(1, 2) { messages(rng, &[0, 17, 2, 3, 200], 0x8001, 4) } else { Vec::new() };
        if rng.chance(1, 4) {
            let n = rng.below(60);
            v.extend(rng.bytes(n));
        }
        ctx.count("bytes of hostile HiSLIP traffic", v.len() as u64);
        pour(rng, Box::new(s), &v);
        return Ok(());
    }
    let version = *rng.pick(&[0x0200, 0x0200, 0x0100, 0x0101, 0x0000, 0xffff]);
    let Ok((sync, init)) = hislip::open_sync(t.hs.addr, b"hislip0", version) else {
        ctx.count("hostile HiSLIP sessions refused", 1);
        return Ok(());
    };
    if init.typ != hislip::t::INITIALIZE_RESPONSE {
        ctx.count("hostile HiSLIP sessions refused", 1);
        return Ok(());
    }
    let id = init.par as u16;
    let asy = if rng.chance(7, 8) { hislip::open_async(t.hs.addr, id as u32).ok().map(|x| x.0) } else { None };
    let mut r2 = rng.fork();
    let a = messages(rng, SYNC_TYPES, id, 12);
    let b = messages(&mut r2, ASYNC_TYPES, id, 12);
    ctx.count("bytes of hostile HiSLIP traffic", (a.len() + b.len()) as u64);
    ctx.count("hostile HiSLIP sessions", 1);
    match asy {
        Some(asy) => std::thread::scope(|s| {
            s.spawn(|| pour(&mut r2, Box::new(asy), &b));
            pour(rng, Box::new(sync), &a);
        }),
        None => pour(rng, Box::new(sync), &a),
    }
    Ok(())
}

// ---------------------------------------------------------------- RPC traffic

fn any_u32(rng: &mut Rng) -> u32 {
    match rng.below(5) {
        0 => rng.u32(),
        1 => *rng.pick(&[0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff, 0x1_0000, 256]),
        _ => rng.below(12) as u32,
    }
}

fn flags(rng: &mut Rng) -> u32 {
    match rng.below(4) {
        0 => any_u32(rng),
        _ => (rng.below(2) + 8 * rng.below(2) + 128 * rng.below(2)) as u32,
    }
}

fn lock_ms(rng: &mut Rng) -> u32 {
    if rng.chance(1, 40) {
        u32::MAX
    } else {
        *rng.pick(&[0, 0, 1, 5, 20])
    }
}

fn core_args(rng: &mut Rng, proc: u32, lids: &[u32], spare: u16) -> Vec<u8> {
    let lid = if lids.is_empty() || rng.chance(1, 6) { any_u32(rng) } else { *rng.pick(lids) };
    let x = X::new();
    let n = match rng.below(8) {
        0 => rng.range(1000, 6000),
        _ => rng.below(20),
    };
    let mut data = rng.bytes(n);
    if rng.chance(1, 3) {
        data = b"ABC?".to_vec();
    } else if rng.chance(1, 4) {
        data = text(rng);
    }
    match proc {
        10 => x
            .u(any_u32(rng))
            .u(if rng.chance(1, 3) { 1 } else { 0 })
            .u(lock_ms(rng))
            .op(&if rng.chance(1, 4) {
                text(rng)
            } else {
                rng.pick(&[&b"inst0"[..], b"inst0", b"inst0", b"", b"gpib0,1", b"\xff\xfe", b"inst0\0"]).to_vec()
            }),
        11 => x.u(lid).u(any_u32(rng)).u(lock_ms(rng)).u(flags(rng)).op(&data),
        12 => {
            let size = *rng.pick(&[0, 1, 5, 100, 10_000, u32::MAX, 0x8000_0000]);
            x.u(lid).u(size).u(any_u32(rng)).u(lock_ms(rng)).u(flags(rng)).u(any_u32(rng))
        }
        13..=17 => x.u(lid).u(flags(rng)).u(lock_ms(rng)).u(any_u32(rng)),
        18 => x.u(lid).u(flags(rng)).u(lock_ms(rng)),
        19 | 23 => x.u(lid),
        20 => {
            let n = *rng.pick(&[0usize, 1, 3, 40, 41, 200]);
            x.u(lid).u(any_u32(rng)).op(&rng.bytes(n))
        }
        22 => x
            .u(lid)
            .u(flags(rng))
            .u(any_u32(rng))
            .u(lock_ms(rng))
            .u(any_u32(rng))
            .u(rng.below(2) as u32)
            .u(any_u32(rng))
            .op(&data),
        25 => {
            // Only ever to this machine
            let port = if rng.chance(1, 2) { spare as u32 } else { any_u32(rng) | 0x1_0000 };
            x.u(0x7f00_0001).u(port).u(any_u32(rng)).u(any_u32(rng)).u(rng.below(2) as u32)
        }
        _ => x.raw(&data),
    }
    .0
}

/// One record holding a call, perhaps malformed. `fixed`: arguments must stay as they are
fn rpc_record(rng: &mut Rng, prog: u32, vers: u32, proc: u32, mut args: Vec<u8>, fixed: bool) -> Vec<u8> {
    if !fixed {
        match rng.below(10) {
            0 => {
                let n = rng.below(args.len() + 1);
                args.truncate(n);
            }
            1 => mutate(rng, &mut args),
            2 => {
                let n = rng.range(1, 12);
                args.extend(rng.bytes(n))
            }
            _ => {}
        }
    }
    let mut m = match rng.below(14) {
        0 => X::new()
            .u(rng.u32())
            .u(any_u32(rng))
            .u(2)
            .u(prog)
            .u(vers)
            .u(proc)
            .u(0)
            .u(0)
            .u(0)
            .u(0)
            .raw(&args)
            .0,
        1 => {
            // Other credentials
            let a = *rng.pick(&[0usize, 4, 100, 400, 404, 2000]);
            X::new()
                .u(rng.u32())
                .u(0)
                .u(2)
                .u(prog)
                .u(vers)
                .u(proc)
                .u(any_u32(rng))
                .op(&rng.bytes(a))
                .u(any_u32(rng))
                .op(&rng.bytes(a / 2))
                .raw(&args)
                .0
        }
        2 => call_msg(rng.u32(), any_u32(rng), prog, vers, proc, &args),
        3 => call_msg(rng.u32(), 2, any_u32(rng), any_u32(rng), proc, &args),
        4 => {
            // A reply instead of a call
            X::new().u(rng.u32()).u(1).u(any_u32(rng)).u(any_u32(rng)).u(any_u32(rng)).u(any_u32(rng)).raw(&args).0
        }
        _ => call_msg(rng.u32(), 2, prog, vers, proc, &args),
    };
    if !fixed {
        if rng.chance(1, 10) {
            let n = rng.below(m.len() + 1);
            m.truncate(n);
        }
        if rng.chance(1, 10) {
            mutate(rng, &mut m);
        }
    }
    match rng.below(8) {
        0 => vxi::fragments(rng, &m, 6),
        1 => {
            // Many empty fragments
            let mut v = vec![0u8; 4 * rng.range(1, 50)];
            v.extend(record(&m));
            v
        }
        _ => record(&m),
    }
}

fn bad_record(rng: &mut Rng) -> Vec<u8> {
    let h = *rng.pick(&[
        0x7fff_ffffu32,
        0xffff_ffff,
        0x8000_0000,
        0x8010_0000,
        0x8010_0001,
        0x000f_ffff,
        0x8000_0001,
        0,
    ]);
    let mut v = h.to_be_bytes().to_vec();
    let n = rng.below(200);
    v.extend(rng.bytes(n));
    v
}

fn core_attack(ctx: &Ctx, t: &Target, rng: &mut Rng, spare_port: u16) -> R {
    let mut lids = Vec::new();
    let Ok(mut v) = Vxi::connect(t.vx.core) else {
        return Ok(());
    };
    for _ in 0..rng.below(3) {
        if let Ok(l) = v.create("inst0", rng.chance(1, 4), 20) {
            if l.err == 0 {
                lids.push(l.lid);
            }
        }
    }
    let mut out = Vec::new();
    for _ in 0..rng.below(16) {
        let proc = if rng.chance(1, 10) { any_u32(rng) } else { rng.range(0, 27) as u32 };
        let a = core_args(rng, proc, &lids, spare_port);
        out.extend(rpc_record(rng, vxi::CORE, 1, proc, a, proc == 25));
    }
    if rng.chance(1, 6) {
        out.extend(bad_record(rng));
    }
    ctx.count("bytes of hostile VXI-11 traffic", out.len() as u64);
    ctx.count("hostile VXI-11 connections", 1);
    // Aborts of what is going on
    let r2 = rng.fork();
    let (a, l2) = (t.vx.abort, lids.clone());
    let th = if rng.chance(1, 3) {
        let mut r2 = r2;
        Some(std::thread::spawn(move || {
            if let Ok(mut c) = Rpc::connect(a, vxi::ABORT) {
                for _ in 0..r2.below(4) {
                    if let Some(l) = l2.first() {
                        let _ = c.call(1, &X::new().u(*l).0, "abort");
                    }
                }
            }
        }))
    } else {
        None
    };
    pour(rng, Box::new(v.rpc.s), &out);
    if let Some(t) = th {
        let _ = t.join();
    }
    Ok(())
}

fn abort_attack(ctx: &Ctx, t: &Target, rng: &mut Rng) -> R {
    let mut out = Vec::new();
    for _ in 0..rng.below(10) {
        let mut lid = any_u32(rng);
        if t.spare.lock().unwrap().contains(&lid) {
            lid = 0;
        }
        let proc = if rng.chance(1, 4) { any_u32(rng) } else { rng.below(3) as u32 };
        out.extend(rpc_record(rng, vxi::ABORT, 1, proc, X::new().u(lid).0, false));
    }
    if rng.chance(1, 5) {
        out.extend(bad_record(rng));
    }
    ctx.count("bytes of hostile VXI-11 traffic", out.len() as u64);
    pour(rng, Box::new(tcp(t.vx.abort)?), &out);
    Ok(())
}

fn pmap_args(rng: &mut Rng) -> Vec<u8> {
    X::new().u(*rng.pick(&[vxi::CORE, vxi::ABORT, 100000, 0])).u(any_u32(rng)).u(*rng.pick(&[6, 17, 0])).u(any_u32(rng)).0
}

fn pmap_attack(ctx: &Ctx, t: &Target, rng: &mut Rng) -> R {
    if rng.chance(1, 2) {
        let mut out = Vec::new();
        for _ in 0..rng.below(10) {
            let a = pmap_args(rng);
            let proc = rng.below(8) as u32;
            out.extend(rpc_record(rng, vxi::PMAP, 2, proc, a, false));
        }
        if rng.chance(1, 5) {
            out.extend(bad_record(rng));
        }
        ctx.count("bytes of hostile portmapper traffic", out.len() as u64);
        pour(rng, Box::new(tcp(t.pm.tcp)?), &out);
        return Ok(());
    }
    let s = UdpSocket::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let _ = s.set_read_timeout(Some(Duration::from_millis(2)));
    for _ in 0..rng.range(1, 12) {
        let m = match rng.below(6) {
            0 => Vec::new(),
            1 => {
                let n = *rng.pick(&[1usize, 3, 4, 39, 40, 1499, 1500, 1501, 3000, 60_000]);
                rng.bytes(n)
            }
            _ => {
                let a = pmap_args(rng);
                let proc = rng.below(8) as u32;
                rpc_record(rng, vxi::PMAP, 2, proc, a, false)[4..].to_vec()
            }
        };
        ctx.count("bytes of hostile portmapper traffic", m.len() as u64);
        let _ = s.send_to(&m, t.pm.udp);
        if rng.chance(1, 3) {
            let mut b = [0u8; 2000];
            let _ = s.recv(&mut b);
        }
    }
    // Gone before the reply: the server gets an error
    Ok(())
}

/// Connections which are gone at once
fn hit_and_run(t: &Target, rng: &mut Rng) -> R {
    let a = *rng.pick(&[t.raw.addr, t.tel.addr, t.hs.addr, t.vx.core, t.vx.abort, t.pm.tcp]);
    for _ in 0..rng.range(1, 12) {
        if let Ok(s) = TcpStream::connect(a) {
            if rng.chance(2, 3) {
                net::reset(s);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- witnesses

fn wit(rng: &mut Rng, n: u64) -> Vec<u8> {
    format!("WIT {n} {:x}?", rng.u32()).into_bytes()
}

fn expect(cmd: &[u8], got: &[u8]) -> R {
    let want = std_response(cmd).unwrap();
    ensure!(got == want, "response to {} {}", show(cmd), diff(got, &want));
    Ok(())
}

/// One client of each server: a function which does one round of operations
type Wit<'a> = Box<dyn FnMut(&mut Rng, u64) -> R + Send + 'a>;

fn w_raw(t: &Target) -> R<Wit<'_>> {
    let mut s = tcp(t.raw.addr)?;
    Ok(Box::new(move |rng, n| {
        let c = wit(rng, n);
        net::send(&mut s, &[&c[..], b"\n"].concat())?;
        expect(&c, &read_line(&mut s, "raw response")?)
    }))
}

fn w_unix(t: &Target) -> R<Wit<'_>> {
    let mut s = unix_connect(&t.unix.path)?;
    Ok(Box::new(move |rng, n| {
        let c = wit(rng, n);
        net::send(&mut s, &[&c[..], b"\n"].concat())?;
        expect(&c, &read_line(&mut s, "unix response")?)
    }))
}

fn w_tel(t: &Target) -> R<Wit<'_>> {
    let mut s = Tel::connect(t.tel.addr)?;
    Ok(Box::new(move |rng, n| {
        let c = wit(rng, n);
        net::send(&mut s.s, &[&c[..], b"\r\n"].concat())?;
        expect(&c, &s.line("telnet response")?)
    }))
}

fn w_hs(t: &Target) -> R<Wit<'_>> {
    // Between the two steps a hostile client may have guessed the session id
    let mut h = None;
    for k in 0..4 {
        match Hs::open(t.hs.addr, WIT) {
            Ok(x) => {
                h = Some(x);
                break;
            }
            Err(f) if k == 3 => return Err(f),
            Err(_) => {}
        }
    }
    let mut h = h.unwrap();
    Ok(Box::new(move |rng, n| {
        let c = wit(rng, n);
        let got = h.query(&c)?;
        expect(&c, &got)?;
        h.status()?;
        h.lock_info()?;
        if n % 4 == 0 {
            let r = h.lock(60_000, b"")?;
            ensure!(r == 1, "lock request answered {r}");
            let c = wit(rng, n);
            let got = h.query(&c)?;
            expect(&c, &got)?;
            let r = h.release()?;
            ensure!(r == 1, "release answered {r}");
        }
        if n % 8 == 1 {
            h.clear()?;
        }
        Ok(())
    }))
}

fn w_vx(t: &Target) -> R<Wit<'_>> {
    let mut v = Vxi::connect(t.vx.core)?;
    let mut lid = v.link(WIT)?;
    t.spare.lock().unwrap().push(lid);
    Ok(Box::new(move |rng, n| {
        let c = wit(rng, n);
        // A mutated abort may have hit this link
        for k in 0.. {
            let (err, _) = v.write(lid, vxi::END | vxi::WAIT, 60_000, &c)?;
            if err == vxi::e::ABORT && k < 3 {
                continue;
            }
            ensure!(err == 0, "device_write answered {err}");
            break;
        }
        for k in 0.. {
            let r = v.read(lid, 1 << 16, vxi::WAIT, 60_000, 0)?;
            if r.err == vxi::e::ABORT && k < 3 {
                continue;
            }
            ensure!(r.err == 0, "device_read answered {}", r.err);
            expect(&c, &r.data)?;
            break;
        }
        if n % 16 == 7 {
            let err = v.destroy(lid)?;
            ensure!(err == 0, "destroy_link answered {err}");
            lid = v.link(WIT)?;
            t.spare.lock().unwrap().push(lid);
        }
        Ok(())
    }))
}

fn w_abort(t: &Target) -> R<Wit<'_>> {
    let mut c = Rpc::connect(t.vx.abort, vxi::ABORT)?;
    Ok(Box::new(move |_, _| {
        let err = t.vx.abort_call(&mut c, 0x7777_7777)?;
        ensure!(err == vxi::e::INVALID_LINK, "abort of no link answered {err}");
        Ok(())
    }))
}

fn w_pmap(t: &Target) -> R<Wit<'_>> {
    let args = X::new().u(vxi::CORE).u(1).u(6).u(0).0;
    let mut old = Rpc::connect(t.pm.tcp, vxi::PMAP)?;
    let udp = vxi::udp_client(t.pm.udp)?;
    Ok(Box::new(move |_, n| {
        let v = old.call(3, &args, "getport")?;
        ensure!(v == 1024u32.to_be_bytes(), "getport answered {}", show(&v));
        // Datagrams may be lost in a flood
        let m = call_msg(n as u32, 2, vxi::PMAP, 2, 3, &args);
        for _ in 0..12 {
            let _ = udp.send(&m);
            let _ = udp.set_read_timeout(Some(DEADLINE / 12));
            let mut b = [0u8; 512];
            while let Ok(k) = udp.recv(&mut b) {
                let (x, r) = vxi::parse_reply(&b[..k], "getport over udp")?;
                if x != n as u32 {
                    continue;
                }
                ensure!(
                    r == vxi::Reply::Success(1024u32.to_be_bytes().to_vec()),
                    "getport over udp answered {r:?}"
                );
                return Ok(());
            }
        }
        late("the portmapper does not answer over udp")
    }))
}

type Maker = for<'a> fn(&'a Target) -> R<Wit<'a>>;
const WITNESSES: &[(&str, Maker)] = &[
    ("raw", w_raw),
    ("unix", w_unix),
    ("telnet", w_tel),
    ("hislip", w_hs),
    ("vxi-11", w_vx),
    ("vxi-11 abort", w_abort),
    ("portmapper", w_pmap),
];

fn case(ctx: &Ctx, rng: &mut Rng) -> R {
    let t = Target::new()?;
    let stop = AtomicBool::new(false);
    let fails: Mutex<Vec<Fail>> = Mutex::new(Vec::new());
    let rounds = AtomicU64::new(0);
    let attacks = AtomicU64::new(0);
    let kinds: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let listener = TcpListener::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let spare_port = listener.local_addr().unwrap().port();
    let _ = listener.set_nonblocking(true);
    let n = ctx.n(150, 400);
    std::thread::scope(|s| {
        let (t, stop, fails, rounds, attacks, kinds) = (&t, &stop, &fails, &rounds, &attacks, &kinds);
        let mut ws = Vec::new();
        for &(name, make) in WITNESSES {
            let mut r = rng.fork();
            ws.push(s.spawn(move || {
                let mut run = || -> R {
                    let mut w = make(t)?;
                    let mut k = 0;
                    while !stop.load(Ordering::Relaxed) {
                        k += 1;
                        w(&mut r, k)?;
                        rounds.fetch_add(1, Ordering::Relaxed);
                        std::thread::sleep(Duration::from_millis(2));
                    }
                    Ok(())
                };
                if let Err(f) = run() {
                    fails.lock().unwrap().push(f.ctx(&format!("{name} client during hostile traffic")));
                    stop.store(true, Ordering::Relaxed);
                }
            }));
        }
        // Service requests and interrupt connections go on meanwhile
        {
            let mut srq = t.srq.clone();
            s.spawn(move || {
                while !stop.load(Ordering::Relaxed) {
                    srq.send_status(0x40);
                    std::thread::sleep(Duration::from_micros(700));
                }
            });
        }
        let listener = &listener;
        s.spawn(move || {
            let mut held = std::collections::VecDeque::new();
            while !stop.load(Ordering::Relaxed) {
                while let Ok((c, _)) = listener.accept() {
                    held.push_back(c);
                    if held.len() > 8 {
                        net::reset(held.pop_front().unwrap());
                    }
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        });
        let mut att = Vec::new();
        for _ in 0..4 {
            let mut r = rng.fork();
            att.push(s.spawn(move || {
                for _ in 0..n {
                    if stop.load(Ordering::Relaxed) || !foreign_panics().is_empty() {
                        break;
                    }
                    let (name, res) = match r.below(16) {
                        0..=1 => ("raw", tcp(t.raw.addr).map(|c| {
                            let v = raw_bytes(&mut r);
                            pour(&mut r, Box::new(c), &v)
                        })),
                        2 => ("unix", unix_connect(&t.unix.path).map(|c| {
                            let v = raw_bytes(&mut r);
                            pour(&mut r, Box::new(c), &v)
                        })),
                        3..=5 => ("telnet", tcp(t.tel.addr).map(|c| {
                            let v = telnet_bytes(&mut r);
                            pour(&mut r, Box::new(c), &v)
                        })),
                        6..=9 => ("hislip", hs_attack(ctx, t, &mut r)),
                        10..=12 => ("vxi-11", core_attack(ctx, t, &mut r, spare_port)),
                        13 => ("vxi-11 abort", abort_attack(ctx, t, &mut r)),
                        14 => ("portmapper", pmap_attack(ctx, t, &mut r)),
                        _ => ("hit and run", hit_and_run(t, &mut r)),
                    };
                    attacks.fetch_add(1, Ordering::Relaxed);
                    *kinds.lock().unwrap().entry(name).or_insert(0) += 1;
                    // New clients have to be accepted
                    if let Err(f) = res {
                        if !matches!(f, Fail::Inconclusive(_)) {
                            fails.lock().unwrap().push(f.ctx(&format!("connecting to {name} during hostile traffic")));
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    beat();
                }
            }));
        }
        for a in att {
            let _ = a.join();
        }
        stop.store(true, Ordering::Relaxed);
    });
    if let Some((l, m)) = foreign_panics().first() {
        return viol(format!("a server task panicked at {l}: {m}"));
    }
    if let Some(e) = t.ended() {
        return viol(format!("a server stopped: {e}"));
    }
    let mut l = fails.into_inner().unwrap();
    l.sort_by_key(|f| match f {
        Fail::Violation(_) => 0,
        Fail::Late(_) => 1,
        Fail::Inconclusive(_) => 2,
    });
    if let Some(f) = l.into_iter().next() {
        return Err(f);
    }
    // Everybody is served afterwards
    for &(name, make) in WITNESSES {
        let mut r = rng.fork();
        let mut go = || -> R {
            let mut w = make(&t)?;
            for k in 1..4 {
                w(&mut r, k)?;
            }
            Ok(())
        };
        go().what(format!("fresh {name} client after hostile traffic"))?;
    }
    // The hostile clients are gone, their devices must be usable, unless a request of theirs
    // which waits for a lock (for up to 49 days) keeps the lock of another
    let f = || -> R {
        let mut h = None;
        hislip::eventually("a session for the device the hostile clients used", || {
            h = Hs::open(t.hs.addr, "hislip0").ok();
            Ok(h.is_some())
        })?;
        let mut h = h.unwrap();
        let c = b"WIT AFTER?";
        let mut kept = h.lock_info()?.0;
        if !kept {
            match h.query(c) {
                Ok(r) => expect(c, &r)?,
                Err(e) => {
                    let mut h = Hs::open(t.hs.addr, "hislip0")?;
                    let (ex, n) = h.lock_info()?;
                    kept = ex || n > 0;
                    if !kept {
                        return Err(e);
                    }
                }
            }
        }
        if kept {
            ctx.count("devices left locked by a request which still waits", 1);
        }
        let mut v = Vxi::connect(t.vx.core)?;
        let lid = v.link("inst0")?;
        match v.write(lid, vxi::END | vxi::WAIT, 2_000, c)? {
            (11, 0) => ctx.count("devices left locked by a request which still waits", 1),
            (0, _) => {
                let r = v.read(lid, 1 << 20, vxi::WAIT, 10_000, 0)?;
                expect(c, &r.data)?
            }
            (e, n) => return viol(format!("write of {} failed: error {e}, {n} bytes", show(c))),
        }
        Ok(())
    };
    f().what("device which hostile clients used, after they left")?;
    if let Some((l, m)) = foreign_panics().first() {
        return viol(format!("a server task panicked at {l}: {m}"));
    }
    if let Some(e) = t.ended() {
        return viol(format!("a server stopped: {e}"));
    }
    let peak = peak_request();
    ensure!(
        peak < 512 << 20,
        "a server asked for {peak} bytes of memory at once, the hostile clients never sent as much"
    );
    let execs: usize = t.units.iter().map(|u| u.log.len()).sum();
    let kinds = kinds.into_inner().unwrap();
    ctx.count("rounds of witnesses", rounds.load(Ordering::Relaxed));
    ctx.count("device events caused", execs as u64);
    for (k, v) in &kinds {
        ctx.count(&format!("attacks on {k}"), *v);
    }
    let n = attacks.load(Ordering::Relaxed);
    ctx.eval(rng.next(), n > 50, || {
        format!("{n} attacks ({kinds:?}), {} rounds of witnesses, {execs} device events", rounds.load(Ordering::Relaxed))
    });
    Ok(())
}

// ---------------------------------------------------------------- gone before being accepted

fn unaccepted_case(ctx: &Ctx, rng: &mut Rng, idx: u64) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let port = net::pick_port();
    let addr = SocketAddr::from((Ipv4Addr::LOCALHOST, port));
    let bind = || {
        async_std::task::block_on(async_std::net::TcpListener::bind(addr))
            .map_err(|e| Fail::Inconclusive(format!("bind {port}: {e}")))
    };
    let kind = ["raw", "telnet", "hislip", "vxi-11", "abort", "portmapper"][idx as usize % 6];
    let vxis = || {
        lxi_vxi11::server::vxi11::prelude::VxiServerBuilder::new()
            .device("inst0".to_string(), u.dev.clone(), u.lock.clone())
            .build(srq.clone())
    };
    let mut m = match kind {
        "raw" => Manual::new(ServerConfig::default().build().accept(addr, u.lock.clone(), u.dev.clone())),
        "telnet" => Manual::new(lxi_telnet::server::ServerConfig::default().build().accept(
            addr,
            u.lock.clone(),
            u.dev.clone(),
        )),
        "hislip" => Manual::new(
            lxi_hislip::server::ServerBuilder::new(Default::default())
                .device("hislip0".to_string(), u.dev.clone(), u.lock.clone())
                .build()
                .accept(addr, srq.clone(), hislip::pool()),
        ),
        "vxi-11" => {
            let l = bind()?;
            Manual::new(vxis().0.serve(l))
        }
        "abort" => {
            let l = bind()?;
            Manual::new(vxis().1.serve(l))
        }
        _ => {
            let l = bind()?;
            Manual::new(StaticPortMap::new([Mapping::new(vxi::CORE, 1, 6, 1024)]).serve_tcp(l))
        }
    };
    let mut trace = String::new();
    for _ in 0..rng.range(1, 4) {
        if let Some(r) = m.run_for(Duration::from_millis(8)) {
            if trace.is_empty() {
                // Another process took the port
                return inconc(format!("{kind} server did not start: {r:?}"));
            }
            return viol(format!("the {kind} server ended with {r:?} after {trace}"));
        }
        let n = rng.range(1, 12);
        let mut keep = Vec::new();
        for _ in 0..n {
            let mut s = tcp(addr)?;
            if rng.chance(1, 3) {
                let _ = s.write_all(&rng.bytes(20));
            }
            if rng.chance(3, 4) {
                net::reset(s);
                trace.push_str("reset ");
                ctx.count("connections reset before they were accepted", 1);
            } else {
                let _ = s.shutdown(std::net::Shutdown::Both);
                trace.push_str("shutdown ");
                keep.push(s);
            }
        }
        if let Some(r) = m.run_for(Duration::from_millis(20)) {
            return viol(format!("the {kind} server ended with {r:?} after clients were gone before being accepted: {trace}"));
        }
        trace.push_str("| ");
    }
    let srv = m.into_srv(addr)?;
    let serve = || -> R {
        match kind {
            "raw" => {
                let mut s = tcp(addr)?;
                net::send(&mut s, b"WIT?\n")?;
                expect(b"WIT?", &read_line(&mut s, "response")?)
            }
            "telnet" => {
                let mut s = Tel::connect(addr)?;
                net::send(&mut s.s, b"WIT?\r\n")?;
                expect(b"WIT?", &s.line("response")?)
            }
            "hislip" => Hs::open(addr, "hislip0")?.check_query(b"WIT?"),
            "vxi-11" => {
                let mut v = Vxi::connect(addr)?;
                let lid = v.link("inst0")?;
                v.check_query(lid, b"WIT?")
            }
            "abort" => Rpc::connect(addr, vxi::ABORT)?.call(0, &[], "null").map(|_| ()),
            _ => Rpc::connect(addr, vxi::PMAP)?.call(0, &[], "null").map(|_| ()),
        }
    };
    serve().what(format!("fresh {kind} client after {trace}"))?;
    if let Some(e) = srv.ended() {
        return viol(format!("the {kind} server ended with {e} after {trace}"));
    }
    ctx.eval(hash_of(&(kind, &trace)), true, || format!("{kind}: {trace}, then served"));
    Ok(())
}

// ---------------------------------------------------------------- out of file descriptors

/// Runs in a process of its own: servers with few file descriptors to spare
pub fn child() -> ! {
    let body = || -> R {
        let t = Target::new()?;
        // Whatever the runtime opens at its first use
        for &(_, make) in WITNESSES {
            let mut r = Rng::new(1);
            let mut w = make(&t)?;
            w(&mut r, 1)?;
        }
        std::thread::sleep(Duration::from_millis(50));
        let used = std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(60) as u64;
        unsafe {
            let l = libc::rlimit { rlim_cur: used + 14, rlim_max: used + 14 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
        println!(
            "ready {} {} {} {} {} {} {}",
            t.raw.addr,
            t.tel.addr,
            t.hs.addr,
            t.vx.core,
            t.vx.abort,
            t.pm.tcp,
            t.unix.path.display()
        );
        let _ = std::io::stdout().flush();
        let mut s = String::new();
        while std::io::stdin().read_line(&mut s).unwrap_or(0) > 0 {
            if let Some((l, m)) = foreign_panics().first() {
                println!("panic at {l}: {m}");
            } else if let Some(e) = t.ended() {
                println!("stopped: {e}");
            } else {
                println!("fine");
            }
            let _ = std::io::stdout().flush();
            s.clear();
        }
        Ok(())
    };
    if let Err(f) = body() {
        println!("failed {f:?}");
    }
    std::process::exit(0)
}

struct Child {
    c: std::process::Child,
    out: std::io::BufReader<std::process::ChildStdout>,
}

impl Drop for Child {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}

fn descriptors_case(ctx: &Ctx, rng: &mut Rng) -> R {
    use std::io::BufRead;
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let mut c = Command::new(exe)
        .arg("C24-child")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let out = std::io::BufReader::new(c.stdout.take().unwrap());
    let mut c = Child { c, out };
    let mut line = String::new();
    let _ = c.out.read_line(&mut line);
    let f: Vec<&str> = line.split_whitespace().collect();
    if f.len() != 8 || f[0] != "ready" {
        return inconc(format!("child process said {line:?}"));
    }
    let addrs: Vec<SocketAddr> = f[1..7].iter().filter_map(|a| a.parse().ok()).collect();
    let path = std::path::PathBuf::from(f[7]);
    let ask = |c: &mut Child, when: &str| -> R {
        let mut l = String::new();
        let _ = c.c.stdin.as_mut().unwrap().write_all(b"\n");
        let _ = c.out.read_line(&mut l);
        if l.trim() == "fine" {
            return Ok(());
        }
        if l.is_empty() {
            let st = c.c.wait();
            return viol(format!("the process of the servers ended {when}: {st:?}"));
        }
        viol(format!("{when}: {}", l.trim()))
    };
    for round in 0..3 {
        let mut held: Vec<TcpStream> = Vec::new();
        let mut uheld = Vec::new();
        let n = rng.range(20, 60);
        for _ in 0..n {
            let a = *rng.pick(&addrs);
            if let Ok(s) = TcpStream::connect_timeout(&a, Duration::from_millis(300)) {
                if rng.chance(1, 3) {
                    let mut s2 = &s;
                    let _ = s2.write_all(&rng.bytes(24));
                }
                held.push(s);
            }
            if rng.chance(1, 6) {
                if let Ok(s) = UnixStream::connect(&path) {
                    uheld.push(s);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(rng.range(100, 400) as u64));
        ask(&mut c, "while out of file descriptors")?;
        ctx.count("connections while out of file descriptors", (held.len() + uheld.len()) as u64);
        for s in held {
            if rng.chance(1, 2) {
                net::reset(s)
            }
        }
        drop(uheld);
        // All servers serve again
        let serve = |k: usize| -> R {
            match k {
                0 => {
                    let mut s = tcp(addrs[0])?;
                    net::send(&mut s, b"WIT?\n")?;
                    expect(b"WIT?", &read_line(&mut s, "raw response")?)
                }
                1 => {
                    let mut s = Tel::connect(addrs[1])?;
                    net::send(&mut s.s, b"WIT?\r\n")?;
                    expect(b"WIT?", &s.line("telnet response")?)
                }
                2 => Hs::open(addrs[2], WIT)?.check_query(b"WIT?"),
                3 => {
                    let mut v = Vxi::connect(addrs[3])?;
                    let lid = v.link(WIT)?;
                    v.check_query(lid, b"WIT?")
                }
                4 => Rpc::connect(addrs[4], vxi::ABORT)?.call(0, &[], "null").map(|_| ()),
                5 => Rpc::connect(addrs[5], vxi::PMAP)?.call(0, &[], "null").map(|_| ()),
                _ => {
                    let mut s = unix_connect(&path)?;
                    net::send(&mut s, b"WIT?\n")?;
                    expect(b"WIT?", &read_line(&mut s, "unix response")?)
                }
            }
        };
        for k in 0..7 {
            let name = ["raw", "telnet", "hislip", "vxi-11", "vxi-11 abort", "portmapper", "unix"][k];
            // Connections which waited for a descriptor may be accepted and dropped first
            let t0 = Instant::now();
            loop {
                match serve(k) {
                    Ok(()) => break,
                    Err(f) => {
                        ask(&mut c, &format!("after round {round} without file descriptors"))?;
                        if t0.elapsed() > DEADLINE * 2 {
                            return Err(f.ctx(&format!("fresh {name} client after {n} connections exhausted the file descriptors of the server")));
                        }
                        std::thread::sleep(Duration::from_millis(50));
                    }
                }
            }
        }
        ask(&mut c, "after serving fresh clients")?;
        ctx.eval(rng.next(), true, || format!("round {round}: {n} connections at a server with 14 spare descriptors, then all served"));
    }
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    ctx.rule(
        "fuzz: generated and mutated traffic of all protocols at servers of all kinds, random segmentation and ends of \
         connections, service requests going on, everything logged is formatted; witnesses of each server check every \
         response during and fresh ones after it. unaccepted: clients gone before they are accepted. descriptors: servers \
         out of file descriptors. No panic, no ended accept loop, no allocation above 512 MiB. Counted: batches with more \
         than 50 attacks, distinct histories of early leavers, rounds without descriptors.",
    );
    ctx.cases_par("descriptors", ctx.n(2, 20), ctx.n(20, 200) as u64, 2, |rng, _| descriptors_case(ctx, rng));
    ctx.cases_par("unaccepted", ctx.n(60, 1200), ctx.n(10, 120) as u64, 6, |rng, i| unaccepted_case(ctx, rng, i));
    ctx.cases_par("fuzz", ctx.n(30, 800), ctx.n(40, 800) as u64, 2, |rng, _| case(ctx, rng));
    ctx.count("log records formatted", LOGGED.load(Ordering::Relaxed));
    ctx.no_panics("fuzz");
}
