//! C10-C12: the HiSLIP synchronous channel.

use std::io::Write;
use std::net::TcpStream;
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;
use lxi_hislip::common::messages::MessageType;

use crate::dev::{Ev, Unit};
use crate::hislip::{self, encode, raw_header, t, Hs, Msg};
use crate::net::{self, Leave, LEAVES};
use crate::rt::*;

/// Deterministic device response
pub fn response_of(cmd: &[u8], big: usize) -> Option<Vec<u8>> {
    if cmd.starts_with(b"END") {
        let mut v = b"END:".to_vec();
        v.extend_from_slice(cmd);
        return Some(v);
    }
    let mut r = Rng::new(hash_of(cmd) ^ 0x55);
    match r.below(8) {
        0 | 1 => None,
        2 => Some(Vec::new()),
        3 | 4 => {
            let n = r.range(1, 40);
            Some(r.bytes(n))
        }
        5 => {
            // Around chunk sizes
            let n = *r.pick(&[255, 256, 257, 511, 512, 513, 1, 100, 1023, 1024, 1025]);
            Some(r.bytes(n))
        }
        6 => {
            let n = r.range(1, 3000);
            Some(r.bytes(n))
        }
        _ => {
            let n = r.range(1, big.max(1));
            Some(r.bytes(n))
        }
    }
}

fn any_case(rng: &mut Rng, s: &[u8]) -> Vec<u8> {
    s.iter()
        .map(|c| {
            if rng.chance(1, 2) {
                c.to_ascii_lowercase()
            } else {
                c.to_ascii_uppercase()
            }
        })
        .collect()
}

/// Write a stream in pieces from another thread while reading
fn write_pieces(s: &TcpStream, pieces: Vec<Vec<u8>>, slow: bool, seed: u64) -> std::thread::JoinHandle<R> {
    let mut s = s.try_clone().unwrap();
    std::thread::spawn(move || {
        let mut rng = Rng::new(seed);
        for p in pieces {
            net::send(&mut s, &p)?;
            if slow {
                std::thread::sleep(Duration::from_micros(rng.below(700) as u64));
            }
        }
        Ok(())
    })
}

struct Sent {
    mid: u32,
    want: Option<Vec<u8>>,
    cmd: Vec<u8>,
}

#[derive(Clone)]
struct Setup {
    maxmsg: usize,
    idn: Option<Vec<u8>>,
    big: usize,
}

/// Exercise one session, returns what its device must have seen
fn session_script(
    ctx: &Ctx,
    rng: &mut Rng,
    h: &mut Hs,
    s: &Setup,
    tag: &str,
    triggers: bool,
) -> R<Vec<Ev>> {
    let mut expect: Vec<Ev> = Vec::new();
    let mut announced = 256usize;
    let batches = rng.range(1, 4);
    let mut n = 0;
    for b in 0..batches {
        if b > 0 || rng.chance(2, 3) {
            let m: u64 = match rng.below(8) {
                0 => rng.range(1, 4) as u64,
                1 => rng.range(5, 300) as u64,
                2 => 256,
                3 => u64::MAX,
                4 => 1 << 32,
                5 => rng.range(300, 5000) as u64,
                6 => (1u64 << 32) + rng.range(1, 9) as u64,
                _ => 1 << rng.range(0, 16),
            };
            // Not millions of messages
            let m = m.max((s.big / 500) as u64);
            let got = h.max_msg(m)?;
            ensure!(
                got == s.maxmsg as u64,
                "server with maximum message size {} reports {got}",
                s.maxmsg
            );
            announced = m.min(usize::MAX as u64) as usize;
            ctx.count("sizes announced", 1);
        }
        // Build the stream
        let mut stream = Vec::new();
        let mut sent = Vec::new();
        let cmds = rng.range(1, 9);
        for k in 0..=cmds {
            n += 1;
            if triggers && k < cmds && rng.chance(1, 6) {
                let payload = if rng.chance(1, 4) { rng.bytes(5) } else { Vec::new() };
                if payload.len() <= s.maxmsg {
                    stream.extend(encode(t::TRIGGER, rng.u8() & 1, rng.u32(), &payload));
                    expect.push(Ev::Trigger("Bus".into()));
                    ctx.count("triggers", 1);
                    continue;
                }
            }
            let mut is_idn = false;
            let cmd: Vec<u8> = if k == cmds {
                format!("END {tag} {n}?").into_bytes()
            } else {
                match rng.below(10) {
                    0 => Vec::new(),
                    1 => {
                        is_idn = true;
                        any_case(rng, b"*idn?")
                    }
                    2 => {
                        let base = *rng.pick(&[&b"*IDN"[..], b"*IDN?X", b"X*IDN?", b"*IDN?;*OPT?", b"*ID?", b"IDN?"]);
                        any_case(rng, base)
                    }
                    3 => {
                        let k = rng.range(1, 4000);
                        rng.bytes(k)
                    }
                    4 => {
                        // Looks like messages
                        let mut v = encode(t::DATA_END, 0, 2, b"INNER?");
                        v.extend(rng.bytes(3));
                        v
                    }
                    5 => {
                        let k = rng.range(1, 60);
                        rng.bytes(k)
                    }
                    _ => format!("{tag} {n} {}", rng.u32()).into_bytes(),
                }
            };
            // Cut in messages
            let mut parts = rng.split(&cmd, if cmd.len() > 1000 { 12 } else { 4 });
            if parts.is_empty() {
                parts.push(Vec::new());
            }
            if rng.chance(1, 5) {
                let at = rng.below(parts.len() + 1);
                parts.insert(at, Vec::new());
            }
            let mut small = Vec::new();
            for p in parts {
                if p.len() > s.maxmsg {
                    small.extend(p.chunks(s.maxmsg).map(|c| c.to_vec()));
                } else {
                    small.push(p);
                }
            }
            let last = small.len() - 1;
            let mut mid = 0;
            for (i, p) in small.iter().enumerate() {
                if triggers && i > 0 && rng.chance(1, 8) {
                    // In the middle of a command
                    stream.extend(encode(t::TRIGGER, rng.u8() & 1, rng.u32(), b""));
                    expect.push(Ev::Trigger("Bus".into()));
                    ctx.count("triggers amid a command", 1);
                }
                mid = if rng.chance(1, 3) { rng.u32() } else { h.next_mid() };
                let typ = if i == last { t::DATA_END } else { t::DATA };
                stream.extend(encode(typ, rng.u8() & 1, mid, p));
            }
            let want = if is_idn && s.idn.is_some() {
                ctx.count("short identifications", 1);
                s.idn.clone()
            } else {
                expect.push(Ev::Exec(cmd.clone()));
                response_of(&cmd, s.big)
            };
            sent.push(Sent { mid, want, cmd });
        }
        let slow = rng.chance(1, 3);
        let pieces = if slow {
            rng.split(&stream, 20)
        } else if rng.chance(1, 6) && stream.len() < 600 {
            stream.chunks(1).map(|c| c.to_vec()).collect()
        } else {
            vec![stream]
        };
        let w = write_pieces(&h.sync, pieces, slow, rng.next());
        let res = (|| -> R {
            for c in &sent {
                let Some(want) = &c.want else { continue };
                if want.is_empty() {
                    continue;
                }
                let mut got = Vec::new();
                loop {
                    let m = h
                        .recv_sync(&format!("response for {}", show(&c.cmd)))
                        .what(format!("{} response bytes expected, {} came", want.len(), got.len()))?;
                    ensure!(
                        m.typ == t::DATA || m.typ == t::DATA_END,
                        "expected the response for {}, got {m}",
                        show(&c.cmd)
                    );
                    ensure!(
                        m.data.len() <= announced,
                        "message of {} bytes sent to a client which announced {announced}",
                        m.data.len()
                    );
                    ensure!(
                        m.par == c.mid,
                        "response for {} carries message id {:#x}, the end message had {:#x}",
                        show(&c.cmd),
                        m.par,
                        c.mid
                    );
                    got.extend_from_slice(&m.data);
                    ctx.count("response messages", 1);
                    if m.typ == t::DATA_END {
                        break;
                    }
                    ensure!(
                        got.len() <= want.len(),
                        "response for {} {}",
                        show(&c.cmd),
                        diff(&got, want)
                    );
                }
                ensure!(
                    got == *want,
                    "response for {} {}",
                    show(&c.cmd),
                    diff(&got, want)
                );
            }
            Ok(())
        })();
        if res.is_err() {
            let _ = h.sync.shutdown(std::net::Shutdown::Both);
            let _ = w.join();
            return res.map(|_| expect);
        }
        w.join().unwrap()?;
        ctx.count("commands", sent.len() as u64);
    }
    Ok(expect)
}

fn make_setup(rng: &mut Rng) -> Setup {
    Setup {
        maxmsg: *rng.pick(&[16, 64, 100, 256, 1000, 4096, 65536, 1 << 20]),
        idn: if rng.chance(1, 2) {
            Some(b"ACME,Short,1,2".to_vec())
        } else {
            None
        },
        big: *rng.pick(&[10, 1000, 5000, 20000, 100_000]),
    }
}

fn run_setup(u: &Unit, s: &Setup) -> R<net::Srv> {
    let big = s.big;
    u.log.set_responder(move |c| response_of(c, big));
    let srq = StatusSender::new();
    let s = s.clone();
    hislip::start(
        &[("hislip0", u)],
        move |c| {
            let c = c.max_message_size(s.maxmsg as u64);
            match &s.idn {
                Some(i) => c.short_idn(i),
                None => c,
            }
        },
        &srq,
    )
}

fn compare(got: &[Ev], want: &[Ev]) -> R {
    if got != want {
        let i = got
            .iter()
            .zip(want)
            .position(|(a, b)| a != b)
            .unwrap_or(got.len().min(want.len()));
        let f = |e: Option<&Ev>| match e {
            Some(Ev::Exec(c)) => format!("command {}", show(c)),
            Some(e) => format!("{e:?}"),
            None => "nothing".into(),
        };
        return viol(format!(
            "device saw {} as effect number {i} instead of {} ({} effects, {} expected)",
            f(got.get(i)),
            f(want.get(i)),
            got.len(),
            want.len()
        ));
    }
    Ok(())
}

fn single_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let s = make_setup(rng);
    let u = Unit::new();
    let srv = run_setup(&u, &s)?;
    let mut h = Hs::open_v(srv.addr, "", *rng.pick(&[0x0100, 0x0101, 0x0200]))?;
    let want = session_script(ctx, rng, &mut h, &s, "A", true)?;
    compare(&u.log.effects_since(0), &want)?;
    ctx.eval(hash_of(&want), want.len() > 2, || {
        format!(
            "server max {}, short idn {}, effects {:?}",
            s.maxmsg,
            s.idn.is_some(),
            want.iter().take(4).collect::<Vec<_>>()
        )
    });
    Ok(())
}

fn multi_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let s = make_setup(rng);
    let u = Unit::new();
    let srv = run_setup(&u, &s)?;
    let n = rng.range(2, 4);
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let res: Vec<R<Vec<Ev>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(i, seed)| {
                let (s, addr) = (&s, srv.addr);
                sc.spawn(move || {
                    let mut rng = Rng::new(*seed);
                    let mut h = Hs::open(addr, "")?;
                    session_script(ctx, &mut rng, &mut h, s, &format!("S{i}"), false)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut wants = Vec::new();
    for r in res {
        wants.push(r?);
    }
    // Is the device's history an interleaving of the sessions' commands?
    let got = u.log.effects_since(0);
    let total: usize = wants.iter().map(|w| w.len()).sum();
    ensure!(
        got.len() == total,
        "{} sessions sent {total} commands, the device executed {}",
        n,
        got.len()
    );
    let mut states: std::collections::BTreeSet<Vec<usize>> = [vec![0; n]].into();
    for (k, e) in got.iter().enumerate() {
        let mut next = std::collections::BTreeSet::new();
        for st in &states {
            for i in 0..n {
                if wants[i].get(st[i]) == Some(e) {
                    let mut x = st.clone();
                    x[i] += 1;
                    next.insert(x);
                }
            }
        }
        if next.len() > 5000 {
            return Ok(());
        }
        ensure!(
            !next.is_empty(),
            "effect {k} {e:?} of the device is no session's next command"
        );
        states = next;
    }
    ctx.seen("session interleavings", hash_of(&format!("{got:?}")));
    ctx.eval(hash_of(&format!("{got:?}")), true, || {
        format!("{n} sessions, {total} commands interleaved")
    });
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("random command/trigger streams cut in data messages and segments, random announced sizes and responses, one or several sessions; device log and received messages compared with the commands sent. Non-trivial: more than two effects, distinct effect lists");
    ctx.cases_par("single", ctx.n(700, 30000), if ctx.thorough { 400 } else { 30 }, 6, |r, _| single_case(ctx, r));
    ctx.cases_par("multi", ctx.n(120, 6000), if ctx.thorough { 200 } else { 20 }, 2, |r, _| multi_case(ctx, r));
    ctx.cases("long", 1, 60, |_, _| super::long::queries(ctx));
    ctx.cases("big", 1, 60, |_, _| super::long::big(ctx, "hislip"));
}

// ---------------------------------------------------------------- C11

#[derive(Debug, Clone, PartialEq)]
enum Bad {
    Unknown(u8),
    Vendor(u8),
    Unexpected(u8),
    Oversize(u8, usize),
}

fn unexpected_sync(version: u16) -> Vec<u8> {
    (0..39u8)
        .filter(|x| {
            ![
                t::FATAL,
                t::ERROR,
                t::DATA,
                t::DATA_END,
                t::TRIGGER,
                t::GET_DESCRIPTORS,
            ]
            .contains(x)
                // Asking for encryption or authentication ends a 2.0 session
                && !(version >= 0x0200 && [28, 31, 34, 36, 37].contains(x))
        })
        .collect()
}

fn unexpected_async(version: u16) -> Vec<u8> {
    (0..39u8)
        .filter(|x| {
            ![
                t::FATAL,
                t::ERROR,
                t::ASYNC_LOCK,
                t::ASYNC_REMOTE_LOCAL,
                t::ASYNC_MAX_MSG,
                t::ASYNC_DEVICE_CLEAR,
                t::ASYNC_STATUS_QUERY,
                t::ASYNC_LOCK_INFO,
            ]
            .contains(x)
                && !(version >= 0x0200 && [29, 32].contains(x))
        })
        .collect()
}

fn make_bad(rng: &mut Rng, maxmsg: usize, unexpected: &[u8]) -> (Bad, Vec<u8>) {
    // Payloads which would do harm if taken for messages
    let mut smuggle = Vec::new();
    if rng.chance(1, 3) {
        let k = rng.below(20);
        smuggle.extend(rng.bytes(k));
    }
    for _ in 0..rng.below(4) {
        smuggle.extend(match rng.below(4) {
            0 => encode(t::DATA_END, 0, 2, b"SMUGGLED?"),
            1 => encode(t::TRIGGER, 0, 2, b""),
            2 => encode(t::ASYNC_LOCK, 1, 0, b""),
            _ => encode(t::ASYNC_REMOTE_LOCAL, 5, 0, b""),
        });
    }
    let bad = match rng.below(4) {
        0 => Bad::Unknown(rng.range(39, 127) as u8),
        1 => Bad::Vendor(rng.range(128, 255) as u8),
        2 => Bad::Unexpected(*rng.pick(unexpected)),
        _ => {
            let n = match rng.below(4) {
                0 => maxmsg + 1,
                1 => maxmsg + rng.range(1, 40),
                2 => maxmsg + rng.range(1, 5000),
                _ => maxmsg * 2 + rng.range(0, 100_000),
            };
            let typ = *rng.pick(&[
                t::DATA,
                t::DATA_END,
                t::DATA_END,
                t::TRIGGER,
                t::ASYNC_LOCK,
                t::ASYNC_REMOTE_LOCAL,
                t::ASYNC_MAX_MSG,
                50,
                200,
            ]);
            Bad::Oversize(typ, n)
        }
    };
    let (typ, n) = match &bad {
        Bad::Unknown(x) | Bad::Vendor(x) | Bad::Unexpected(x) => (*x, smuggle.len().min(maxmsg)),
        Bad::Oversize(x, n) => (*x, *n),
    };
    while smuggle.len() < n {
        if smuggle.is_empty() {
            smuggle = b"xyz".to_vec();
        }
        let l = smuggle.len().min(n - smuggle.len());
        smuggle.extend_from_within(..l);
    }
    smuggle.truncate(n);
    let ctl = *rng.pick(&[0, 1, 5, 255]);
    let msg = encode(typ, ctl, rng.u32(), &smuggle);
    (bad, msg)
}

fn bad_sync_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let maxmsg = *rng.pick(&[8, 16, 40, 256, 1000, 65536]);
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_message_size(maxmsg as u64), &srq)?;
    let version = *rng.pick(&[0x0100, 0x0101, 0x0200]);
    let mut h = Hs::open_v(srv.addr, "", version)?;
    let got = h.max_msg(1 << 20)?;
    ensure!(got == maxmsg as u64, "server with maximum message size {maxmsg} reports {got}");
    let un = unexpected_sync(version);
    enum Want {
        Resp(Vec<u8>, u32),
        Error(Bad),
    }
    let mut stream = Vec::new();
    let mut wants = Vec::new();
    let mut effects = Vec::new();
    let mut bads = Vec::new();
    let n = rng.range(3, 14);
    let mut part: Vec<u8> = Vec::new();
    for k in 0..n {
        if rng.chance(1, 2) && k + 1 < n {
            let (bad, m) = make_bad(rng, maxmsg, &un);
            stream.extend(m);
            bads.push(bad.clone());
            wants.push(Want::Error(bad));
            continue;
        }
        match rng.below(6) {
            // Part of a command, a bad message may come before the rest
            0 if k + 1 < n => {
                let k = rng.range(0, 6.min(maxmsg));
                let p = rng.bytes(k);
                stream.extend(encode(t::DATA, 0, rng.u32(), &p));
                part.extend(p);
            }
            1 if k + 1 < n => {
                stream.extend(encode(t::TRIGGER, 0, rng.u32(), b""));
                effects.push(Ev::Trigger("Bus".into()));
            }
            // A message of exactly the maximum size
            2 if k + 1 < n => {
                let mut c = rng.bytes(maxmsg);
                c[0] = b'M';
                c[maxmsg / 2] = b'?';
                let mid = rng.u32();
                stream.extend(encode(t::DATA_END, 0, mid, &c));
                part.extend(c);
                let cmd = std::mem::take(&mut part);
                wants.push(Want::Resp(crate::dev::std_response(&cmd).unwrap(), mid));
                effects.push(Ev::Exec(cmd));
            }
            _ => {
                let c = format!("Q{k}?").into_bytes();
                let mid = rng.u32();
                stream.extend(encode(t::DATA_END, 0, mid, &c));
                part.extend(c);
                let cmd = std::mem::take(&mut part);
                wants.push(match crate::dev::std_response(&cmd) {
                    Some(r) if !r.is_empty() => Want::Resp(r, mid),
                    _ => return Ok(()),
                });
                effects.push(Ev::Exec(cmd));
            }
        }
    }
    let slow = rng.chance(1, 3);
    let pieces = if slow { rng.split(&stream, 12) } else { vec![stream] };
    let w = write_pieces(&h.sync, pieces, slow, rng.next());
    let res = (|| -> R {
        for want in &wants {
            match want {
                Want::Resp(r, mid) => {
                    let what = format!("query after bad messages {bads:?} (maximum {maxmsg})");
                    let (p, id) = h.response(&what)?;
                    let got = p.concat();
                    ensure!(id == *mid, "{what}: response has message id {id:#x} not {mid:#x}");
                    ensure!(got == *r, "{what}: response {}", diff(&got, r));
                }
                Want::Error(b) => {
                    let m = h.recv_sync(&format!("error for {b:?} (maximum {maxmsg})"))?;
                    ensure!(
                        m.typ == t::ERROR,
                        "{b:?} (maximum {maxmsg}) answered with {m} instead of an error; all bad messages: {bads:?}"
                    );
                    ctx.count("errors on the synchronous channel", 1);
                }
            }
        }
        Ok(())
    })();
    if let Err(e) = res {
        let _ = h.sync.shutdown(std::net::Shutdown::Both);
        let _ = w.join();
        return Err(e);
    }
    w.join().unwrap()?;
    compare(&u.log.effects_since(0), &effects).what(format!("bad messages {bads:?}"))?;
    ensure!(
        u.lock_state() == (false, 0),
        "bad messages {bads:?} took a lock: {:?}",
        u.lock_state()
    );
    // The other channel is not disturbed
    ensure!(h.lock_info()? == (false, 0), "lock info after {bads:?}");
    for b in &bads {
        ctx.seen("bad messages", hash_of(&format!("{b:?}")));
    }
    ctx.eval(hash_of(&format!("{bads:?}")), !bads.is_empty(), || {
        format!("sync channel, maximum {maxmsg}, version {version:#x}: {bads:?}")
    });
    Ok(())
}

fn bad_async_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let maxmsg = *rng.pick(&[16, 17, 40, 256, 1000, 65536]);
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_message_size(maxmsg as u64), &srq)?;
    let version = *rng.pick(&[0x0100, 0x0101, 0x0200]);
    let mut h = Hs::open_v(srv.addr, "", version)?;
    let un = unexpected_async(version);
    let mut stream = Vec::new();
    let mut wants: Vec<(Vec<u8>, Option<u8>, u32, String)> = Vec::new();
    let mut bads = Vec::new();
    let n = rng.range(3, 12);
    let mut locked = false;
    for k in 0..n {
        if rng.chance(1, 2) && k + 1 < n {
            let (bad, m) = make_bad(rng, maxmsg, &un);
            stream.extend(m);
            bads.push(bad.clone());
            wants.push((vec![t::ERROR], None, 0, format!("{bad:?}")));
            continue;
        }
        match rng.below(5) {
            0 => {
                stream.extend(encode(t::ASYNC_LOCK_INFO, 0, 0, b""));
                wants.push((
                    vec![t::ASYNC_LOCK_INFO_RESPONSE],
                    Some(locked as u8),
                    0,
                    "lock info".into(),
                ));
            }
            1 => {
                stream.extend(encode(t::ASYNC_LOCK, !locked as u8, 0, b""));
                wants.push((vec![t::ASYNC_LOCK_RESPONSE], Some(1), 0, "lock/release".into()));
                locked = !locked;
            }
            2 => {
                stream.extend(encode(t::ASYNC_MAX_MSG, 0, 0, &4096u64.to_be_bytes()));
                wants.push((
                    vec![t::ASYNC_MAX_MSG_RESPONSE],
                    Some(0),
                    0,
                    "maximum message size".into(),
                ));
            }
            _ => {
                stream.extend(encode(t::ASYNC_STATUS_QUERY, 0, 0, b""));
                wants.push((vec![t::ASYNC_STATUS_RESPONSE], Some(0x21), 0, "status query".into()));
            }
        }
    }
    u.log.set_status(0x21);
    let slow = rng.chance(1, 3);
    let pieces = if slow { rng.split(&stream, 12) } else { vec![stream] };
    let w = write_pieces(&h.asy, pieces, slow, rng.next());
    let res = (|| -> R {
        for (typ, ctl, _, what) in &wants {
            let m = h.recv_async(&format!("answer to {what} (maximum {maxmsg}, bad {bads:?})"))?;
            let c_ok = ctl.map_or(true, |c| {
                if m.typ == t::ASYNC_STATUS_RESPONSE {
                    m.ctl & 0xef == c
                } else {
                    m.ctl == c
                }
            });
            ensure!(
                typ.contains(&m.typ) && c_ok,
                "{what} answered with {m} (maximum {maxmsg}, bad {bads:?})"
            );
            if m.typ == t::ASYNC_MAX_MSG_RESPONSE {
                ensure!(
                    m.data == (maxmsg as u64).to_be_bytes(),
                    "server with maximum {maxmsg} reports {m}"
                );
            }
            if m.typ == t::ERROR {
                ctx.count("errors on the asynchronous channel", 1);
            }
        }
        Ok(())
    })();
    if let Err(e) = res {
        let _ = h.asy.shutdown(std::net::Shutdown::Both);
        let _ = w.join();
        return Err(e);
    }
    w.join().unwrap()?;
    let info = h.lock_info()?;
    ensure!(info == (locked, 0), "lock info {info:?} after bad messages {bads:?}, locked={locked}");
    h.sync_is_clean("after")?;
    let got: Vec<Ev> = u
        .log
        .effects_since(0)
        .into_iter()
        .filter(|e| *e != Ev::Remote(true))
        .collect();
    compare(&got, &[Ev::Exec(b"CLEAN after?".to_vec())]).what(format!("bad messages {bads:?}"))?;
    // A going to remote belongs to a status query, no lockout or trigger came from a payload
    for b in &bads {
        ctx.seen("bad messages", hash_of(&format!("a{b:?}")));
    }
    ctx.eval(hash_of(&format!("a{bads:?}")), !bads.is_empty(), || {
        format!("async channel, maximum {maxmsg}, version {version:#x}: {bads:?}")
    });
    Ok(())
}

/// Wrong prologue
fn prologue_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let mut h = Hs::open(srv.addr, "")?;
    h.sync_is_clean("1")?;
    let mut hd = raw_header(*rng.pick(&[t::DATA_END, t::TRIGGER, t::ASYNC_LOCK, 99]), 1, 0, 0);
    let pos = rng.below(2);
    loop {
        let b = rng.u8();
        if b != hd[pos] {
            hd[pos] = b;
            break;
        }
    }
    if rng.chance(1, 4) {
        hd[1 - pos] = rng.u8();
        if &hd[..2] == b"HS" {
            hd[0] = b'h';
        }
    }
    let follow = rng.chance(1, 2);
    let where_ = rng.below(3);
    let n0 = u.log.len();
    let mut bytes = hd.clone();
    if follow {
        // Must not be acted upon any more
        bytes.extend(encode(t::DATA_END, 0, 2, b"AFTER?"));
        bytes.extend(encode(t::ASYNC_LOCK, 1, 0, b""));
    }
    let mut fresh;
    let s = match where_ {
        0 => &mut h.sync,
        1 => &mut h.asy,
        _ => {
            fresh = net::connect(srv.addr)?;
            &mut fresh
        }
    };
    net::send(s, &bytes)?;
    if follow {
        // The reset following unread data may overtake the error message
        let mut all = Vec::new();
        let mut b = [0u8; 512];
        let t0 = Instant::now();
        loop {
            use std::io::Read;
            match s.read(&mut b) {
                Ok(0) => break,
                Ok(k) => all.extend_from_slice(&b[..k]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                    return late("connection with a wrong prologue was not closed".to_string())
                }
                Err(_) => break,
            }
            if t0.elapsed() > DEADLINE {
                return late("connection with a wrong prologue was not closed".to_string());
            }
        }
        ensure!(
            all.is_empty() || all.get(2) == Some(&t::FATAL),
            "wrong prologue {:?} answered with {}",
            &hd[..2],
            show(&all)
        );
    } else {
        super::hs_session::fatal_close(s, &format!("prologue {:?}", &hd[..2]))?;
    }
    let mut h2 = Hs::open(srv.addr, "")?;
    h2.sync_is_clean("2")?;
    compare(&u.log.effects_since(n0), &[Ev::Exec(b"CLEAN 2?".to_vec())])
        .what("after a wrong prologue")?;
    ensure!(u.lock_state() == (false, 0), "lock taken after a wrong prologue");
    ctx.count("wrong prologues", 1);
    ctx.eval(hash_of(&(&hd, where_, follow)), true, || {
        format!("prologue {:?} channel {where_} followed by more: {follow}", &hd[..2])
    });
    Ok(())
}

/// Messages cut off by the end of the stream
fn cut_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_message_size(100_000), &srq)?;
    let how = *rng.pick(&LEAVES);
    let on_async = rng.chance(1, 2);
    let phase0 = rng.chance(1, 8);
    let n = *rng.pick(&[1, 2, 8, 10, 300, 5000]);
    let payload: Vec<u8> = (0..n).map(|i| b"ABC?"[i % 4]).collect();
    let msg = if phase0 {
        encode(t::INITIALIZE, 0, 0x0200_0000, b"hislip0")
    } else if on_async {
        match rng.below(4) {
            0 => encode(t::ASYNC_LOCK, 1, 0, &payload),
            1 => encode(t::ASYNC_REMOTE_LOCAL, 5, 0, &payload),
            2 => encode(t::ASYNC_STATUS_QUERY, 0, 0, &payload),
            _ => encode(t::ASYNC_MAX_MSG, 0, 0, &1u64.to_be_bytes()),
        }
    } else {
        match rng.below(4) {
            0 => encode(t::TRIGGER, 0, 0, &payload),
            1 => encode(t::DATA, 0, 0, &payload),
            _ => encode(t::DATA_END, 0, 0, &payload),
        }
    };
    let cut = match rng.below(4) {
        0 => rng.range(1, 15),
        1 => 16,
        2 => msg.len() - 1,
        _ => rng.range(1, msg.len() - 1),
    };
    let part = &msg[..cut];
    if phase0 {
        let mut s = net::connect(srv.addr)?;
        net::send(&mut s, part)?;
        if let Some(mut s) = net::leave(s, how) {
            let rest = net::read_all(&mut s, "cut initialize")?;
            ensure!(rest.is_empty(), "cut initialize answered with {}", show(&rest));
        }
    } else {
        let mut h = Hs::open(srv.addr, "")?;
        if rng.chance(1, 2) {
            h.sync_is_clean("0")?;
        }
        let s = if on_async { &mut h.asy } else { &mut h.sync };
        for p in rng.split(part, 3) {
            net::send(s, &p)?;
        }
        if rng.chance(1, 2) {
            std::thread::sleep(Duration::from_millis(rng.below(8) as u64));
        }
        let Hs { sync, asy, .. } = h;
        let (a, b) = if on_async { (asy, sync) } else { (sync, asy) };
        if let Some(mut s) = net::leave(a, how) {
            let rest = net::read_all(&mut s, "cut message")?;
            ensure!(
                rest.is_empty(),
                "message {} cut to {cut} bytes was answered with {}",
                show(&msg[..msg.len().min(20)]),
                show(&rest)
            );
        }
        drop(b);
    }
    let mut h = Hs::open(srv.addr, "")?;
    h.sync_is_clean("1")?;
    // The cut message would have been acted upon by now when it was going to be (same device, same executor)
    if how != Leave::Half {
        std::thread::sleep(Duration::from_millis(3));
    }
    let eff: Vec<Ev> = u
        .log
        .effects_since(0)
        .into_iter()
        .filter(|e| !matches!(e, Ev::Exec(c) if c.starts_with(b"CLEAN")))
        .collect();
    ensure!(
        eff.is_empty(),
        "message {} of {} bytes cut to {cut} bytes had the effect {:?}",
        show(&msg[..msg.len().min(20)]),
        msg.len(),
        eff
    );
    ensure!(
        !u.log.all().contains(&Ev::Status),
        "status read by a cut message"
    );
    ensure!(u.lock_state() == (false, 0), "cut message took a lock");
    ctx.count("cut messages", 1);
    ctx.eval(hash_of(&(&msg, cut, how as u8)), true, || {
        format!("type {} of {} bytes cut to {cut}, {how:?}", msg[2], msg.len())
    });
    Ok(())
}

/// A payload of which much more is announced than arrives: everything that follows belongs to it
fn huge_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let max = *rng.pick(&[16u64, 100, 4096, 1 << 20]);
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_message_size(max), &srq)?;
    let mut h = Hs::open(srv.addr, "")?;
    let on_async = rng.chance(1, 2);
    let k = rng.below(40) as u64;
    let len = match rng.below(6) {
        0 => (1u64 << 32) + k,
        1 => (1u64 << 33) + k,
        2 => (1u64 << 63) + k,
        3 => u64::MAX - k,
        4 => (1u64 << 48) + k,
        _ => (1u64 << 31) + k,
    };
    let typ = if on_async {
        *rng.pick(&[t::ASYNC_LOCK, t::ASYNC_STATUS_QUERY, t::ASYNC_MAX_MSG, 99, 200])
    } else {
        *rng.pick(&[t::DATA_END, t::DATA, t::TRIGGER, 99, 200])
    };
    let mut b = encode(typ, 1, 0, b"");
    b[8..16].copy_from_slice(&len.to_be_bytes());
    // As much as would be left if the length was cut to fewer bits, then messages
    b.extend((0..k).map(|i| b"HS?A"[i as usize % 4]));
    for _ in 0..rng.range(1, 5) {
        b.extend(if on_async {
            match rng.below(3) {
                0 => encode(t::ASYNC_LOCK, 1, 0, b""),
                1 => encode(t::ASYNC_REMOTE_LOCAL, 5, 0, b""),
                _ => encode(t::ASYNC_STATUS_QUERY, 0, 0, b""),
            }
        } else {
            match rng.below(3) {
                0 => encode(t::TRIGGER, 0, 0xffff_ff00, b""),
                _ => encode(t::DATA_END, 0, 0xffff_ff00, b"INSIDE?"),
            }
        });
    }
    let s = if on_async { &mut h.asy } else { &mut h.sync };
    for p in rng.split(&b, 3) {
        // The server may already have hung up on it
        if s.write_all(&p).is_err() {
            break;
        }
    }
    s.set_read_timeout(Some(Duration::from_millis(150))).ok();
    let mut got = Vec::new();
    let mut buf = [0u8; 512];
    loop {
        match std::io::Read::read(s, &mut buf) {
            r @ (Ok(0) | Err(_)) => {
                let waiting = matches!(&r, Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut));
                ensure!(
                    waiting || !got.is_empty(),
                    "payload of {len} bytes announced: the connection was closed without a word after {} of them",
                    b.len() - 16
                );
                break;
            }
            Ok(n) => got.extend_from_slice(&buf[..n]),
        }
    }
    // It may be refused at once
    ensure!(
        got.is_empty()
            || got.len() >= 16
                && (got[2] == t::FATAL || got[2] == t::ERROR)
                && got.len() as u64 == 16 + u64::from_be_bytes(got[8..16].try_into().unwrap()),
        "payload of {len} bytes announced, {} sent, answered with {}",
        b.len() - 16,
        show(&got)
    );
    drop(h);
    let mut h = Hs::open(srv.addr, "")?;
    h.sync_is_clean("1")?;
    let eff: Vec<Ev> = u
        .log
        .effects_since(0)
        .into_iter()
        .filter(|e| !matches!(e, Ev::Exec(c) if c.starts_with(b"CLEAN")))
        .collect();
    ensure!(
        eff.is_empty() && !u.log.all().contains(&Ev::Status) && u.lock_state() == (false, 0),
        "{} bytes of the payload of a message of {len} bytes had the effect {eff:?}, lock {:?}",
        b.len() - 16,
        u.lock_state()
    );
    ctx.count("huge announcements", 1);
    ctx.eval(hash_of(&(len, typ, max)), true, || format!("type {typ}, {len} bytes announced, {max} allowed"));
    Ok(())
}

/// More than 4 GiB are discarded and the next message is understood
fn discard_4g(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_message_size(1 << 20), &srq)?;
    let mut h = Hs::open(srv.addr, "")?;
    let len = (1u64 << 32) + rng.below(100_000) as u64;
    let mut b = encode(t::DATA_END, 0, 0, b"");
    b[8..16].copy_from_slice(&len.to_be_bytes());
    net::send(&mut h.sync, &b)?;
    let chunk = vec![b'A'; 1 << 20];
    let mut left = len;
    while left > 0 {
        let n = left.min(chunk.len() as u64) as usize;
        net::send(&mut h.sync, &chunk[..n])?;
        left -= n as u64;
        beat();
    }
    let m = hislip::recv(&mut h.sync, "too large message")?;
    ensure!(m.typ == t::ERROR, "payload of {len} bytes answered with {m}");
    h.sync_is_clean("1")?;
    ctx.count("bytes discarded", len);
    ctx.eval(len, true, || format!("{len} bytes discarded"));
    Ok(())
}

fn type_codes(ctx: &Ctx) -> R {
    let mut known = 0;
    let mut seen: Vec<(u8, MessageType)> = Vec::new();
    for x in 0..=255u8 {
        if let Some(m) = MessageType::from_message_type(x) {
            ensure!(
                m.get_message_type() == x,
                "message type code {x} decodes to {m:?} which encodes to {}",
                m.get_message_type()
            );
            if let Some((y, _)) = seen.iter().find(|(_, o)| *o == m) {
                return viol(format!("codes {x} and {y} both decode to {m:?}"));
            }
            seen.push((x, m));
            known += 1;
        }
        ensure!(
            MessageType::from_message_type(x).is_some() == !(39..128).contains(&x),
            "message type code {x} is {:?}",
            MessageType::from_message_type(x)
        );
        ctx.eval(1000 + x as u64, true, || format!("type code {x}"));
    }
    // IVI-6.1 table 4
    use MessageType::*;
    let table = [
        (0, Initialize),
        (1, InitializeResponse),
        (2, FatalError),
        (3, Error),
        (4, AsyncLock),
        (5, AsyncLockResponse),
        (6, Data),
        (7, DataEnd),
        (8, DeviceClearComplete),
        (9, DeviceClearAcknowledge),
        (10, AsyncRemoteLocalControl),
        (11, AsyncRemoteLocalResponse),
        (12, Trigger),
        (13, Interrupted),
        (14, AsyncInterrupted),
        (15, AsyncMaximumMessageSize),
        (16, AsyncMaximumMessageSizeResponse),
        (17, AsyncInitialize),
        (18, AsyncInitializeResponse),
        (19, AsyncDeviceClear),
        (20, AsyncServiceRequest),
        (21, AsyncStatusQuery),
        (22, AsyncStatusResponse),
        (23, AsyncDeviceClearAcknowledge),
        (24, AsyncLockInfo),
        (25, AsyncLockInfoResponse),
        (26, GetDescriptors),
        (27, GetDescriptorsResponse),
        (28, StartTLS),
        (29, AsyncStartTLS),
        (30, AsyncStartTLSResponse),
        (31, EndTLS),
        (32, AsyncEndTLS),
        (33, AsyncEndTLSResponse),
        (34, GetSaslMechanismList),
        (35, GetSaslMechanismListResponse),
        (36, AuthenticationStart),
        (37, AuthenticationExchange),
        (38, AuthenticationResult),
    ];
    for (c, m) in table {
        ensure!(
            m.get_message_type() == c && MessageType::from_message_type(c) == Some(m),
            "message type {m:?} has code {} instead of {c}",
            m.get_message_type()
        );
    }
    for c in 128..=255u8 {
        ensure!(
            VendorSpecific(c).get_message_type() == c,
            "vendor type {c} encodes to {}",
            VendorSpecific(c).get_message_type()
        );
    }
    ctx.count("type codes", known);
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("streams of good and bad messages (unknown, vendor, unexpected types, oversized payloads made of messages) on both channels, wrong prologues, messages cut at every kind of place, all 256 type codes. Non-trivial: at least one bad message, distinct by the bad messages");
    ctx.cases("codes", 1, 10, |_, _| type_codes(ctx));
    ctx.cases_par("sync", ctx.n(1200, 30000), if ctx.thorough { 250 } else { 20 }, 6, |r, _| bad_sync_case(ctx, r));
    ctx.cases_par("async", ctx.n(1000, 30000), if ctx.thorough { 250 } else { 20 }, 6, |r, _| bad_async_case(ctx, r));
    ctx.cases_par("prologue", ctx.n(300, 6000), 60, 6, |r, _| prologue_case(ctx, r));
    ctx.cases_par("huge", ctx.n(60, 1500), 60, 6, |r, _| huge_case(ctx, r));
    ctx.cases("discard", ctx.n(1, 4), 300, |r, _| discard_4g(ctx, r));
    ctx.cases_par("cut", ctx.n(700, 20000), if ctx.thorough { 150 } else { 20 }, 6, |r, _| cut_case(ctx, r));
}

// ---------------------------------------------------------------- C12

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Situation {
    Idle,
    Partial,
    Pipelined,
    Waiting,
    Sending,
    SendingStalled,
    Busy,
    Held,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
enum Locks {
    None,
    OwnExcl,
    OwnShared,
    BothShared,
    OtherExcl,
    OtherShared,
}

fn clear_round(ctx: &Ctx, rng: &mut Rng, u: &Unit, a: &mut Hs, b: &mut Hs, round: usize, trace: &mut String) -> R {
    let situation = *rng.pick(&[
        Situation::Idle,
        Situation::Partial,
        Situation::Partial,
        Situation::Pipelined,
        Situation::Waiting,
        Situation::Waiting,
        Situation::Sending,
        Situation::SendingStalled,
        Situation::Busy,
        Situation::Held,
    ]);
    let locks = if situation == Situation::Waiting {
        *rng.pick(&[Locks::OtherExcl, Locks::OtherShared])
    } else if matches!(situation, Situation::Idle | Situation::Partial) {
        *rng.pick(&[
            Locks::None,
            Locks::None,
            Locks::OwnExcl,
            Locks::OwnShared,
            Locks::BothShared,
            Locks::OtherExcl,
            Locks::OtherShared,
        ])
    } else {
        *rng.pick(&[Locks::None, Locks::None, Locks::OwnExcl, Locks::OwnShared, Locks::BothShared])
    };
    let permitted = !matches!(locks, Locks::OtherExcl | Locks::OtherShared);
    trace.push_str(&format!("{situation:?}/{locks:?}; "));
    let blocked_partial = situation == Situation::Partial && !permitted;
    // A part sent while permitted, the lock taken afterwards
    let mut head = b"PARTIAL ".to_vec();
    head.extend_from_slice(format!("{round}").as_bytes());
    if blocked_partial && rng.chance(1, 2) {
        let mid = a.next_mid();
        a.send_sync(t::DATA, 0, mid, &head)?;
        std::thread::sleep(Duration::from_millis(3));
    }
    let ok = |r: u8, w: &str| -> R {
        ensure!(r == 1, "{w} answered {r}");
        Ok(())
    };
    match locks {
        Locks::None => {}
        Locks::OwnExcl => ok(a.lock(0, b"")?, "free exclusive lock")?,
        Locks::OwnShared => ok(a.lock(0, b"k")?, "free shared lock")?,
        Locks::BothShared => {
            ok(a.lock(0, b"k")?, "free shared lock")?;
            ok(b.lock(0, b"k")?, "matching shared lock")?;
        }
        Locks::OtherExcl => ok(b.lock(0, b"")?, "free exclusive lock")?,
        Locks::OtherShared => ok(b.lock(0, b"k")?, "free shared lock")?,
    }
    let n0 = u.log.len();
    let mut holder = None;
    // Commands sent before the clear: may be executed (in order) until it completes
    let mut before: Vec<Vec<u8>> = Vec::new();
    let mut must_not: Vec<Vec<u8>> = Vec::new();
    let mut responses: Vec<(u32, Vec<u8>)> = Vec::new();
    match situation {
        Situation::Idle => {}
        Situation::Partial => {
            for i in 0..rng.range(1, 3) {
                let mid = a.next_mid();
                let d = if i == 0 { head.clone() } else { b"more".to_vec() };
                a.send_sync(t::DATA, 0, mid, &d)?;
            }
        }
        Situation::Pipelined => {
            let mut s = Vec::new();
            for i in 0..rng.range(1, 8) {
                let q = rng.chance(1, 2);
                let c = format!("P {round} {i}{}", if q { "?" } else { "" }).into_bytes();
                let mid = a.next_mid();
                if let Some(r) = crate::dev::std_response(&c) {
                    responses.push((mid, r));
                }
                s.extend(encode(t::DATA_END, 0, mid, &c));
                before.push(c);
            }
            if rng.chance(1, 2) {
                s.extend(encode(t::DATA, 0, a.next_mid(), &head));
            }
            net::send(&mut a.sync, &s)?;
        }
        Situation::Waiting => {
            for i in 0..rng.range(1, 3) {
                let c = format!("W {round} {i}?").into_bytes();
                a.cmd(&c)?;
                must_not.push(c);
            }
            if rng.chance(1, 3) {
                let mid = a.next_mid();
                a.send_sync(t::TRIGGER, 0, mid, b"")?;
            }
        }
        Situation::Sending | Situation::SendingStalled => {
            let n = if situation == Situation::Sending {
                rng.range(1000, 200_000)
            } else {
                rng.range(6_000_000, 12_000_000)
            };
            a.max_msg(*rng.pick(&[256, 1000, 5000, 100_000, 1 << 30]))?;
            let c = format!("LEN{n}:{round}?").into_bytes();
            let mid = a.cmd(&c)?;
            responses.push((mid, crate::dev::std_response(&c).unwrap()));
            before.push(c.clone());
            if rng.chance(1, 2) && !u.log.wait_exec(DEADLINE, &c) {
                return late("command was not executed");
            }
        }
        Situation::Busy => {
            u.log.exec_us.store(30_000, std::sync::atomic::Ordering::Relaxed);
            let c = format!("B {round}?").into_bytes();
            let mid = a.cmd(&c)?;
            responses.push((mid, crate::dev::std_response(&c).unwrap()));
            before.push(c);
        }
        Situation::Held => {
            // Somebody else is using the device, as a client of another server of this device does
            let (tx, rx) = std::sync::mpsc::channel();
            let dev = u.dev.clone();
            let ms = rng.range(15, 40) as u64;
            holder = Some(std::thread::spawn(move || {
                let g = futures::executor::block_on(dev.lock());
                let _ = tx.send(());
                std::thread::sleep(Duration::from_millis(ms));
                drop(g);
            }));
            let _ = rx.recv();
            for i in 0..rng.below(3) {
                let c = format!("H {round} {i}?").into_bytes();
                let mid = a.cmd(&c)?;
                responses.push((mid, crate::dev::std_response(&c).unwrap()));
                before.push(c);
            }
        }
    }
    match rng.below(4) {
        0 => {}
        1 => std::thread::sleep(Duration::from_micros(rng.below(1500) as u64)),
        _ => std::thread::sleep(Duration::from_millis(rng.below(12) as u64)),
    }
    // Clear
    a.send_async(t::ASYNC_DEVICE_CLEAR, 0, 0, &[])?;
    let m = a.recv_async("acknowledge of device clear")?;
    ensure!(
        m.typ == t::ASYNC_DEVICE_CLEAR_ACK,
        "device clear answered with {m}: {trace}"
    );
    if rng.chance(1, 4) {
        std::thread::sleep(Duration::from_millis(rng.below(10) as u64));
    }
    // Whatever still comes before the completion is thrown away
    let mut stray_errors = 0;
    if rng.chance(1, 3) {
        let mut s = Vec::new();
        for i in 0..rng.range(1, 4) {
            s.extend(match rng.below(6) {
                0 => encode(t::DATA, 0, a.next_mid(), b"STRAY "),
                1 | 2 => encode(t::TRIGGER, 0, a.next_mid(), b""),
                3 => {
                    // An error each, if anything
                    stray_errors += 1;
                    encode(100, 0, a.next_mid(), b"STRAY?")
                }
                _ => encode(t::DATA_END, 0, a.next_mid(), format!("STRAY {i}?").as_bytes()),
            });
        }
        for p in rng.split(&s, 2) {
            net::send(&mut a.sync, &p)?;
        }
        ctx.count("clears with strays", 1);
        trace.push_str("strays; ");
    }
    let split = rng.chance(1, 3);
    let mode = rng.below(2) as u8;
    let extra = if rng.chance(1, 4) { rng.below(4) as u8 * 2 } else { 0 };
    let msg = encode(t::CLEAR_COMPLETE, mode | extra, 0, b"");
    if split {
        net::send(&mut a.sync, &msg[..7])?;
        std::thread::sleep(Duration::from_millis(2));
        net::send(&mut a.sync, &msg[7..])?;
    } else {
        net::send(&mut a.sync, &msg)?;
    }
    let mut data: Vec<Msg> = Vec::new();
    loop {
        let m = a.recv_sync("acknowledge of device clear complete").what(trace.to_string())?;
        if m.typ == t::CLEAR_ACK {
            ensure!(
                m.ctl == mode,
                "device clear complete asking for features {:#x} is acknowledged with {m}: {trace}",
                mode | extra
            );
            break;
        }
        if m.typ == t::ERROR && stray_errors > 0 {
            stray_errors -= 1;
            continue;
        }
        ensure!(
            m.typ == t::DATA || m.typ == t::DATA_END,
            "device clear complete answered with {m}: {trace}"
        );
        data.push(m);
    }
    u.log.exec_us.store(0, std::sync::atomic::Ordering::Relaxed);
    if let Some(t) = holder {
        let _ = t.join();
    }
    let n1 = u.log.len();
    // What came before the acknowledge belongs to earlier responses
    let mut it = data.iter().peekable();
    for (mid, want) in &responses {
        let mut got = Vec::new();
        let mut ended = false;
        while let Some(m) = it.peek() {
            if m.par != *mid || ended {
                break;
            }
            got.extend_from_slice(&m.data);
            ended = m.typ == t::DATA_END;
            it.next();
        }
        ensure!(
            want.starts_with(&got) && (!ended || got.len() == want.len()),
            "data sent while clearing is not the beginning of the response: {}: {trace}",
            diff(&got, want)
        );
        if !ended && !got.is_empty() {
            ctx.count("responses cut by a clear", 1);
        }
    }
    if let Some(m) = it.next() {
        return viol(format!("unexpected {m} before the acknowledge: {trace}"));
    }
    // Effects
    let eff: Vec<Ev> = u.log.since(n0)[..n1 - n0].iter().filter(|e| **e != Ev::Status).cloned().collect();
    let clears = eff.iter().filter(|e| **e == Ev::Clear).count();
    ensure!(
        clears == permitted as usize,
        "device cleared {clears} times by a device clear, session permitted: {permitted}: {trace}"
    );
    let execs: Vec<&Ev> = eff.iter().filter(|e| **e != Ev::Clear).collect();
    ensure!(
        execs.len() <= before.len()
            && execs
                .iter()
                .zip(&before)
                .all(|(e, c)| **e == Ev::Exec(c.clone())),
        "effects {eff:?} while clearing, commands were {before:?}: {trace}"
    );
    if permitted {
        ensure!(
            eff.last() == Some(&Ev::Clear),
            "after the device was cleared {eff:?} followed: {trace}"
        );
    }
    ctx.count(&format!("clears {situation:?}"), 1);
    // The session works normally afterwards
    let q = format!("NEXT {round}?").into_bytes();
    if permitted {
        a.check_query(&q).what(trace.clone())?;
    } else {
        let mid = a.cmd(&q)?;
        std::thread::sleep(Duration::from_millis(2));
        ensure!(
            !u.log.has_exec(&q),
            "command executed although the other session holds the lock: {trace}"
        );
        ensure!(b.release()? != 3, "release failed: {trace}");
        let (p, id) = a.response(&format!("response after the lock was released: {trace}"))?;
        ensure!(
            id == mid && Some(p.concat()) == crate::dev::std_response(&q),
            "response after clear is {}: {trace}",
            show(&p.concat())
        );
    }
    match locks {
        Locks::OwnExcl | Locks::OwnShared => {
            ensure!(a.release()? != 3, "lock lost by a device clear: {trace}")
        }
        Locks::BothShared => {
            ensure!(a.release()? == 2, "lock lost by a device clear: {trace}");
            ensure!(b.release()? == 2, "lock lost by a device clear: {trace}");
        }
        _ => {}
    }
    b.check_query(format!("OTHER {round}?").as_bytes())?;
    ensure!(a.lock_info()? == (false, 0), "lock info after clear: {trace}");
    let eff: Vec<Ev> = u.log.effects_since(n1);
    let want = [Ev::Exec(q), Ev::Exec(format!("OTHER {round}?").into_bytes())];
    ensure!(
        eff == want,
        "after the clear completed the device saw {eff:?} instead of {want:?} (sent before it: {before:?} {must_not:?}): {trace}"
    );
    ctx.seen("clear situations", hash_of(&(situation, locks)));
    Ok(())
}

fn clear_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let overlap = rng.chance(1, 2);
    let srv = hislip::start(
        &[("hislip0", &u)],
        |c| if overlap { c.prefer_overlap() } else { c.prefer_synchronized() },
        &srq,
    )?;
    let mut a = Hs::open(srv.addr, "")?;
    let mut b = Hs::open(srv.addr, "")?;
    let mut trace = String::new();
    let rounds = rng.range(1, 5);
    for round in 0..rounds {
        clear_round(ctx, rng, &u, &mut a, &mut b, round, &mut trace)?;
    }
    // Nothing is left over on either channel
    ensure!(a.status()? & 0xef == 0, "status after clears: {trace}");
    a.sync_is_clean("end")?;
    if let Err(x) = net::quiet(&mut a.asy, Duration::from_millis(1)) {
        return viol(format!("asynchronous channel got {} after clears: {trace}", show(&x)));
    }
    ctx.eval(hash_of(&trace), true, || trace.clone());
    Ok(())
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("sequences of device clears in random situations (idle, parts sent, commands pipelined, waiting for another session's lock, response being sent with the client reading or stalled, device busy with the command or used by somebody else) crossed with lock states. Non-trivial: every sequence, distinct by situations");
    ctx.cases_par("clear", ctx.n(500, 12000), if ctx.thorough { 500 } else { 35 }, 6, |r, _| clear_case(ctx, r));
    let _ = std::io::sink().write(b"");
    ctx.cases("long", 1, 60, |_, _| super::long::clears(ctx));
}
