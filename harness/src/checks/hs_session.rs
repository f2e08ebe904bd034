//! C09: HiSLIP session set-up.

use std::collections::BTreeMap;
use std::net::{SocketAddr, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;

use crate::dev::{std_response, Ev, Unit};
use crate::hislip::{self, eventually, init_par, t, Msg};
use crate::net::{self, Leave, LEAVES};
use crate::rt::*;

/// A fatal error and the end of the connection
pub fn fatal_close(s: &mut TcpStream, what: &str) -> R<u8> {
    let m = hislip::recv(s, what)?;
    ensure!(m.typ == t::FATAL, "{what}: expected a fatal error, got {m}");
    let rest = net::read_all(s, what)?;
    ensure!(
        rest.is_empty(),
        "{what}: {} followed the fatal error",
        show(&rest)
    );
    Ok(m.ctl)
}

#[derive(Debug)]
struct Sess {
    sync: Option<TcpStream>,
    asy: Option<TcpStream>,
    /// Was an asynchronous channel ever opened
    had_async: bool,
    unit: usize,
    id: u16,
    n: usize,
}

fn say_initialize(addr: SocketAddr, sub: &[u8], version: u16, vendor: u16, rng: &mut Rng) -> R<(TcpStream, Msg)> {
    let mut s = net::connect(addr)?;
    let b = hislip::encode(t::INITIALIZE, 0, init_par(version, vendor), sub);
    if rng.chance(1, 3) {
        for p in rng.split(&b, 4) {
            net::send(&mut s, &p)?;
            std::thread::sleep(Duration::from_micros(rng.below(600) as u64));
        }
    } else {
        net::send(&mut s, &b)?;
    }
    let m = hislip::recv(&mut s, "initialize")?;
    Ok((s, m))
}

fn query(s: &mut TcpStream, cmd: &[u8], mid: u32) -> R<Vec<u8>> {
    hislip::send(s, t::DATA_END, 0, mid, cmd)?;
    let mut out = Vec::new();
    loop {
        let m = hislip::recv(s, &format!("response to {}", show(cmd)))?;
        ensure!(
            (m.typ == t::DATA || m.typ == t::DATA_END) && m.par == mid,
            "response to {} (message id {mid:#x}) is {m}",
            show(cmd)
        );
        out.extend(m.data);
        if m.typ == t::DATA_END {
            return Ok(out);
        }
    }
}

const NAMES: [&str; 5] = ["hislip0", "hislip1", "inst0", "gpib0,7", "дev"];

fn model_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let ndev = rng.range(1, 4);
    let mut names: Vec<&str> = NAMES.to_vec();
    if rng.chance(1, 4) {
        names.remove(0); // No default device
    }
    let mut nn = names.clone();
    rng.shuffle(&mut nn);
    let mut names: Vec<&str> = nn.into_iter().take(ndev).collect();
    if rng.chance(2, 3) && !names.contains(&"hislip0") {
        names[0] = "hislip0";
    }
    let units: Vec<Unit> = names.iter().map(|_| Unit::new()).collect();
    let max = rng.range(1, 7);
    let vendor = rng.next() as u16;
    let overlap = rng.chance(1, 2);
    let list: Vec<(&str, &Unit)> = names.iter().copied().zip(units.iter()).collect();
    let srq = StatusSender::new();
    let srv = hislip::start(
        &list,
        |c| {
            let c = c.vendor_id(vendor).max_num_sessions(max).max_message_size(4096);
            if overlap {
                c.prefer_overlap()
            } else {
                c.prefer_synchronized()
            }
        },
        &srq,
    )?;

    let mut live: Vec<Sess> = Vec::new();
    // Sessions which were left, the server may not have noticed all of them yet
    let mut leaving = 0usize;
    let mut expected: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    let mut halves: Vec<TcpStream> = Vec::new();
    let mut n = 0;
    let mut trace = String::new();
    let mut refused = 0;
    let mut fatals = 0;
    let steps = rng.range(12, 40);
    for _ in 0..steps {
        match rng.below(12) {
            // Initialise
            0..=3 => {
                let unit = rng.below(ndev);
                let default = names[unit] == "hislip0" && rng.chance(1, 2);
                let sub = if default { "" } else { names[unit] };
                let version = *rng.pick(&[
                    0x0100, 0x0101, 0x0200, 0x0201, 0x0300, 0xffff, 0x01ff, 0x0002, 0x1000, 0,
                ]);
                let version: u16 = if rng.chance(1, 4) { rng.next() as u16 } else { version };
                let cv = rng.next() as u16;
                trace.push_str(&format!("init {sub:?} v{version:#x}; "));
                let mut got = None;
                if live.len() >= max {
                    // Certainly full
                    let (mut s, m) = say_initialize(srv.addr, sub.as_bytes(), version, cv, rng)?;
                    ensure!(
                        m.typ == t::FATAL,
                        "{} sessions are alive and {max} allowed, another was answered with {m}: {trace}",
                        live.len()
                    );
                    let rest = net::read_all(&mut s, "refused session")?;
                    ensure!(rest.is_empty(), "refusal was followed by {}", show(&rest));
                    refused += 1;
                } else if leaving > 0 {
                    // There must be room as soon as the server noticed who left
                    eventually(
                        &format!(
                            "{} sessions alive of {max}, but after others left no further is accepted: {trace}",
                            live.len()
                        ),
                        || {
                            let (s, m) = say_initialize(srv.addr, sub.as_bytes(), version, cv, rng)?;
                            if m.typ == t::INITIALIZE_RESPONSE {
                                got = Some((s, m));
                                return Ok(true);
                            }
                            ensure!(m.typ == t::FATAL, "initialize answered with {m}: {trace}");
                            ensure!(
                                live.len() + leaving >= max,
                                "session refused while at most {} of {max} are alive: {m}: {trace}",
                                live.len() + leaving
                            );
                            Ok(false)
                        },
                    )?;
                } else {
                    let (s, m) = say_initialize(srv.addr, sub.as_bytes(), version, cv, rng)?;
                    ensure!(
                        m.typ == t::INITIALIZE_RESPONSE,
                        "session refused while {} of {max} are alive: {m}: {trace}",
                        live.len()
                    );
                    got = Some((s, m));
                }
                if let Some((s, m)) = got {
                    let id = m.par as u16;
                    let ver = (m.par >> 16) as u16;
                    ensure!(
                        ver == version.min(0x0200),
                        "negotiated version {ver:#x} for a client of version {version:#x} and a server of 0x200"
                    );
                    ensure!(
                        (m.ctl & 1 == 1) == overlap,
                        "server preferring overlap={overlap} answered initialize with {m}"
                    );
                    ensure!(
                        live.iter().all(|l| l.id != id),
                        "session id {id} given to two live sessions: {trace}"
                    );
                    n += 1;
                    live.push(Sess {
                        sync: Some(s),
                        asy: None,
                        had_async: false,
                        unit,
                        id,
                        n,
                    });
                }
            }
            // Initialise with something unknown
            4 => {
                let mut sub: Vec<u8> = match rng.below(9) {
                    0 => b"hislip9".to_vec(),
                    7 => {
                        // Something around a name
                        let v = rng.pick(&names).as_bytes().to_vec();
                        let extra: &[u8] = rng.pick(&[" ", "\n", "\0", "\t", "/", ",", "::INSTR"]).as_bytes();
                        if rng.chance(2, 3) {
                            [&v[..], extra].concat()
                        } else {
                            [extra, &v[..]].concat()
                        }
                    }
                    8 => {
                        // Two names
                        let v = rng.pick(&names).as_bytes();
                        [v, rng.pick(&names).as_bytes()].concat()
                    }
                    1 => {
                        let mut v = rng.pick(&names).as_bytes().to_vec();
                        v.push(b'0');
                        v
                    }
                    2 => {
                        let v = rng.pick(&names).as_bytes().to_vec();
                        v[..v.len() - 1].to_vec()
                    }
                    3 => b"\xff\xfe".to_vec(),
                    4 => {
                        let mut v = rng.pick(&names).as_bytes().to_vec();
                        v.push(0xff);
                        v
                    }
                    5 => vec![b'a'; rng.range(1, 4000)],
                    _ => b"INST7".to_vec(),
                };
                if sub.is_empty() {
                    sub = b"x".to_vec();
                }
                if std::str::from_utf8(&sub).map_or(false, |s| names.contains(&s)) {
                    continue;
                }
                trace.push_str(&format!("init unknown {}; ", show(&sub)));
                let (mut s, m) = say_initialize(srv.addr, &sub, 0x0200, 1, rng)?;
                ensure!(
                    m.typ == t::FATAL,
                    "initialize for unknown sub-address {} answered with {m}",
                    show(&sub)
                );
                net::read_all(&mut s, "connection of an unknown sub-address")?;
                fatals += 1;
            }
            // The default when there is none
            5 => {
                if names.contains(&"hislip0") {
                    continue;
                }
                let (mut s, m) = say_initialize(srv.addr, b"", 0x0200, 1, rng)?;
                ensure!(
                    m.typ == t::FATAL,
                    "initialize with empty sub-address and no hislip0 answered with {m}"
                );
                net::read_all(&mut s, "connection of an unknown sub-address")?;
                fatals += 1;
            }
            // Asynchronous channel
            6..=7 => {
                if live.is_empty() {
                    continue;
                }
                let k = rng.below(live.len());
                let l = &mut live[k];
                if l.sync.is_none() {
                    continue;
                }
                let id = l.id;
                trace.push_str(&format!("async {id}; "));
                let (mut s, m) = hislip::open_async(srv.addr, id as u32)?;
                if l.had_async {
                    ensure!(
                        m.typ == t::FATAL,
                        "session {id} got a second asynchronous channel: {m}: {trace}"
                    );
                    net::read_all(&mut s, "second asynchronous channel")?;
                    fatals += 1;
                } else {
                    ensure!(
                        m.typ == t::ASYNC_INITIALIZE_RESPONSE,
                        "asynchronous channel of session {id} refused: {m}: {trace}"
                    );
                    ensure!(
                        m.par & 0xffff == vendor as u32,
                        "vendor id {vendor:#x} is configured, reported {m}"
                    );
                    l.asy = Some(s);
                    l.had_async = true;
                }
            }
            // Unknown session id
            8 => {
                let id = match rng.below(3) {
                    0 => rng.next() as u16,
                    1 => rng.next() as u16 | 1,
                    _ => live.last().map_or(77, |l| l.id.wrapping_add(2)),
                };
                if live.iter().any(|l| l.id == id) || (leaving > 0 && id % 2 == 0) {
                    continue;
                }
                trace.push_str(&format!("async unknown {id}; "));
                let (mut s, m) = hislip::open_async(srv.addr, id as u32)?;
                ensure!(
                    m.typ == t::FATAL,
                    "asynchronous channel for unknown session {id} answered with {m}: {trace}"
                );
                net::read_all(&mut s, "unknown session")?;
                fatals += 1;
            }
            // Command
            9..=10 => {
                if live.is_empty() {
                    continue;
                }
                let k = rng.below(live.len());
                let (unit, ln) = (live[k].unit, live[k].n);
                n += 1;
                if live[k].sync.is_none() {
                    continue;
                }
                if live[k].had_async {
                    let cmd = format!("Q {ln} {n}?").into_bytes();
                    let mid = rng.u32();
                    trace.push_str(&format!("query {ln}; "));
                    let got = query(live[k].sync.as_mut().unwrap(), &cmd, mid)
                        .what(format!("session {ln} {trace}"))?;
                    ensure!(
                        Some(&got) == std_response(&cmd).as_ref(),
                        "response of session {ln} for {} is {}",
                        show(&cmd),
                        show(&got)
                    );
                    expected.entry(unit).or_default().push(cmd);
                } else {
                    // Not allowed yet
                    let typ = *rng.pick(&[t::DATA, t::DATA_END, t::TRIGGER]);
                    let cmd = if typ == t::TRIGGER {
                        Vec::new()
                    } else {
                        format!("EARLY {ln} {n}").into_bytes()
                    };
                    trace.push_str(&format!("early {ln} type {typ}; "));
                    let mut l = live.remove(k);
                    let s = l.sync.as_mut().unwrap();
                    hislip::send(s, typ, 0, 0xffff_ff00, &cmd)?;
                    fatal_close(s, "command before the asynchronous channel exists")?;
                    leaving += 1;
                    fatals += 1;
                }
            }
            // Leave
            _ => {
                if live.is_empty() {
                    continue;
                }
                let k = rng.below(live.len());
                let how = *rng.pick(&LEAVES);
                trace.push_str(&format!("leave {} {how:?}; ", live[k].id));
                if live[k].sync.is_some() && live[k].asy.is_some() && rng.chance(1, 3) {
                    // Only one of the channels: session stays alive, the other one goes later
                    let l = &mut live[k];
                    let s = if rng.chance(1, 2) { l.sync.take() } else { l.asy.take() };
                    halves.extend(net::leave(s.unwrap(), how));
                    continue;
                }
                let l = live.remove(k);
                for s in [l.sync, l.asy].into_iter().flatten() {
                    halves.extend(net::leave(s, how));
                }
                leaving += 1;
            }
        }
        if rng.chance(1, 6) {
            halves.clear();
        }
    }
    // Devices saw what was sent to them and nothing else
    for (i, u) in units.iter().enumerate() {
        let want = expected.remove(&i).unwrap_or_default();
        let got = u.log.effects_since(0);
        let want: Vec<Ev> = want.into_iter().map(Ev::Exec).collect();
        ensure!(
            got == want,
            "device {:?} saw {got:?} instead of {want:?}: {trace}",
            names[i]
        );
    }
    // Every slot comes back
    drop(live);
    let mut all = Vec::new();
    let t0 = Instant::now();
    while all.len() < max {
        let (s, m) = say_initialize(srv.addr, names[0].as_bytes(), 0x0101, 1, rng)?;
        if m.typ == t::INITIALIZE_RESPONSE {
            all.push(s);
        } else if t0.elapsed() > DEADLINE {
            return late(format!(
                "only {} of {max} sessions can be opened after all others left: {trace}",
                all.len()
            ));
        } else {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    ctx.count("sessions opened", n as u64);
    ctx.count("refused as too many", refused);
    ctx.count("fatal errors checked", fatals);
    ctx.eval(hash_of(&trace), refused > 0 || fatals > 0, || {
        format!("max {max}, devices {names:?}: {trace}")
    });
    Ok(())
}

/// The first message of a connection is something else
fn first_message_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let typ = loop {
        let x = rng.below(39) as u8;
        if ![t::INITIALIZE, t::ASYNC_INITIALIZE, t::ERROR, t::FATAL].contains(&x) {
            break x;
        }
    };
    let mut s = net::connect(srv.addr)?;
    hislip::send(&mut s, typ, 0, 0, b"")?;
    fatal_close(&mut s, &format!("first message of type {typ}"))?;
    ensure!(
        u.log.effects_since(0).is_empty(),
        "message of type {typ} on an uninitialised connection reached the device: {:?}",
        u.log.all()
    );
    // Command together with the initialize message
    let mut s = net::connect(srv.addr)?;
    let mut b = hislip::encode(t::INITIALIZE, 0, init_par(0x0200, 0), b"hislip0");
    b.extend(hislip::encode(t::DATA_END, 0, 2, b"EARLY?"));
    net::send(&mut s, &b)?;
    let m = hislip::recv(&mut s, "initialize")?;
    ensure!(m.typ == t::INITIALIZE_RESPONSE, "initialize refused: {m}");
    fatal_close(&mut s, "pipelined command before the asynchronous channel exists")?;
    ensure!(
        u.log.effects_since(0).is_empty(),
        "command before the asynchronous channel exists was executed: {:?}",
        u.log.all()
    );
    let mut h = hislip::Hs::open(srv.addr, "")?;
    h.sync_is_clean("after")?;
    ctx.count("first messages", 1);
    ctx.eval(typ as u64, true, || format!("first message type {typ}"));
    Ok(())
}

/// Many clients at once
fn race_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let max = rng.range(1, 8);
    let clients = rng.range(4, 12);
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_num_sessions(max), &srq)?;
    let bar = Barrier::new(clients);
    let all_tried = Barrier::new(clients);
    let extra_async = AtomicUsize::new(0);
    let res: Vec<R<Option<u16>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..clients)
            .map(|_| {
                let (bar, all_tried, extra_async) = (&bar, &all_tried, &extra_async);
                let seed = rng.next();
                sc.spawn(move || {
                    let mut rng = Rng::new(seed);
                    let mut s = net::connect(srv.addr);
                    bar.wait();
                    let mut open = |s: &mut R<TcpStream>| -> R<Option<(u16, TcpStream)>> {
                        let s = match s {
                            Ok(s) => s,
                            Err(e) => return Err(e.clone()),
                        };
                        hislip::send(s, t::INITIALIZE, 0, init_par(0x200, 0), b"")?;
                        let m = hislip::recv(s, "initialize")?;
                        if m.typ == t::FATAL {
                            return Ok(None);
                        }
                        ensure!(m.typ == t::INITIALIZE_RESPONSE, "initialize answered with {m}");
                        let id = m.par as u16;
                        // Several asynchronous channels at once
                        let k = rng.range(1, 4);
                        let mut cs = Vec::new();
                        for _ in 0..k {
                            cs.push(net::connect(srv.addr)?);
                        }
                        for c in cs.iter_mut() {
                            hislip::send(c, t::ASYNC_INITIALIZE, 0, id as u32, &[])?;
                        }
                        let mut ok = None;
                        for mut c in cs {
                            let m = hislip::recv(&mut c, "async initialize")?;
                            if m.typ == t::ASYNC_INITIALIZE_RESPONSE {
                                ensure!(
                                    ok.is_none(),
                                    "session {id} got two asynchronous channels opened at once"
                                );
                                ok = Some(c);
                            } else {
                                ensure!(m.typ == t::FATAL, "async initialize answered with {m}");
                                extra_async.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                        let Some(asy) = ok else {
                            return viol(format!(
                                "none of {k} asynchronous channels of session {id} was accepted"
                            ));
                        };
                        let cmd = format!("Q {id}?").into_bytes();
                        let got = query(s, &cmd, 2)?;
                        ensure!(
                            Some(&got) == std_response(&cmd).as_ref(),
                            "response for {} is {}",
                            show(&cmd),
                            show(&got)
                        );
                        Ok(Some((id, asy)))
                    };
                    let r = open(&mut s);
                    all_tried.wait();
                    r.map(|x| x.map(|x| x.0))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut ids = Vec::new();
    for r in res {
        ids.extend(r?);
    }
    let n = ids.len();
    let mut sorted = ids.clone();
    sorted.sort_unstable();
    sorted.dedup();
    ensure!(sorted.len() == n, "concurrent sessions share an id: {ids:?}");
    ensure!(
        n == max.min(clients),
        "{clients} clients at once, {max} sessions allowed, {n} were accepted"
    );
    ctx.count("concurrent initialisations", clients as u64);
    ctx.count("surplus asynchronous channels refused", extra_async.load(Ordering::Relaxed) as u64);
    ctx.eval(hash_of(&(max, clients, &ids)), true, || {
        format!("{clients} clients at once, {max} allowed, ids {ids:?}")
    });
    Ok(())
}

/// Let the ids wrap while sessions are alive
fn wrap_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_num_sessions(4000), &srq)?;
    let mut live = BTreeMap::new();
    // Which of the first sessions stay alive: runs of consecutive ids as well as single ones
    let mut keep = std::collections::BTreeSet::new();
    let mut at = rng.below(40) as u16;
    for run in [1 + rng.below(3), 2, 1, 3 + rng.below(4)] {
        for k in 0..run as u16 {
            keep.insert(at + k);
        }
        at += run as u16 + 1 + rng.below(60) as u16;
    }
    let total = 33_500;
    let mut done = 0usize;
    let mut wrapped = 0;
    let mut attached = 0;
    let mut last = 0u16;
    let req = hislip::encode(t::INITIALIZE, 0, init_par(0x200, 0), b"");
    while done < total {
        // A few connections at a time
        let k = 32;
        let mut cs = Vec::new();
        for _ in 0..k {
            let mut s = net::connect(srv.addr)?;
            net::send(&mut s, &req)?;
            cs.push(s);
        }
        let mut batch = BTreeMap::new();
        for mut s in cs {
            let m = hislip::recv(&mut s, "initialize")?;
            if m.typ == t::FATAL {
                // Leaving sessions are still counted
                ensure!(
                    done > 3000,
                    "session refused, at most {} can be alive: {m}",
                    done
                );
                std::thread::sleep(Duration::from_millis(20));
                net::reset(s);
                continue;
            }
            ensure!(m.typ == t::INITIALIZE_RESPONSE, "initialize refused: {m}");
            let id = m.par as u16;
            ensure!(
                !live.contains_key(&id) && !batch.contains_key(&id),
                "after {done} sessions id {id} is given although a live session has it"
            );
            if id < last && last - id > 30000 {
                wrapped += 1;
            }
            last = id;
            done += 1;
            // Every so often also with an asynchronous channel, wherever in the id space we are
            if done % 400 < 2 {
                let (_a, m) = hislip::open_async(srv.addr, id as u32)?;
                ensure!(
                    m.typ == t::ASYNC_INITIALIZE_RESPONSE,
                    "asynchronous channel of session {id}, the {done}th, refused: {m}"
                );
                let cmd = format!("ID {id}?").into_bytes();
                let got = query(&mut s, &cmd, 2)?;
                ensure!(
                    Some(&got) == std_response(&cmd).as_ref(),
                    "response for {} is {}",
                    show(&cmd),
                    show(&got)
                );
                attached += 1;
            }
            // (with any other way of numbering, some session or other)
            if done < 2000 && keep.remove(&(id / 2)) || done == 2000 && live.is_empty() {
                live.insert(id, s);
            } else {
                batch.insert(id, s);
            }
        }
        for (_, s) in batch {
            net::reset(s);
        }
        beat();
    }
    let kept = live.len();
    // The old ones still work
    for (id, mut s) in live {
        let (_a, m) = hislip::open_async(srv.addr, id as u32)?;
        ensure!(
            m.typ == t::ASYNC_INITIALIZE_RESPONSE,
            "asynchronous channel of old session {id} refused after the ids wrapped: {m}"
        );
        let cmd = format!("OLD {id}?").into_bytes();
        let got = query(&mut s, &cmd, 2)?;
        ensure!(
            Some(&got) == std_response(&cmd).as_ref(),
            "response for {} is {}",
            show(&cmd),
            show(&got)
        );
    }
    ctx.count("sessions opened", total as u64);
    ctx.count("id space wraps seen", wrapped);
    ctx.count("sessions all over the id space used", attached);
    ctx.eval(rng.next(), wrapped > 0, || {
        format!("{total} sessions, ids wrapped {wrapped} times with {kept} old sessions alive")
    });
    Ok(())
}

/// A table of sessions which was full and whose sessions left has room for the very next ones
fn reuse_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let max = rng.range(1, 6);
    let srv = hislip::start(&[("hislip0", &u)], |c| c.max_num_sessions(max), &srq)?;
    let mut trace = String::new();
    let mut stay: Vec<(TcpStream, Option<TcpStream>)> = Vec::new();
    let mut judged = 0;
    for round in 0..rng.range(2, 4) {
        // Fill
        while stay.len() < max {
            let (s, m) = say_initialize(srv.addr, b"", 0x200, 0, rng)?;
            if m.typ != t::INITIALIZE_RESPONSE {
                return late(format!(
                    "only {} sessions of {max} are alive, every other ended more than a second ago, but the next is answered with {m}: {trace}",
                    stay.len()
                ));
            }
            judged += (round > 0) as u64;
            let asy = if rng.chance(2, 3) {
                let (a, m) = hislip::open_async(srv.addr, m.par & 0xffff)?;
                ensure!(m.typ == t::ASYNC_INITIALIZE_RESPONSE, "asynchronous channel answered with {m}: {trace}");
                Some(a)
            } else {
                None
            };
            stay.push((s, asy));
        }
        trace.push_str(&format!("{max} sessions; "));
        if rng.chance(1, 2) {
            let (mut s, m) = say_initialize(srv.addr, b"", 0x200, 0, rng)?;
            ensure!(
                m.typ == t::FATAL,
                "{max} sessions are alive and {max} allowed, another was answered with {m}: {trace}"
            );
            net::read_all(&mut s, "refused session")?;
            trace.push_str("one refused; ");
        }
        // Some leave
        let k = rng.range(1, max);
        rng.shuffle(&mut stay);
        for _ in 0..k {
            let (s, a) = stay.pop().unwrap();
            let how = *rng.pick(&LEAVES);
            let first = rng.chance(1, 2);
            trace.push_str(&format!("one leaves {how:?}; "));
            let mut both: Vec<TcpStream> = a.into_iter().collect();
            both.insert(if first { 0 } else { both.len() }, s);
            for c in both {
                if let Some(mut c) = net::leave(c, how) {
                    let rest = net::read_all(&mut c, "channel of a client which left")?;
                    ensure!(rest.is_empty(), "a client which left is sent {}", show(&rest));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(1200));
        beat();
    }
    ctx.count("sessions accepted at once in the place of ones which left", judged);
    ctx.eval(hash_of(&trace), judged > 0, || trace.clone());
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("random histories of opening (valid, unknown, empty, non-text sub-addresses; random versions), attaching, using too early and leaving sessions against a table of live sessions; concurrent initialisations and attachments; more sessions than there are ids. Non-trivial: a refusal was judged or clients raced");
    ctx.cases_par("model", ctx.n(1000, 40000), if ctx.thorough { 300 } else { 25 }, 6, |r, _| model_case(ctx, r));
    ctx.cases_par("first", ctx.n(300, 3000), 60, 4, |r, _| first_message_case(ctx, r));
    ctx.cases_par("race", ctx.n(300, 15000), if ctx.thorough { 200 } else { 20 }, 2, |r, _| race_case(ctx, r));
    ctx.cases_par("reuse", ctx.n(24, 300), 100, 6, |r, _| reuse_case(ctx, r));
    ctx.cases("wrap", ctx.n(1, 4), 200, |r, _| wrap_case(ctx, r));
    let _ = Leave::Close;
}
