//! C06, C07: raw socket (and the client limit of telnet).

use std::io::{Read, Write};
use std::net::TcpStream;
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use async_std::task;
use lxi_socket::server::ServerConfig;

use crate::dev::{Ev, Unit};
use crate::exec::{Exec, Pipe};
use crate::net::{self, Leave};
use crate::rt::*;

/// Anything a device may answer, depending on the command only
pub fn random_response(cmd: &[u8], salt: u64) -> Option<Vec<u8>> {
    let h = hash_of(&(cmd, salt));
    let mut r = Rng::new(h);
    match h % 7 {
        0 | 1 => None,
        2 => Some(Vec::new()),
        3 => Some(cmd.to_vec()),
        4 => {
            let n = r.below(40);
            Some(r.bytes(n))
        }
        5 => {
            let n = r.below(3000);
            Some(r.bytes(n))
        }
        _ => {
            // Control characters of all kinds
            let n = r.below(12);
            Some((0..n).map(|_| r.below(32) as u8).collect())
        }
    }
}

struct Cfg {
    make: fn(u8, u8, usize) -> ServerConfig,
    rt: u8,
    wt: u8,
    buf: usize,
    name: &'static str,
}

fn cfg(rng: &mut Rng) -> Cfg {
    let buf = match rng.below(5) {
        0 => rng.range(1, 3),
        1 => rng.range(1, 16),
        2 => rng.range(16, 200),
        3 => 8192,
        _ => 512 * 1024,
    };
    match rng.below(4) {
        // One terminator for both directions, any byte
        0 => {
            let t = if rng.chance(1, 2) { rng.u8() } else { b'\n' };
            Cfg {
                make: |r, _, b| ServerConfig::new(b, r),
                rt: t,
                wt: t,
                buf,
                name: "new",
            }
        }
        1 => Cfg {
            make: |_, _, b| ServerConfig::default().read_buffer(b),
            rt: b'\n',
            wt: b'\n',
            buf,
            name: "default",
        },
        2 => Cfg {
            make: |r, w, b| {
                ServerConfig::default()
                    .write_termination(w)
                    .read_buffer(b)
                    .read_termination(r)
            },
            rt: *rng.pick(&[b'\r', b'\n', 0, 3, 4, 0x1b, 0x7f]),
            wt: *rng.pick(&[b'\r', b'\n', 0, 3, 4, 0x1b, 0x7f]),
            buf,
            name: "both",
        },
        _ => Cfg {
            make: |r, w, b| ServerConfig::new(b, r).write_termination(w),
            rt: *rng.pick(&[b'\r', b'\n', 0, 3, 4, 0x1b, 0x7f]),
            wt: *rng.pick(&[b'\r', b'\n', 0, 3, 4, 0x1b, 0x7f]),
            buf,
            name: "override",
        },
    }
}

fn stream(rng: &mut Rng, rt: u8, max: usize) -> Vec<u8> {
    let lines = rng.below(12);
    let mut v = Vec::new();
    for _ in 0..lines {
        let n = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 | 3 => rng.below(20),
            4 => rng.below(300),
            _ => rng.below(max),
        };
        let style = rng.below(4);
        for _ in 0..n {
            let b = match style {
                0 => rng.u8(),
                1 => b'a' + rng.below(26) as u8,
                2 => *rng.pick(&[b'\r', b'\n', 0, 3, 4, 0xff, b' ', b'?', b'A']),
                _ => rng.range(32, 126) as u8,
            };
            // Occurrences of the terminator just make more lines
            v.push(b);
        }
        v.push(rt);
    }
    if rng.chance(1, 2) {
        let n = rng.below(30);
        v.extend(rng.bytes(n));
    }
    v
}

fn split_lines(s: &[u8], t: u8) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = s.split(|b| *b == t).map(|x| x.to_vec()).collect();
    v.pop();
    v
}

fn expected(lines: &[Vec<u8>], wt: u8, salt: u64) -> Vec<u8> {
    let mut out = Vec::new();
    for l in lines {
        if let Some(r) = random_response(l, salt) {
            out.extend_from_slice(&r);
            out.push(wt);
        }
    }
    out
}

fn check_execs(got: &[Vec<u8>], want: &[Vec<u8>], complete: bool, what: &str) -> R {
    for (i, g) in got.iter().enumerate() {
        ensure!(
            i < want.len(),
            "{what}: the device executes {} as command {i}, only {} lines were terminated",
            show(g),
            want.len()
        );
        ensure!(
            *g == want[i],
            "{what}: command {i} executed by the device {}",
            diff(g, &want[i])
        );
    }
    ensure!(
        !complete || got.len() == want.len(),
        "{what}: {} of {} terminated lines were executed",
        got.len(),
        want.len()
    );
    Ok(())
}

fn pipe_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let c = cfg(rng);
    let salt = rng.next() % 3;
    let u = Unit::new();
    u.log.set_responder(move |c| random_response(c, salt));
    let data = stream(rng, c.rt, 2000);
    // Cut off anywhere
    let data = if rng.chance(1, 3) {
        data[..rng.below(data.len() + 1)].to_vec()
    } else {
        data
    };
    let segs = match rng.below(4) {
        0 if data.len() < 400 => data.iter().map(|b| vec![*b]).collect(),
        1 => rng.split(&data, 1),
        2 => rng.split(&data, 40),
        _ => rng.split(&data, 6),
    };
    let what = format!(
        "config {} read {:#x} write {:#x} buffer {}, stream {}",
        c.name,
        c.rt,
        c.wt,
        c.buf,
        show(&data)
    );
    let lines = split_lines(&data, c.rt);
    let want = expected(&lines, c.wt, salt);
    let p = Pipe::new();
    if rng.chance(1, 3) {
        p.0.borrow_mut().max_write = rng.range(1, 20);
    }
    let slow = rng.chance(1, 4);
    if slow {
        p.0.borrow_mut().credit = rng.below(100);
    }
    let mut ex = Exec::new();
    let srv = (c.make)(c.rt, c.wt, c.buf).build();
    let (lock, dev) = (u.lock.clone(), u.dev.clone());
    let (rd, wr) = (p.clone(), p.clone());
    let task = ex.spawn(async move {
        let _ = srv.process_client(rd, wr, lock, dev, "peer").await;
    });
    let mut fed = 0;
    let mut grants = 0u64;
    for s in &segs {
        p.feed(s);
        fed += s.len();
        if rng.chance(1, 2) {
            ensure!(ex.settle(rng, 200_000), "{what}: the server spins");
            let so_far = split_lines(&data[..fed], c.rt);
            check_execs(&u.log.execs(), &so_far, !slow, &what)?;
            let out = p.out();
            let w = expected(&so_far, c.wt, salt);
            ensure!(
                w.starts_with(&out) && (slow || out.len() == w.len()),
                "{what}: after {fed} bytes the output {}",
                diff(&out, &w)
            );
            if slow && rng.chance(1, 2) {
                p.add_credit(rng.below(500));
                grants += 1;
            }
        }
    }
    let early_end = rng.chance(1, 3);
    let end_err = rng.chance(1, 4);
    if early_end {
        if end_err {
            p.error()
        } else {
            p.close()
        }
    }
    if slow {
        p.add_credit(usize::MAX);
        p.0.borrow_mut().credit = usize::MAX;
    }
    ensure!(ex.settle(rng, 2_000_000), "{what}: the server spins");
    if !early_end {
        check_execs(&u.log.execs(), &lines, true, &what)?;
        let out = p.out();
        ensure!(out == want, "{what}: output {}", diff(&out, &want));
        if end_err {
            p.error()
        } else {
            p.close()
        }
        ensure!(ex.settle(rng, 100_000), "{what}: the server spins");
    }
    check_execs(&u.log.execs(), &lines, true, &what)?;
    let out = p.out();
    ensure!(out == want, "{what}: output {}", diff(&out, &want));
    ensure!(!ex.alive(task), "{what}: session does not end at the end of the stream");
    ensure!(
        u.log.all().iter().all(|e| matches!(e, Ev::Exec(_))),
        "{what}: the device was operated in other ways than executing commands: {:?}",
        u.log.all().iter().find(|e| !matches!(e, Ev::Exec(_)))
    );
    ensure!(u.lock_state() == (false, 0), "{what}: a lock is left");
    ctx.count("commands executed (pipe)", lines.len() as u64);
    ctx.count("response bytes (pipe)", want.len() as u64);
    ctx.count("flow control grants", grants);
    ctx.count("segments (pipe)", segs.len() as u64);
    ctx.eval(
        hash_of(&(&data, c.rt, c.wt, c.buf, &segs)),
        !lines.is_empty() && segs.len() > 1,
        || format!("{what} in {} segments", segs.len()),
    );
    Ok(())
}

enum Sock {
    T(TcpStream),
    U(UnixStream),
}

impl Sock {
    fn dup(&self) -> R<Sock> {
        let e = |e: std::io::Error| Fail::Inconclusive(e.to_string());
        Ok(match self {
            Sock::T(s) => Sock::T(s.try_clone().map_err(e)?),
            Sock::U(s) => Sock::U(s.try_clone().map_err(e)?),
        })
    }
    fn half(&self) {
        let _ = match self {
            Sock::T(s) => s.shutdown(std::net::Shutdown::Write),
            Sock::U(s) => s.shutdown(std::net::Shutdown::Write),
        };
    }
}
impl Read for Sock {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self {
            Sock::T(s) => s.read(b),
            Sock::U(s) => s.read(b),
        }
    }
}
impl Write for Sock {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        match self {
            Sock::T(s) => s.write(b),
            Sock::U(s) => s.write(b),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A unix socket server in a directory of its own
pub struct UnixSrv {
    dir: std::path::PathBuf,
    pub path: std::path::PathBuf,
    task: Option<task::JoinHandle<()>>,
    pub ended: std::sync::Arc<std::sync::Mutex<Option<String>>>,
}

static DIRS: AtomicU64 = AtomicU64::new(0);

pub fn start_unix(u: &Unit, cfg: ServerConfig) -> R<UnixSrv> {
    let dir = std::env::temp_dir().join(format!(
        "lxiv-{}-{}",
        std::process::id(),
        DIRS.fetch_add(1, Ordering::Relaxed)
    ));
    std::fs::create_dir_all(&dir).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let path = dir.join("s");
    let fut = cfg
        .build()
        .accept_unix(async_std::path::PathBuf::from(path.clone()), u.lock.clone(), u.dev.clone());
    let ended = std::sync::Arc::new(std::sync::Mutex::new(None));
    let e2 = ended.clone();
    let t = task::spawn(async move {
        let r = fut.await;
        *e2.lock().unwrap() = Some(format!("{r:?}"));
    });
    let s = UnixSrv {
        dir,
        path,
        task: Some(t),
        ended,
    };
    let t0 = Instant::now();
    while !s.path.exists() {
        if t0.elapsed() > DEADLINE {
            return inconc("unix server did not start");
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    // Bound but perhaps not yet listening
    std::thread::sleep(Duration::from_millis(5));
    Ok(s)
}

pub fn unix_connect(p: &std::path::Path) -> R<UnixStream> {
    let t0 = Instant::now();
    loop {
        match UnixStream::connect(p) {
            Ok(s) => {
                let _ = s.set_read_timeout(Some(DEADLINE));
                let _ = s.set_write_timeout(Some(DEADLINE));
                return Ok(s);
            }
            Err(e) if t0.elapsed() > DEADLINE => {
                return late(format!("cannot connect to the unix socket: {e}"))
            }
            Err(_) => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}

impl Drop for UnixSrv {
    fn drop(&mut self) {
        if let Some(t) = self.task.take() {
            task::block_on(async {
                let _ = async_std::future::timeout(Duration::from_secs(5), t.cancel()).await;
            });
        }
        let _ = std::fs::remove_file(&self.path);
        let _ = std::fs::remove_dir(&self.dir);
    }
}

fn socket_case(ctx: &Ctx, rng: &mut Rng, unix: bool) -> R {
    let c = cfg(rng);
    let salt = rng.next() % 3;
    let u = Unit::new();
    u.log.set_responder(move |c| {
        // Large responses which do not fit any buffer
        if c.len() > 2 && hash_of(&c) % 101 == 0 {
            let mut r = Rng::new(hash_of(&c));
            return Some(r.bytes(300_000));
        }
        random_response(c, salt)
    });
    let n = rng.range(1, 4);
    let (make, rt, wt, buf) = (c.make, c.rt, c.wt, c.buf);
    let srv;
    let usrv;
    let (mut addr, mut path) = (None, None);
    if unix {
        usrv = start_unix(&u, make(rt, wt, buf))?;
        path = Some(usrv.path.clone());
    } else {
        srv = net::start_raw(&u, || make(rt, wt, buf))?;
        addr = Some(srv.addr);
    }
    // Every client tags its lines; the tag must not contain the terminator
    let tags: Vec<Vec<u8>> = (0..n)
        .map(|i| {
            let mut t = vec![b'@', b'0' + i as u8];
            if t.contains(&rt) {
                t = vec![b'~', b'p' + i as u8];
            }
            t
        })
        .collect();
    let mut streams = Vec::new();
    for t in &tags {
        let d = stream(rng, rt, 20_000);
        let mut v = Vec::new();
        let parts: Vec<&[u8]> = d.split(|b| *b == rt).collect();
        for (k, p) in parts.iter().enumerate() {
            v.extend_from_slice(t);
            v.extend_from_slice(p);
            if k + 1 < parts.len() {
                v.push(rt);
            }
        }
        streams.push(v);
    }
    let what = format!(
        "{} config {} read {rt:#x} write {wt:#x} buffer {buf}",
        if unix { "unix" } else { "tcp" },
        c.name
    );
    let respond = move |c: &[u8]| -> Option<Vec<u8>> {
        if c.len() > 2 && hash_of(&c) % 101 == 0 {
            let mut r = Rng::new(hash_of(&c));
            return Some(r.bytes(300_000));
        }
        random_response(c, salt)
    };
    let results: Vec<R<Vec<u8>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = streams
            .iter()
            .map(|data| {
                let mut rng = rng.fork();
                let path = path.clone();
                sc.spawn(move || -> R<Vec<u8>> {
                    let mut s = match (&addr, &path) {
                        (Some(a), _) => Sock::T(net::connect(*a)?),
                        (_, Some(p)) => Sock::U(unix_connect(p)?),
                        _ => return inconc("no server"),
                    };
                    let segs = if data.len() < 400 && rng.chance(1, 3) {
                        data.iter().map(|b| vec![*b]).collect()
                    } else {
                        rng.split(data, 12)
                    };
                    let mut w = s.dup()?;
                    let slow_reader = rng.chance(1, 3);
                    let t = std::thread::spawn(move || -> R {
                        for g in segs {
                            net::send(&mut w, &g)?;
                            if rng.chance(1, 4) {
                                std::thread::sleep(Duration::from_micros(rng.below(1500) as u64));
                            }
                        }
                        w.half();
                        Ok(())
                    });
                    if slow_reader {
                        std::thread::sleep(Duration::from_millis(8));
                    }
                    let out = net::read_all(&mut s, "raw client")?;
                    t.join().map_err(|_| Fail::Inconclusive("writer".into()))??;
                    Ok(out)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut total = 0;
    let execs = u.log.execs();
    for (i, r) in results.into_iter().enumerate() {
        let out = r.what(&what)?;
        let lines = split_lines(&streams[i], rt);
        total += lines.len();
        let mine: Vec<Vec<u8>> = execs.iter().filter(|e| e.starts_with(&tags[i])).cloned().collect();
        check_execs(&mine, &lines, true, &format!("{what}, client {i}"))?;
        let want: Vec<u8> = lines
            .iter()
            .filter_map(|l| respond(l))
            .flat_map(|mut r| {
                r.push(wt);
                r
            })
            .collect();
        ensure!(out == want, "{what}, client {i}: output {}", diff(&out, &want));
        ctx.count("response bytes (socket)", out.len() as u64);
    }
    ensure!(
        execs.len() == total,
        "{what}: {} commands executed, clients terminated {total} lines; {:?}",
        execs.len(),
        execs.iter().find(|e| !tags.iter().any(|t| e.starts_with(t))).map(|e| show(e))
    );
    ctx.count("commands executed (socket)", total as u64);
    ctx.eval(hash_of(&streams), total > 1, || {
        format!("{what}: {n} clients, streams {:?}", streams.iter().map(|s| show(s)).collect::<Vec<_>>())
    });
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    ctx.rule("random terminator pairs, buffer sizes, byte streams, segmentations, flow control and stream ends; executed commands and output compared with a line splitter at every quiescent point (in-memory pipes) or at the end (TCP, unix; several clients at once). Non-trivial: at least one complete line in at least two segments / two commands");
    ctx.cases_par("pipe", ctx.n(12_000, 300_000), ctx.n(20, 240) as u64, 6, |r, _| pipe_case(ctx, r));
    ctx.cases_par("tcp", ctx.n(250, 5000), ctx.n(15, 200) as u64, 4, |r, _| socket_case(ctx, r, false));
    ctx.cases_par("unix", ctx.n(120, 3000), ctx.n(12, 120) as u64, 4, |r, _| socket_case(ctx, r, true));
    ctx.cases("long", 1, 60, |_, _| super::long::raw(ctx));
    ctx.cases("big", 1, 60, |_, _| super::long::big(ctx, "raw"));
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Tcp,
    Unix,
    Telnet,
}

struct Cl {
    s: Sock,
    id: usize,
    asked: usize,
    answered: usize,
    buf: Vec<u8>,
}

impl Cl {
    fn ask(&mut self) -> R {
        let q = format!("Q{}-{}?\n", self.id, self.asked);
        self.asked += 1;
        net::send(&mut self.s, q.as_bytes())
    }
    /// Take what has arrived, without waiting
    fn pump(&mut self) -> R<bool> {
        let mut b = [0u8; 4096];
        loop {
            match &self.s {
                Sock::T(s) => s.set_nonblocking(true),
                Sock::U(s) => s.set_nonblocking(true),
            }
            .map_err(|e| Fail::Inconclusive(e.to_string()))?;
            let r = self.s.read(&mut b);
            let _ = match &self.s {
                Sock::T(s) => s.set_nonblocking(false),
                Sock::U(s) => s.set_nonblocking(false),
            };
            match r {
                Ok(0) => return viol(format!("client {}: connection closed by the server", self.id)),
                Ok(k) => self.buf.extend_from_slice(&b[..k]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) => return viol(format!("client {}: connection lost: {e}", self.id)),
            }
        }
        let mut changed = false;
        while self.answered < self.asked {
            let want = format!("R:Q{}-{}?", self.id, self.answered);
            let Some(p) = find(&self.buf, want.as_bytes()) else { break };
            if !self.buf[p + want.len()..].contains(&b'\n') {
                break;
            }
            self.buf.drain(..p + want.len());
            self.answered += 1;
            changed = true;
        }
        Ok(changed)
    }
    fn served(&self) -> bool {
        self.answered > 0
    }
}

pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || h.len() < n.len() {
        return None;
    }
    h.windows(n.len()).position(|w| w == n)
}

fn limit_case(ctx: &Ctx, rng: &mut Rng, kind: Kind) -> R {
    let limit = rng.range(1, 4);
    let u = Unit::new();
    let srv;
    let usrv;
    let (mut addr, mut path) = (None, None);
    match kind {
        Kind::Tcp => {
            srv = net::start_raw(&u, || ServerConfig::default().backpressure(limit))?;
            addr = Some(srv.addr);
        }
        Kind::Telnet => {
            srv = net::start_telnet(&u, limit)?;
            addr = Some(srv.addr);
        }
        Kind::Unix => {
            usrv = start_unix(&u, ServerConfig::default().backpressure(limit))?;
            path = Some(usrv.path.clone());
        }
    }
    let connect = || -> R<Sock> {
        Ok(match (&addr, &path) {
            (Some(a), _) => Sock::T(net::connect(*a)?),
            (_, Some(p)) => Sock::U(unix_connect(p)?),
            _ => return inconc("no server"),
        })
    };
    let mut clients: Vec<Cl> = Vec::new();
    // Half closed ones are read until the server closes
    let mut next = 0;
    let mut trace = Vec::new();
    let mut waited = 0u64;
    let mut left = [0u64; 5];
    let steps = rng.range(6, 16);
    let mut max_served = 0;
    for _ in 0..steps {
        let arrive = clients.len() < limit || (clients.len() < limit + 4 && rng.chance(1, 2));
        if arrive {
            let k = rng.range(1, 3);
            for _ in 0..k {
                let mut c = Cl { s: connect()?, id: next, asked: 0, answered: 0, buf: Vec::new() };
                next += 1;
                trace.push(1);
                c.ask()?;
                clients.push(c);
            }
        } else {
            // Somebody leaves, served or waiting
            let i = rng.below(clients.len());
            let mut c = clients.remove(i);
            let how = rng.below(5);
            trace.push(10 + how as u32 + 10 * c.served() as u32);
            left[how] += 1;
            match how {
                0 => drop(c),
                1 => {
                    c.s.half();
                    // Everything asked is still answered before the server closes,
                    // but only once it is this client's turn
                    if c.served() {
                        net::read_all(&mut c.s, "half closed client")?;
                    }
                }
                2 => match c.s {
                    Sock::T(s) => net::reset(s),
                    Sock::U(s) => drop(s),
                },
                3 => {
                    // In the middle of a command
                    net::send(&mut c.s, b"PARTIAL COMM")?;
                    match c.s {
                        Sock::T(s) if rng.chance(1, 2) => net::reset(s),
                        s => drop(s),
                    }
                }
                _ => {
                    // With a response on the way
                    net::send(&mut c.s, format!("LEN3000000:{}?\n", c.id).as_bytes())?;
                    if rng.chance(1, 2) {
                        std::thread::sleep(Duration::from_millis(3));
                    }
                    match c.s {
                        Sock::T(s) if rng.chance(1, 2) => net::reset(s),
                        s => drop(s),
                    }
                }
            }
        }
        // As many as the limit allows get served, never more
        let want = limit.min(clients.len());
        let t0 = Instant::now();
        let mut settled: Option<Instant> = None;
        loop {
            for c in clients.iter_mut() {
                if c.pump()? && c.asked < 6 && c.answered == c.asked && rng.chance(1, 2) {
                    c.ask()?;
                }
            }
            let n = clients.iter().filter(|c| c.served()).count();
            max_served = max_served.max(n);
            ensure!(
                n <= limit,
                "{kind:?} server with limit {limit} serves {n} clients at once"
            );
            let idle = clients.iter().filter(|c| c.served()).all(|c| c.answered == c.asked);
            if n == want && idle {
                let s = settled.get_or_insert_with(Instant::now);
                // A little longer if there are clients who must wait
                let extra = if clients.len() > limit { 12 } else { 0 };
                if s.elapsed() >= Duration::from_millis(extra) {
                    break;
                }
            }
            if t0.elapsed() > DEADLINE {
                return late(format!(
                    "{kind:?} server with limit {limit}: only {n} of {} connected clients are served (history {trace:?})",
                    clients.len()
                ));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        waited += (clients.len() - want) as u64;
    }
    // Everybody in turn: serve, then leave
    while let Some(i) = clients.iter().position(|c| c.served()) {
        let c = clients.remove(i);
        drop(c);
        let want = limit.min(clients.len());
        let t0 = Instant::now();
        while clients.iter().filter(|c| c.served()).count() < want {
            for c in clients.iter_mut() {
                c.pump()?;
            }
            if t0.elapsed() > DEADLINE {
                return late(format!("{kind:?} server with limit {limit}: waiting clients are not served after others left"));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        ensure!(
            clients.iter().filter(|c| c.served()).count() <= limit,
            "{kind:?} server with limit {limit} serves more"
        );
    }
    for (i, n) in ["closed", "half closed", "reset", "mid command", "mid response"].iter().enumerate() {
        ctx.count(&format!("left: {n}"), left[i]);
    }
    ctx.count("clients", next as u64);
    ctx.count("clients seen waiting at a full server", waited);
    ctx.eval(hash_of(&(kind as u32, limit, &trace)), waited > 0, || {
        format!("{kind:?} limit {limit}, at most {max_served} served, history (1 arrive, 10+ leave waiting, 20+ leave served) {trace:?}")
    });
    Ok(())
}

/// Many short clients; the number being served is watched from inside the device
fn churn(ctx: &Ctx, rng: &mut Rng, kind: Kind) -> R {
    let limit = rng.range(1, 3);
    let u = Unit::new();
    let srv;
    let usrv;
    let (mut addr, mut path) = (None, None);
    match kind {
        Kind::Tcp => {
            srv = net::start_raw(&u, || ServerConfig::default().backpressure(limit))?;
            addr = Some(srv.addr);
        }
        Kind::Telnet => {
            srv = net::start_telnet(&u, limit)?;
            addr = Some(srv.addr);
        }
        Kind::Unix => {
            usrv = start_unix(&u, ServerConfig::default().backpressure(limit))?;
            path = Some(usrv.path.clone());
        }
    }
    // Clients between their first response and leaving
    let inside = AtomicUsize::new(0);
    let peak = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = AtomicU64::new(0);
    let per = 25;
    let res: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..limit + 3)
            .map(|t| {
                let mut rng = rng.fork();
                let (inside, peak, stop, total) = (&inside, &peak, &stop, &total);
                let (addr, path) = (addr, path.clone());
                sc.spawn(move || -> R {
                    for k in 0..per {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut s = match (&addr, &path) {
                            (Some(a), _) => Sock::T(net::connect(*a)?),
                            (_, Some(p)) => Sock::U(unix_connect(p)?),
                            _ => return inconc("no server"),
                        };
                        if rng.chance(1, 5) {
                            // Leaves at once
                            match s {
                                Sock::T(s) if rng.chance(1, 2) => net::reset(s),
                                s => drop(s),
                            }
                            continue;
                        }
                        let q = format!("T{t}K{k}?\n");
                        net::send(&mut s, q.as_bytes())?;
                        let want = format!("R:T{t}K{k}?");
                        let mut b = Vec::new();
                        let t0 = Instant::now();
                        while find(&b, want.as_bytes()).is_none() {
                            let mut x = [0u8; 256];
                            match s.read(&mut x) {
                                Ok(0) => return viol("waiting client was disconnected"),
                                Ok(n) => b.extend_from_slice(&x[..n]),
                                Err(e) if t0.elapsed() < DEADLINE && e.kind() != std::io::ErrorKind::ConnectionReset => {}
                                Err(e) => return late(format!("{kind:?} limit {limit}: client is not served: {e}")),
                            }
                        }
                        let n = inside.fetch_add(1, Ordering::SeqCst) + 1;
                        peak.fetch_max(n, Ordering::SeqCst);
                        if n > limit {
                            stop.store(true, Ordering::Relaxed);
                        }
                        total.fetch_add(1, Ordering::Relaxed);
                        std::thread::sleep(Duration::from_micros(rng.below(900) as u64));
                        inside.fetch_sub(1, Ordering::SeqCst);
                        match s {
                            Sock::T(s) if rng.chance(1, 2) => net::reset(s),
                            s => drop(s),
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let p = peak.load(Ordering::SeqCst);
    ensure!(p <= limit, "{kind:?} server with limit {limit} serves {p} clients at once");
    for r in res {
        r?;
    }
    ctx.count("short clients served", total.load(Ordering::Relaxed));
    ctx.seen("peak of clients served at once", p as u64 * 10 + limit as u64);
    ctx.eval(hash_of(&(kind as u32, limit, rng.next())), true, || format!("{kind:?} limit {limit}: {} short clients, at most {p} at once", total.load(Ordering::Relaxed)));
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("random limits and histories of clients arriving and leaving (closing, half closing, resetting, in the middle of a command or response; served or still waiting) on raw TCP, raw unix and telnet servers; the clients who have got a response and not left are counted. Non-trivial: a client waited at a full server");
    for (name, k) in [("tcp", Kind::Tcp), ("unix", Kind::Unix), ("telnet", Kind::Telnet)] {
        ctx.cases_par(&format!("history-{name}"), ctx.n(40, 900), ctx.n(10, 120) as u64, 4, |r, _| limit_case(ctx, r, k));
        ctx.cases_par(&format!("churn-{name}"), ctx.n(6, 100), ctx.n(8, 80) as u64, 2, |r, _| churn(ctx, r, k));
    }
}
