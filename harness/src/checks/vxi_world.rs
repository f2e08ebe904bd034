//! C16, C17, C21: links, data and device operations of the VXI-11 server, judged call by call
//! against a model of links, buffers and locks.

use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;

use crate::dev::{interleaving, std_response, Err3, Ev, Unit};
use crate::net;
use crate::rt::*;
use crate::vxi::*;

#[derive(Clone, Debug)]
pub enum Op {
    Create { dev: String, lock: bool, ms: u32 },
    Write { lid: u32, flags: u32, ms: u32, data: Vec<u8> },
    Read { lid: u32, size: u32, flags: u32, ms: u32, term: u8 },
    Stb { lid: u32, flags: u32, ms: u32 },
    Trigger { lid: u32, flags: u32, ms: u32 },
    Clear { lid: u32, flags: u32, ms: u32 },
    Remote { lid: u32, flags: u32, ms: u32, on: bool },
    Lock { lid: u32, flags: u32, ms: u32 },
    Unlock { lid: u32 },
    Destroy { lid: u32 },
    Docmd { lid: u32 },
}

impl Op {
    pub fn encode(&self) -> (u32, Vec<u8>) {
        match self {
            Op::Create { dev, lock, ms } => (
                p::CREATE_LINK,
                X::new().u(7).u(*lock as u32).u(*ms).op(dev.as_bytes()).0,
            ),
            Op::Write { lid, flags, ms, data } => (p::WRITE, write_args(*lid, *flags, *ms, data)),
            Op::Read { lid, size, flags, ms, term } => {
                (p::READ, read_args(*lid, *size, *flags, *ms, *term))
            }
            Op::Stb { lid, flags, ms } => (p::READSTB, generic(*lid, *flags, *ms)),
            Op::Trigger { lid, flags, ms } => (p::TRIGGER, generic(*lid, *flags, *ms)),
            Op::Clear { lid, flags, ms } => (p::CLEAR, generic(*lid, *flags, *ms)),
            Op::Remote { lid, flags, ms, on } => {
                (if *on { p::REMOTE } else { p::LOCAL }, generic(*lid, *flags, *ms))
            }
            Op::Lock { lid, flags, ms } => (p::LOCK, X::new().u(*lid).u(*flags).u(*ms).0),
            Op::Unlock { lid } => (p::UNLOCK, X::new().u(*lid).0),
            Op::Destroy { lid } => (p::DESTROY_LINK, X::new().u(*lid).0),
            Op::Docmd { lid } => (
                p::DOCMD,
                X::new().u(*lid).u(0).u(100).u(100).u(0x20000).u(1).u(1).op(b"data").0,
            ),
        }
    }
    pub fn lid(&self) -> Option<u32> {
        match self {
            Op::Create { .. } => None,
            Op::Write { lid, .. }
            | Op::Read { lid, .. }
            | Op::Stb { lid, .. }
            | Op::Trigger { lid, .. }
            | Op::Clear { lid, .. }
            | Op::Remote { lid, .. }
            | Op::Lock { lid, .. }
            | Op::Unlock { lid }
            | Op::Destroy { lid }
            | Op::Docmd { lid } => Some(*lid),
        }
    }
    /// Wait flag and lock timeout of operations on the device
    pub fn wait(&self) -> (bool, u32) {
        match self {
            Op::Write { flags, ms, .. }
            | Op::Read { flags, ms, .. }
            | Op::Stb { flags, ms, .. }
            | Op::Trigger { flags, ms, .. }
            | Op::Clear { flags, ms, .. }
            | Op::Remote { flags, ms, .. }
            | Op::Lock { flags, ms, .. } => (flags & WAIT != 0, *ms),
            _ => (false, 0),
        }
    }
    fn brief(&self) -> String {
        match self {
            Op::Write { lid, flags, ms, data } => format!(
                "write({lid}, flags {flags:#x}, {ms} ms, {} bytes {})",
                data.len(),
                show(&data[..data.len().min(20)])
            ),
            o => format!("{o:?}"),
        }
    }
}

pub struct L {
    pub conn: usize,
    pub unit: usize,
    pub input: Vec<u8>,
    pub output: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stress {
    Links,
    Data,
    Device,
}

struct World<'a> {
    ctx: &'a Ctx,
    srv: VxiSrv,
    abort: Rpc,
    units: Vec<Unit>,
    names: Vec<(String, usize)>,
    conns: Vec<Option<Vxi>>,
    links: BTreeMap<u32, L>,
    dead: BTreeSet<u32>,
    holder: Vec<Option<u32>>,
    expect: Vec<Vec<Ev>>,
    trace: String,
    key: u64,
    last_lid: u32,
    max_recv: u32,
}

/// Judge one read: what was returned must be the beginning of `output`
pub fn judge_read(
    output: &mut Vec<u8>,
    size: u32,
    term: Option<u8>,
    r: &ReadResp,
) -> Result<(), String> {
    let n = r.data.len();
    if !output.starts_with(&r.data) {
        return Err(format!(
            "returned data {}",
            diff(&r.data, &output[..n.min(output.len())])
        ));
    }
    if n > size as usize {
        return Err(format!("returned {n} bytes although {size} were requested"));
    }
    if let Some(t) = term {
        if let Some(k) = r.data.iter().position(|&c| c == t) {
            if k + 1 != n {
                return Err(format!(
                    "returned {n} bytes, the termination character {t:#04x} is at position {k}"
                ));
            }
        }
    }
    if n == 0 && size > 0 && !output.is_empty() {
        return Err(format!("returned nothing, {} bytes are left", output.len()));
    }
    output.drain(..n);
    let mut want = 0;
    if n == size as usize {
        want |= R_REQCNT;
    }
    if term.is_some() && r.data.last() == term.as_ref() {
        want |= R_CHR;
    }
    if output.is_empty() {
        want |= R_END;
    }
    if r.reason != want {
        return Err(format!(
            "reason is {:#x} instead of {want:#x} for {n} bytes ({size} requested, termination character {term:?}, {} bytes left, last {:?})",
            r.reason,
            output.len(),
            r.data.last()
        ));
    }
    Ok(())
}

pub fn err_code(e: Err3) -> u32 {
    match e {
        Err3::NotSupported => e::NOT_SUPPORTED,
        Err3::IoTimeout => e::IO_TIMEOUT,
        Err3::IoError => e::IO_ERROR,
    }
}

impl World<'_> {
    fn note(&mut self, s: &str) {
        self.trace.push_str(s);
        self.trace.push_str("; ");
    }

    fn my_links(&self, c: usize) -> Vec<u32> {
        self.links
            .iter()
            .filter(|(_, l)| l.conn == c)
            .map(|(k, _)| *k)
            .collect()
    }

    /// Is the device free for this link?
    fn free(&self, lid: u32) -> bool {
        let u = self.links[&lid].unit;
        self.holder[u].map_or(true, |h| h == lid)
    }

    fn bad_lid(&self, rng: &mut Rng, c: usize) -> u32 {
        for _ in 0..4 {
            match rng.below(6) {
                0 if !self.dead.is_empty() => {
                    let d: Vec<u32> = self.dead.iter().copied().collect();
                    return *rng.pick(&d);
                }
                1 | 2 => {
                    let f: Vec<u32> = self
                        .links
                        .iter()
                        .filter(|(_, l)| l.conn != c)
                        .map(|(k, _)| *k)
                        .collect();
                    if !f.is_empty() {
                        return *rng.pick(&f);
                    }
                }
                3 => return self.last_lid + 1 + rng.below(3) as u32,
                4 => return 0,
                _ => return 0x8000_0000 | rng.u32(),
            }
        }
        u32::MAX
    }

    fn gen(&self, rng: &mut Rng, c: usize, st: Stress, batch: bool) -> Op {
        let mine = self.my_links(c);
        if mine.is_empty() || (!batch && mine.len() < 4 && rng.chance(1, if st == Stress::Links { 4 } else { 12 })) {
            let known = rng.chance(5, 6);
            let dev = if known {
                rng.pick(&self.names).0.clone()
            } else {
                rng.pick(&["inst9", "", "inst", "inst00", "INST0", "hislip0", "inst0 ", " inst0", "inst0\0", "inst0\n", "inst0,0", "inst0::INSTR", "inst0/", "\u{ff49}nst0"]).to_string()
            };
            let lock = !batch && rng.chance(1, if st == Stress::Data { 12 } else { 4 });
            return Op::Create {
                dev,
                lock,
                ms: *rng.pick(&[0, 1, 15, 40]),
            };
        }
        let bad = rng.chance(1, if st == Stress::Links { 5 } else { 25 });
        let lid = if bad { self.bad_lid(rng, c) } else { *rng.pick(&mine) };
        let wait = rng.chance(1, 2);
        let ms = if wait { *rng.pick(&[0, 1, 15, 30]) } else { *rng.pick(&[0, 20_000]) };
        let flags = if wait { WAIT } else { 0 };
        // A wait which should succeed gets time
        let (flags, ms) = if !bad && self.free(lid) && wait {
            (flags, *rng.pick(&[10_000, u32::MAX]))
        } else {
            (flags, ms)
        };
        let w: [usize; 11] = match st {
            Stress::Links => [3, 6, 5, 2, 2, 1, 2, if batch { 0 } else { 3 }, if batch { 0 } else { 2 }, if batch { 0 } else { 3 }, 1],
            Stress::Data => [0, 10, 10, 1, 0, 1, 0, if batch { 0 } else { 1 }, if batch { 0 } else { 1 }, 0, 0],
            Stress::Device => [0, 4, 3, 6, 4, 4, 4, if batch { 0 } else { 1 }, if batch { 0 } else { 1 }, 0, 2],
        };
        let mut x = rng.below(w[1..].iter().sum());
        let mut i = 1;
        while x >= w[i] {
            x -= w[i];
            i += 1;
        }
        match i {
            1 => {
                let mut n = match rng.below(12) {
                    0 => 0,
                    1 => 1,
                    2 if st == Stress::Data => rng.range(1000, 40_000),
                    3 if st == Stress::Data && rng.chance(1, 4) => self.max_recv as usize,
                    _ => rng.range(1, 40),
                };
                n = n.min(self.max_recv as usize);
                let mut data = match rng.below(4) {
                    // Now and then more than fits into 16 bits
                    0 if st == Stress::Data && rng.chance(1, 12) => {
                        format!("LEN{}:{}?", rng.range(65_000, 200_000), rng.below(1000)).into_bytes()
                    }
                    0 => format!("LEN{}:{}?", rng.below(if st == Stress::Data { 9000 } else { 200 }), rng.below(1000)).into_bytes(),
                    1 => rng.bytes(n),
                    _ => {
                        let mut d = format!("c{}", rng.below(100_000)).into_bytes();
                        d.extend((0..n).map(|_| b"abc;\n\r? ,\0\xff"[rng.below(11)]));
                        d
                    }
                };
                data.truncate(self.max_recv as usize);
                let end = rng.chance(2, 3);
                // Other flags mean nothing to a write
                let extra = *rng.pick(&[0, 0, 0, TERM, 0x40]);
                Op::Write { lid, flags: flags | if end { END } else { 0 } | extra, ms, data }
            }
            2 => {
                let avail = self.links.get(&lid).map_or(0, |l| l.output.len());
                let size = match rng.below(8) {
                    0 => 0,
                    1 => 1,
                    2 => avail as u32,
                    3 => avail as u32 + 1,
                    4 => (avail as u32).saturating_sub(1),
                    5 => u32::MAX,
                    6 => rng.below(avail + 2) as u32,
                    _ => rng.range(1, 60) as u32,
                };
                let (fl, term) = if rng.chance(1, 2) {
                    let term = match self.links.get(&lid) {
                        Some(l) if !l.output.is_empty() && rng.chance(3, 4) => {
                            if rng.chance(1, 2) {
                                // One at the edge of what is requested
                                let k = (size as usize).min(l.output.len());
                                l.output[(k + rng.below(3)).saturating_sub(2).min(l.output.len() - 1)]
                            } else {
                                *rng.pick(&l.output)
                            }
                        }
                        _ => rng.u8(),
                    };
                    (TERM, term)
                } else {
                    (0, *rng.pick(&[0, b'\n', b':', rng.clone().u8()]))
                };
                Op::Read { lid, size, flags: flags | fl | if rng.chance(1, 5) { END } else { 0 }, ms, term }
            }
            3 => Op::Stb { lid, flags, ms },
            4 => Op::Trigger { lid, flags, ms },
            5 => {
                // What a refused clear does to buffers is not said
                if let Some(l) = self.links.get(&lid) {
                    if l.conn == c && !self.free(lid) && !(l.input.is_empty() && l.output.is_empty()) {
                        return Op::Stb { lid, flags, ms };
                    }
                }
                Op::Clear { lid, flags, ms }
            }
            6 => Op::Remote { lid, flags, ms, on: rng.chance(1, 2) },
            7 => Op::Lock { lid, flags, ms },
            8 => Op::Unlock { lid },
            9 => Op::Destroy { lid },
            _ => Op::Docmd { lid },
        }
    }

    /// Compare a reply with the model and bring the model up to date
    fn judge(&mut self, c: usize, op: &Op, v: &[u8], took: Duration, fail: Option<Err3>) -> R {
        let what = op.brief();
        let mut r = Rd::new(v);
        let err = r.u(&what)?;
        self.key = hash_of(&(self.key, std::mem::discriminant(op), err));
        self.note(&format!("{c}: {what} -> {err}"));
        let short = |tr: &str| {
            let n = tr.chars().count();
            tr.chars().skip(n.saturating_sub(2500)).collect::<String>()
        };
        macro_rules! chk {
            ($c:expr, $($a:tt)*) => {
                if !($c) {
                    return viol(format!("{what}: {}; history: {}", format!($($a)*), short(&self.trace)));
                }
            };
        }
        macro_rules! end {
            () => {
                r.end(&what)?
            };
        }
        if let Op::Create { dev, lock, ms } = op {
            let lid = r.u(&what)?;
            let port = r.u(&what)?;
            let max = r.u(&what)?;
            end!();
            let Some((_, unit)) = self.names.iter().find(|(n, _)| n == dev) else {
                chk!(err == e::INVALID_ADDRESS, "unknown device answered with error {err}");
                self.ctx.count("unknown devices refused", 1);
                return Ok(());
            };
            let unit = *unit;
            if *lock && self.holder[unit].is_some() {
                chk!(err == e::LOCKED, "created with error {err} although another link holds the lock");
                chk!(
                    took >= Duration::from_millis(*ms as u64).saturating_sub(Duration::from_millis(1)),
                    "refused after {took:?} although the lock timeout is {ms} ms"
                );
                self.ctx.count("links refused for their lock", 1);
                if lid != 0 {
                    chk!(!self.links.contains_key(&lid), "refused but names the live link {lid}");
                    self.dead.insert(lid);
                }
                // No link may have come to be
                self.dead.insert(self.last_lid + 1);
                return Ok(());
            }
            chk!(err == 0, "refused with error {err}");
            chk!(!self.links.contains_key(&lid), "identifier {lid} is that of another live link");
            chk!(port == self.srv.abort.port() as u32, "abort port {port} instead of {}", self.srv.abort.port());
            chk!(max >= 1024, "maximum receive size {max}");
            self.max_recv = max.min(1 << 19);
            self.dead.remove(&lid);
            self.last_lid = self.last_lid.max(lid);
            self.links.insert(lid, L { conn: c, unit, input: Vec::new(), output: Vec::new() });
            if *lock {
                self.holder[unit] = Some(lid);
            }
            self.ctx.count("links created", 1);
            return Ok(());
        }
        if let Op::Docmd { .. } = op {
            let d = r.op(&what)?;
            end!();
            chk!(
                err == e::NOT_SUPPORTED || (err == e::INVALID_LINK && self.links.get(&op.lid().unwrap()).map_or(true, |l| l.conn != c)),
                "answered with error {err}, data {}",
                show(&d)
            );
            self.ctx.count("low-level commands refused", 1);
            return Ok(());
        }
        let lid = op.lid().unwrap();
        let known = self.links.get(&lid).map_or(false, |l| l.conn == c);
        let (extra, data) = match op {
            Op::Write { .. } => (r.u(&what)?, Vec::new()),
            Op::Read { .. } => (r.u(&what)?, r.op(&what)?),
            Op::Stb { .. } => (r.u(&what)?, Vec::new()),
            _ => (0, Vec::new()),
        };
        end!();
        if !known {
            chk!(err == e::INVALID_LINK, "answered with error {err}, the link does not exist on this connection");
            self.ctx.count(
                if self.links.contains_key(&lid) { "refused: link of another connection" } else { "refused: no such link" },
                1,
            );
            return Ok(());
        }
        let unit = self.links[&lid].unit;
        let (wait, ms) = op.wait();
        match op {
            Op::Destroy { .. } => {
                chk!(err == 0, "refused with error {err}");
                self.links.remove(&lid);
                self.dead.insert(lid);
                if self.holder[unit] == Some(lid) {
                    self.holder[unit] = None;
                }
                self.ctx.count("links destroyed", 1);
                return Ok(());
            }
            Op::Unlock { .. } => {
                if self.holder[unit] == Some(lid) {
                    chk!(err == 0, "refused with error {err}");
                    self.holder[unit] = None;
                } else {
                    chk!(err != 0, "succeeded without a lock");
                }
                return Ok(());
            }
            Op::Lock { .. } if self.holder[unit] == Some(lid) => {
                chk!(err != 0 && err != e::LOCKED, "second lock by the same link answered with {err}");
                return Ok(());
            }
            _ => {}
        }
        if self.holder[unit].map_or(false, |h| h != lid) {
            chk!(err == e::LOCKED, "answered with error {err} although link {:?} holds the lock", self.holder[unit]);
            if wait {
                chk!(
                    took + Duration::from_millis(1) >= Duration::from_millis(ms as u64),
                    "failed after {took:?}, the lock timeout is {ms} ms"
                );
            }
            chk!(data.is_empty(), "refused but returned data {}", show(&data));
            self.ctx.count("refused: locked by another link", 1);
            return Ok(());
        }
        let l = self.links.get_mut(&lid).unwrap();
        match op {
            Op::Write { data, flags, .. } => {
                chk!(err == 0, "refused with error {err}");
                chk!(extra as usize == data.len(), "reports {extra} of {} bytes", data.len());
                l.input.extend_from_slice(data);
                if flags & END != 0 {
                    let cmd = std::mem::take(&mut l.input);
                    if let Some(r) = std_response(&cmd) {
                        l.output.extend(r);
                    }
                    self.expect[unit].push(Ev::Exec(cmd));
                    self.ctx.count("commands", 1);
                }
            }
            Op::Read { size, flags, term, .. } => {
                chk!(err == 0, "refused with error {err}");
                let term = (flags & TERM != 0).then_some(*term);
                let resp = ReadResp { err, reason: extra, data };
                let res = judge_read(&mut l.output, *size, term, &resp);
                chk!(res.is_ok(), "{}", res.unwrap_err());
                self.ctx.seen("read reasons", extra as u64);
                self.ctx.count("reads", 1);
            }
            Op::Stb { .. } => {
                self.expect[unit].push(Ev::Status);
                match fail {
                    Some(f) => chk!(err == err_code(f), "device failed with {f:?}, answered {err}"),
                    None => {
                        chk!(err == 0, "refused with error {err}");
                        let s = self.units[unit].log.status.load(std::sync::atomic::Ordering::SeqCst);
                        let want = (s & 0xef) | if l.output.is_empty() { 0 } else { 0x10 };
                        chk!(
                            extra == want as u32,
                            "status is {extra:#x} instead of {want:#x} (device {s:#x}, {} bytes unread)",
                            l.output.len()
                        );
                    }
                }
                self.ctx.count("status reads", 1);
            }
            Op::Trigger { .. } | Op::Clear { .. } | Op::Remote { .. } => {
                let ev = match op {
                    Op::Trigger { .. } => Ev::Trigger("Bus".into()),
                    Op::Clear { .. } => {
                        l.input.clear();
                        l.output.clear();
                        Ev::Clear
                    }
                    Op::Remote { on, .. } => Ev::Remote(*on),
                    _ => unreachable!(),
                };
                self.expect[unit].push(ev);
                let want = fail.map_or(0, err_code);
                chk!(err == want, "answered with error {err} instead of {want}");
                self.ctx.count("device operations", 1);
                if fail.is_some() {
                    self.ctx.count("device errors passed on", 1);
                }
            }
            Op::Lock { .. } => {
                chk!(err == 0, "free lock refused with error {err}");
                self.holder[unit] = Some(lid);
            }
            _ => unreachable!(),
        }
        Ok(())
    }

    /// The devices saw exactly what they had to see
    fn effects(&self) -> R {
        for (u, unit) in self.units.iter().enumerate() {
            let got = unit.log.all();
            let want = &self.expect[u];
            if got != *want {
                let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                let n = self.trace.chars().count();
                return viol(format!(
                    "device {u} differs at effect {i}: saw {:?}, must have seen {:?}; history: {}",
                    got.get(i),
                    want.get(i),
                    self.trace.chars().skip(n.saturating_sub(2500)).collect::<String>()
                ));
            }
            let st = unit.lock_state();
            ensure!(
                st == (self.holder[u].is_some(), 0),
                "lock of device {u} is {st:?}, holder {:?}; history: {}",
                self.holder[u],
                self.trace
            );
        }
        Ok(())
    }

    fn one(&mut self, c: usize, op: &Op, fail: Option<Err3>) -> R {
        let unit = op.lid().and_then(|l| self.links.get(&l)).map(|l| l.unit);
        if let Some(u) = unit {
            self.units[u].log.set_fail(fail);
        }
        let (proc, args) = op.encode();
        let t = Instant::now();
        let v = self.conns[c]
            .as_mut()
            .unwrap()
            .rpc
            .call(proc, &args, &op.brief())
            .what(&self.trace)?;
        let took = t.elapsed();
        if let Some(u) = unit {
            self.units[u].log.set_fail(None);
        }
        let (wait, ms) = op.wait();
        if took > Duration::from_millis(if wait { ms.min(1000) } else { 0 } as u64 + 6000) {
            return late(format!("{} took {took:?}: {}", op.brief(), self.trace));
        }
        self.judge(c, op, &v, took, fail)?;
        self.effects()
    }

    fn batch(&mut self, rng: &mut Rng, c: usize, st: Stress) -> R {
        let ops: Vec<Op> = (0..rng.range(2, 12)).map(|_| self.gen(rng, c, st, true)).collect();
        // A refused clear with data buffered is not judged, see gen
        let ops: Vec<Op> = ops
            .into_iter()
            .filter(|o| match o {
                Op::Clear { lid, .. } => self.links.get(lid).map_or(true, |l| l.conn != c) || self.free(*lid),
                _ => true,
            })
            .collect();
        self.note(&format!("[{} calls at once:", ops.len()));
        let mut out = Vec::new();
        let rpc = &mut self.conns[c].as_mut().unwrap().rpc;
        let first = rpc.xid.wrapping_add(1);
        for op in &ops {
            let (proc, args) = op.encode();
            rpc.xid = rpc.xid.wrapping_add(1);
            let m = call_msg(rpc.xid, 2, CORE, 1, proc, &args);
            let nf = rng.range(1, 3);
            out.extend(if rng.chance(1, 4) { fragments(rng, &m, nf) } else { record(&m) });
        }
        let rpc = &mut self.conns[c].as_mut().unwrap().rpc;
        // All of it is small enough for the socket buffers, or is read before the first reply matters
        let mut w = rpc.s.try_clone().map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let sender = std::thread::spawn(move || net::send(&mut w, &out));
        let mut replies = Vec::new();
        for (i, op) in ops.iter().enumerate() {
            replies.push(rpc.finish(first.wrapping_add(i as u32), &op.brief()).what(&self.trace)?);
        }
        sender.join().unwrap_or_else(|_| inconc("sender panicked"))?;
        for (op, v) in ops.iter().zip(&replies) {
            // How long each took is unknown
            self.judge(c, op, v, Duration::from_secs(1000), None)?;
        }
        self.note("]");
        self.ctx.count("batches", 1);
        self.effects()
    }

    fn leave(&mut self, rng: &mut Rng, c: usize) -> R {
        let mut v = self.conns[c].take().unwrap();
        let mine = self.my_links(c);
        // A call which is cut off must not count
        let mut how = String::new();
        if rng.chance(1, 2) {
            if let Some(&lid) = mine.first() {
                let m = record(&call_msg(9, 2, CORE, 1, p::WRITE, &write_args(lid, WAIT | END, 1000, b"CUT OFF?")));
                let n = rng.range(1, m.len() - 1);
                let _ = net::send(&mut v.rpc.s, &m[..n]);
                how = format!(" in the middle of a call ({n} bytes)");
            }
        }
        let l = *rng.pick(&net::LEAVES);
        self.note(&format!("{c} leaves: {l:?}{how}"));
        if let Some(mut s) = net::leave(v.rpc.s, l) {
            let rest = net::read_all(&mut s, "half closed connection")?;
            ensure!(rest.is_empty(), "reply {} to no call; {}", show(&rest), self.trace);
        }
        for lid in mine {
            let l = self.links.remove(&lid).unwrap();
            self.dead.insert(lid);
            if self.holder[l.unit] == Some(lid) {
                self.holder[l.unit] = None;
                if !self.units[l.unit].wait_lock(DEADLINE, false, 0) {
                    return late(format!("lock of link {lid} is still held: {}", self.trace));
                }
            }
        }
        self.ctx.count("connections left", 1);
        Ok(())
    }

    fn abort(&mut self, rng: &mut Rng) -> R {
        let live: Vec<u32> = self.links.keys().copied().collect();
        let (lid, want) = if !live.is_empty() && rng.chance(1, 2) {
            (*rng.pick(&live), 0)
        } else {
            let mut x = self.bad_lid(rng, usize::MAX);
            if self.links.contains_key(&x) {
                x = 0x7fff_0000;
            }
            // A link which vanished with its connection is forgotten when the server notices
            (x, e::INVALID_LINK)
        };
        let t = Instant::now();
        loop {
            let got = self.srv.abort_call(&mut self.abort, lid)?;
            if got == want {
                break;
            }
            if want != 0 && got == 0 && t.elapsed() < Duration::from_secs(3) && self.dead.contains(&lid) {
                std::thread::sleep(Duration::from_millis(3));
                continue;
            }
            return viol(format!("abort of link {lid} answered with {got} instead of {want}: {}", self.trace));
        }
        self.note(&format!("abort({lid}) -> {want}"));
        self.ctx.count("aborts of idle or unknown links", 1);
        self.effects()
    }
}

fn world_case(ctx: &Ctx, rng: &mut Rng, st: Stress, steps: usize) -> R {
    let nu = rng.range(1, 3);
    let units: Vec<Unit> = (0..nu).map(|_| Unit::new()).collect();
    let mut names: Vec<(String, usize)> = (0..nu).map(|i| (format!("inst{i}"), i)).collect();
    if rng.chance(1, 3) {
        // A second name of the first device
        names.push(("gpib0,1".into(), 0));
    }
    let srq = StatusSender::new();
    let list: Vec<(&str, &Unit)> = names.iter().map(|(n, u)| (n.as_str(), &units[*u])).collect();
    let srv = start(&list, &srq)?;
    let nc = rng.range(1, 4);
    let mut w = World {
        ctx,
        abort: Rpc::connect(srv.abort, ABORT)?,
        conns: (0..nc).map(|_| Vxi::connect(srv.core).map(Some)).collect::<R<_>>()?,
        srv,
        holder: vec![None; nu],
        expect: vec![Vec::new(); nu],
        units,
        names,
        links: BTreeMap::new(),
        dead: BTreeSet::new(),
        trace: String::new(),
        key: 0,
        last_lid: 0,
        max_recv: 1024,
    };
    for _ in 0..steps {
        let c = rng.below(nc);
        if w.conns[c].is_none() {
            w.conns[c] = Some(Vxi::connect(w.srv.core)?);
            w.note(&format!("{c} connects"));
        }
        if st == Stress::Device || rng.chance(1, 10) {
            let u = rng.below(nu);
            let s = rng.u8();
            w.units[u].log.set_status(s);
        }
        match rng.below(if st == Stress::Links { 24 } else { 50 }) {
            0 | 1 if st == Stress::Links || nc > 1 => w.leave(rng, c)?,
            2 => w.abort(rng)?,
            3..=5 => w.batch(rng, c, st)?,
            _ => {
                let op = w.gen(rng, c, st, false);
                let mut fail = None;
                if st == Stress::Device && rng.chance(1, 3) {
                    let l = op.lid().and_then(|l| w.links.get(&l));
                    let ambiguous = matches!(op, Op::Clear { .. })
                        && l.map_or(false, |l| !l.input.is_empty() || !l.output.is_empty());
                    if !ambiguous {
                        fail = Some(*rng.pick(&[Err3::NotSupported, Err3::IoTimeout, Err3::IoError]));
                    }
                }
                w.one(c, &op, fail)?;
            }
        }
    }
    // Everything which is left works and is intact
    for c in 0..nc {
        for lid in w.my_links(c) {
            if !w.free(lid) {
                continue;
            }
            if rng.chance(1, 2) {
                w.one(c, &Op::Write { lid, flags: END | WAIT, ms: 10_000, data: b"last?".to_vec() }, None)?;
            }
            w.one(c, &Op::Read { lid, size: u32::MAX, flags: WAIT, ms: 10_000, term: 0 }, None)?;
        }
    }
    if let Some(e) = w.srv.ended() {
        return viol(format!("server ended: {e}"));
    }
    ctx.seen("histories", w.key);
    let key = w.key;
    ctx.eval(key, w.links.len() > 1 || nc > 1, || w.trace.chars().take(500).collect());
    Ok(())
}

/// Connections at the same time
fn conc_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let nu = rng.range(1, 2);
    let units: Vec<Unit> = (0..nu).map(|_| Unit::new()).collect();
    if rng.chance(1, 2) {
        for u in &units {
            u.log.exec_us.store(rng.below(400) as u64, std::sync::atomic::Ordering::Relaxed);
        }
    }
    let names = ["inst0", "inst1"];
    let srq = StatusSender::new();
    let list: Vec<(&str, &Unit)> = names.iter().copied().zip(&units).collect();
    let srv = start(&list, &srq)?;
    let live: Mutex<BTreeSet<u32>> = Mutex::new(BTreeSet::new());
    let nt = rng.range(2, 8);
    let seeds: Vec<Rng> = (0..nt).map(|_| rng.fork()).collect();
    let addr = srv.core;
    let res: Vec<R<Vec<Vec<Ev>>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .into_iter()
            .enumerate()
            .map(|(t, r)| {
                let live = &live;
                sc.spawn(move || conc_thread(ctx, t, r, addr, nu, live))
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| inconc("thread panicked")))
            .collect()
    });
    let res = res.into_iter().collect::<R<Vec<_>>>()?;
    for u in 0..nu {
        let got = units[u].log.effects_since(0);
        let lists: Vec<(&[Ev], bool)> = res.iter().map(|l| (&l[u][..], true)).collect();
        interleaving(&got, &lists).map_err(|e| Fail::Violation(format!("device {u}: {e}")))?;
        let h = hash_of(&format!("{got:?}"));
        ctx.seen("orders of concurrent commands", h);
        ctx.eval(h, got.len() > 4, || format!("{nt} connections, {} effects", got.len()));
    }
    Ok(())
}

fn conc_thread(
    ctx: &Ctx,
    t: usize,
    mut rng: Rng,
    addr: SocketAddr,
    nu: usize,
    live: &Mutex<BTreeSet<u32>>,
) -> R<Vec<Vec<Ev>>> {
    let mut v = Vxi::connect(addr)?;
    let mut done: Vec<Vec<Ev>> = vec![Vec::new(); nu];
    // link, unit, input, output
    let mut links: Vec<(u32, usize, Vec<u8>, Vec<u8>)> = Vec::new();
    let mut n = 0;
    for _ in 0..rng.range(10, 50) {
        if links.is_empty() || (links.len() < 4 && rng.chance(1, 6)) {
            let u = rng.below(nu);
            let lid = v.link(["inst0", "inst1"][u])?;
            ensure!(
                live.lock().unwrap().insert(lid),
                "identifier {lid} was given to two live links"
            );
            links.push((lid, u, Vec::new(), Vec::new()));
            ctx.count("links created concurrently", 1);
            continue;
        }
        let k = rng.below(links.len());
        match rng.below(10) {
            0 => {
                let (lid, ..) = links.swap_remove(k);
                live.lock().unwrap().remove(&lid);
                let err = v.destroy(lid)?;
                ensure!(err == 0, "destroy_link of a live link answered {err}");
            }
            1..=5 => {
                let (lid, u, input, output) = &mut links[k];
                n += 1;
                let mut d = format!("t{t}n{n}").into_bytes();
                if rng.chance(1, 2) {
                    d.push(b'?');
                }
                let end = rng.chance(3, 4);
                let wait = rng.chance(2, 3);
                let fl = if end { END } else { 0 } | if wait { WAIT } else { 0 };
                let (err, size) = v.write(*lid, fl, 30_000, &d)?;
                if err == e::NOT_ACCESSIBLE && !wait {
                    // The device is in use at this moment
                    ctx.count("refused: device in use", 1);
                    continue;
                }
                ensure!(err == 0 && size as usize == d.len(), "write answered error {err}, {size} bytes");
                input.extend_from_slice(&d);
                if end {
                    let c = std::mem::take(input);
                    if let Some(r) = std_response(&c) {
                        output.extend(r);
                    }
                    done[*u].push(Ev::Exec(c));
                }
            }
            6..=8 => {
                let (lid, _, _, output) = &mut links[k];
                let size = rng.range(1, 30) as u32;
                let term = rng.chance(1, 2).then_some(b'?');
                let wait = rng.chance(2, 3);
                let fl = if term.is_some() { TERM } else { 0 } | if wait { WAIT } else { 0 };
                let r = v.read(*lid, size, fl, 30_000, b'?')?;
                if r.err == e::NOT_ACCESSIBLE && !wait {
                    continue;
                }
                ensure!(r.err == 0, "read answered error {}", r.err);
                judge_read(output, size, term, &r).map_err(|e| Fail::Violation(format!("link {lid}: read {e}")))?;
            }
            _ => {
                let (lid, u, ..) = &mut links[k];
                let on = rng.chance(1, 2);
                let err = v.op(if on { p::REMOTE } else { p::LOCAL }, *lid, WAIT, 30_000)?;
                ensure!(err == 0, "remote/local answered error {err}");
                done[*u].push(Ev::Remote(on));
            }
        }
    }
    for (lid, _, _, output) in &mut links {
        let r = v.read(*lid, u32::MAX, WAIT, 30_000, 0)?;
        judge_read(output, u32::MAX, None, &r).map_err(|e| Fail::Violation(format!("link {lid}: read {e}")))?;
        live.lock().unwrap().remove(lid);
    }
    Ok(done)
}

/// Operations while the device executes somebody else's commands: what is answered without an
/// error has happened, what is answered with one has not
fn busy_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = start(&[("inst0", &u)], &srq)?;
    let us = rng.range(2_000, 25_000) as u64;
    u.log.set_responder(move |c| {
        if c.starts_with(b"SLOW") {
            std::thread::sleep(Duration::from_micros(us));
        }
        std_response(c)
    });
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut a = Vxi::connect(srv.core)?;
    let la = a.link("inst0")?;
    let mut v = Vxi::connect(srv.core)?;
    let lid = v.link("inst0")?;
    let gap = *rng.pick(&[0u64, 0, 300, 3000]);
    let slow = |e: &Ev| matches!(e, Ev::Exec(c) if c.starts_with(b"SLOW"));
    let steps = rng.range(10, 40);
    let (mut ok, mut refused, mut key) = (0u64, 0u64, 0u64);
    let mut hist = String::new();
    let r: R = std::thread::scope(|sc| {
        let bg = sc.spawn(|| -> R<usize> {
            let mut n = 0;
            while !stop.load(std::sync::atomic::Ordering::SeqCst) && n < 400 {
                n += 1;
                let (err, _) = a.write(la, WAIT | END, 60_000, format!("SLOW{n}").as_bytes())?;
                ensure!(err == 0, "slow command answered {err}");
                if gap > 0 {
                    std::thread::sleep(Duration::from_micros(gap));
                }
            }
            Ok(n)
        });
        let mut work = || -> R {
            if !u.log.wait(DEADLINE, |l| !l.is_empty()) {
                return late("command does not reach the device");
            }
            let mut input: Vec<u8> = Vec::new();
            let mut output: Vec<u8> = Vec::new();
            for k in 0..steps {
                let flags = if rng.chance(1, 6) { WAIT } else { 0 };
                let from = u.log.len();
                let what = rng.below(9);
                let (name, err, effect): (&str, u32, Option<Ev>) = match what {
                    0..=2 => {
                        let end = rng.chance(3, 4);
                        let d = format!("w{k}{}", if rng.chance(1, 2) { "?" } else { "" }).into_bytes();
                        let (err, n) = v.write(lid, flags | if end { END } else { 0 }, 60_000, &d)?;
                        ensure!(
                            n as usize == if err == 0 { d.len() } else { 0 },
                            "write of {} bytes answered {err} and size {n}: {hist}",
                            d.len()
                        );
                        let mut ev = None;
                        if err == 0 {
                            input.extend_from_slice(&d);
                            if end {
                                let c = std::mem::take(&mut input);
                                output.extend(std_response(&c).unwrap_or_default());
                                ev = Some(Ev::Exec(c));
                            }
                        }
                        ("write", err, ev)
                    }
                    3 => {
                        let r = v.read(lid, 1 << 16, flags, 60_000, 0)?;
                        if r.err == 0 {
                            judge_read(&mut output, 1 << 16, None, &r)
                                .map_err(|e| Fail::Violation(format!("read while the device is busy {e}: {hist}")))?;
                        } else {
                            ensure!(r.data.is_empty(), "read answered {} and {}: {hist}", r.err, show(&r.data));
                        }
                        ("read", r.err, None)
                    }
                    4 => {
                        let st = rng.u8();
                        u.log.set_status(st);
                        let (err, got) = v.stb(lid, flags, 60_000)?;
                        if err == 0 {
                            let want = st & 0xef | if output.is_empty() { 0 } else { 0x10 };
                            ensure!(got == want as u32, "status {got:#x} instead of {want:#x}: {hist}");
                        }
                        ("stb", err, (err == 0).then_some(Ev::Status))
                    }
                    5 => {
                        let err = v.op(p::TRIGGER, lid, flags, 60_000)?;
                        ("trigger", err, (err == 0).then_some(Ev::Trigger("Bus".into())))
                    }
                    6 => {
                        let err = v.op(p::CLEAR, lid, flags, 60_000)?;
                        if err != 0 {
                            // What became of the buffers is not said
                            let seen: Vec<Ev> = u.log.since(from).into_iter().filter(|e| !slow(e)).collect();
                            ensure!(seen.is_empty(), "clear answered {err}, but the device saw {seen:?}: {hist}");
                            let err = v.op(p::CLEAR, lid, WAIT, 60_000)?;
                            ensure!(err == 0, "clear which may wait answered {err}: {hist}");
                            refused += 1;
                        }
                        input.clear();
                        output.clear();
                        ("clear", 0, Some(Ev::Clear))
                    }
                    _ => {
                        let on = rng.chance(1, 2);
                        let err = v.op(if on { p::REMOTE } else { p::LOCAL }, lid, flags, 60_000)?;
                        ("remote/local", err, (err == 0).then_some(Ev::Remote(on)))
                    }
                };
                hist.push_str(&format!("{name}({flags})={err} "));
                key = hash_of(&(key, what, flags, err == 0));
                ensure!(flags == 0 || err == 0, "{name} which may wait answered {err}: {hist}");
                let seen: Vec<Ev> = u.log.since(from).into_iter().filter(|e| !slow(e)).collect();
                let want: Vec<Ev> = effect.into_iter().collect();
                ensure!(
                    seen == want,
                    "{name} (flags {flags}) while the device is busy answered {err}, device saw {seen:?} instead of {want:?}: {hist}"
                );
                if err == 0 {
                    ok += 1;
                } else {
                    refused += 1;
                }
                if rng.chance(1, 3) {
                    std::thread::sleep(Duration::from_micros(rng.below(6000) as u64));
                }
            }
            Ok(())
        };
        let w = work();
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let n = bg.join().unwrap();
        w?;
        n?;
        Ok(())
    });
    r?;
    ctx.count("operations done while the device was busy", ok);
    ctx.count("operations refused while the device was busy", refused);
    ctx.eval(key, ok + refused > 0, || format!("commands of {us} us in the background: {hist}"));
    Ok(())
}

const RULE: &str =
    "world: random calls (create/destroy link, write, read, status, trigger, clear, remote/local, lock, \
     unlock, docmd, abort) over several connections, links and devices, one by one or many sent at once, \
     with unknown, destroyed and foreign link identifiers, locks held by other links, failing device \
     operations and connections which close, reset or end in the middle of a call; after each reply its \
     contents, the model of all links' buffers, and the complete log and lock state of every device are \
     compared. conc: connections working on the same devices at once, every response and the \
     interleaving of commands checked. busy (C21): operations with and without waiting while another \
     connection's commands execute. Non-trivial: more than one link or connection; distinct by \
     sequence of operations and outcomes.";

fn run(ctx: &Ctx, st: Stress) {
    ctx.rule(RULE);
    let (q, t) = match st {
        Stress::Links => (500, 12_000),
        Stress::Data => (300, 8000),
        Stress::Device => (450, 10_000),
    };
    ctx.cases_par("world", ctx.n(q, t), ctx.n(18, 500) as u64, 4, |rng, _| {
        let steps = rng.range(10, 80);
        world_case(ctx, rng, st, steps)
    });
    ctx.cases("conc", ctx.n(250, 5000), ctx.n(8, 300) as u64, |rng, _| conc_case(ctx, rng));
}

pub fn c16(ctx: &Ctx) {
    run(ctx, Stress::Links);
    ctx.cases_par("crowd", ctx.n(4, 60), ctx.n(15, 150) as u64, 4, |rng, _| super::crowd::links_case(ctx, rng));
}

pub fn c17(ctx: &Ctx) {
    run(ctx, Stress::Data);
    ctx.cases("long", 1, 60, |_, _| super::long::links_data(ctx));
    ctx.cases("big", 1, 60, |_, _| super::long::big(ctx, "vxi11"));
}

pub fn c21(ctx: &Ctx) {
    run(ctx, Stress::Device);
    ctx.cases_par("busy", ctx.n(120, 4000), ctx.n(10, 300) as u64, 4, |rng, _| busy_case(ctx, rng));
}
