//! C04: locks never outlive their holder.

use std::collections::BTreeMap;
use std::io::Write;
use std::net::{Ipv4Addr, TcpListener, TcpStream};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;

use super::lock::{det_case, install_hook, threads_sections, Emphasis, Focus, Kind, Model, POINTS};
use crate::dev::{Ev, Unit};
use crate::hislip::{self, encode, eventually, raw_header, t, Hs};
use crate::net::{self, Srv, LEAVES};
use crate::rt::*;
use crate::vxi::{self, e, p, record, Vxi, VxiSrv, X, END, WAIT};

const LONG: u32 = 60_000;

enum P {
    H(Hs),
    V(Vxi),
    R(TcpStream),
}

#[derive(Debug, Clone, PartialEq)]
enum What {
    HLock(Kind),
    VLock(u32),
    VCreate(u32),
    VWrite(u32, Vec<u8>),
    HCmd(u32, Vec<u8>),
    RCmd(Vec<u8>),
}

struct Wait {
    id: usize,
    what: What,
    /// Was permitted at some moment, so it may have been served although it is not permitted now
    brief: bool,
}

struct Peer {
    p: P,
    /// Lock owner: the session, or nothing for a connection without links
    id: usize,
    /// (link, lock owner)
    links: Vec<(u32, usize)>,
    /// Waiting on the asynchronous channel or on the VXI-11 connection
    a: Option<Wait>,
    /// Waiting on the synchronous channel or on the raw connection
    b: Option<Wait>,
    /// Makes commands unique
    n: usize,
}

impl Peer {
    fn ids(&self) -> Vec<usize> {
        match self.p {
            P::V(_) => self.links.iter().map(|l| l.1).collect(),
            _ => vec![self.id],
        }
    }
    fn idle(&self) -> bool {
        self.a.is_none() && self.b.is_none()
    }
    fn name(&self) -> String {
        match &self.p {
            P::H(h) => format!("session {}", h.id),
            P::V(v) => format!("connection {:?}", v.rpc.s.local_addr().map(|a| a.port()).unwrap_or(0)),
            P::R(_) => "raw client".into(),
        }
    }
    fn ready(&mut self, slot_b: bool) -> R<bool> {
        if let (P::H(h), false) = (&mut self.p, slot_b) {
            // Service requests are no answers
            loop {
                let _ = h.asy.set_nonblocking(true);
                let mut b = [0u8; 16];
                let r = h.asy.peek(&mut b);
                let _ = h.asy.set_nonblocking(false);
                match r {
                    Ok(n) if n > 2 && b[2] == t::ASYNC_SERVICE_REQUEST => {
                        let _ = hislip::recv(&mut h.asy, "service request")?;
                    }
                    Ok(1..=2) => {}
                    _ => break,
                }
            }
        }
        let s = match (&self.p, slot_b) {
            (P::H(h), false) => &h.asy,
            (P::H(h), true) => &h.sync,
            (P::V(v), _) => &v.rpc.s,
            (P::R(s), _) => s,
        };
        let _ = s.set_nonblocking(true);
        let mut b = [0u8; 1];
        let r = s.peek(&mut b);
        let _ = s.set_nonblocking(false);
        match r {
            Ok(0) => viol(format!("connection of the waiting {} closed by the server", self.name())),
            Ok(_) => Ok(true),
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => Ok(false),
            Err(e) => viol(format!("connection of the waiting {} lost: {e}", self.name())),
        }
    }
}

struct World<'a> {
    ctx: &'a Ctx,
    u: Unit,
    m: Model,
    next: usize,
    peers: Vec<Peer>,
    /// Holders which went while a command of theirs was waiting: their share may stay until it ends
    limbo: Vec<usize>,
    /// A client which went while waiting for the lock may still get it for a moment until then
    zombie: Option<Instant>,
    kept: Vec<TcpStream>,
    listeners: Vec<TcpListener>,
    trace: String,
    done: Vec<Vec<u8>>,
    vanished: usize,
    vanished_holding: usize,
    waited: usize,
    key: u64,
    hs: std::net::SocketAddr,
    core: std::net::SocketAddr,
    raw: std::net::SocketAddr,
    srq: StatusSender,
}

impl World<'_> {
    fn hist(&self) -> String {
        let n = self.trace.chars().count();
        format!(
            "{} (holders {:?})",
            self.trace.chars().skip(n.saturating_sub(2400)).collect::<String>(),
            self.m
        )
    }
    fn note(&mut self, s: String) {
        self.key = hash_of(&(self.key, &s));
        self.trace.push_str(&s);
        self.trace.push_str("; ");
    }
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next
    }
    fn candidate(&self, w: &Wait) -> bool {
        match &w.what {
            What::HLock(k) => !self.m.holds_kind(w.id, k) && self.m.grantable(w.id, k),
            What::VLock(_) | What::VCreate(_) => self.m.grantable(w.id, &Kind::Excl),
            _ => self.m.permitted(w.id),
        }
    }
    fn is_cmd(w: &Wait) -> bool {
        matches!(w.what, What::VWrite(..) | What::HCmd(..) | What::RCmd(_))
    }

    /// Receive the answer of a wait which ended
    fn collect(&mut self, i: usize, slot_b: bool) -> R {
        let h = self.hist();
        let p = &mut self.peers[i];
        let w = if slot_b { p.b.take() } else { p.a.take() }.unwrap();
        let name = p.name();
        match (&mut p.p, &w.what) {
            (P::H(s), What::HLock(k)) => {
                let c = s.lock_answer()?;
                ensure!(c == 1, "{name} waiting for a lock which became free is refused with {c}: {h}");
                self.m.grant(w.id, k);
            }
            (P::V(v), What::VLock(x)) => {
                let b = v.rpc.finish(*x, "device_lock")?;
                let c = vxi::one_error(&b, "device_lock")?;
                ensure!(c == 0, "{name} waiting for a lock which became free gets error {c}: {h}");
                self.m.grant(w.id, &Kind::Excl);
            }
            (P::V(v), What::VCreate(x)) => {
                let l = v.create_finish(*x)?;
                ensure!(l.err == 0, "{name} creating a link with a lock which became free gets error {}: {h}", l.err);
                p.links.push((l.lid, w.id));
                self.m.grant(w.id, &Kind::Excl);
            }
            (P::V(v), What::VWrite(x, c)) => {
                let b = v.rpc.finish(*x, "device_write")?;
                let want = X::new().u(0).u(c.len() as u32).0;
                ensure!(b == want, "write waiting for a lock which became free is answered with {}: {h}", show(&b));
                self.done.push(c.clone());
            }
            (P::H(s), What::HCmd(mid, c)) => {
                let (parts, id) = s.response("response of a command which waited")?;
                ensure!(
                    id == *mid && Some(parts.concat()) == crate::dev::std_response(c),
                    "command {} which waited got a wrong response {}: {h}",
                    show(c),
                    show(&parts.concat())
                );
                self.done.push(c.clone());
            }
            (P::R(s), What::RCmd(c)) => {
                let mut want = crate::dev::std_response(c).unwrap();
                want.push(b'\n');
                let got = net::read_n(s, want.len(), "raw response")?;
                ensure!(got == want, "raw command which waited {}: {h}", diff(&got, &want));
                self.done.push(c.clone());
            }
            _ => unreachable!(),
        }
        self.waited += 1;
        self.note(format!("[{name} is served]"));
        Ok(())
    }

    /// Everything that can happen has happened afterwards
    fn settle(&mut self) -> R {
        let t0 = Instant::now();
        loop {
            let mut cands = 0;
            let mut got = None;
            for i in 0..self.peers.len() {
                for slot_b in [false, true] {
                    let p = &self.peers[i];
                    let Some(w) = (if slot_b { &p.b } else { &p.a }) else { continue };
                    let c = self.candidate(w);
                    cands += c as usize;
                    let brief = w.brief;
                    let what = format!("{:?}", w.what);
                    let h = self.hist();
                    if self.peers[i].ready(slot_b).what(h)? {
                        if !c && !brief {
                            let name = self.peers[i].name();
                            return viol(format!("{name} is answered for {what} although it must wait: {}", self.hist()));
                        }
                        got = Some((i, slot_b));
                    }
                    if c {
                        let p = &mut self.peers[i];
                        let w = if slot_b { &mut p.b } else { &mut p.a }.as_mut().unwrap();
                        if World::is_cmd(w) {
                            w.brief = true;
                        }
                    }
                }
            }
            if let Some((i, b)) = got {
                self.collect(i, b)?;
                continue;
            }
            if cands == 0 {
                break;
            }
            if t0.elapsed() > DEADLINE {
                let w: Vec<String> = self
                    .peers
                    .iter()
                    .flat_map(|p| [&p.a, &p.b].into_iter().flatten().map(|w| format!("{} {:?}", p.name(), w.what)).collect::<Vec<_>>())
                    .collect();
                return late(format!(
                    "nobody who could is served, waiting: {w:?}, lock {:?}: {}",
                    self.u.lock_state(),
                    self.hist()
                ));
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        self.state()
    }

    fn state_ok(&mut self) -> bool {
        let want = self.m.info();
        let got = self.u.lock_state();
        if got == want {
            return true;
        }
        if want.0 {
            got.0 && got.1 > want.1 && got.1 <= want.1 + self.limbo.len() as u32
        } else {
            false
        }
    }

    fn state(&mut self) -> R {
        if !self.m.info().0 {
            self.limbo.clear();
        }
        let t0 = Instant::now();
        while !self.state_ok() {
            if t0.elapsed() > DEADLINE {
                return late(format!(
                    "the lock says exclusive={}, {} sharers although {:?} hold it: {}",
                    self.u.lock_state().0,
                    self.u.lock_state().1,
                    self.m,
                    self.hist()
                ));
            }
            std::thread::sleep(Duration::from_micros(500));
        }
        Ok(())
    }

    fn calm(&mut self) {
        if let Some(z) = self.zombie {
            let now = Instant::now();
            if z > now {
                std::thread::sleep(z - now);
            }
        }
    }

    /// An immediate request: granted exactly when the model says so
    fn attempt(&mut self, what: &str, want: bool, mut f: impl FnMut(&mut Self) -> R<bool>) -> R<bool> {
        let t0 = Instant::now();
        loop {
            let got = f(self)?;
            if got == want {
                return Ok(got);
            }
            if want && self.zombie.is_some() && t0.elapsed() < DEADLINE {
                // A client which went while waiting may have the lock for a moment
                std::thread::sleep(Duration::from_millis(20));
                continue;
            }
            let h = self.hist();
            return viol(format!("{what} {}: {h}", if got { "granted to one who is excluded" } else { "refused although it is free" }));
        }
    }

    fn grant_now(&mut self, rng: &mut Rng) -> R {
        let i = rng.below(self.peers.len());
        if !self.peers[i].idle() {
            return Ok(());
        }
        let name = self.peers[i].name();
        match &self.peers[i].p {
            P::H(_) => {
                let id = self.peers[i].id;
                let k = kind(rng);
                let want = self.m.grantable(id, &k) && !self.m.holds_kind(id, &k);
                self.note(format!("{name} tries to lock {k:?}"));
                let pay = payload(&k);
                let got = self.attempt("lock request", want, |w| {
                    let P::H(h) = &mut w.peers[i].p else { unreachable!() };
                    Ok(h.lock(0, &pay)? == 1)
                })?;
                if got {
                    self.m.grant(id, &k);
                }
            }
            P::V(_) => {
                let links = self.peers[i].links.clone();
                if links.is_empty() {
                    return Ok(());
                }
                let (lid, id) = *rng.pick(&links);
                let want = self.m.grantable(id, &Kind::Excl);
                self.note(format!("link {lid} tries to lock"));
                let got = self.attempt("lock request", want, |w| {
                    let P::V(v) = &mut w.peers[i].p else { unreachable!() };
                    Ok(v.lock(lid, 0, 0)? == 0)
                })?;
                if got {
                    self.m.grant(id, &Kind::Excl);
                }
            }
            P::R(_) => {}
        }
        self.settle()
    }

    fn release(&mut self, i: usize) -> R {
        let h = self.hist();
        let p = &mut self.peers[i];
        let name = p.name();
        match &mut p.p {
            P::H(s) if p.a.is_none() => {
                let want = match self.m.release(p.id) {
                    2 => 1,
                    1 => 2,
                    _ => 3,
                };
                let c = s.release()?;
                ensure!(c == want, "release by {name} is answered with {c} instead of {want}: {h}");
            }
            P::V(v) if p.a.is_none() => {
                for (lid, id) in p.links.clone() {
                    if self.m.holds_any(id) {
                        self.m.release(id);
                        let c = v.unlock(lid)?;
                        ensure!(c == 0, "unlock of link {lid} fails with {c}: {h}");
                    }
                }
            }
            _ => return Ok(()),
        }
        self.note(format!("{name} releases"));
        self.settle()
    }

    fn use_it(&mut self, i: usize) -> R {
        let h = self.hist();
        let p = &mut self.peers[i];
        if !p.idle() {
            return Ok(());
        }
        self.next += 1;
        p.n = self.next;
        let c = format!("use {} {}?", p.name(), p.n).into_bytes();
        match &mut p.p {
            P::H(s) if self.m.permitted(p.id) => {
                s.check_query(&c).what(h)?;
                self.done.push(c);
            }
            P::V(v) => {
                for (k, (lid, id)) in p.links.clone().into_iter().enumerate() {
                    if self.m.permitted(id) {
                        // Another link of the connection may have unread output, each has its own
                        if k == 0 || self.m.holds_any(id) {
                            let c = format!("use link {lid} {}?", p.n).into_bytes();
                            let (er, n) = v.write(lid, END | WAIT, 10_000, &c)?;
                            ensure!(er == 0 && n as usize == c.len(), "write on link {lid} fails with {er}: {h}");
                            let r = v.read(lid, 1 << 20, WAIT, 10_000, 0)?;
                            ensure!(
                                r.err == 0 && Some(r.data.clone()) == crate::dev::std_response(&c),
                                "read on link {lid}: error {} data {}: {h}",
                                r.err,
                                show(&r.data)
                            );
                            self.done.push(c);
                        }
                    } else {
                        let (er, _) = v.stb(lid, 0, 0)?;
                        ensure!(er == e::LOCKED, "status read on link {lid} which is excluded returns {er}: {h}");
                        self.ctx.count("exclusion probes", 1);
                    }
                }
            }
            P::R(s) if self.m.permitted(p.id) => {
                let mut want = crate::dev::std_response(&c).unwrap();
                want.push(b'\n');
                net::send(s, &[&c[..], b"\n"].concat())?;
                let got = net::read_n(s, want.len(), "raw response").what(h)?;
                ensure!(got == want, "raw response {}", diff(&got, &want));
                self.done.push(c);
            }
            _ => {}
        }
        Ok(())
    }

    fn upgrade_waits(&self) -> bool {
        self.peers.iter().any(|p| {
            matches!(&p.a, Some(w) if matches!(&w.what, What::HLock(Kind::Excl)) && self.m.holds_any(w.id))
        })
    }

    /// Somebody starts to wait for a long time
    fn start_wait(&mut self, i: usize, rng: &mut Rng) -> R {
        if !self.peers[i].idle() {
            return Ok(());
        }
        let upgrade = self.upgrade_waits();
        let new = self.id();
        let name = self.peers[i].name();
        let m = self.m.clone();
        let p = &mut self.peers[i];
        p.n = new;
        let holds = p.ids().iter().any(|&x| m.holds_any(x));
        let mut desc = String::new();
        match &mut p.p {
            P::H(h) => {
                if rng.chance(1, 2) {
                    let k = kind(rng);
                    if m.grantable(p.id, &k) || m.holds_kind(p.id, &k) {
                        return Ok(());
                    }
                    if holds && (k != Kind::Excl || upgrade || m.excl == Some(p.id)) {
                        return Ok(());
                    }
                    h.lock_start(LONG, &payload(&k))?;
                    desc = format!("{name} waits for {k:?}");
                    p.a = Some(Wait { id: p.id, what: What::HLock(k), brief: false });
                } else if !m.permitted(p.id) {
                    let c = format!("waited {name} {}?", p.n).into_bytes();
                    let mid = h.cmd(&c)?;
                    desc = format!("{name} sends a command which must wait");
                    p.b = Some(Wait { id: p.id, what: What::HCmd(mid, c), brief: false });
                }
            }
            P::V(v) => {
                if holds {
                    return Ok(());
                }
                let links = p.links.clone();
                match rng.below(3) {
                    0 if !m.grantable(new, &Kind::Excl) && links.len() < 4 => {
                        let x = v.create_start("inst0", true, LONG)?;
                        desc = format!("{name} creates a link and waits for its lock");
                        p.a = Some(Wait { id: new, what: What::VCreate(x), brief: false });
                    }
                    1 if !links.is_empty() => {
                        let (lid, id) = *rng.pick(&links);
                        if m.grantable(id, &Kind::Excl) {
                            return Ok(());
                        }
                        let x = v.rpc.start(p::LOCK, &X::new().u(lid).u(WAIT).u(LONG).0)?;
                        desc = format!("link {lid} waits for the lock");
                        p.a = Some(Wait { id, what: What::VLock(x), brief: false });
                    }
                    2 if !links.is_empty() => {
                        let (lid, id) = *rng.pick(&links);
                        if m.permitted(id) {
                            return Ok(());
                        }
                        let c = format!("waited link {lid} {}", p.n).into_bytes();
                        let x = v.rpc.start(p::WRITE, &vxi::write_args(lid, END | WAIT, LONG, &c))?;
                        desc = format!("link {lid} waits to write");
                        p.a = Some(Wait { id, what: What::VWrite(x, c), brief: false });
                    }
                    _ => {}
                }
            }
            P::R(s) => {
                if !m.permitted(p.id) {
                    let c = format!("waited raw {} {}?", p.id, p.n).into_bytes();
                    net::send(s, &[&c[..], b"\n"].concat())?;
                    desc = format!("{name} {} sends a command which must wait", p.id);
                    p.b = Some(Wait { id: p.id, what: What::RCmd(c), brief: false });
                }
            }
        }
        if !desc.is_empty() {
            self.note(desc);
            self.ctx.count("long waits", 1);
            if rng.chance(1, 2) {
                std::thread::sleep(Duration::from_millis(rng.range(0, 4) as u64));
            }
        }
        self.settle()
    }

    fn open(&mut self, rng: &mut Rng) -> R {
        let id = self.id();
        let p = match rng.below(9) {
            0..=3 => P::H(Hs::open(self.hs, "")?),
            4..=7 if self.peers.iter().filter(|p| matches!(p.p, P::V(_))).count() < 4 => {
                P::V(Vxi::connect(self.core)?)
            }
            _ => {
                if self.peers.iter().any(|p| matches!(p.p, P::R(_))) {
                    return Ok(());
                }
                P::R(net::connect(self.raw)?)
            }
        };
        let mut peer = Peer { p, id, links: Vec::new(), a: None, b: None, n: 0 };
        if let P::V(v) = &mut peer.p {
            for _ in 0..rng.range(1, 2) {
                let lid = v.link("inst0")?;
                self.next += 1;
                peer.links.push((lid, self.next));
            }
        }
        let name = peer.name();
        let ids: Vec<u32> = peer.links.iter().map(|l| l.0).collect();
        self.note(format!("{name} opens {ids:?}"));
        self.peers.push(peer);
        Ok(())
    }

    fn destroy(&mut self, i: usize, rng: &mut Rng) -> R {
        if !self.peers[i].idle() || self.peers[i].links.is_empty() {
            return Ok(());
        }
        let k = rng.below(self.peers[i].links.len());
        let (lid, id) = self.peers[i].links.remove(k);
        let permitted = self.m.permitted(id);
        let held = self.m.holds_any(id);
        let mut what = "idle";
        {
            let P::V(v) = &mut self.peers[i].p else { return Ok(()) };
            match rng.below(5) {
                0 if permitted => {
                    what = "with pending input";
                    let _ = v.write(lid, WAIT, 5000, b"partial")?;
                }
                1 if permitted => {
                    what = "with pending output";
                    let _ = v.write(lid, WAIT | END, 5000, b"LEN700:pending?")?;
                }
                2 => {
                    what = "with service requests enabled";
                    let c = v.enable_srq(lid, true, b"h")?;
                    ensure!(c == 0, "enable_srq fails with {c}");
                }
                3 => {
                    what = "after a failed lock request";
                    let c = v.lock(lid, WAIT, 5)?;
                    if c == 0 {
                        // It was free (or a client which went had it): held now and given up with the link
                        self.m.grant(id, &Kind::Excl);
                    }
                }
                _ => {}
            }
        }
        self.note(format!("link {lid} is destroyed {what}{}", if held { ", holding the lock" } else { "" }));
        self.m.release(id);
        let h = self.hist();
        let P::V(v) = &mut self.peers[i].p else { unreachable!() };
        let c = v.destroy(lid)?;
        ensure!(c == 0, "destroy_link fails with {c}: {h}");
        self.vanished += 1;
        self.vanished_holding += held as usize;
        self.ctx.seen("ways of going", hash_of(&("destroy", what, held)));
        self.settle()
    }

    /// A client goes away in the middle of something
    fn vanish(&mut self, i: usize, rng: &mut Rng) -> R {
        if !self.peers[i].idle() {
            return Ok(());
        }
        let mut p = self.peers.remove(i);
        let name = p.name();
        let ids = p.ids();
        let held: Vec<usize> = ids.iter().copied().filter(|&x| self.m.holds_any(x)).collect();
        let mut how = *rng.pick(&LEAVES);
        let what: String;
        let mut kept_unread = false;
        let short = rng.range(30, 150) as u32;
        match &mut p.p {
            P::H(h) => {
                let permitted = self.m.permitted(p.id);
                let k = kind(rng);
                let mid = h.next_mid();
                match rng.below(14) {
                    0 => {
                        what = "in a message header".into();
                        let b = encode(t::DATA_END, 0, mid, b"never");
                        net::send(&mut h.sync, &b[..rng.range(1, 15)])?;
                        if rng.chance(1, 2) {
                            net::send(&mut h.asy, &raw_header(t::ASYNC_LOCK, 0, 0, 0)[..rng.range(1, 15)])?;
                        }
                    }
                    1 => {
                        what = "in a payload".into();
                        net::send(&mut h.sync, &raw_header(t::DATA_END, 0, mid, 100))?;
                        net::send(&mut h.sync, b"never executed")?;
                        if rng.chance(1, 2) {
                            net::send(&mut h.asy, &raw_header(t::ASYNC_LOCK, 1, 0, 10))?;
                            net::send(&mut h.asy, b"key")?;
                        }
                    }
                    2 => {
                        what = "in a command".into();
                        h.send_sync(t::DATA, 0, mid, b"never executed")?;
                        if !permitted && self.m.shared.contains(&p.id) {
                            // Waits for the device with every message
                            self.limbo.push(p.id);
                            self.zombie = Some(Instant::now());
                        }
                    }
                    3 | 4 if permitted => {
                        what = "with a large response unread".into();
                        net::set_rcvbuf(&h.sync, 4096);
                        h.cmd(b"LEN3000000:big?")?;
                        if rng.chance(1, 2) {
                            std::thread::sleep(Duration::from_millis(rng.range(1, 20) as u64));
                        }
                        kept_unread = true;
                    }
                    5 if permitted => {
                        what = "with a response unread".into();
                        h.cmd(b"small?")?;
                    }
                    6 if !self.m.holds_kind(p.id, &k) => {
                        what = "with a lock request unanswered".into();
                        h.lock_start(0, &payload(&k))?;
                    }
                    7 => {
                        what = "with a release unanswered".into();
                        h.send_async(t::ASYNC_LOCK, 0, mid, b"")?;
                    }
                    8 if permitted => {
                        what = "while its command executes".into();
                        self.u.log.exec_us.store(rng.range(5, 80) as u64 * 1000, Ordering::SeqCst);
                        let c = format!("slow {name}").into_bytes();
                        h.cmd(&c)?;
                        if rng.chance(2, 3) && !self.u.log.wait_exec(DEADLINE, &c) {
                            return late(format!("command of a permitted session is not executed: {}", self.hist()));
                        }
                        self.u.log.exec_us.store(0, Ordering::SeqCst);
                    }
                    9 => {
                        what = "in a device clear".into();
                        h.send_async(t::ASYNC_DEVICE_CLEAR, 0, 0, b"")?;
                        if rng.chance(1, 2) {
                            let m = h.recv_async("device clear")?;
                            ensure!(m.typ == t::ASYNC_DEVICE_CLEAR_ACK, "device clear answered with {m}");
                            if rng.chance(1, 2) {
                                h.send_sync(t::CLEAR_COMPLETE, 0, 0, b"")?;
                            }
                        }
                    }
                    10 => {
                        what = "with a service request".into();
                        for x in 0..rng.range(1, 4) {
                            self.srq.send_status(x as u8);
                        }
                    }
                    11 | 12 if !self.m.grantable(p.id, &k) && !self.m.holds_kind(p.id, &k) => {
                        what = format!("while waiting {short} ms for {k:?}");
                        h.lock_start(short, &payload(&k))?;
                        self.zombie = Some(Instant::now() + Duration::from_millis(short as u64 + 50));
                    }
                    13 if !permitted => {
                        what = "while its command waits".into();
                        h.cmd(b"ghost")?;
                        if rng.chance(1, 2) {
                            std::thread::sleep(Duration::from_millis(2));
                        }
                        if self.m.shared.contains(&p.id) {
                            self.limbo.push(p.id);
                            self.zombie = Some(Instant::now());
                        }
                    }
                    _ => what = "idle".into(),
                }
            }
            P::V(v) => {
                let (lid, id) = p.links.first().copied().unwrap_or((u32::MAX, usize::MAX));
                let permitted = self.m.permitted(id) && lid != u32::MAX;
                match rng.below(15) {
                    0 => {
                        what = "in a record".into();
                        let m = vxi::call_msg(1, 2, vxi::CORE, 1, p::LOCK, &X::new().u(lid).u(0).u(0).0);
                        let r = record(&m);
                        net::send(&mut v.rpc.s, &r[..rng.range(1, r.len() - 1)])?;
                    }
                    1 if permitted => {
                        what = "in a command".into();
                        v.write(lid, WAIT, 5000, b"never executed")?;
                    }
                    2 | 3 if permitted => {
                        what = "with a large response unread".into();
                        net::set_rcvbuf(&v.rpc.s, 4096);
                        v.write(lid, WAIT | END, 5000, b"LEN3000000:big?")?;
                        v.rpc.start(p::READ, &vxi::read_args(lid, 4_000_000, WAIT, 5000, 0))?;
                        if rng.chance(1, 2) {
                            std::thread::sleep(Duration::from_millis(rng.range(1, 20) as u64));
                        }
                        kept_unread = true;
                    }
                    4 | 5 if lid != u32::MAX => {
                        what = "with a lock request unanswered".into();
                        v.rpc.start(p::LOCK, &X::new().u(lid).u(0).u(0).0)?;
                    }
                    6 if lid != u32::MAX => {
                        what = "with an unlock unanswered".into();
                        v.rpc.start(p::UNLOCK, &X::new().u(lid).0)?;
                    }
                    7 => {
                        what = "with a locked link's creation unanswered".into();
                        v.create_start("inst0", true, 0)?;
                    }
                    8 if permitted => {
                        what = "while its command executes".into();
                        self.u.log.exec_us.store(rng.range(5, 80) as u64 * 1000, Ordering::SeqCst);
                        let c = format!("slow {name}").into_bytes();
                        v.rpc.start(p::WRITE, &vxi::write_args(lid, END | WAIT, 5000, &c))?;
                        if rng.chance(2, 3) && !self.u.log.wait_exec(DEADLINE, &c) {
                            return late(format!("command of a permitted link is not executed: {}", self.hist()));
                        }
                        self.u.log.exec_us.store(0, Ordering::SeqCst);
                    }
                    9 | 10 if lid != u32::MAX => {
                        what = "with service requests enabled".into();
                        let l = TcpListener::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
                        let port = l.local_addr().map_err(|e| Fail::Inconclusive(e.to_string()))?.port();
                        let c = v.create_intr(Ipv4Addr::LOCALHOST, port, 0x0607B1, 1, false)?;
                        ensure!(c == 0, "create_intr_chan fails with {c}");
                        for (lid, _) in &p.links {
                            let c = v.enable_srq(*lid, true, b"handle")?;
                            ensure!(c == 0, "enable_srq fails with {c}");
                        }
                        for x in 0..rng.range(0, 4) {
                            self.srq.send_status(x as u8);
                        }
                        if rng.chance(1, 2) {
                            self.listeners.push(l);
                        }
                    }
                    11 if lid != u32::MAX && !self.m.grantable(id, &Kind::Excl) => {
                        what = format!("while waiting {short} ms for the lock");
                        v.rpc.start(p::LOCK, &X::new().u(lid).u(WAIT).u(short).0)?;
                        self.zombie = Some(Instant::now() + Duration::from_millis(short as u64 + 50));
                    }
                    12 => {
                        let id = usize::MAX;
                        if self.m.grantable(id, &Kind::Excl) {
                            what = "idle".into();
                        } else {
                            what = format!("while waiting {short} ms for a new link's lock");
                            v.create_start("inst0", true, short)?;
                            self.zombie = Some(Instant::now() + Duration::from_millis(short as u64 + 50));
                        }
                    }
                    13 if lid != u32::MAX && !permitted => {
                        what = format!("while waiting {short} ms to write");
                        v.rpc.start(p::WRITE, &vxi::write_args(lid, END | WAIT, short, b"ghost"))?;
                        self.zombie = Some(Instant::now() + Duration::from_millis(short as u64 + 50));
                    }
                    14 if lid != u32::MAX => {
                        what = "with pipelined lock calls".into();
                        let mut b = Vec::new();
                        for x in 0..rng.range(2, 7) as u32 {
                            let pr = if rng.chance(2, 3) { p::LOCK } else { p::UNLOCK };
                            let a = if pr == p::LOCK { X::new().u(lid).u(0).u(0).0 } else { X::new().u(lid).0 };
                            b.extend(record(&vxi::call_msg(x, 2, vxi::CORE, 1, pr, &a)));
                        }
                        net::send(&mut v.rpc.s, &b)?;
                    }
                    _ => what = "idle".into(),
                }
            }
            P::R(_) => what = "idle".into(),
        }
        if what.contains("lock") && self.zombie.is_none() {
            // Its lock request may be handled, and undone, any time now
            self.zombie = Some(Instant::now());
        }
        if kept_unread && how == net::Leave::Half {
            how = net::Leave::Reset;
        }
        if rng.chance(1, 4) {
            std::thread::sleep(Duration::from_millis(rng.range(0, 3) as u64));
        }
        let tail = if held.is_empty() { "" } else { ", holding a lock" };
        self.note(format!("{name} goes {what} ({how:?}{tail})"));
        self.ctx.seen("ways of going", hash_of(&(what.replace(|c: char| c.is_ascii_digit(), ""), how, !held.is_empty())));
        match p.p {
            P::H(h) => {
                let both = [h.sync, h.asy];
                let first = rng.below(2);
                let [s, a] = both;
                let (x, y) = if first == 0 { (s, a) } else { (a, s) };
                self.kept.extend(net::leave(x, how));
                if rng.chance(1, 3) {
                    std::thread::sleep(Duration::from_millis(rng.range(0, 5) as u64));
                }
                self.kept.extend(net::leave(y, *rng.pick(if kept_unread { &LEAVES[..1] } else { &LEAVES[..] })));
            }
            P::V(v) => self.kept.extend(net::leave(v.rpc.s, how)),
            P::R(s) => self.kept.extend(net::leave(s, how)),
        }
        for id in ids {
            self.m.release(id);
        }
        self.vanished += 1;
        self.vanished_holding += !held.is_empty() as usize;
        // Those waiting are served, the others keep what they have
        self.calm();
        self.settle()?;
        self.calm();
        for j in 0..self.peers.len() {
            self.use_it(j)?;
        }
        Ok(())
    }
}

fn kind(rng: &mut Rng) -> Kind {
    match rng.below(5) {
        0 | 1 => Kind::Excl,
        2 => Kind::Shared(b"other".to_vec()),
        _ => Kind::Shared(b"key".to_vec()),
    }
}
fn payload(k: &Kind) -> Vec<u8> {
    match k {
        Kind::Excl => Vec::new(),
        Kind::Shared(k) => k.clone(),
    }
}

fn wire_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let hs: Srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let vx: VxiSrv = vxi::start(&[("inst0", &u)], &srq)?;
    let raw = net::start_raw(&u, lxi_socket::server::ServerConfig::default)?;
    let mut w = World {
        ctx,
        u: u.clone(),
        m: Model::default(),
        next: 0,
        peers: Vec::new(),
        limbo: Vec::new(),
        zombie: None,
        kept: Vec::new(),
        listeners: Vec::new(),
        trace: String::new(),
        done: Vec::new(),
        vanished: 0,
        vanished_holding: 0,
        waited: 0,
        key: 0,
        hs: hs.addr,
        core: vx.core,
        raw: raw.addr,
        srq,
    };
    for _ in 0..rng.range(2, 4) {
        w.open(rng)?;
    }
    let steps = rng.range(15, 45);
    for _ in 0..steps {
        if w.peers.len() < 2 || (w.peers.len() < 7 && rng.chance(1, 8)) {
            w.open(rng)?;
            continue;
        }
        let i = rng.below(w.peers.len());
        match rng.below(16) {
            0..=4 => w.grant_now(rng)?,
            5 => w.release(i)?,
            6..=10 => w.start_wait(i, rng)?,
            11 => w.use_it(i)?,
            12 => w.destroy(i, rng)?,
            _ => {
                // Preferably one who holds something
                let holders: Vec<usize> = (0..w.peers.len())
                    .filter(|&j| w.peers[j].idle() && w.peers[j].ids().iter().any(|&x| w.m.holds_any(x)))
                    .collect();
                let j = if holders.is_empty() || rng.chance(1, 4) { i } else { *rng.pick(&holders) };
                w.vanish(j, rng)?;
            }
        }
        beat();
        let over = w.kept.len().saturating_sub(30);
        w.kept.drain(..over);
    }
    // Everybody goes, first those whose locks the others wait for
    let mut rounds = 0;
    while !w.peers.is_empty() {
        rounds += 1;
        let idle: Vec<usize> = (0..w.peers.len()).filter(|&j| w.peers[j].idle()).collect();
        let waiting = w.peers.len() > idle.len();
        let holders: Vec<usize> = idle
            .iter()
            .copied()
            .filter(|&j| w.peers[j].ids().iter().any(|&x| w.m.holds_any(x)))
            .collect();
        let from = if waiting && !holders.is_empty() { &holders } else { &idle };
        if let Some(&j) = from.get(rng.below(from.len().max(1))) {
            if rng.chance(1, 4) && w.m.info() != (false, 0) && rounds < 50 {
                w.release(j)?;
            } else {
                w.vanish(j, rng)?;
            }
            continue;
        }
        // Only waiting ones are left: one of them holds a lock while a command of its waits
        let Some(j) = (0..w.peers.len()).find(|&j| w.peers[j].a.is_none() && w.peers[j].ids().iter().any(|&x| w.m.holds_any(x))) else {
            return inconc(format!("the workload blocked itself: {}", w.hist()));
        };
        w.release(j)?;
    }
    w.calm();
    let now = u.clone();
    eventually("the lock to be free after all clients went", || Ok(now.lock_state() == (false, 0))).what(w.hist())?;
    // Anyone can use it
    let mut h = Hs::open(w.hs, "")?;
    let mut v = Vxi::connect(w.core)?;
    let lid = v.link("inst0")?;
    let c = h.lock(10_000, b"")?;
    ensure!(c == 1, "lock refused with {c} after everybody went: {}", w.hist());
    h.check_query(b"last h?")?;
    ensure!(h.release()? == 1, "release failed");
    let c = v.lock(lid, WAIT, 10_000)?;
    ensure!(c == 0, "VXI-11 lock refused with {c} after everybody went: {}", w.hist());
    v.check_query(lid, b"last v?")?;
    ensure!(v.unlock(lid)? == 0, "unlock failed");
    let mut r = net::connect(w.raw)?;
    net::send(&mut r, b"last r?\n")?;
    let got = net::read_n(&mut r, 10, "raw response")?;
    ensure!(got == b"R:last r?\n", "raw response {}", show(&got));
    // Nobody's command was lost or doubled
    let mut n: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for ev in u.log.all() {
        if let Ev::Exec(c) = ev {
            *n.entry(c).or_insert(0) += 1;
        }
    }
    for c in &w.done {
        ensure!(n.get(c) == Some(&1), "{} was executed {} times: {}", show(c), n.get(c).unwrap_or(&0), w.hist());
    }
    for c in n.keys() {
        ensure!(!c.starts_with(b"never"), "part of a command was executed: {}: {}", show(c), w.hist());
    }
    for (what, s) in [("HiSLIP", hs.ended()), ("VXI-11", vx.ended()), ("raw", raw.ended())] {
        ensure!(s.is_none(), "{what} server stopped: {s:?}");
    }
    ctx.count("clients gone", w.vanished as u64);
    ctx.count("clients gone while holding a lock", w.vanished_holding as u64);
    ctx.count("waits served", w.waited as u64);
    let t = w.trace.clone();
    ctx.eval(w.key, w.vanished_holding > 0, || t.chars().take(300).collect());
    let _ = w.listeners.iter().count();
    let _ = std::io::stdout().flush();
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("lock handles dropped at random points of random histories, compared with a sequential lock model; real HiSLIP sessions, VXI-11 links and connections that go away (closed, half-closed, reset, destroyed) at every kind of activity, after which the lock, the remaining holders and the waiting clients are compared with the model. Non-trivial: somebody went while holding a lock");
    install_hook();
    let em = Emphasis { focus: Focus::Outlive, waits: 1, drops: true, nest: 3 };
    ctx.cases_par("handles", ctx.n(20_000, 400_000), ctx.n(10, 150) as u64, 4, |r, _| det_case(ctx, r, &em));
    ctx.cases("threads", ctx.n(30, 600), ctx.n(6, 100) as u64, |r, _| threads_sections(ctx, r, Focus::Outlive));
    ctx.cases_par("wire", ctx.n(1000, 30_000), ctx.n(25, 700) as u64, 6, |r, _| wire_case(ctx, r));
    ctx.count("delay points passed", POINTS.load(Ordering::Relaxed));
}
