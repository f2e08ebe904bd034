//! One client doing the same thing more often than 16 bits can count.
//! Sections `big` (the same with one large thing) and `long` of C01, C05, C06, C08, C10, C12, C13, C14, C17 and C18.

use std::io::{BufRead, BufReader};
use std::sync::Arc;
use std::time::Duration;

use lxi_device::lock::{LockHandle, Mutex, SharedLock};
use lxi_device::status::Sender as StatusSender;

use super::common::Tel;
use crate::dev::Unit;
use crate::hislip::{self, t, Hs};
use crate::net;
use crate::rt::*;
use crate::vxi::{self, generic, p, Vxi, X};

fn count(ctx: &Ctx) -> usize {
    if ctx.thorough {
        600_000
    } else {
        66_000
    }
}

fn done(ctx: &Ctx, n: usize, what: &str) -> R {
    ctx.count(&format!("{what} of one client"), n as u64);
    ctx.rule_also(&format!(
        " long: one client making {n} {what}, every answer checked, so that counters which are too short run over."
    ));
    ctx.eval(hash_of(&(what, n)), true, || format!("{n} {what} of one client"));
    Ok(())
}

/// The lock, held and released again and again, and others refused in between
pub fn lock(ctx: &Ctx) -> R {
    let n = count(ctx);
    let parent = SharedLock::new();
    let dev = Arc::new(Mutex::new(0u32));
    let mut a = LockHandle::new(parent.clone(), dev.clone());
    let mut b = LockHandle::new(parent.clone(), dev.clone());
    for i in 0..n {
        beat();
        let shared = i % 3 == 0;
        let r = if shared { a.try_acquire_shared(b"k") } else { a.try_acquire_exclusive() };
        ensure!(r.is_ok(), "acquisition {i} of a free lock failed with {r:?}");
        let r = b.try_acquire_exclusive();
        ensure!(r.is_err(), "acquisition {i}: another client got the exclusive lock as well");
        ensure!(b.try_lock().is_err(), "acquisition {i}: another client got the locked device");
        let s = { let l = parent.lock(); (l.exclusive_lock(), l.num_shared_locks()) };
        ensure!(s == (!shared, shared as u32), "acquisition {i}: lock information {s:?}");
        let r = a.try_release();
        ensure!(r.is_ok(), "release {i} failed with {r:?}");
        ensure!(b.try_lock().is_ok(), "after release {i} the device is still locked");
    }
    // As many at once
    let m = 66_000;
    let mut all = Vec::new();
    for i in 0..m {
        let mut h = LockHandle::new(parent.clone(), dev.clone());
        let r = h.try_acquire_shared(b"k");
        ensure!(r.is_ok(), "a client is not let in with {i} others sharing: {r:?}");
        all.push(h);
        if i % 50 == 0 || i > m - 50 {
            ensure!(a.lock_info() == (false, i as u32 + 1), "with {} sharing the lock information is {:?}", i + 1, a.lock_info());
        }
    }
    ensure!(b.try_acquire_exclusive().is_err() && b.try_lock().is_err(), "a lock which {m} clients share is free");
    while let Some(mut h) = all.pop() {
        let r = h.try_release();
        ensure!(r.is_ok(), "one of {m} clients cannot release: {r:?}");
        let n = all.len();
        if n % 50 == 0 || n < 50 {
            ensure!(a.lock_info() == (false, n as u32), "with {n} sharing the lock information is {:?}", a.lock_info());
            ensure!(b.try_lock().is_ok() == (n == 0), "with {n} sharing another client is let through or kept out wrongly");
        }
    }
    done(ctx, n, "acquisitions")
}

pub fn status(ctx: &Ctx) -> R {
    let n = count(ctx);
    let mut tx = StatusSender::new();
    let (mut a, mut b) = (tx.get_new_receiver(), tx.clone().get_new_receiver());
    for i in 0..n {
        beat();
        tx.send_status(i as u8);
        for r in [&mut a, &mut b] {
            let x = r.try_next();
            ensure!(matches!(x, Ok(Some(v)) if v == i as u8), "announcement {i} arrived as {x:?}");
        }
    }
    done(ctx, n, "announcements")
}

/// Commands in batches, so that it does not take too long
pub fn raw(ctx: &Ctx) -> R {
    let n = count(ctx);
    let u = Unit::new();
    let srv = net::start_raw(&u, lxi_socket::server::ServerConfig::default)?;
    let s = net::connect(srv.addr)?;
    let mut r = BufReader::new(s.try_clone().map_err(|e| Fail::Inconclusive(e.to_string()))?);
    let mut w = s;
    for i in (0..n).step_by(200) {
        beat();
        let mut b = Vec::new();
        for k in i..i + 200 {
            b.extend(format!("C{k}\nQ{k}?\n").bytes());
        }
        net::send(&mut w, &b)?;
        for k in i..i + 200 {
            let mut l = Vec::new();
            if let Err(e) = r.read_until(b'\n', &mut l) {
                return late(format!("query {k} of a connection is not answered: {e}"));
            }
            ensure!(l == format!("R:Q{k}?\n").into_bytes(), "query {k} of a connection answered with {}", show(&l));
        }
    }
    ensure!(u.log.execs().len() == 2 * n, "device saw {} of {} commands", u.log.execs().len(), 2 * n);
    done(ctx, n, "queries")
}

pub fn telnet(ctx: &Ctx) -> R {
    let n = count(ctx);
    let u = Unit::new();
    let srv = net::start_telnet(&u, 10)?;
    let mut c = Tel::connect(srv.addr)?;
    for i in (0..n).step_by(100) {
        beat();
        let mut b = Vec::new();
        for k in i..i + 100 {
            b.extend(format!("Q{k}?\r\n").bytes());
        }
        net::send(&mut c.s, &b)?;
        for k in i..i + 100 {
            let l = c.line("response").what(format!("query {k} of a connection"))?;
            ensure!(l == format!("R:Q{k}?").into_bytes(), "query {k} of a connection answered with {}", show(&l));
        }
    }
    done(ctx, n, "queries")
}

fn session() -> R<(Unit, StatusSender, crate::net::Srv, Hs)> {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
    let h = Hs::open(srv.addr, "")?;
    Ok((u, srq, srv, h))
}

pub fn queries(ctx: &Ctx) -> R {
    let n = count(ctx);
    let (_u, _q, _srv, mut h) = session()?;
    for i in (0..n).step_by(1000) {
        beat();
        let mut mids = Vec::new();
        for k in i..i + 1000 {
            mids.push(h.cmd(format!("Q{k}?").as_bytes())?);
        }
        for (k, mid) in (i..i + 1000).zip(mids) {
            let (parts, m) = h.response("response").what(format!("query {k} of a session"))?;
            let got = parts.concat();
            ensure!(
                got == format!("R:Q{k}?").into_bytes() && m == mid,
                "query {k} of a session (message {mid:#x}) answered with {} for message {m:#x}",
                show(&got)
            );
        }
    }
    done(ctx, n, "queries")
}

pub fn clears(ctx: &Ctx) -> R {
    let n = count(ctx) / 16;
    let (_u, _q, _srv, mut h) = session()?;
    for i in 0..n {
        beat();
        h.clear().what(format!("device clear {i} of a session"))?;
        if i % 64 == 0 || (255..258).contains(&i) {
            h.check_query(b"Q?").what(format!("after device clear {i} of a session"))?;
        }
    }
    done(ctx, n, "device clears")
}

pub fn session_locks(ctx: &Ctx) -> R {
    let n = count(ctx);
    let (_u, _q, srv, mut h) = session()?;
    let mut other = Hs::open(srv.addr, "")?;
    for i in (0..n).step_by(1000) {
        beat();
        for k in i..i + 1000 {
            let key: &[u8] = if k % 4 == 0 { b"key" } else { b"" };
            h.lock_start(0, key)?;
            h.send_async(t::ASYNC_LOCK, 0, h.mid.wrapping_sub(2), &[])?;
        }
        for k in i..i + 1000 {
            for (what, want) in [("request", 1), ("release", if k % 4 == 0 { 2 } else { 1 })] {
                let a = h.lock_answer()?;
                ensure!(a == want, "lock {what} {k} of a session answered {a}, must be {want}");
            }
        }
        let a = other.lock_info()?;
        ensure!(a == (false, 0), "after {} locks and releases the lock information is {a:?}", i + 1000);
    }
    ensure!(other.lock(0, b"")? == 1, "after {n} locks and releases of another session the lock is not free");
    done(ctx, n, "locks")
}

pub fn status_queries(ctx: &Ctx) -> R {
    let n = count(ctx);
    let (u, mut srq, _srv, mut h) = session()?;
    for i in (0..n).step_by(1000) {
        beat();
        u.log.set_status((i / 1000) as u8 & !0x10);
        for _ in 0..1000 {
            let mid = h.mid.wrapping_sub(2);
            h.send_async(t::ASYNC_STATUS_QUERY, 0, mid, &[])?;
        }
        for k in i..i + 1000 {
            let m = h.recv_async("status").what(format!("status query {k} of a session"))?;
            ensure!(
                m.typ == t::ASYNC_STATUS_RESPONSE && m.ctl & !0x10 == (i / 1000) as u8 & !0x10,
                "status query {k} of a session answered with {m}"
            );
        }
    }
    let k = n / 200;
    for i in 0..k {
        beat();
        srq.send_status(i as u8);
        let got = h.srq(DEADLINE)?;
        ensure!(got == Some(i as u8), "service request {i} of a session is {got:?}");
        h.status()?;
        if i % 256 == 0 {
            ensure!(h.srq(Duration::from_millis(1))?.is_none(), "two service requests for announcement {i}");
        }
    }
    done(ctx, n, "status queries")
}

fn pipelined(v: &mut Vxi, calls: &[(u32, Vec<u8>)], what: &str) -> R<Vec<Vec<u8>>> {
    let mut xids = Vec::new();
    for (proc, args) in calls {
        xids.push(v.rpc.start(*proc, args)?);
    }
    xids.into_iter().map(|x| v.rpc.finish(x, what)).collect()
}

pub fn links_data(ctx: &Ctx) -> R {
    let n = count(ctx) / 2;
    let u = Unit::new();
    let srv = vxi::start(&[("inst0", &u)], &StatusSender::new())?;
    let mut v = Vxi::connect(srv.core)?;
    let lid = v.link("inst0")?;
    for i in (0..n).step_by(50) {
        beat();
        let mut calls = Vec::new();
        for k in i..i + 50 {
            calls.push((p::WRITE, vxi::write_args(lid, vxi::END, 0, format!("Q{k}?").as_bytes())));
            calls.push((p::READ, vxi::read_args(lid, 100, 0, 0, 0)));
        }
        let r = pipelined(&mut v, &calls, "write or read").what(format!("queries {i} to {} of a link", i + 50))?;
        for (k, r) in (i..i + 50).zip(r.chunks(2)) {
            let want = format!("Q{k}?");
            ensure!(r[0] == X::new().u(0).u(want.len() as u32).0, "write {k} of a link answered {:?}", r[0]);
            let got = Vxi::parse_read(&r[1])?;
            ensure!(
                got.err == 0 && got.reason == 4 && got.data == format!("R:{want}").into_bytes(),
                "read {k} of a link answered {got:?}"
            );
        }
    }
    done(ctx, n, "queries")
}

pub fn links_locks(ctx: &Ctx) -> R {
    let n = count(ctx);
    let u = Unit::new();
    let srv = vxi::start(&[("inst0", &u)], &StatusSender::new())?;
    let mut v = Vxi::connect(srv.core)?;
    let (lid, other) = (v.link("inst0")?, v.link("inst0")?);
    for i in (0..n).step_by(50) {
        beat();
        let mut calls = Vec::new();
        for _ in 0..50 {
            calls.push((p::LOCK, X::new().u(lid).u(0).u(0).0));
            calls.push((p::READSTB, generic(other, 0, 0)));
            calls.push((p::UNLOCK, X::new().u(lid).0));
        }
        let r = pipelined(&mut v, &calls, "lock, status or unlock").what(format!("locks {i} to {} of a link", i + 50))?;
        for (k, r) in (i..i + 50).zip(r.chunks(3)) {
            let got: Vec<u32> = r.iter().map(|b| u32::from_be_bytes(b[..4].try_into().unwrap_or_default())).collect();
            ensure!(
                got == [0, vxi::e::LOCKED, 0],
                "lock {k} of a link, status query of another and unlock answered {got:?}"
            );
        }
    }
    ensure!(u.lock_state() == (false, 0), "after {n} locks and unlocks the lock is {:?}", u.lock_state());
    done(ctx, n, "locks")
}

/// Contents of the large things
fn mass(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| b"0123456789abcdefghijklmnopqrstuvw"[(i * 7 + i / 33 + salt as usize) % 33]).collect()
}

fn big_unit(n: usize) -> Unit {
    let u = Unit::new();
    u.log.set_responder(move |c| match c {
        b"BIG?" => Some(mass(n, 9)),
        _ if c.ends_with(b"?") => Some(format!("{} {:x}", c.len(), hash_of(&c)).into_bytes()),
        _ => None,
    });
    u
}

fn sizes(ctx: &Ctx) -> Vec<usize> {
    let k = if ctx.thorough { 200 << 20 } else { 20 << 20 };
    vec![70_000, k + 3]
}

/// A command of many megabytes, and a response of as many: they arrive whole on every protocol
pub fn big(ctx: &Ctx, proto: &str) -> R {
    for n in sizes(ctx) {
        beat();
        let u = big_unit(n);
        let mut c = mass(n, 1);
        c.push(b'?');
        let ack = format!("{} {:x}", c.len(), hash_of(&&c[..])).into_bytes();
        let (mut got, mut large) = (Vec::new(), Vec::new());
        match proto {
            "raw" | "telnet" => {
                let eol: &[u8] = if proto == "raw" { b"\n" } else { b"\r\n" };
                let srv = if proto == "raw" {
                    net::start_raw(&u, lxi_socket::server::ServerConfig::default)?
                } else {
                    net::start_telnet(&u, 10)?
                };
                let s = net::connect(srv.addr)?;
                let mut r = BufReader::new(s.try_clone().map_err(|e| Fail::Inconclusive(e.to_string()))?);
                let mut w = s.try_clone().map_err(|e| Fail::Inconclusive(e.to_string()))?;
                let line = [&c[..], eol].concat();
                let t = std::thread::spawn(move || {
                    net::send(&mut w, &line)?;
                    net::send(&mut w, b"BIG?")?;
                    net::send(&mut w, &line[line.len() - 1..])
                });
                for v in [&mut got, &mut large] {
                    if let Err(e) = r.read_until(b'\n', v) {
                        return late(format!("no answer to a command of {n} bytes: {e}"));
                    }
                    ensure!(v.ends_with(eol), "a response ends with {}", show(&v[v.len().saturating_sub(20)..]));
                    v.truncate(v.len() - eol.len());
                    if proto == "telnet" {
                        // One prompt for everything the server read
                        let p = [super::telnet::PROMPT, b"\xff\xf9"].concat();
                        let mut at = 0;
                        while v[at..].starts_with(&p) {
                            at += p.len();
                        }
                        v.drain(..at);
                    }
                }
                match t.join() {
                    Ok(r) => r?,
                    Err(_) => return inconc("sender panicked"),
                }
            }
            "hislip" => {
                let srq = StatusSender::new();
                let srv = hislip::start(&[("hislip0", &u)], |c| c, &srq)?;
                let mut h = Hs::open(srv.addr, "")?;
                h.max_msg(60_000)?;
                let m = h.next_mid();
                let k = c.len() - 100;
                for part in c[..k].chunks(50_000) {
                    h.send_sync(t::DATA, 0, m, part)?;
                }
                h.send_sync(t::DATA_END, 0, m, &c[k..])?;
                got = h.response("response").what(format!("command of {n} bytes"))?.0.concat();
                large = h.query(b"BIG?")?;
            }
            _ => {
                let srv = vxi::start(&[("inst0", &u)], &StatusSender::new())?;
                let mut v = Vxi::connect(srv.core)?;
                let lid = v.link("inst0")?;
                for part in c.chunks(100_000) {
                    let end = std::ptr::eq(part.as_ptr_range().end, c.as_ptr_range().end);
                    let (err, size) = v.write(lid, if end { vxi::END } else { 0 }, 0, part)?;
                    ensure!((err, size as usize) == (0, part.len()), "write of {} bytes answered {err} {size}", part.len());
                }
                got = v.read(lid, 100, 0, 0, 0)?.data;
                v.write(lid, vxi::END, 0, b"BIG?")?;
                loop {
                    let r = v.read(lid, 500_000, 0, 0, 0)?;
                    ensure!(r.err == 0 && !r.data.is_empty(), "read of a large response answered {} after {} bytes", r.err, large.len());
                    large.extend(r.data);
                    if r.reason & 4 != 0 {
                        break;
                    }
                }
            }
        }
        ensure!(
            got == ack,
            "{proto}: a command of {} bytes arrived as {}, must be {}",
            c.len(),
            show(&got),
            show(&ack)
        );
        let want = mass(n, 9);
        if large != want {
            let at = large.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return viol(format!("{proto}: of a response of {n} bytes {} arrived, they differ at {at}", large.len()));
        }
        ctx.eval(hash_of(&("big", n)), true, || format!("a command and a response of {n} bytes"));
        ctx.count("bytes of large commands and responses", 2 * n as u64);
    }
    ctx.rule_also(" big: commands and responses of many megabytes.");
    Ok(())
}
