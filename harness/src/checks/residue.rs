//! C28: what was served leaves nothing behind.
//!
//! An activity is repeated in rounds of equal size. Between rounds, when all is quiet, the
//! bytes allocated and the open file descriptors are read. Growth in every round which is
//! proportional to the size of the round is residue.

use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use async_std::task::block_on;
use lxi_device::lock::{LockHandle, RemoteLockHandle, SpinMutex};
use lxi_vxi11::client::portmapper::prelude::{Mapping, PortMapperClient};

use super::common::{read_line, Tel, World, HS_NAMES, VX_NAMES};
use super::raw::{start_unix, unix_connect};
use crate::dev::RecDev;
use crate::hislip::{self, t, Hs};
use crate::net::{self, Leave, LEAVES};
use crate::rt::*;
use crate::vxi::{self, p, Rpc, Vxi, X};

type Act = Box<dyn FnMut(&World, &mut Rng) -> R>;
type Make = fn(&World) -> R<Act>;

fn act(f: impl FnMut(&World, &mut Rng) -> R + 'static) -> R<Act> {
    Ok(Box::new(f))
}

fn handle(w: &World) -> LockHandle<RecDev> {
    LockHandle::new(w.units[0].lock.clone(), w.units[0].dev.clone())
}

fn remote(w: &World) -> RemoteLockHandle<RecDev> {
    RemoteLockHandle::new(std::sync::Arc::new(SpinMutex::new(handle(w))))
}

/// Poll a wait a few times and give it up
fn give_up<F: Future>(f: F, polls: usize) -> R {
    let mut f = Box::pin(f);
    let w = futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..polls {
        if let Poll::Ready(_) = Pin::as_mut(&mut f).poll(&mut cx) {
            return viol("a wait for a lock which another client holds ended");
        }
    }
    Ok(())
}

fn ok<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> R<T> {
    r.map_err(|e| Fail::Violation(format!("{what}: {e:?}")))
}

fn any(rng: &mut Rng) -> Leave {
    LEAVES[rng.below(3)]
}

/// Wait for the other side to close after a half-close
fn gone(s: std::net::TcpStream, how: Leave) -> R {
    if let Some(mut s) = net::leave(s, how) {
        net::read_all(&mut s, "after the end of the session")?;
        net::reset(s);
    }
    Ok(())
}

/// Name, repetitions per round, set-up
const ACTS: &[(&str, usize, Make)] = &[
    // ---- lock
    ("lock: waiting access", 1500, |w| {
        let h = handle(w);
        act(move |_, _| ok(block_on(h.async_lock()).map(drop), "access"))
    }),
    ("lock: waiting access, remote handle", 1500, |w| {
        let h = remote(w);
        act(move |_, _| ok(block_on(h.async_lock()).map(drop), "access"))
    }),
    ("lock: access next to a lock of the same client", 1500, |w| {
        let mut h = handle(w);
        ok(h.try_acquire(b""), "lock")?;
        act(move |_, _| ok(block_on(h.async_lock()).map(drop), "access"))
    }),
    ("lock: access given up", 1500, |w| {
        let mut a = handle(w);
        let b = handle(w);
        let c = remote(w);
        ok(a.try_acquire(b""), "lock")?;
        act(move |_, r| {
            let _keep = &a;
            give_up(b.async_lock(), r.range(1, 3))?;
            give_up(c.async_lock(), r.range(1, 3))
        })
    }),
    ("lock: lock request given up", 1500, |w| {
        let mut a = handle(w);
        let mut b = handle(w);
        let c = remote(w);
        ok(a.try_acquire(b"KEY"), "lock")?;
        act(move |_, r| {
            let _keep = &a;
            give_up(b.async_acquire(b""), r.range(1, 3))?;
            give_up(b.async_acquire(b"other"), r.range(1, 3))?;
            give_up(c.async_acquire(b""), r.range(1, 3))?;
            give_up(c.async_acquire(b"other"), r.range(1, 3))
        })
    }),
    ("lock: sharer coming and going next to another", 1500, |w| {
        let mut a = handle(w);
        ok(a.try_acquire(b"KEY"), "lock")?;
        act(move |w, _| {
            let _keep = &a;
            let mut b = handle(w);
            ok(block_on(b.async_acquire(b"KEY")), "share")?;
            ok(block_on(b.async_lock()).map(drop), "access")
        })
    }),
    ("lock: exclusive lock and release", 1500, |w| {
        let mut a = handle(w);
        act(move |_, _| {
            ok(block_on(a.async_acquire(b"")), "lock")?;
            ok(a.try_release().map(drop), "release")
        })
    }),
    // ---- status
    ("status: subscribers leaving without an announcement", 1500, |w| {
        let mut s = w.srq.clone();
        act(move |_, _| {
            drop(s.get_new_receiver());
            Ok(())
        })
    }),
    ("status: subscribers leaving after an announcement", 1500, |w| {
        let mut s = w.srq.clone();
        act(move |_, r| {
            let _r = s.get_new_receiver();
            s.clone().send_status(r.u32() as u8);
            Ok(())
        })
    }),
    ("status: announcements to one which lags", 1500, |w| {
        let mut s = w.srq.clone();
        let lag = s.get_new_receiver();
        act(move |_, r| {
            let _keep = &lag;
            s.send_status(r.u32() as u8);
            Ok(())
        })
    }),
    // ---- raw
    ("raw: queries", 300, |w| {
        let mut s = net::connect(w.raw.addr)?;
        act(move |_, r| {
            net::send(&mut s, format!("SET {}\nQ{}?\n", r.below(99), r.below(99)).as_bytes())?;
            read_line(&mut s, "raw response").map(drop)
        })
    }),
    ("raw: connections", 80, |_| {
        act(|w, r| {
            let mut s = net::connect(w.raw.addr)?;
            if r.chance(1, 2) {
                net::send(&mut s, b"Q?\n")?;
                read_line(&mut s, "raw response")?;
            }
            if r.chance(1, 3) {
                net::send(&mut s, b"unterminated")?;
            }
            gone(s, any(r))
        })
    }),
    ("raw: unix connections", 80, |w| {
        let u = start_unix(&w.units[0], lxi_socket::server::ServerConfig::default())?;
        act(move |_, r| {
            let mut s = unix_connect(&u.path)?;
            if r.chance(1, 2) {
                net::send(&mut s, b"Q?\n")?;
                read_line(&mut s, "raw response")?;
            }
            Ok(())
        })
    }),
    // ---- telnet
    ("telnet: queries", 40, |w| {
        let mut c = Tel::connect(w.tel.addr)?;
        act(move |_, r| {
            net::send(&mut c.s, format!("Q{}?\r\n", r.below(99)).as_bytes())?;
            c.line("telnet response").map(drop)
        })
    }),
    ("telnet: negotiations", 25, |w| {
        let mut c = net::connect(w.tel.addr)?;
        act(move |_, _| {
            // Ask for and give up an option, and let the answers come
            net::send(&mut c, b"\xff\xfd\x00\xff\xfe\x00X\xff\xf7Q?\r\n")?;
            net::quickack(&c);
            read_line(&mut c, "telnet response").map(drop)
        })
    }),
    ("telnet: connections", 80, |_| {
        act(|w, r| {
            let mut c = Tel::connect(w.tel.addr)?;
            if r.chance(1, 2) {
                net::send(&mut c.s, b"Q?\r\n")?;
                c.line("telnet response")?;
            }
            gone(c.s, any(r))
        })
    }),
    // ---- HiSLIP
    ("HiSLIP: queries", 300, |w| {
        let mut h = Hs::open(w.hs.addr, HS_NAMES[0])?;
        act(move |_, r| h.query(format!("Q{}?", r.below(99)).as_bytes()).map(drop))
    }),
    ("HiSLIP: device clear in the middle of a command", 150, |w| {
        let mut h = Hs::open(w.hs.addr, HS_NAMES[0])?;
        act(move |_, _| {
            h.send_sync(t::DATA, 0, 0, b"part of a command which is never executed")?;
            h.clear().map(drop)
        })
    }),
    ("HiSLIP: status, lock information, triggers", 300, |w| {
        let mut h = Hs::open(w.hs.addr, HS_NAMES[0])?;
        act(move |_, _| {
            let m = h.next_mid();
            h.send_sync(t::TRIGGER, 0, m, &[])?;
            h.lock_info()?;
            h.status().map(drop)
        })
    }),
    ("HiSLIP: service requests", 25, |w| {
        let mut h = Hs::open(w.hs.addr, HS_NAMES[0])?;
        let mut s = w.srq.clone();
        act(move |_, r| {
            s.send_status(r.u32() as u8);
            ensure!(h.srq(DEADLINE)?.is_some(), "no service request");
            h.status()?;
            Ok(h.srqs.clear())
        })
    }),
    ("HiSLIP: locks", 200, |w| {
        let mut h = Hs::open(w.hs.addr, HS_NAMES[0])?;
        act(move |_, r| {
            let key: &[u8] = if r.chance(1, 2) { b"" } else { b"KEY" };
            ensure!(h.lock(1000 * r.below(2) as u32, key)? == 1, "lock refused");
            h.query(b"Q?")?;
            h.release().map(drop)
        })
    }),
    ("HiSLIP: lock requests which fail", 150, |w| {
        let mut a = Hs::open(w.hs.addr, HS_NAMES[0])?;
        let mut b = Hs::open(w.hs.addr, HS_NAMES[0])?;
        ensure!(a.lock(0, b"")? == 1, "lock refused");
        act(move |_, r| {
            let _keep = &a;
            ensure!(b.lock(r.below(2) as u32, b"")? != 1, "lock granted twice");
            Ok(())
        })
    }),
    ("HiSLIP: commands abandoned while waiting for a lock", 100, |w| {
        let mut a = Hs::open(w.hs.addr, HS_NAMES[0])?;
        let mut b = Hs::open(w.hs.addr, HS_NAMES[0])?;
        ensure!(a.lock(0, b"")? == 1, "lock refused");
        act(move |_, _| {
            let _keep = &a;
            b.cmd(b"BLOCKED?")?;
            b.clear().map(drop)
        })
    }),
    ("HiSLIP: messages which are refused", 200, |w| {
        let mut h = Hs::open(w.hs.addr, HS_NAMES[0])?;
        act(move |_, r| {
            let typ = [200, 99, t::INITIALIZE_RESPONSE][r.below(3)];
            h.send_sync(typ, 0, 0, b"payload")?;
            let m = h.recv_sync("answer to a bad message")?;
            ensure!(m.typ == t::ERROR, "bad message answered with {m}");
            h.send_async(typ, 0, 0, b"payload")?;
            let m = h.recv_async("answer to a bad message")?;
            ensure!(m.typ == t::ERROR, "bad message answered with {m}");
            Ok(())
        })
    }),
    ("HiSLIP: sessions", 60, |_| {
        act(|w, r| {
            let mut h = open(w, r.below(2))?;
            match r.below(4) {
                0 => drop(h.query(b"Q?")?),
                1 => drop(h.lock(0, b"")?),
                2 => h.send_sync(t::DATA, 0, 0, b"part")?,
                _ => {}
            }
            if let Some((a, b)) = h.leave(any(r)) {
                net::reset(a);
                net::reset(b);
            }
            Ok(())
        })
    }),
    ("HiSLIP: sessions without an asynchronous channel", 60, |_| {
        act(|w, r| {
            let mut got = None;
            hislip::eventually("a session", || {
                let (s, m) = hislip::open_sync(w.hs.addr, HS_NAMES[0].as_bytes(), 0x200)?;
                got = Some(s);
                Ok(m.typ == t::INITIALIZE_RESPONSE)
            })?;
            let how = any(r);
            if let Some(s) = got.and_then(|s| net::leave(s, how)) {
                net::reset(s);
            }
            Ok(())
        })
    }),
    ("HiSLIP: refused initialisations", 60, |_| {
        act(|w, r| {
            if r.chance(1, 2) {
                let (s, m) = hislip::open_sync(w.hs.addr, b"nothing", 0x200)?;
                ensure!(m.typ == t::FATAL, "unknown sub-address answered with {m}");
                net::reset(s);
            } else {
                let (s, m) = hislip::open_async(w.hs.addr, 1)?;
                ensure!(m.typ == t::FATAL, "unknown session answered with {m}");
                net::reset(s);
            }
            Ok(())
        })
    }),
    // ---- VXI-11
    ("VXI-11: queries", 200, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let lid = v.link(VX_NAMES[0])?;
        act(move |_, r| v.query(lid, format!("Q{}?", r.below(99)).as_bytes()).map(drop))
    }),
    ("VXI-11: responses and parts of commands discarded", 150, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let lid = v.link(VX_NAMES[0])?;
        act(move |_, _| {
            v.write(lid, vxi::END | vxi::WAIT, 1000, b"Q?")?;
            v.write(lid, vxi::WAIT, 1000, b"part of a command")?;
            v.op(p::CLEAR, lid, vxi::WAIT, 1000).map(drop)
        })
    }),
    ("VXI-11: status, trigger, remote, local, docmd, unknown procedures", 100, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let lid = v.link(VX_NAMES[0])?;
        act(move |_, _| {
            v.stb(lid, vxi::WAIT, 1000)?;
            v.stb(lid + 1000, vxi::WAIT, 1000)?;
            for op in [p::TRIGGER, p::REMOTE, p::LOCAL] {
                v.op(op, lid, vxi::WAIT, 1000)?;
            }
            let x = v.rpc.start(77, &[])?;
            let _ = v.rpc.finish(x, "unknown procedure");
            Ok(())
        })
    }),
    ("VXI-11: links", 150, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        act(move |_, r| {
            let l = v.create(VX_NAMES[r.below(2)], r.chance(1, 2), 1000)?;
            ensure!(l.err == 0, "link refused: {}", l.err);
            if r.chance(1, 2) {
                v.write(l.lid, r.below(2) as u32 * vxi::END | vxi::WAIT, 1000, b"Q?")?;
            }
            v.destroy(l.lid).map(drop)
        })
    }),
    ("VXI-11: refused links", 150, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let l = v.create(VX_NAMES[0], true, 1000)?;
        ensure!(l.err == 0, "link refused: {}", l.err);
        let mut u = Vxi::connect(w.vx.core)?;
        act(move |_, r| {
            let _keep = &v;
            let (n, lock) = if r.chance(1, 2) { (VX_NAMES[0], true) } else { ("nothing", false) };
            let l = u.create(n, lock, r.below(2) as u32)?;
            ensure!(l.err != 0, "link accepted");
            Ok(())
        })
    }),
    ("VXI-11: connections", 60, |_| {
        act(|w, r| {
            let mut v = Vxi::connect(w.vx.core)?;
            let mut link = None;
            for _ in 0..r.below(3) {
                let l = v.create(VX_NAMES[r.below(2)], false, 0)?;
                link = Some(l.lid);
            }
            if let Some(lid) = link {
                match r.below(4) {
                    0 => drop(v.lock(lid, 0, 0)?),
                    1 => drop(v.write(lid, vxi::WAIT, 1000, b"part")?),
                    2 => drop(v.write(lid, vxi::WAIT | vxi::END, 1000, b"Q?")?),
                    _ => drop(v.enable_srq(lid, true, b"handle")?),
                }
            }
            gone(v.rpc.s, any(r))
        })
    }),
    ("VXI-11: locks", 150, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let lid = v.link(VX_NAMES[0])?;
        act(move |_, r| {
            ensure!(v.lock(lid, r.below(2) as u32, 1000)? == 0, "lock refused");
            v.query(lid, b"Q?")?;
            v.unlock(lid).map(drop)
        })
    }),
    ("VXI-11: operations which fail because of a lock", 100, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let a = v.link(VX_NAMES[0])?;
        let b = v.link(VX_NAMES[0])?;
        ensure!(v.lock(a, 0, 0)? == 0, "lock refused");
        act(move |_, r| {
            let f = r.below(2) as u32;
            ensure!(v.write(b, vxi::END | f, 1, b"Q?")?.0 == vxi::e::LOCKED, "lock not enforced");
            ensure!(v.stb(b, f, 1)?.0 == vxi::e::LOCKED, "lock not enforced");
            ensure!(v.lock(b, f, 1)? == vxi::e::LOCKED, "lock not enforced");
            ensure!(v.read(b, 10, f, 1, 0)?.err == vxi::e::LOCKED, "lock not enforced");
            Ok(())
        })
    }),
    ("VXI-11: aborts", 100, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let a = v.link(VX_NAMES[0])?;
        let b = v.link(VX_NAMES[0])?;
        ensure!(v.lock(a, 0, 0)? == 0, "lock refused");
        let mut c = Rpc::connect(w.vx.abort, vxi::ABORT)?;
        act(move |w, r| {
            if r.chance(1, 2) {
                ensure!(w.vx.abort_call(&mut c, b)? == 0, "abort refused");
                return w.vx.abort_call(&mut c, b + 1000).map(drop);
            }
            let x = v.rpc.start(p::LOCK, &X::new().u(b).u(vxi::WAIT).u(60_000).0)?;
            let t0 = Instant::now();
            // Until it is waiting
            loop {
                w.vx.abort_call(&mut c, b)?;
                let _ = v.rpc.s.set_read_timeout(Some(Duration::from_millis(2)));
                let got = v.rpc.s.peek(&mut [0]).is_ok();
                let _ = v.rpc.s.set_read_timeout(Some(DEADLINE));
                if got {
                    break;
                }
                if t0.elapsed() > DEADLINE {
                    return late("abort of a waiting lock request");
                }
            }
            v.rpc.finish(x, "aborted lock request").map(drop)
        })
    }),
    ("VXI-11: service requests enabled and disabled", 150, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        let lid = v.link(VX_NAMES[0])?;
        act(move |_, r| {
            v.enable_srq(lid, true, b"handle")?;
            if r.chance(1, 2) {
                v.enable_srq(lid, true, b"another")?;
            }
            v.enable_srq(lid, false, b"").map(drop)
        })
    }),
    ("VXI-11: links destroyed with service requests enabled", 150, |w| {
        let mut v = Vxi::connect(w.vx.core)?;
        act(move |_, _| {
            let lid = v.link(VX_NAMES[0])?;
            v.enable_srq(lid, true, b"handle")?;
            v.destroy(lid).map(drop)
        })
    }),
    ("VXI-11: interrupt channels", 60, |w| {
        let l = std::net::TcpListener::bind("127.0.0.1:0")
            .map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let port = l.local_addr().unwrap().port();
        let mut v = Vxi::connect(w.vx.core)?;
        act(move |_, r| {
            let udp = r.chance(1, 2);
            let e = v.create_intr("127.0.0.1".parse().unwrap(), port, 0x0607B1, 1, udp)?;
            ensure!(e == 0, "interrupt channel refused: {e}");
            let s = if udp { None } else { l.accept().ok() };
            v.destroy_intr()?;
            if let Some((s, _)) = s {
                net::reset(s);
            }
            Ok(())
        })
    }),
    ("VXI-11: service requests sent", 100, |w| {
        let u = std::net::UdpSocket::bind("127.0.0.1:0")
            .map_err(|e| Fail::Inconclusive(e.to_string()))?;
        let _ = u.set_read_timeout(Some(DEADLINE));
        let port = u.local_addr().unwrap().port();
        let mut v = Vxi::connect(w.vx.core)?;
        let lid = v.link(VX_NAMES[0])?;
        v.enable_srq(lid, true, b"handle")?;
        ensure!(
            v.create_intr("127.0.0.1".parse().unwrap(), port, 0x0607B1, 1, true)? == 0,
            "interrupt channel refused"
        );
        let mut s = w.srq.clone();
        act(move |_, r| {
            let _keep = &v;
            s.send_status(r.u32() as u8);
            let mut b = [0; 200];
            u.recv(&mut b).map(drop).map_err(|e| Fail::Late(format!("interrupt call: {e}")))
        })
    }),
    // ---- portmapper
    ("portmapper: calls", 300, |w| {
        let mut c = Rpc::connect(w.pm.tcp, 100_000)?;
        act(move |_, r| {
            let args = X::new().u(vxi::CORE).u(1).u(6).u(0).0;
            c.call([0, 3, 4][r.below(3)], &args, "portmapper call").map(drop)
        })
    }),
    ("portmapper: connections", 60, |_| {
        act(|w, r| {
            let mut c = Rpc::connect(w.pm.tcp, 100_000)?;
                if r.chance(1, 2) {
                c.call(4, &[], "portmapper call")?;
            }
            if r.chance(1, 3) {
                net::send(&mut c.s, &[0x80, 0, 0, 9, 1])?;
            }
            gone(c.s, any(r))
        })
    }),
    ("portmapper: datagrams", 300, |w| {
        let s = vxi::udp_client(w.pm.udp)?;
        act(move |_, r| {
            if r.chance(1, 2) {
                let _ = s.send(b"nonsense");
            }
            let m = vxi::call_msg(r.u32(), 2, 100_000, 2, [0, 3, 4, 9][r.below(4)], &X::new().u(vxi::CORE).u(1).u(6).u(0).0);
            let _ = s.send(&m);
            s.recv(&mut [0; 500]).map(drop).map_err(|e| Fail::Late(format!("reply: {e}")))
        })
    }),
    ("portmapper client", 6, |w| {
        let mut c = ok(block_on(PortMapperClient::connect_tcp(w.pm.tcp)), "connect")?;
        act(move |_, _| {
            ok(block_on(c.null()), "null")?;
            let n = ok(block_on(c.getport(Mapping::new(vxi::CORE, 1, 6, 0))), "getport")?;
            ensure!(n == 1024, "port {n}");
            ensure!(block_on(c.set(Mapping::new(1, 1, 6, 9))).is_err(), "unknown procedure accepted");
            Ok(())
        })
    }),
];

fn open(w: &World, unit: usize) -> R<Hs> {
    let mut h = None;
    hislip::eventually("a session", || {
        h = Hs::open(w.hs.addr, HS_NAMES[unit]).ok();
        Ok(h.is_some())
    })?;
    Ok(h.unwrap())
}

fn fds() -> i64 {
    std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count() as i64)
}

/// Bytes and descriptors in use once nothing changes any more
fn settle(w: &World, want_fds: i64) -> (i64, i64) {
    let t0 = Instant::now();
    let mut last = (0, 0);
    let mut same = 0;
    loop {
        for u in &w.units {
            u.log.drop_log();
        }
        let now = (live_bytes() as i64, fds());
        if (now.0 - last.0).abs() < 64 && now.1 == last.1 {
            same += 1;
        } else {
            same = 0;
        }
        last = now;
        // Connections which the servers still have to close
        let enough = if want_fds >= 0 && now.1 > want_fds { 100 } else { 4 };
        if same >= enough || t0.elapsed() > Duration::from_secs(3) {
            return now;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn one(ctx: &Ctx, rng: &mut Rng, i: usize) -> R {
    let (name, n, make) = ACTS[i];
    let t0 = Instant::now();
    let n = if ctx.thorough { n * 3 } else { n };
    let w = World::new(20)?;
    let mut f = make(&w).what(name)?;
    let mut round = |want: i64| -> R<(i64, i64)> {
        for _ in 0..n {
            f(&w, rng).what(name)?;
        }
        beat();
        ctx.count("repetitions", n as u64);
        Ok(settle(&w, want))
    };
    // What is allocated once is not residue
    let mut last = round(-1)?;
    let small = |d: (i64, i64)| d.0 < 4 * n as i64 && d.1 < (n as i64 / 4).max(2);
    let mut grown: Vec<(i64, i64)> = Vec::new();
    // A buffer which is doubled now and then shows in the sum only, but so does what is
    // allocated late, once: the second window must confirm the first
    for window in [8, 24] {
        grown.clear();
        let base = last;
        loop {
            let now = round(last.1)?;
            let d = (now.0 - last.0, now.1 - last.1);
            last = now;
            grown.push(d);
            ctx.seen("growth observed in a round (bytes)", d.0 as u64);
            let k = grown.len();
            let steady = grown.iter().filter(|d| small(**d)).count() < 2;
            let total = now.0 - base.0;
            let ops = (n * k) as i64;
            if k >= 3 && !steady && total < 3 * ops {
                return done(ctx, name, n, &grown, t0);
            }
            if k < if steady { 8 } else { window } {
                continue;
            }
            if !steady && total < 32_768 {
                return done(ctx, name, n, &grown, t0);
            }
            if steady || window == 24 {
                let s: Vec<String> = grown.iter().map(|(b, f)| format!("{b}/{f}")).collect();
                return viol(format!(
                    "{name}: allocated bytes/open descriptors keep growing, in rounds of {n}: {}",
                    s.join(", ")
                ));
            }
            break;
        }
    }
    Ok(())
}

fn done(ctx: &Ctx, name: &str, n: usize, grown: &[(i64, i64)], t0: Instant) -> R {
    ctx.eval(hash_of(&(name, n)), true, || format!("{name}: growth per round of {n} {grown:?}"));
    if std::env::var("VERIF_TIMES").is_ok() {
        eprintln!("{name}: {:.2} s", t0.elapsed().as_secs_f32());
    }
    ctx.count("activities", 1);
    ctx.count("rounds measured", grown.len() as u64);
    Ok(())
}

pub fn c28(ctx: &Ctx) {
    ctx.rule(
        "each of the activities is repeated in rounds; allocated bytes and descriptors are read between \
         rounds, two rounds must not grow in proportion to their size",
    );
    ctx.cases("residue", ACTS.len(), 600, |rng, i| one(ctx, rng, i as usize));
}
