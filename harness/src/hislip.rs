//! An independent HiSLIP client working directly on the wire format (IVI-6.1).

use std::io::Read;
use std::net::{SocketAddr, TcpStream};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

use lxi_device::status::Sender as StatusSender;
use lxi_hislip::server::{ServerBuilder, ServerConfig};

use crate::dev::{RecDev, Unit};
use crate::net::{self, Srv};
use crate::rt::*;

pub mod t {
    pub const INITIALIZE: u8 = 0;
    pub const INITIALIZE_RESPONSE: u8 = 1;
    pub const FATAL: u8 = 2;
    pub const ERROR: u8 = 3;
    pub const ASYNC_LOCK: u8 = 4;
    pub const ASYNC_LOCK_RESPONSE: u8 = 5;
    pub const DATA: u8 = 6;
    pub const DATA_END: u8 = 7;
    pub const CLEAR_COMPLETE: u8 = 8;
    pub const CLEAR_ACK: u8 = 9;
    pub const ASYNC_REMOTE_LOCAL: u8 = 10;
    pub const ASYNC_REMOTE_LOCAL_RESPONSE: u8 = 11;
    pub const TRIGGER: u8 = 12;
    pub const ASYNC_MAX_MSG: u8 = 15;
    pub const ASYNC_MAX_MSG_RESPONSE: u8 = 16;
    pub const ASYNC_INITIALIZE: u8 = 17;
    pub const ASYNC_INITIALIZE_RESPONSE: u8 = 18;
    pub const ASYNC_DEVICE_CLEAR: u8 = 19;
    pub const ASYNC_SERVICE_REQUEST: u8 = 20;
    pub const ASYNC_STATUS_QUERY: u8 = 21;
    pub const ASYNC_STATUS_RESPONSE: u8 = 22;
    pub const ASYNC_DEVICE_CLEAR_ACK: u8 = 23;
    pub const ASYNC_LOCK_INFO: u8 = 24;
    pub const ASYNC_LOCK_INFO_RESPONSE: u8 = 25;
    pub const GET_DESCRIPTORS: u8 = 26;
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Msg {
    pub typ: u8,
    pub ctl: u8,
    pub par: u32,
    pub data: Vec<u8>,
}

impl std::fmt::Display for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "[type {} control {} parameter {:#x} payload {}]",
            self.typ,
            self.ctl,
            self.par,
            show(&self.data)
        )
    }
}

pub fn raw_header(typ: u8, ctl: u8, par: u32, len: u64) -> Vec<u8> {
    let mut v = b"HS".to_vec();
    v.push(typ);
    v.push(ctl);
    v.extend_from_slice(&par.to_be_bytes());
    v.extend_from_slice(&len.to_be_bytes());
    v
}

pub fn encode(typ: u8, ctl: u8, par: u32, data: &[u8]) -> Vec<u8> {
    let mut v = raw_header(typ, ctl, par, data.len() as u64);
    v.extend_from_slice(data);
    v
}

pub fn send(s: &mut TcpStream, typ: u8, ctl: u8, par: u32, data: &[u8]) -> R {
    net::send(s, &encode(typ, ctl, par, data))
}

/// Read one message
pub fn recv(s: &mut impl Read, what: &str) -> R<Msg> {
    let h = net::read_n(s, 16, what)?;
    ensure!(
        &h[..2] == b"HS",
        "{what}: server message does not start with HS: {}",
        show(&h)
    );
    let len = u64::from_be_bytes(h[8..16].try_into().unwrap());
    ensure!(
        len <= 64 << 20,
        "{what}: server message claims {len} payload bytes: {}",
        show(&h)
    );
    let data = net::read_n(s, len as usize, what)?;
    Ok(Msg {
        typ: h[2],
        ctl: h[3],
        par: u32::from_be_bytes(h[4..8].try_into().unwrap()),
        data,
    })
}

pub fn pool() -> futures::executor::ThreadPool {
    static P: OnceLock<futures::executor::ThreadPool> = OnceLock::new();
    P.get_or_init(|| {
        futures::executor::ThreadPool::builder()
            .pool_size(std::env::var("ASYNC_STD_THREAD_COUNT").map_or(8, |n| n.parse().unwrap_or(8)))
            .create()
            .unwrap()
    })
    .clone()
}

pub fn start(
    units: &[(&str, &Unit)],
    cfg: impl Fn(ServerConfig) -> ServerConfig,
    srq: &StatusSender,
) -> R<Srv> {
    net::start(|a| {
        let mut b = ServerBuilder::<RecDev>::new(cfg(ServerConfig::default()));
        for (n, u) in units {
            b = b.device(n.to_string(), u.dev.clone(), u.lock.clone());
        }
        b.build().accept(a, srq.clone(), pool())
    })
}

/// A session with both channels
pub struct Hs {
    pub sync: TcpStream,
    pub asy: TcpStream,
    pub id: u16,
    pub init: Msg,
    pub async_init: Msg,
    pub mid: u32,
    /// Service requests seen while waiting for something else
    pub srqs: Vec<u8>,
}

pub fn init_par(version: u16, vendor: u16) -> u32 {
    (version as u32) << 16 | vendor as u32
}

/// Open only the synchronous channel
pub fn open_sync(addr: SocketAddr, sub: &[u8], version: u16) -> R<(TcpStream, Msg)> {
    let mut s = net::connect(addr)?;
    send(
        &mut s,
        t::INITIALIZE,
        0,
        init_par(version, 0x4142),
        sub,
    )?;
    let m = recv(&mut s, "initialize")?;
    Ok((s, m))
}

pub fn open_async(addr: SocketAddr, id: u32) -> R<(TcpStream, Msg)> {
    let mut s = net::connect(addr)?;
    send(&mut s, t::ASYNC_INITIALIZE, 0, id, &[])?;
    let m = recv(&mut s, "async initialize")?;
    Ok((s, m))
}

impl Hs {
    pub fn open(addr: SocketAddr, sub: &str) -> R<Hs> {
        Hs::open_v(addr, sub, 0x0200)
    }

    pub fn open_v(addr: SocketAddr, sub: &str, version: u16) -> R<Hs> {
        let (sync, init) = open_sync(addr, sub.as_bytes(), version)?;
        ensure!(
            init.typ == t::INITIALIZE_RESPONSE,
            "initialize for {sub:?} not accepted: {init}"
        );
        let id = init.par as u16;
        let (asy, async_init) = open_async(addr, id as u32)?;
        ensure!(
            async_init.typ == t::ASYNC_INITIALIZE_RESPONSE,
            "async initialize of session {id} not accepted: {async_init}"
        );
        Ok(Hs {
            sync,
            asy,
            id,
            init,
            async_init,
            mid: 0xffff_ff00,
            srqs: Vec::new(),
        })
    }

    pub fn next_mid(&mut self) -> u32 {
        self.mid = self.mid.wrapping_add(2);
        self.mid
    }

    /// Send a whole command
    pub fn cmd(&mut self, c: &[u8]) -> R<u32> {
        let m = self.next_mid();
        send(&mut self.sync, t::DATA_END, 0, m, c)?;
        Ok(m)
    }

    pub fn send_sync(&mut self, typ: u8, ctl: u8, par: u32, data: &[u8]) -> R {
        send(&mut self.sync, typ, ctl, par, data)
    }

    pub fn send_async(&mut self, typ: u8, ctl: u8, par: u32, data: &[u8]) -> R {
        send(&mut self.asy, typ, ctl, par, data)
    }

    pub fn recv_sync(&mut self, what: &str) -> R<Msg> {
        recv(&mut self.sync, what)
    }

    /// Next asynchronous message, remembering service requests
    pub fn recv_async(&mut self, what: &str) -> R<Msg> {
        loop {
            let m = recv(&mut self.asy, what)?;
            if m.typ == t::ASYNC_SERVICE_REQUEST {
                self.srqs.push(m.ctl);
                continue;
            }
            return Ok(m);
        }
    }

    /// Read a response: (payloads, message ids)
    pub fn response(&mut self, what: &str) -> R<(Vec<Vec<u8>>, u32)> {
        let mut parts = Vec::new();
        let mut id = None;
        loop {
            let m = self.recv_sync(what)?;
            ensure!(
                m.typ == t::DATA || m.typ == t::DATA_END,
                "{what}: expected response data, got {m}"
            );
            ensure!(
                id.is_none() || id == Some(m.par),
                "{what}: message id changes within a response: {id:?} then {m}"
            );
            id = Some(m.par);
            parts.push(m.data);
            if m.typ == t::DATA_END {
                return Ok((parts, id.unwrap()));
            }
        }
    }

    /// Command with response
    pub fn query(&mut self, c: &[u8]) -> R<Vec<u8>> {
        let mid = self.cmd(c)?;
        let (parts, id) = self.response(&format!("response to {}", show(c)))?;
        ensure!(
            id == mid,
            "response to {} carries message id {id:#x} instead of {mid:#x}",
            show(c)
        );
        Ok(parts.concat())
    }

    /// Query with the standard response and check it
    pub fn check_query(&mut self, c: &[u8]) -> R {
        let got = self.query(c)?;
        let want = crate::dev::std_response(c).unwrap();
        ensure!(
            got == want,
            "response to {} {}",
            show(c),
            diff(&got, &want)
        );
        Ok(())
    }

    pub fn lock_start(&mut self, timeout_ms: u32, key: &[u8]) -> R {
        self.send_async(t::ASYNC_LOCK, 1, timeout_ms, key)
    }

    pub fn lock_answer(&mut self) -> R<u8> {
        let m = self.recv_async("lock response")?;
        ensure!(
            m.typ == t::ASYNC_LOCK_RESPONSE,
            "lock request answered with {m}"
        );
        Ok(m.ctl)
    }

    pub fn lock(&mut self, timeout_ms: u32, key: &[u8]) -> R<u8> {
        self.lock_start(timeout_ms, key)?;
        self.lock_answer()
    }

    pub fn release(&mut self) -> R<u8> {
        let m = self.mid;
        self.send_async(t::ASYNC_LOCK, 0, m, &[])?;
        let m = self.recv_async("release response")?;
        ensure!(
            m.typ == t::ASYNC_LOCK_RESPONSE,
            "release answered with {m}"
        );
        Ok(m.ctl)
    }

    pub fn lock_info(&mut self) -> R<(bool, u32)> {
        self.send_async(t::ASYNC_LOCK_INFO, 0, 0, &[])?;
        let m = self.recv_async("lock info")?;
        ensure!(
            m.typ == t::ASYNC_LOCK_INFO_RESPONSE,
            "lock info answered with {m}"
        );
        ensure!(m.ctl <= 1, "lock info reports exclusive={}", m.ctl);
        Ok((m.ctl == 1, m.par))
    }

    pub fn status(&mut self) -> R<u8> {
        let m = self.mid;
        self.send_async(t::ASYNC_STATUS_QUERY, 0, m, &[])?;
        let m = self.recv_async("status query")?;
        ensure!(
            m.typ == t::ASYNC_STATUS_RESPONSE,
            "status query answered with {m}"
        );
        Ok(m.ctl)
    }

    pub fn max_msg(&mut self, n: u64) -> R<u64> {
        self.send_async(t::ASYNC_MAX_MSG, 0, 0, &n.to_be_bytes())?;
        let m = self.recv_async("maximum message size")?;
        ensure!(
            m.typ == t::ASYNC_MAX_MSG_RESPONSE && m.data.len() == 8,
            "maximum message size answered with {m}"
        );
        Ok(u64::from_be_bytes(m.data[..].try_into().unwrap()))
    }

    /// Whole device clear sequence; returns the data messages which preceded the acknowledge
    pub fn clear(&mut self) -> R<Vec<Msg>> {
        self.send_async(t::ASYNC_DEVICE_CLEAR, 0, 0, &[])?;
        let m = self.recv_async("device clear acknowledge")?;
        ensure!(
            m.typ == t::ASYNC_DEVICE_CLEAR_ACK,
            "device clear answered with {m}"
        );
        self.clear_complete(m.ctl & 1)
    }

    pub fn clear_complete(&mut self, features: u8) -> R<Vec<Msg>> {
        self.send_sync(t::CLEAR_COMPLETE, features, 0, &[])?;
        let mut before = Vec::new();
        loop {
            let m = self.recv_sync("device clear completion")?;
            if m.typ == t::CLEAR_ACK {
                return Ok(before);
            }
            ensure!(
                m.typ == t::DATA || m.typ == t::DATA_END,
                "device clear complete answered with {m}"
            );
            before.push(m);
        }
    }

    /// Wait for a service request
    pub fn srq(&mut self, d: Duration) -> R<Option<u8>> {
        if !self.srqs.is_empty() {
            return Ok(Some(self.srqs.remove(0)));
        }
        let _ = self.asy.set_read_timeout(Some(d.max(Duration::from_millis(1))));
        let mut b = [0u8; 1];
        let r = self.asy.peek(&mut b);
        let _ = self.asy.set_read_timeout(Some(DEADLINE));
        match r {
            Ok(0) => viol("asynchronous channel closed by the server"),
            Ok(_) => {
                let m = recv(&mut self.asy, "service request")?;
                ensure!(
                    m.typ == t::ASYNC_SERVICE_REQUEST,
                    "unexpected asynchronous message {m}"
                );
                Ok(Some(m.ctl))
            }
            Err(e)
                if e.kind() == std::io::ErrorKind::WouldBlock
                    || e.kind() == std::io::ErrorKind::TimedOut =>
            {
                Ok(None)
            }
            Err(e) => viol(format!("asynchronous channel lost: {e}")),
        }
    }

    /// Nothing unexpected is pending on the synchronous channel: a query is answered next
    pub fn sync_is_clean(&mut self, tag: &str) -> R {
        self.check_query(format!("CLEAN {tag}?").as_bytes())
    }

    pub fn leave(self, how: net::Leave) -> Option<(TcpStream, TcpStream)> {
        let a = net::leave(self.sync, how);
        let b = net::leave(self.asy, how);
        a.zip(b)
    }
}

/// Poll until a closure succeeds
pub fn eventually(what: &str, mut f: impl FnMut() -> R<bool>) -> R {
    let t0 = Instant::now();
    loop {
        if f()? {
            return Ok(());
        }
        if t0.elapsed() > DEADLINE {
            return late(what.to_string());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
