//! An independent ONC RPC / VXI-11 / portmapper client working directly on the wire format
//! (RFC 5531, RFC 4506, RFC 1833, VXI-11).

use std::io::Read;
use std::net::{IpAddr, Ipv4Addr, SocketAddr, TcpStream, UdpSocket};
use std::sync::Arc;

use async_std::net::TcpListener;
use lxi_device::status::Sender as StatusSender;
use lxi_vxi11::server::vxi11::prelude::*;

use crate::dev::{RecDev, Unit};
use crate::net::{self, Srv};
use crate::rt::*;

// ---------------------------------------------------------------- XDR

#[derive(Default, Clone)]
pub struct X(pub Vec<u8>);

impl X {
    pub fn new() -> X {
        X(Vec::new())
    }
    pub fn u(mut self, v: u32) -> X {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn op(mut self, d: &[u8]) -> X {
        self.0.extend_from_slice(&(d.len() as u32).to_be_bytes());
        self.0.extend_from_slice(d);
        while self.0.len() % 4 != 0 {
            self.0.push(0);
        }
        self
    }
    pub fn raw(mut self, d: &[u8]) -> X {
        self.0.extend_from_slice(d);
        self
    }
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, pos: 0 }
    }
    pub fn u(&mut self, what: &str) -> R<u32> {
        if self.pos + 4 > self.b.len() {
            return viol(format!("{what}: reply too short: {}", show(self.b)));
        }
        let v = u32::from_be_bytes(self.b[self.pos..self.pos + 4].try_into().unwrap());
        self.pos += 4;
        Ok(v)
    }
    pub fn op(&mut self, what: &str) -> R<Vec<u8>> {
        let n = self.u(what)? as usize;
        let padded = (n + 3) & !3;
        if self.pos + padded > self.b.len() {
            return viol(format!("{what}: opaque data of {n} bytes cut off: {}", show(self.b)));
        }
        let v = self.b[self.pos..self.pos + n].to_vec();
        if self.b[self.pos + n..self.pos + padded].iter().any(|&c| c != 0) {
            return viol(format!("{what}: padding is not zero: {}", show(self.b)));
        }
        self.pos += padded;
        Ok(v)
    }
    pub fn end(&self, what: &str) -> R {
        if self.pos != self.b.len() {
            return viol(format!(
                "{what}: {} extra bytes at the end of the reply {}",
                self.b.len() - self.pos,
                show(self.b)
            ));
        }
        Ok(())
    }
    pub fn rest(&self) -> &'a [u8] {
        &self.b[self.pos..]
    }
}

// ---------------------------------------------------------------- RPC

pub const CORE: u32 = 0x0607AF;
pub const ABORT: u32 = 0x0607B0;
pub const PMAP: u32 = 100000;

pub fn call_msg(xid: u32, rpcvers: u32, prog: u32, vers: u32, proc: u32, args: &[u8]) -> Vec<u8> {
    X::new()
        .u(xid)
        .u(0)
        .u(rpcvers)
        .u(prog)
        .u(vers)
        .u(proc)
        .u(0)
        .u(0)
        .u(0)
        .u(0)
        .raw(args)
        .0
}

pub fn record(b: &[u8]) -> Vec<u8> {
    let mut v = (0x8000_0000u32 | b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}

/// Split a record in several fragments
pub fn fragments(rng: &mut Rng, b: &[u8], n: usize) -> Vec<u8> {
    let mut parts = rng.split(b, n);
    // Empty fragments are legal
    if rng.chance(1, 3) {
        let at = rng.below(parts.len() + 1);
        parts.insert(at, Vec::new());
    }
    if parts.is_empty() {
        parts.push(Vec::new());
    }
    let mut out = Vec::new();
    let last = parts.len() - 1;
    for (i, p) in parts.iter().enumerate() {
        let h = p.len() as u32 | if i == last { 0x8000_0000 } else { 0 };
        out.extend_from_slice(&h.to_be_bytes());
        out.extend_from_slice(p);
    }
    out
}

/// Read a record from a connection
pub fn read_reply(s: &mut TcpStream, what: &str) -> R<Vec<u8>> {
    net::quickack(s);
    read_record(s, what)
}

pub fn read_record(s: &mut impl Read, what: &str) -> R<Vec<u8>> {
    let mut out = Vec::new();
    loop {
        let h = net::read_n(s, 4, what)?;
        let h = u32::from_be_bytes(h[..].try_into().unwrap());
        let n = (h & 0x7fff_ffff) as usize;
        ensure!(n <= 64 << 20, "{what}: record fragment of {n} bytes");
        out.extend(net::read_n(s, n, what)?);
        if h & 0x8000_0000 != 0 {
            return Ok(out);
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Reply {
    Success(Vec<u8>),
    ProgUnavail,
    ProgMismatch(u32, u32),
    ProcUnavail,
    GarbageArgs,
    SystemErr,
    RpcMismatch(u32, u32),
    AuthError(u32),
}

/// Decode a reply: transaction id and outcome
pub fn parse_reply(b: &[u8], what: &str) -> R<(u32, Reply)> {
    let mut r = Rd::new(b);
    let xid = r.u(what)?;
    let mt = r.u(what)?;
    ensure!(mt == 1, "{what}: not a reply: {}", show(b));
    let stat = r.u(what)?;
    let out = match stat {
        0 => {
            let fl = r.u(what)?;
            let vf = r.op(what)?;
            ensure!(
                fl == 0 && vf.is_empty(),
                "{what}: verifier of the reply is not AUTH_NONE: {}",
                show(b)
            );
            match r.u(what)? {
                0 => {
                    let v = r.rest().to_vec();
                    r.pos = b.len();
                    Reply::Success(v)
                }
                1 => Reply::ProgUnavail,
                2 => Reply::ProgMismatch(r.u(what)?, r.u(what)?),
                3 => Reply::ProcUnavail,
                4 => Reply::GarbageArgs,
                5 => Reply::SystemErr,
                x => return viol(format!("{what}: unknown accept status {x}")),
            }
        }
        1 => match r.u(what)? {
            0 => Reply::RpcMismatch(r.u(what)?, r.u(what)?),
            1 => Reply::AuthError(r.u(what)?),
            x => return viol(format!("{what}: unknown reject status {x}")),
        },
        x => return viol(format!("{what}: unknown reply status {x}")),
    };
    r.end(what)?;
    Ok((xid, out))
}

pub struct Rpc {
    pub s: TcpStream,
    pub xid: u32,
    pub prog: u32,
}

impl Rpc {
    pub fn connect(addr: SocketAddr, prog: u32) -> R<Rpc> {
        let s = net::connect(addr)?;
        let port = s.local_addr().map(|a| a.port()).unwrap_or(0);
        Ok(Rpc {
            s,
            xid: (port as u32) << 16,
            prog,
        })
    }

    pub fn start(&mut self, proc: u32, args: &[u8]) -> R<u32> {
        self.xid = self.xid.wrapping_add(1);
        let m = call_msg(self.xid, 2, self.prog, 1 + (self.prog == PMAP) as u32, proc, args);
        net::send(&mut self.s, &record(&m))?;
        Ok(self.xid)
    }

    pub fn finish(&mut self, xid: u32, what: &str) -> R<Vec<u8>> {
        let b = read_reply(&mut self.s, what)?;
        let (x, r) = parse_reply(&b, what)?;
        ensure!(
            x == xid,
            "{what}: reply carries transaction id {x:#x}, the call was {xid:#x}"
        );
        match r {
            Reply::Success(v) => Ok(v),
            r => viol(format!("{what}: call failed with {r:?}")),
        }
    }

    pub fn call(&mut self, proc: u32, args: &[u8], what: &str) -> R<Vec<u8>> {
        let x = self.start(proc, args)?;
        self.finish(x, what)
    }
}

// ---------------------------------------------------------------- VXI-11

pub mod e {
    pub const OK: u32 = 0;
    pub const NOT_ACCESSIBLE: u32 = 3;
    pub const INVALID_LINK: u32 = 4;
    pub const CHAN_NOT_ESTABLISHED: u32 = 6;
    pub const NOT_SUPPORTED: u32 = 8;
    pub const LOCKED: u32 = 11;
    pub const NO_LOCK: u32 = 12;
    pub const IO_TIMEOUT: u32 = 15;
    pub const IO_ERROR: u32 = 17;
    pub const INVALID_ADDRESS: u32 = 21;
    pub const ABORT: u32 = 23;
    pub const CHAN_ESTABLISHED: u32 = 29;
}

pub mod p {
    pub const CREATE_LINK: u32 = 10;
    pub const WRITE: u32 = 11;
    pub const READ: u32 = 12;
    pub const READSTB: u32 = 13;
    pub const TRIGGER: u32 = 14;
    pub const CLEAR: u32 = 15;
    pub const REMOTE: u32 = 16;
    pub const LOCAL: u32 = 17;
    pub const LOCK: u32 = 18;
    pub const UNLOCK: u32 = 19;
    pub const ENABLE_SRQ: u32 = 20;
    pub const DOCMD: u32 = 22;
    pub const DESTROY_LINK: u32 = 23;
    pub const CREATE_INTR: u32 = 25;
    pub const DESTROY_INTR: u32 = 26;
}

pub const WAIT: u32 = 1;
pub const END: u32 = 8;
pub const TERM: u32 = 0x80;

pub const R_REQCNT: u32 = 1;
pub const R_CHR: u32 = 2;
pub const R_END: u32 = 4;

#[derive(Debug, Clone)]
pub struct LinkInfo {
    pub err: u32,
    pub lid: u32,
    pub abort_port: u32,
    pub max_recv: u32,
}

#[derive(Debug, Clone)]
pub struct ReadResp {
    pub err: u32,
    pub reason: u32,
    pub data: Vec<u8>,
}

/// Arguments of the generic operations: link, flags, lock timeout, io timeout
pub fn generic(lid: u32, flags: u32, lock_ms: u32) -> Vec<u8> {
    X::new().u(lid).u(flags).u(lock_ms).u(1000).0
}

pub fn write_args(lid: u32, flags: u32, lock_ms: u32, data: &[u8]) -> Vec<u8> {
    X::new().u(lid).u(1000).u(lock_ms).u(flags).op(data).0
}

pub fn read_args(lid: u32, size: u32, flags: u32, lock_ms: u32, term: u8) -> Vec<u8> {
    X::new()
        .u(lid)
        .u(size)
        .u(1000)
        .u(lock_ms)
        .u(flags)
        .u(term as u32)
        .0
}

pub struct Vxi {
    pub rpc: Rpc,
}

impl Vxi {
    pub fn connect(addr: SocketAddr) -> R<Vxi> {
        Ok(Vxi {
            rpc: Rpc::connect(addr, CORE)?,
        })
    }

    pub fn create_start(&mut self, dev: &str, lock: bool, lock_ms: u32) -> R<u32> {
        let a = X::new().u(7).u(lock as u32).u(lock_ms).op(dev.as_bytes()).0;
        self.rpc.start(p::CREATE_LINK, &a)
    }
    pub fn create_finish(&mut self, x: u32) -> R<LinkInfo> {
        let v = self.rpc.finish(x, "create_link")?;
        let mut r = Rd::new(&v);
        let l = LinkInfo {
            err: r.u("create_link")?,
            lid: r.u("create_link")?,
            abort_port: r.u("create_link")?,
            max_recv: r.u("create_link")?,
        };
        r.end("create_link")?;
        Ok(l)
    }
    pub fn create(&mut self, dev: &str, lock: bool, lock_ms: u32) -> R<LinkInfo> {
        let x = self.create_start(dev, lock, lock_ms)?;
        self.create_finish(x)
    }
    /// Create a link which must succeed
    pub fn link(&mut self, dev: &str) -> R<u32> {
        let l = self.create(dev, false, 0)?;
        ensure!(l.err == 0, "create_link for {dev} failed with error {}", l.err);
        Ok(l.lid)
    }
    pub fn write(&mut self, lid: u32, flags: u32, lock_ms: u32, data: &[u8]) -> R<(u32, u32)> {
        let v = self.rpc.call(
            p::WRITE,
            &write_args(lid, flags, lock_ms, data),
            "device_write",
        )?;
        let mut r = Rd::new(&v);
        let out = (r.u("device_write")?, r.u("device_write")?);
        r.end("device_write")?;
        Ok(out)
    }
    pub fn parse_read(v: &[u8]) -> R<ReadResp> {
        let mut r = Rd::new(v);
        let out = ReadResp {
            err: r.u("device_read")?,
            reason: r.u("device_read")?,
            data: r.op("device_read")?,
        };
        r.end("device_read")?;
        Ok(out)
    }
    pub fn read(&mut self, lid: u32, size: u32, flags: u32, lock_ms: u32, term: u8) -> R<ReadResp> {
        let v = self.rpc.call(
            p::READ,
            &read_args(lid, size, flags, lock_ms, term),
            "device_read",
        )?;
        Vxi::parse_read(&v)
    }
    pub fn stb(&mut self, lid: u32, flags: u32, lock_ms: u32) -> R<(u32, u32)> {
        let v = self
            .rpc
            .call(p::READSTB, &generic(lid, flags, lock_ms), "device_readstb")?;
        let mut r = Rd::new(&v);
        let out = (r.u("device_readstb")?, r.u("device_readstb")?);
        r.end("device_readstb")?;
        Ok(out)
    }
    /// A call which returns only an error code
    pub fn simple(&mut self, proc: u32, args: &[u8], what: &str) -> R<u32> {
        let v = self.rpc.call(proc, args, what)?;
        one_error(&v, what)
    }
    pub fn op(&mut self, proc: u32, lid: u32, flags: u32, lock_ms: u32) -> R<u32> {
        self.simple(proc, &generic(lid, flags, lock_ms), "generic operation")
    }
    pub fn lock(&mut self, lid: u32, flags: u32, lock_ms: u32) -> R<u32> {
        self.simple(
            p::LOCK,
            &X::new().u(lid).u(flags).u(lock_ms).0,
            "device_lock",
        )
    }
    pub fn unlock(&mut self, lid: u32) -> R<u32> {
        self.simple(p::UNLOCK, &X::new().u(lid).0, "device_unlock")
    }
    pub fn destroy(&mut self, lid: u32) -> R<u32> {
        self.simple(p::DESTROY_LINK, &X::new().u(lid).0, "destroy_link")
    }
    pub fn enable_srq(&mut self, lid: u32, on: bool, handle: &[u8]) -> R<u32> {
        self.simple(
            p::ENABLE_SRQ,
            &X::new().u(lid).u(on as u32).op(handle).0,
            "device_enable_srq",
        )
    }
    pub fn create_intr(
        &mut self,
        host: Ipv4Addr,
        port: u16,
        prog: u32,
        vers: u32,
        udp: bool,
    ) -> R<u32> {
        self.simple(
            p::CREATE_INTR,
            &X::new()
                .u(u32::from(host))
                .u(port as u32)
                .u(prog)
                .u(vers)
                .u(udp as u32)
                .0,
            "create_intr_chan",
        )
    }
    pub fn destroy_intr(&mut self) -> R<u32> {
        self.simple(p::DESTROY_INTR, &[], "destroy_intr_chan")
    }
    /// write with END and read back everything
    pub fn query(&mut self, lid: u32, cmd: &[u8]) -> R<Vec<u8>> {
        let (err, n) = self.write(lid, END | WAIT, 10_000, cmd)?;
        ensure!(
            err == 0 && n as usize == cmd.len(),
            "write of {} failed: error {err}, {n} bytes",
            show(cmd)
        );
        let r = self.read(lid, 1 << 20, WAIT, 10_000, 0)?;
        ensure!(r.err == 0, "read after {} failed: error {}", show(cmd), r.err);
        Ok(r.data)
    }
    pub fn check_query(&mut self, lid: u32, cmd: &[u8]) -> R {
        let got = self.query(lid, cmd)?;
        let want = crate::dev::std_response(cmd).unwrap_or_default();
        ensure!(got == want, "response to {} {}", show(cmd), diff(&got, &want));
        Ok(())
    }
}

pub fn one_error(v: &[u8], what: &str) -> R<u32> {
    let mut r = Rd::new(v);
    let e = r.u(what)?;
    r.end(what)?;
    Ok(e)
}

/// Core and abort server on ports of their own
pub struct VxiSrv {
    pub core: SocketAddr,
    pub abort: SocketAddr,
    _a: Srv,
    _b: Srv,
}

impl VxiSrv {
    pub fn ended(&self) -> Option<String> {
        self._a.ended().or(self._b.ended())
    }
    pub fn abort_call(&self, c: &mut Rpc, lid: u32) -> R<u32> {
        let v = c.call(1, &X::new().u(lid).0, "device_abort")?;
        one_error(&v, "device_abort")
    }
}

pub fn start(units: &[(&str, &Unit)], srq: &StatusSender) -> R<VxiSrv> {
    let core = net::pick_port();
    let abort = net::pick_port();
    let mut b = VxiServerBuilder::<RecDev>::new()
        .core_port(core)
        .async_port(abort);
    for (n, u) in units {
        b = b.device(n.to_string(), u.dev.clone(), u.lock.clone());
    }
    let (c, a) = b.build(srq.clone());
    let lo = IpAddr::V4(Ipv4Addr::LOCALHOST);
    let mut try_bind = |port: u16| -> R<TcpListener> {
        async_std::task::block_on(TcpListener::bind((lo, port)))
            .map_err(|e| Fail::Inconclusive(format!("bind {port}: {e}")))
    };
    let lc = try_bind(core)?;
    let la = try_bind(abort)?;
    let sc = serve(SocketAddr::from((lo, core)), c.serve(lc))?;
    let sa = serve(SocketAddr::from((lo, abort)), a.serve(la))?;
    Ok(VxiSrv {
        core: sc.addr,
        abort: sa.addr,
        _a: sc,
        _b: sa,
    })
}

/// Run a server future whose socket is already bound
pub fn serve(
    addr: SocketAddr,
    fut: impl std::future::Future<Output = std::io::Result<()>> + Send + 'static,
) -> R<Srv> {
    Srv::running(addr, fut)
}

// ---------------------------------------------------------------- portmapper

use lxi_vxi11::server::portmapper::prelude::{Mapping, StaticPortMap};

pub struct PmapSrv {
    pub tcp: SocketAddr,
    pub udp: SocketAddr,
    _s: Vec<Srv>,
}

impl PmapSrv {
    pub fn ended(&self) -> Option<String> {
        self._s.iter().find_map(|s| s.ended())
    }
}

pub fn start_pmap<const N: usize>(m: [Mapping; N]) -> R<PmapSrv> {
    let s = StaticPortMap::new(m);
    let lo = IpAddr::V4(Ipv4Addr::LOCALHOST);
    let port = net::pick_port();
    let l = async_std::task::block_on(TcpListener::bind((lo, port)))
        .map_err(|e| Fail::Inconclusive(format!("bind {port}: {e}")))?;
    let u = async_std::task::block_on(async_std::net::UdpSocket::bind((lo, port)))
        .map_err(|e| Fail::Inconclusive(format!("bind {port}: {e}")))?;
    let addr = SocketAddr::from((lo, port));
    Ok(PmapSrv {
        tcp: addr,
        udp: addr,
        _s: vec![
            serve(addr, Arc::clone(&s).serve_tcp(l))?,
            serve(addr, s.serve_udp(u))?,
        ],
    })
}

pub fn udp_client(addr: SocketAddr) -> R<UdpSocket> {
    let s = UdpSocket::bind("127.0.0.1:0").map_err(|e| Fail::Inconclusive(e.to_string()))?;
    s.connect(addr).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    let _ = s.set_read_timeout(Some(DEADLINE));
    Ok(s)
}
