// Small independent clients and a recording device for the demonstrations.
#![allow(dead_code)]
pub use std::io::{Read, Write};
pub use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
pub use std::time::{Duration, Instant};

use async_std::task;
use lxi_device::lock::{Mutex as DevMutex, SharedLock, SpinMutex};
pub use lxi_device::status::Sender as StatusSender;
pub use lxi_device::lock::LockHandle;
use lxi_device::{trigger::Source, Device, DeviceError};

pub type Log = Arc<Mutex<Vec<String>>>;

pub struct Dev(pub Log);
impl Device for Dev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        let s = String::from_utf8_lossy(cmd).to_string();
        self.0.lock().unwrap().push(s.clone());
        if let Some(ms) = s.strip_prefix("SLEEP") {
            std::thread::sleep(Duration::from_millis(ms.trim().parse().unwrap()));
        }
        if let Some(n) = s.strip_prefix("BIG?") {
            return Some(vec![b'x'; n.trim().parse().unwrap()]);
        }
        if s == "FF?" {
            return Some(b"a\xffb".to_vec());
        }
        if s == "NL?" {
            return Some(b"NL\n".to_vec());
        }
        s.contains('?').then(|| format!("R:{s}").into_bytes())
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        Ok(STATUS.load(std::sync::atomic::Ordering::SeqCst))
    }
    fn trigger(&mut self, _s: Source) -> Result<(), DeviceError> {
        self.0.lock().unwrap().push("<trigger>".into());
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        self.0.lock().unwrap().push("<clear>".into());
        Ok(())
    }
    fn set_remote(&mut self, r: bool) -> Result<(), DeviceError> {
        self.0.lock().unwrap().push(format!("<remote {r}>"));
        Ok(())
    }
    fn set_local_lockout(&mut self, r: bool) {
        self.0.lock().unwrap().push(format!("<lockout {r}>"));
    }
}
pub static STATUS: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);

#[derive(Clone)]
pub struct Unit {
    pub log: Log,
    pub dev: Arc<DevMutex<Dev>>,
    pub lock: Arc<SpinMutex<SharedLock>>,
}
impl Unit {
    pub fn new() -> Unit {
        let log: Log = Default::default();
        Unit { dev: Arc::new(DevMutex::new(Dev(log.clone()))), lock: SharedLock::new(), log }
    }
    pub fn log(&self) -> Vec<String> {
        self.log.lock().unwrap().clone()
    }
    pub fn has(&self, s: &str) -> bool {
        self.log().iter().any(|x| x == s)
    }
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
pub fn done() -> ! {
    println!("fine");
    std::process::exit(0)
}
pub fn sleep_ms(n: u64) {
    std::thread::sleep(Duration::from_millis(n))
}
/// Wait until something holds
pub fn until(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(ms) {
        if f() {
            return true;
        }
        sleep_ms(5);
    }
    f()
}

pub fn free_addr() -> SocketAddr {
    TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap()
}
pub fn connect(a: SocketAddr) -> TcpStream {
    let t = Instant::now();
    loop {
        match TcpStream::connect(a) {
            Ok(s) => {
                s.set_nodelay(true).unwrap();
                s.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
                s.set_write_timeout(Some(Duration::from_secs(8))).unwrap();
                return s;
            }
            Err(e) if t.elapsed() > Duration::from_secs(10) => panic!("connect: {e}"),
            Err(_) => sleep_ms(10),
        }
    }
}
pub fn start_raw(u: &Unit, limit: usize) -> SocketAddr {
    let a = free_addr();
    let s = lxi_socket::server::ServerConfig::default().backpressure(limit).build();
    task::spawn(s.accept(a, u.lock.clone(), u.dev.clone()));
    a
}
pub fn start_telnet(u: &Unit, limit: usize) -> SocketAddr {
    let a = free_addr();
    let s = lxi_telnet::server::ServerConfig::default().backpressure(limit).build();
    task::spawn(s.accept(a, u.lock.clone(), u.dev.clone()));
    a
}
pub fn start_hislip_cfg(
    units: &[(&str, &Unit)],
    srq: &StatusSender,
    cfg: lxi_hislip::server::ServerConfig,
) -> SocketAddr {
    let a = free_addr();
    let mut b = lxi_hislip::server::ServerBuilder::<Dev>::new(cfg);
    for (n, u) in units {
        b = b.device(n.to_string(), u.dev.clone(), u.lock.clone());
    }
    let pool = futures::executor::ThreadPool::builder().pool_size(4).create().unwrap();
    task::spawn(b.build().accept(a, srq.clone(), pool));
    a
}
pub fn start_hislip(units: &[(&str, &Unit)], srq: &StatusSender) -> SocketAddr {
    start_hislip_cfg(units, srq, Default::default())
}
pub fn start_vxi(units: &[(&str, &Unit)], srq: &StatusSender) -> (SocketAddr, SocketAddr) {
    let (c, a) = (free_addr(), free_addr());
    let mut b = lxi_vxi11::server::vxi11::prelude::VxiServerBuilder::<Dev>::new()
        .core_port(c.port())
        .async_port(a.port());
    for (n, u) in units {
        b = b.device(n.to_string(), u.dev.clone(), u.lock.clone());
    }
    let (sc, sa) = b.build(srq.clone());
    let lc = task::block_on(async_std::net::TcpListener::bind(c)).unwrap();
    let la = task::block_on(async_std::net::TcpListener::bind(a)).unwrap();
    task::spawn(sc.serve(lc));
    task::spawn(sa.serve(la));
    (c, a)
}

/// Read what arrives, None when nothing does for the given time
pub fn read_some(s: &mut TcpStream, ms: u64) -> Option<Vec<u8>> {
    s.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let mut b = vec![0; 65536];
    let r = s.read(&mut b);
    s.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
    match r {
        Ok(n) => {
            b.truncate(n);
            Some(b)
        }
        Err(_) => None,
    }
}
pub fn read_line(s: &mut TcpStream) -> Option<String> {
    let mut v = Vec::new();
    let mut b = [0u8; 1];
    loop {
        match s.read(&mut b) {
            Ok(1) if b[0] == b'\n' => return Some(String::from_utf8_lossy(&v).to_string()),
            Ok(1) => v.push(b[0]),
            _ => return None,
        }
    }
}

// ------------------------------------------------------------ HiSLIP
#[derive(Debug, Clone, PartialEq)]
pub struct Msg {
    pub typ: u8,
    pub ctl: u8,
    pub par: u32,
    pub data: Vec<u8>,
}
pub fn hs_msg(typ: u8, ctl: u8, par: u32, data: &[u8]) -> Vec<u8> {
    let mut v = vec![b'H', b'S', typ, ctl];
    v.extend(par.to_be_bytes());
    v.extend((data.len() as u64).to_be_bytes());
    v.extend(data);
    v
}
pub fn hs_send(s: &mut TcpStream, typ: u8, ctl: u8, par: u32, data: &[u8]) -> bool {
    s.write_all(&hs_msg(typ, ctl, par, data)).is_ok()
}
pub fn hs_recv(s: &mut TcpStream) -> Option<Msg> {
    let mut h = [0u8; 16];
    s.read_exact(&mut h).ok()?;
    let n = u64::from_be_bytes(h[8..].try_into().unwrap());
    if &h[..2] != b"HS" || n > 1 << 26 {
        return None;
    }
    let mut data = vec![0; n as usize];
    s.read_exact(&mut data).ok()?;
    Some(Msg { typ: h[2], ctl: h[3], par: u32::from_be_bytes(h[4..8].try_into().unwrap()), data })
}
/// Receive with another patience, None if nothing comes
pub fn hs_recv_ms(s: &mut TcpStream, ms: u64) -> Option<Msg> {
    s.set_read_timeout(Some(Duration::from_millis(ms))).unwrap();
    let r = hs_recv(s);
    s.set_read_timeout(Some(Duration::from_secs(8))).unwrap();
    r
}
pub struct Hs {
    pub sync: TcpStream,
    pub asy: TcpStream,
    pub id: u16,
    pub mid: u32,
}
pub fn hs_open(a: SocketAddr, sub: &str) -> Hs {
    let mut sync = connect(a);
    hs_send(&mut sync, 0, 0, 0x0200_4142, sub.as_bytes());
    let m = hs_recv(&mut sync).expect("initialize");
    assert_eq!(m.typ, 1, "initialize: {m:?}");
    let id = m.par as u16;
    let mut asy = connect(a);
    hs_send(&mut asy, 17, 0, id as u32, b"");
    let m = hs_recv(&mut asy).expect("async initialize");
    assert_eq!(m.typ, 18, "async initialize: {m:?}");
    Hs { sync, asy, id, mid: 0xffff_ff00 }
}
impl Hs {
    pub fn cmd(&mut self, c: &str) -> u32 {
        self.mid = self.mid.wrapping_add(2);
        hs_send(&mut self.sync, 7, 0, self.mid, c.as_bytes());
        self.mid
    }
    pub fn answer(&mut self) -> Option<Vec<u8>> {
        let mut v = Vec::new();
        loop {
            let m = hs_recv(&mut self.sync)?;
            v.extend(m.data);
            match m.typ {
                6 => {}
                7 => return Some(v),
                _ => return None,
            }
        }
    }
    pub fn query(&mut self, c: &str) -> Option<String> {
        self.cmd(c);
        self.answer().map(|v| String::from_utf8_lossy(&v).to_string())
    }
    /// 1 granted, 0 timed out, 2 error
    pub fn lock(&mut self, ms: u32, key: &str) -> Option<u8> {
        hs_send(&mut self.asy, 4, 1, ms, key.as_bytes());
        self.asy_answer(5).map(|m| m.ctl)
    }
    /// 1 exclusive, 2 shared, 3 error
    pub fn release(&mut self) -> Option<u8> {
        let m = self.mid;
        hs_send(&mut self.asy, 4, 0, m, b"");
        self.asy_answer(5).map(|m| m.ctl)
    }
    pub fn lock_info(&mut self) -> Option<(u8, u32)> {
        hs_send(&mut self.asy, 24, 0, 0, b"");
        self.asy_answer(25).map(|m| (m.ctl, m.par))
    }
    pub fn status(&mut self) -> Option<u8> {
        let m = self.mid;
        hs_send(&mut self.asy, 21, 0, m, b"");
        self.asy_answer(22).map(|m| m.ctl)
    }
    /// Next asynchronous message of a type, ignoring service requests
    pub fn asy_answer(&mut self, typ: u8) -> Option<Msg> {
        loop {
            let m = hs_recv(&mut self.asy)?;
            if m.typ == typ {
                return Some(m);
            }
            if m.typ != 20 {
                return None;
            }
        }
    }
}

// ------------------------------------------------------------ RPC, VXI-11
#[derive(Default, Clone)]
pub struct X(pub Vec<u8>);
impl X {
    pub fn u(mut self, v: u32) -> X {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn op(mut self, d: &[u8]) -> X {
        self = self.u(d.len() as u32);
        self.0.extend(d);
        while self.0.len() % 4 != 0 {
            self.0.push(0)
        }
        self
    }
}
pub fn word(v: &[u8], i: usize) -> u32 {
    v.get(4 * i..4 * i + 4).map_or(0xdead_0000, |b| u32::from_be_bytes(b.try_into().unwrap()))
}
pub fn rpc_msg(xid: u32, prog: u32, vers: u32, proc: u32, args: &[u8]) -> Vec<u8> {
    let mut v = X::default().u(xid).u(0).u(2).u(prog).u(vers).u(proc).u(0).u(0).u(0).u(0).0;
    v.extend(args);
    v
}
pub fn record(b: &[u8]) -> Vec<u8> {
    let mut v = (0x8000_0000 | b.len() as u32).to_be_bytes().to_vec();
    v.extend(b);
    v
}
pub fn read_record(s: &mut TcpStream) -> Option<Vec<u8>> {
    let mut h = [0u8; 4];
    s.read_exact(&mut h).ok()?;
    let n = u32::from_be_bytes(h) & 0x7fff_ffff;
    if n > 1 << 26 {
        return None;
    }
    let mut v = vec![0; n as usize];
    s.read_exact(&mut v).ok()?;
    Some(v)
}
pub struct Rpc {
    pub s: TcpStream,
    pub prog: u32,
    pub xid: u32,
}
pub fn rpc(a: SocketAddr, prog: u32) -> Rpc {
    Rpc { s: connect(a), prog, xid: 100 }
}
pub const CORE: u32 = 0x0607AF;
pub const ABORT: u32 = 0x0607B0;
pub const PMAP: u32 = 100000;
impl Rpc {
    pub fn start(&mut self, proc: u32, args: &X) {
        self.xid += 1;
        let vers = if self.prog == PMAP { 2 } else { 1 };
        let _ = self.s.write_all(&record(&rpc_msg(self.xid, self.prog, vers, proc, &args.0)));
    }
    /// Results of an accepted, successful call
    pub fn finish(&mut self) -> Option<Vec<u8>> {
        let r = read_record(&mut self.s)?;
        if word(&r, 0) != self.xid || word(&r, 1) != 1 || word(&r, 2) != 0 || word(&r, 5) != 0 {
            return None;
        }
        Some(r[24..].to_vec())
    }
    pub fn call(&mut self, proc: u32, args: &X) -> Option<Vec<u8>> {
        self.start(proc, args);
        self.finish()
    }
    pub fn create_link(&mut self, dev: &str) -> u32 {
        let r = self.call(10, &X::default().u(1).u(0).u(0).op(dev.as_bytes())).expect("create_link");
        assert_eq!(word(&r, 0), 0, "create_link");
        word(&r, 1)
    }
    /// flags: 1 wait, 8 end
    pub fn write_start(&mut self, lid: u32, flags: u32, lock_ms: u32, d: &[u8]) {
        self.start(11, &X::default().u(lid).u(1000).u(lock_ms).u(flags).op(d))
    }
    pub fn write(&mut self, lid: u32, flags: u32, lock_ms: u32, d: &[u8]) -> Option<(u32, u32)> {
        self.write_start(lid, flags, lock_ms, d);
        self.finish().map(|r| (word(&r, 0), word(&r, 1)))
    }
    /// error, reason, data
    pub fn read(&mut self, lid: u32, n: u32, flags: u32, term: u8) -> Option<(u32, u32, Vec<u8>)> {
        let r = self.call(12, &X::default().u(lid).u(n).u(1000).u(0).u(flags).u(term as u32))?;
        let k = word(&r, 2) as usize;
        Some((word(&r, 0), word(&r, 1), r.get(12..12 + k)?.to_vec()))
    }
    pub fn generic(&mut self, proc: u32, lid: u32, flags: u32, lock_ms: u32) -> Option<u32> {
        self.call(proc, &X::default().u(lid).u(flags).u(lock_ms).u(1000)).map(|r| word(&r, 0))
    }
    pub fn stb(&mut self, lid: u32) -> Option<(u32, u32)> {
        self.call(13, &X::default().u(lid).u(0).u(0).u(1000)).map(|r| (word(&r, 0), word(&r, 1)))
    }
    pub fn lock(&mut self, lid: u32, flags: u32, ms: u32) -> Option<u32> {
        self.call(18, &X::default().u(lid).u(flags).u(ms)).map(|r| word(&r, 0))
    }
    pub fn unlock(&mut self, lid: u32) -> Option<u32> {
        self.call(19, &X::default().u(lid)).map(|r| word(&r, 0))
    }
    pub fn destroy(&mut self, lid: u32) -> Option<u32> {
        self.call(23, &X::default().u(lid)).map(|r| word(&r, 0))
    }
    pub fn enable_srq(&mut self, lid: u32, on: bool, h: &[u8]) -> Option<u32> {
        self.call(20, &X::default().u(lid).u(on as u32).op(h)).map(|r| word(&r, 0))
    }
    pub fn create_intr(&mut self, port: u16, prog: u32, vers: u32, udp: bool) -> Option<u32> {
        let a = X::default().u(0x7f00_0001).u(port as u32).u(prog).u(vers).u(udp as u32);
        self.call(25, &a).map(|r| word(&r, 0))
    }
}
