//! Starting servers and talking to them over real sockets.

use std::io::{Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use async_std::task;
use futures::Future;

use crate::dev::Unit;
use crate::rt::*;

static PORT: AtomicU32 = AtomicU32::new(0);
static GUARDS: Mutex<std::collections::VecDeque<std::net::UdpSocket>> = Mutex::new(std::collections::VecDeque::new());

/// A port below the ephemeral range nobody listens on
pub fn pick_port() -> u16 {
    let base = (std::process::id() * 131) % 11000;
    loop {
        let n = PORT.fetch_add(1, Ordering::Relaxed);
        let p = (20000 + (base + n) % 12000) as u16;
        if TcpListener::bind((Ipv4Addr::UNSPECIFIED, p)).is_ok()
            && std::net::UdpSocket::bind((Ipv4Addr::UNSPECIFIED, p)).is_ok()
        {
            // Another process which does the same must not pick it before the server is bound
            let Ok(guard) = std::net::UdpSocket::bind((Ipv4Addr::new(127, 77, 0, 1), p)) else {
                continue;
            };
            let mut g = GUARDS.lock().unwrap();
            g.push_back(guard);
            if g.len() > 200 {
                g.pop_front();
            }
            return p;
        }
    }
}

/// A running server, stopped when dropped
pub struct Srv {
    pub addr: SocketAddr,
    task: Vec<task::JoinHandle<()>>,
    ended: Arc<Mutex<Option<String>>>,
}

impl Srv {
    /// Did the accept loop end by itself?
    pub fn ended(&self) -> Option<String> {
        self.ended.lock().unwrap().clone()
    }
    pub fn port(&self) -> u16 {
        self.addr.port()
    }
    pub fn stop(&mut self) {
        for t in self.task.drain(..) {
            task::block_on(async {
                let _ = async_std::future::timeout(Duration::from_secs(5), t.cancel()).await;
            });
        }
    }
}

impl Srv {
    /// Run a server future whose socket is already bound
    pub fn running(
        addr: SocketAddr,
        fut: impl Future<Output = std::io::Result<()>> + Send + 'static,
    ) -> R<Srv> {
        let ended = Arc::new(Mutex::new(None));
        let e2 = ended.clone();
        let t = task::spawn(async move {
            let r = fut.await;
            *e2.lock().unwrap() = Some(format!("{r:?}"));
        });
        Ok(Srv {
            addr,
            task: vec![t],
            ended,
        })
    }
}

impl Drop for Srv {
    fn drop(&mut self) {
        self.stop()
    }
}

fn listening(p: u16) -> bool {
    let Ok(s) = std::fs::read_to_string("/proc/net/tcp") else {
        std::thread::sleep(Duration::from_millis(150));
        return true;
    };
    let pat = format!(":{p:04X} ");
    s.lines().skip(1).any(|l| {
        let mut f = l.split_whitespace();
        f.next();
        let local = f.next().unwrap_or("");
        f.next();
        let st = f.next().unwrap_or("");
        st == "0A" && format!("{local} ").contains(&pat)
    })
}

/// Start a server which binds by itself
pub fn start<F, Fut>(make: F) -> R<Srv>
where
    F: Fn(SocketAddr) -> Fut,
    Fut: Future<Output = std::io::Result<()>> + Send + 'static,
{
    for _ in 0..20 {
        let addr = SocketAddr::from((Ipv4Addr::LOCALHOST, pick_port()));
        let fut = make(addr);
        let ended = Arc::new(Mutex::new(None));
        let e2 = ended.clone();
        let t = task::spawn(async move {
            let r = fut.await;
            *e2.lock().unwrap() = Some(format!("{r:?}"));
        });
        let t0 = Instant::now();
        loop {
            if listening(addr.port()) {
                return Ok(Srv {
                    addr,
                    task: vec![t],
                    ended,
                });
            }
            if ended.lock().unwrap().is_some() || t0.elapsed() > DEADLINE {
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        if ended.lock().unwrap().is_none() {
            return inconc("server did not start to listen");
        }
    }
    inconc("server could not be started")
}

/// A server future which is polled only when asked to
pub struct Manual {
    fut: Pin<Box<dyn Future<Output = std::io::Result<()>> + Send>>,
}

impl Manual {
    pub fn new(f: impl Future<Output = std::io::Result<()>> + Send + 'static) -> Self {
        Manual { fut: Box::pin(f) }
    }
    /// From now on let it run by itself
    pub fn into_srv(self, addr: SocketAddr) -> R<Srv> {
        Srv::running(addr, self.fut)
    }
    /// Let the server run for a while, returns its result if it ended
    pub fn run_for(&mut self, d: Duration) -> Option<std::io::Result<()>> {
        task::block_on(async { async_std::future::timeout(d, &mut self.fut).await.ok() })
    }
}

pub fn start_raw(u: &Unit, cfg: impl Fn() -> lxi_socket::server::ServerConfig) -> R<Srv> {
    start(|a| {
        cfg()
            .build()
            .accept(a, u.lock.clone(), u.dev.clone())
    })
}

pub fn start_telnet(u: &Unit, limit: usize) -> R<Srv> {
    start(|a| {
        lxi_telnet::server::ServerConfig::default()
            .backpressure(limit)
            .build()
            .accept(a, u.lock.clone(), u.dev.clone())
    })
}

// ---------------------------------------------------------------- sockets

pub fn connect(addr: SocketAddr) -> R<TcpStream> {
    match TcpStream::connect_timeout(&addr, Duration::from_secs(5)) {
        Ok(s) => {
            let _ = s.set_nodelay(true);
            let _ = s.set_read_timeout(Some(DEADLINE));
            let _ = s.set_write_timeout(Some(DEADLINE));
            Ok(s)
        }
        Err(e) if e.kind() == std::io::ErrorKind::AddrNotAvailable => {
            inconc(format!("out of client ports: {e}"))
        }
        Err(e) => late(format!("cannot connect to {addr}: {e}")),
    }
}

/// Close with a reset instead of an orderly shutdown
pub fn reset(s: TcpStream) {
    let l = libc::linger {
        l_onoff: 1,
        l_linger: 0,
    };
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_LINGER,
            &l as *const _ as *const libc::c_void,
            std::mem::size_of::<libc::linger>() as u32,
        );
    }
    drop(s)
}

/// Acknowledge at once what arrives, servers which do not disable Nagle's algorithm would
/// otherwise take 40 ms to send a reply in two pieces
pub fn quickack(s: &TcpStream) {
    let one: libc::c_int = 1;
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::IPPROTO_TCP,
            libc::TCP_QUICKACK,
            &one as *const _ as *const libc::c_void,
            4,
        );
    }
}

pub fn set_rcvbuf(s: &TcpStream, n: i32) {
    unsafe {
        libc::setsockopt(
            s.as_raw_fd(),
            libc::SOL_SOCKET,
            libc::SO_RCVBUF,
            &n as *const _ as *const libc::c_void,
            4,
        );
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Leave {
    Close,
    Half,
    Reset,
}
pub const LEAVES: [Leave; 3] = [Leave::Close, Leave::Half, Leave::Reset];

/// Read exactly n bytes
pub fn read_n(s: &mut impl Read, n: usize, what: &str) -> R<Vec<u8>> {
    let mut v = vec![0; n];
    let mut got = 0;
    while got < n {
        match s.read(&mut v[got..]) {
            Ok(0) => {
                return viol(format!(
                    "{what}: connection closed by the server after {got} of {n} bytes: {}",
                    show(&v[..got])
                ))
            }
            Ok(k) => got += k,
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e)
                if e.kind() == std::io::ErrorKind::WouldBlock
                    || e.kind() == std::io::ErrorKind::TimedOut =>
            {
                return late(format!(
                    "{what}: only {got} of {n} bytes arrived in time: {}",
                    show(&v[..got])
                ))
            }
            Err(e) => return viol(format!("{what}: connection lost ({e}) after {got} of {n} bytes")),
        }
    }
    Ok(v)
}

/// Read until the peer closes
pub fn read_all(s: &mut impl Read, what: &str) -> R<Vec<u8>> {
    let mut v = Vec::new();
    let mut b = [0u8; 4096];
    loop {
        match s.read(&mut b) {
            Ok(0) => return Ok(v),
            Ok(k) => v.extend_from_slice(&b[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e)
                if e.kind() == std::io::ErrorKind::WouldBlock
                    || e.kind() == std::io::ErrorKind::TimedOut =>
            {
                return late(format!("{what}: connection was not closed in time"))
            }
            Err(_) => return Ok(v),
        }
    }
}

/// Is nothing received for a while? Err(bytes) otherwise
pub fn quiet(s: &mut TcpStream, d: Duration) -> Result<(), Vec<u8>> {
    let _ = s.set_read_timeout(Some(d.max(Duration::from_millis(1))));
    let mut b = [0u8; 512];
    let r = s.read(&mut b);
    let _ = s.set_read_timeout(Some(DEADLINE));
    match r {
        Ok(0) => Err(Vec::new()),
        Ok(k) => Err(b[..k].to_vec()),
        Err(e)
            if e.kind() == std::io::ErrorKind::WouldBlock
                || e.kind() == std::io::ErrorKind::TimedOut =>
        {
            Ok(())
        }
        Err(_) => Err(Vec::new()),
    }
}

pub fn send(s: &mut impl Write, b: &[u8]) -> R {
    match s.write_all(b) {
        Ok(()) => Ok(()),
        Err(e)
            if e.kind() == std::io::ErrorKind::WouldBlock
                || e.kind() == std::io::ErrorKind::TimedOut =>
        {
            late("the server does not read what is sent to it".to_string())
        }
        Err(e) => viol(format!("sending failed, connection lost: {e}")),
    }
}

pub fn leave(s: TcpStream, how: Leave) -> Option<TcpStream> {
    match how {
        Leave::Close => {
            let _ = s.shutdown(std::net::Shutdown::Both);
            drop(s);
            None
        }
        Leave::Half => {
            let _ = s.shutdown(std::net::Shutdown::Write);
            Some(s)
        }
        Leave::Reset => {
            reset(s);
            None
        }
    }
}
