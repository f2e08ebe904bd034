//! One or two devices behind servers of all protocols, and clients of each.

use std::io::Read;
use std::net::TcpStream;

use lxi_device::status::Sender as StatusSender;
use lxi_vxi11::server::portmapper::prelude::Mapping;

use crate::dev::{std_response, Unit};
use crate::hislip::{self, Hs};
use crate::net::{self, Srv};
use crate::rt::*;
use crate::vxi::{self, PmapSrv, Rpc, Vxi, VxiSrv};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Proto {
    Raw,
    Telnet,
    Hislip,
    Vxi,
}
pub const PROTOS: [Proto; 4] = [Proto::Raw, Proto::Telnet, Proto::Hislip, Proto::Vxi];

/// Two devices. Raw and telnet serve the first one, HiSLIP and VXI-11 both.
pub struct World {
    pub units: [Unit; 2],
    pub srq: StatusSender,
    pub raw: Srv,
    pub tel: Srv,
    pub hs: Srv,
    pub vx: VxiSrv,
    pub pm: PmapSrv,
}

pub const HS_NAMES: [&str; 2] = ["hislip0", "hislip1"];
pub const VX_NAMES: [&str; 2] = ["inst0", "inst1"];

impl World {
    pub fn new(limit: usize) -> R<World> {
        let units = [Unit::new(), Unit::new()];
        let srq = StatusSender::new();
        Ok(World {
            raw: net::start_raw(&units[0], || lxi_socket::server::ServerConfig::default().backpressure(limit))?,
            tel: net::start_telnet(&units[0], limit)?,
            hs: hislip::start(
                &[(HS_NAMES[0], &units[0]), (HS_NAMES[1], &units[1])],
                |c| c,
                &srq,
            )?,
            vx: vxi::start(&[(VX_NAMES[0], &units[0]), (VX_NAMES[1], &units[1])], &srq)?,
            pm: vxi::start_pmap([
                Mapping::new(vxi::CORE, 1, 6, 1024),
                Mapping::new(vxi::ABORT, 1, 6, 4880),
            ])?,
            units,
            srq,
        })
    }

    /// Did an accept loop end?
    pub fn ended(&self) -> Option<String> {
        let mut l = Vec::new();
        for (n, e) in [
            ("raw", self.raw.ended()),
            ("telnet", self.tel.ended()),
            ("hislip", self.hs.ended()),
            ("vxi-11", self.vx.ended()),
            ("portmapper", self.pm.ended()),
        ] {
            if let Some(e) = e {
                l.push(format!("{n}: {e}"));
            }
        }
        (!l.is_empty()).then(|| l.join(", "))
    }
}

/// Telnet client which does not negotiate anything
pub struct Tel {
    pub s: TcpStream,
    /// Received, escapes removed, prompts and go-aheads not
    buf: Vec<Tok>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Tok {
    B(u8),
    Ga,
}

impl Tel {
    pub fn connect(addr: std::net::SocketAddr) -> R<Tel> {
        Ok(Tel { s: net::connect(addr)?, buf: Vec::new() })
    }

    /// Line of response data. Prompts may stand before it or (of an earlier read) be cut in
    /// between it by the reads of the server, never inside of it.
    fn byte(&mut self, what: &str) -> R<Tok> {
        net::quickack(&self.s);
        let b = net::read_n(&mut self.s, 1, what)?[0];
        if b != 0xff {
            return Ok(Tok::B(b));
        }
        match net::read_n(&mut self.s, 1, what)?[0] {
            0xff => Ok(Tok::B(0xff)),
            249 => Ok(Tok::Ga),
            c => viol(format!("{what}: unexpected telnet command {c}")),
        }
    }

    /// The next response line without prompts. The response must not begin with a prompt.
    pub fn line(&mut self, what: &str) -> R<Vec<u8>> {
        loop {
            let t = self.byte(what)?;
            self.buf.push(t);
            let p = super::telnet::PROMPT;
            if self.buf.len() == p.len() + 1
                && self.buf[p.len()] == Tok::Ga
                && p.iter().enumerate().all(|(i, b)| self.buf[i] == Tok::B(*b))
            {
                self.buf.clear();
                continue;
            }
            let n = self.buf.len();
            if n >= 2 && self.buf[n - 1] == Tok::B(b'\n') && self.buf[n - 2] == Tok::B(b'\r') {
                let mut v = Vec::new();
                for t in self.buf.drain(..).take(n - 2) {
                    match t {
                        Tok::B(b) => v.push(b),
                        Tok::Ga => return viol(format!("{what}: go ahead inside of a response {}", show(&v))),
                    }
                }
                return Ok(v);
            }
        }
    }
}

/// A client of any protocol
pub enum Cli {
    Raw(TcpStream),
    Tel(Tel),
    Hs(Hs),
    Vx(Vxi, u32),
}

impl Cli {
    /// `unit` matters to HiSLIP and VXI-11 only
    pub fn open(w: &World, p: Proto, unit: usize) -> R<Cli> {
        Ok(match p {
            Proto::Raw => Cli::Raw(net::connect(w.raw.addr)?),
            Proto::Telnet => Cli::Tel(Tel::connect(w.tel.addr)?),
            Proto::Hislip => Cli::Hs(Hs::open(w.hs.addr, HS_NAMES[unit])?),
            Proto::Vxi => {
                let mut v = Vxi::connect(w.vx.core)?;
                let lid = v.link(VX_NAMES[unit])?;
                Cli::Vx(v, lid)
            }
        })
    }

    pub fn query(&mut self, cmd: &[u8]) -> R<Vec<u8>> {
        match self {
            Cli::Raw(s) => {
                net::send(s, &[cmd, b"\n"].concat())?;
                read_line(s, "raw response")
            }
            Cli::Tel(t) => {
                net::send(&mut t.s, &[cmd, b"\r\n"].concat())?;
                t.line("telnet response")
            }
            Cli::Hs(h) => h.query(cmd),
            Cli::Vx(v, lid) => {
                let (err, n) = v.write(*lid, vxi::END | vxi::WAIT, 60_000, cmd)?;
                ensure!(
                    err == 0 && n as usize == cmd.len(),
                    "write of {} failed: error {err}, {n} bytes",
                    show(cmd)
                );
                let r = v.read(*lid, 1 << 24, vxi::WAIT, 60_000, 0)?;
                ensure!(r.err == 0, "read after {} failed: error {}", show(cmd), r.err);
                Ok(r.data)
            }
        }
    }

    /// `cmd` must be a query with the standard response, without control characters
    pub fn check_query(&mut self, cmd: &[u8]) -> R {
        let got = self.query(cmd)?;
        let want = std_response(cmd).unwrap_or_default();
        ensure!(got == want, "response to {} {}", show(cmd), diff(&got, &want));
        Ok(())
    }
}

pub fn read_line(s: &mut impl Read, what: &str) -> R<Vec<u8>> {
    let mut v = Vec::new();
    loop {
        let b = net::read_n(s, 1, what).what(format!("after {}", show(&v)))?[0];
        if b == b'\n' {
            return Ok(v);
        }
        v.push(b);
    }
}

/// An abort of an own link without any operation in progress is accepted
pub fn abort_link(w: &World, c: &mut Rpc, lid: u32) -> R {
    let err = w.vx.abort_call(c, lid)?;
    ensure!(err == 0, "device_abort of an existing link answered {err}");
    Ok(())
}
