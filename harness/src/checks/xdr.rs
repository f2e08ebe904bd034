//! C27: values survive encoding and decoding, short data is an error.

use std::net::{Ipv4Addr, TcpListener};
use std::time::Duration;

use async_std::task;
use lxi_device::status::Sender as StatusSender;
use lxi_vxi11::client::portmapper::prelude::{Mapping, PortMapperClient};

use crate::dev::Unit;
use crate::net;
use crate::rt::*;
use crate::vxi::*;

/// Values together with their encoding by RFC 4506, written independently
trait Value: Sized + std::fmt::Debug {
    fn make(rng: &mut Rng) -> Self;
    fn enc(&self, x: &mut Vec<u8>);
    fn same(&self, other: &Self) -> bool;
    fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        self.enc(&mut v);
        v
    }
}

fn edge(rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << rng.below(64),
        4 => (1u64 << rng.below(64)).wrapping_sub(1),
        5 => (1u64 << rng.below(64)).wrapping_neg(),
        _ => rng.next(),
    }
}

macro_rules! word {
    ($($t:ty),*) => {$(
        impl Value for $t {
            fn make(rng: &mut Rng) -> Self {
                edge(rng) as $t
            }
            fn enc(&self, x: &mut Vec<u8>) {
                // Sign extension for the signed ones
                let w = *self as i64 as u32;
                x.extend([(w >> 24) as u8, (w >> 16) as u8, (w >> 8) as u8, w as u8]);
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
word!(i8, i16, i32, u8, u16, u32);

macro_rules! long {
    ($($t:ty),*) => {$(
        impl Value for $t {
            fn make(rng: &mut Rng) -> Self {
                edge(rng) as $t
            }
            fn enc(&self, x: &mut Vec<u8>) {
                for i in (0..8).rev() {
                    x.push((*self >> (8 * i)) as u8);
                }
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
long!(i64, u64);

impl Value for bool {
    fn make(rng: &mut Rng) -> Self {
        rng.chance(1, 2)
    }
    fn enc(&self, x: &mut Vec<u8>) {
        x.extend([0, 0, 0, *self as u8]);
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl Value for f32 {
    fn make(rng: &mut Rng) -> Self {
        match rng.below(6) {
            0 => *rng.pick(&[0.0, -0.0, 1.0, -1.5, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY]),
            1 => f32::from_bits(rng.u32() & 0x807f_ffff),
            _ => f32::from_bits(rng.u32()),
        }
    }
    fn enc(&self, x: &mut Vec<u8>) {
        self.to_bits().enc(x)
    }
    fn same(&self, o: &Self) -> bool {
        (self.is_nan() && o.is_nan()) || self.to_bits() == o.to_bits()
    }
}

impl Value for f64 {
    fn make(rng: &mut Rng) -> Self {
        match rng.below(6) {
            0 => *rng.pick(&[0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY]),
            1 => f64::from_bits(rng.next() & 0x800f_ffff_ffff_ffff),
            _ => f64::from_bits(rng.next()),
        }
    }
    fn enc(&self, x: &mut Vec<u8>) {
        self.to_bits().enc(x)
    }
    fn same(&self, o: &Self) -> bool {
        (self.is_nan() && o.is_nan()) || self.to_bits() == o.to_bits()
    }
}

impl Value for () {
    fn make(_: &mut Rng) -> Self {}
    fn enc(&self, _: &mut Vec<u8>) {}
    fn same(&self, _: &Self) -> bool {
        true
    }
}

fn pad(x: &mut Vec<u8>) {
    while x.len() % 4 != 0 {
        x.push(0);
    }
}

impl Value for String {
    fn make(rng: &mut Rng) -> Self {
        let n = match rng.below(12) {
            0 => rng.below(700),
            _ => rng.below(14),
        };
        (0..n)
            .map(|_| *rng.pick(&['a', 'b', 'Z', '0', ' ', '\0', '\n', 'é', '√', '😀']))
            .collect()
    }
    fn enc(&self, x: &mut Vec<u8>) {
        (self.len() as u32).enc(x);
        x.extend(self.as_bytes());
        // The value itself starts at a multiple of four
        pad(x);
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

impl<T: Value, const N: usize> Value for [T; N] {
    fn make(rng: &mut Rng) -> Self {
        std::array::from_fn(|_| T::make(rng))
    }
    fn enc(&self, x: &mut Vec<u8>) {
        for v in self {
            v.enc(x);
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

impl<T: Value> Value for Vec<T> {
    fn make(rng: &mut Rng) -> Self {
        let n = match rng.below(16) {
            0 => rng.below(80),
            _ => rng.below(6),
        };
        (0..n).map(|_| T::make(rng)).collect()
    }
    fn enc(&self, x: &mut Vec<u8>) {
        (self.len() as u32).enc(x);
        for v in self {
            v.enc(x);
        }
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

impl<T: Value> Value for Option<T> {
    fn make(rng: &mut Rng) -> Self {
        if rng.chance(2, 3) {
            Some(T::make(rng))
        } else {
            None
        }
    }
    fn enc(&self, x: &mut Vec<u8>) {
        self.is_some().enc(x);
        if let Some(v) = self {
            v.enc(x);
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (None, None) => true,
            _ => false,
        }
    }
}

impl Value for Mapping {
    fn make(rng: &mut Rng) -> Self {
        Mapping::new(edge(rng) as u32, edge(rng) as u32, edge(rng) as u32, edge(rng) as u32)
    }
    fn enc(&self, x: &mut Vec<u8>) {
        self.prog.enc(x);
        self.vers.enc(x);
        self.prot.enc(x);
        self.port.enc(x);
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}

/// Lengths at which an encoding of n bytes is cut off
fn cuts(rng: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 24 {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = vec![0, 3, 4, n / 2, n - 5, n - 4, n - 3, n - 2, n - 1];
    for _ in 0..6 {
        v.push(rng.below(n));
    }
    v
}

/// A server which answers each indirect call as told
struct Echo {
    addr: std::net::SocketAddr,
    tx: std::sync::mpsc::Sender<Vec<u8>>,
    rx: std::sync::mpsc::Receiver<Vec<u8>>,
}

fn echo() -> R<Echo> {
    let bad = |e: std::io::Error| Fail::Inconclusive(e.to_string());
    let l = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).map_err(bad)?;
    let addr = l.local_addr().map_err(bad)?;
    // Results to answer with, and calls which were received
    let (tx, results) = std::sync::mpsc::channel::<Vec<u8>>();
    let (calls, rx) = std::sync::mpsc::channel::<Vec<u8>>();
    std::thread::spawn(move || {
        let Ok((mut s, _)) = l.accept() else { return };
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(DEADLINE * 4));
        while let Ok(m) = read_reply(&mut s, "call") {
            if m.len() < 4 || calls.send(m.clone()).is_err() {
                return;
            }
            let Ok(r) = results.recv_timeout(Duration::from_secs(30)) else { return };
            let rep = X::new().raw(&m[..4]).u(1).u(0).u(0).u(0).u(0).u(0x1234).op(&r).0;
            if net::send(&mut s, &record(&rep)).is_err() {
                return;
            }
        }
    });
    Ok(Echo { addr, tx, rx })
}

macro_rules! one_type {
    ($ctx:expr, $rng:expr, $e:expr, $c:expr, $key:expr, $t:ty) => {{
        let v = <$t as Value>::make($rng);
        let arg = <$t as Value>::make($rng);
        let name = stringify!($t);
        let full = v.bytes();
        let want_arg = arg.bytes();
        // The whole result, then results which end early
        let mut list: Vec<Option<usize>> = vec![None];
        list.extend(cuts($rng, full.len()).into_iter().map(Some));
        for cut in list {
            let data = match cut {
                None => full.clone(),
                Some(n) => full[..n].to_vec(),
            };
            let _ = $e.tx.send(data);
            let got: Result<$t, String> = match async_std::future::timeout(
                DEADLINE,
                $c.callit::<$t, $t>(1, 2, 3, arg.clone()),
            )
            .await
            {
                Ok(r) => r.map_err(|e| format!("{e:?}")),
                Err(_) => return late(format!("call with {name} did not return")),
            };
            let m = match $e.rx.recv_timeout(DEADLINE) {
                Ok(m) => m,
                Err(_) => return late(format!("no call with {name} arrived")),
            };
            let head = call_msg(0, 2, PMAP, 2, 5, &[]);
            ensure!(m.len() >= head.len() && m[4..head.len()] == head[4..], "{name}: not the call: {}", show(&m));
            let want = X::new().u(1).u(2).u(3).op(&want_arg).0;
            ensure!(
                m[head.len()..] == want[..],
                "{name}: {:?} was sent as {}",
                arg,
                diff(&m[head.len()..], &want)
            );
            match cut {
                None => match &got {
                    Ok(g) if g.same(&v) => $ctx.count(&format!("{name} whole"), 1),
                    g => return viol(format!("{name}: {} was decoded as {g:?} instead of {v:?}", show(&full))),
                },
                Some(n) => match &got {
                    Err(_) => $ctx.count(&format!("{name} cut off"), 1),
                    Ok(g) => {
                        return viol(format!(
                            "{name}: {n} of the {} bytes of {v:?} were decoded as {g:?}",
                            full.len()
                        ))
                    }
                },
            }
        }
        $key = hash_of(&($key, full, want_arg));
    }};
}


macro_rules! types {
    ($ctx:expr, $rng:expr, $e:expr, $c:expr, $key:expr, $k:expr; $($t:ty),* $(,)?) => {{
        let mut n = 0;
        $( n += 1; let _ = stringify!($t); )*
        let which = $k % n;
        let mut i = 0;
        $(
            if i == which {
                one_type!($ctx, $rng, $e, $c, $key, $t);
            }
            i += 1;
        )*
        let _ = i;
    }};
}

fn values_case(ctx: &Ctx, rng: &mut Rng, idx: u64) -> R {
    let e = echo()?;
    let mut key = 0u64;
    task::block_on(async {
        let mut c = match async_std::future::timeout(DEADLINE, PortMapperClient::connect_tcp(e.addr)).await {
            Ok(Ok(c)) => c,
            x => return inconc(format!("connect: {:?}", x.map(|r| r.map(|_| ())))),
        };
        for j in 0..6 {
            let k = idx as usize * 6 + j;
            types!(ctx, rng, e, c, key, k;
                (), i8, i16, i32, i64, u8, u16, u32, u64, bool, f32, f64, String, Mapping,
                [u32; 0], [u32; 1], [i64; 3], [String; 2], [bool; 5], [i16; 4], [Option<u16>; 3],
                [Vec<u32>; 2], [[f32; 2]; 2],
                Vec<u32>, Vec<i32>, Vec<u64>, Vec<i64>, Vec<bool>, Vec<f32>, Vec<f64>, Vec<String>,
                Vec<Mapping>, Vec<Vec<u32>>, Vec<Vec<String>>, Vec<[i32; 3]>, Vec<Option<u32>>, Vec<i8>, Vec<u16>,
                Option<u32>, Option<u64>, Option<String>, Option<Mapping>, Option<bool>, Option<f64>,
                Option<Vec<u32>>, Option<Option<i32>>, Option<[u16; 2]>, Option<Vec<Option<String>>>,
            );
        }
        Ok(())
    })?;
    ctx.seen("values", key);
    ctx.eval(key, true, || "values through indirect calls".to_string());
    Ok(())
}

// ---------------------------------------------------------------- calls which end early

/// Every procedure of the core server with arguments cut off at every length: no effect, no success
fn core_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let u = Unit::new();
    let srq = StatusSender::new();
    let srv = crate::vxi::start(&[("inst0", &u)], &srq)?;
    let handle = { let n = rng.below(12); rng.bytes(n) };
    let data = { let n = rng.range(1, 11); rng.bytes(n) };
    let calls: Vec<(u32, Box<dyn Fn(u32) -> Vec<u8>>)> = vec![
        (p::CREATE_LINK, Box::new(|_| X::new().u(7).u(0).u(0).op(b"inst0").0)),
        (p::WRITE, Box::new({ let d = data.clone(); move |l| write_args(l, END, 0, &d) })),
        (p::READ, Box::new(|l| read_args(l, 100, 0, 0, 0))),
        (p::READSTB, Box::new(|l| generic(l, 0, 0))),
        (p::TRIGGER, Box::new(|l| generic(l, 0, 0))),
        (p::CLEAR, Box::new(|l| generic(l, 0, 0))),
        (p::REMOTE, Box::new(|l| generic(l, 0, 0))),
        (p::LOCAL, Box::new(|l| generic(l, 0, 0))),
        (p::LOCK, Box::new(|l| X::new().u(l).u(0).u(0).0)),
        (p::UNLOCK, Box::new(|l| X::new().u(l).0)),
        (p::ENABLE_SRQ, Box::new(move |l| X::new().u(l).u(1).op(&handle).0)),
        (p::DESTROY_LINK, Box::new(|l| X::new().u(l).0)),
        (p::CREATE_INTR, Box::new(|_| X::new().u(0x7f00_0001).u(9).u(1).u(1).u(1).0)),
    ];
    let (proc, args) = rng.pick(&calls);
    let full = args(1).len();
    let key = hash_of(&(*proc, full));
    let mut list = cuts(rng, full);
    list.sort();
    list.dedup();
    for n in list {
        let mut v = Vxi::connect(srv.core)?;
        let lid = v.link("inst0")?;
        let a = args(lid);
        let before = u.log.effects_since(0).len();
        let m = call_msg(77, 2, CORE, 1, *proc, &a[..n]);
        net::send(&mut v.rpc.s, &record(&m))?;
        let _ = v.rpc.s.shutdown(std::net::Shutdown::Write);
        let rest = net::read_all(&mut v.rpc.s, "after a call which ends early")?;
        if !rest.is_empty() {
            let rec = read_record(&mut &rest[..], "reply to a call which ends early")?;
            let (_, r) = parse_reply(&rec, "reply to a call which ends early")?;
            ensure!(
                r == Reply::GarbageArgs,
                "procedure {proc} with {n} of {full} bytes of arguments was answered with {r:?}"
            );
        }
        let after = u.log.effects_since(0);
        ensure!(
            after.len() == before,
            "procedure {proc} with {n} of {full} bytes of arguments had an effect: {:?}",
            &after[before..]
        );
        ctx.count(&format!("procedure {proc} cut off"), 1);
    }
    ctx.eval(key, true, || format!("procedure {proc} with arguments cut off"));
    Ok(())
}

// ---------------------------------------------------------------- private structures

#[cfg(lxi_verif_xdr)]
mod private {
    use super::*;

    fn w(rng: &mut Rng) -> u32 {
        edge(rng) as u32
    }
    fn op(rng: &mut Rng) -> Vec<u8> {
        let n = if rng.chance(1, 20) { rng.below(3000) } else { rng.below(20) };
        X::new().op(&rng.bytes(n)).0
    }
    fn text(rng: &mut Rng) -> Vec<u8> {
        String::make(rng).bytes()
    }
    fn fixed(rng: &mut Rng, n: usize) -> Vec<u8> {
        let mut v = rng.bytes(n);
        pad(&mut v);
        v
    }
    fn err(rng: &mut Rng) -> u32 {
        match rng.below(3) {
            0 => w(rng),
            _ => *rng.pick(&[0, 1, 3, 4, 5, 6, 8, 9, 11, 12, 15, 17, 21, 23, 29]),
        }
    }
    fn auth(rng: &mut Rng) -> Vec<u8> {
        let f = rng.below(8) as u32;
        X::new().u(f).raw(&op(rng)).0
    }
    fn rpc(rng: &mut Rng) -> Vec<u8> {
        let x = X::new().u(w(rng));
        let v = auth(rng);
        let x = match rng.below(9) {
            0 | 1 => {
                let (c, v) = (auth(rng), auth(rng));
                x.u(0).u(w(rng)).u(w(rng)).u(w(rng)).u(w(rng)).raw(&c).raw(&v)
            }
            2 => x.u(1).u(1).u(0).u(w(rng)).u(w(rng)),
            3 => x.u(1).u(1).u(1).u(rng.below(8) as u32),
            4 => x.u(1).u(0).raw(&v).u(2).u(w(rng)).u(w(rng)),
            _ => x.u(1).u(0).raw(&v).u(*rng.pick(&[0, 1, 3, 4, 5])),
        };
        x.0
    }

    fn example(name: &str, rng: &mut Rng) -> Option<Vec<u8>> {
        let b = |rng: &mut Rng| rng.below(2) as u32;
        // Flags which mean something
        let fl = |rng: &mut Rng| w(rng) & 0x89;
        let x = X::new();
        Some(match name {
            "opaque" | "srq_parms" => op(rng),
            "opaque[0]" => fixed(rng, 0),
            "opaque[1]" => fixed(rng, 1),
            "opaque[2]" => fixed(rng, 2),
            "opaque[3]" => fixed(rng, 3),
            "opaque[4]" => fixed(rng, 4),
            "opaque[5]" => fixed(rng, 5),
            "opaque[19]" => fixed(rng, 19),
            "opaque[33]" => fixed(rng, 33),
            "rpc" => rpc(rng),
            "mapping" => x.u(w(rng)).u(w(rng)).u(w(rng)).u(w(rng)).0,
            "generic_parms" => x.u(w(rng)).u(fl(rng)).u(w(rng)).u(w(rng)).0,
            "callit" => x.u(w(rng)).u(w(rng)).u(w(rng)).raw(&op(rng)).0,
            "call_result" => x.u(w(rng)).raw(&op(rng)).0,
            "flags" => x.u(fl(rng)).0,
            "addr_family" => x.u(b(rng)).0,
            "error" => x.u(err(rng)).0,
            "create_link_parms" => x.u(w(rng)).u(b(rng)).u(w(rng)).raw(&text(rng)).0,
            "create_link_resp" => x.u(err(rng)).u(w(rng)).u(w(rng) & 0xffff).u(w(rng)).0,
            "write_parms" => x.u(w(rng)).u(w(rng)).u(w(rng)).u(fl(rng)).raw(&op(rng)).0,
            "write_resp" => x.u(err(rng)).u(w(rng)).0,
            "read_parms" => x.u(w(rng)).u(w(rng)).u(w(rng)).u(w(rng)).u(fl(rng)).u(w(rng) & 0xff).0,
            "read_resp" => x.u(err(rng)).u(w(rng)).raw(&op(rng)).0,
            "read_stb_resp" => x.u(err(rng)).u(w(rng) & 0xff).0,
            "remote_func" => x.u(w(rng)).u(w(rng) & 0xffff).u(w(rng)).u(w(rng)).u(b(rng)).0,
            "enable_srq_parms" => x.u(w(rng)).u(b(rng)).raw(&op(rng)).0,
            "lock_parms" => x.u(w(rng)).u(fl(rng)).u(w(rng)).0,
            "docmd_parms" => x
                .u(w(rng))
                .u(fl(rng))
                .u(w(rng))
                .u(w(rng))
                .u(w(rng))
                .u(b(rng))
                .u(w(rng))
                .raw(&op(rng))
                .0,
            "docmd_resp" => x.u(err(rng)).raw(&op(rng)).0,
            _ => return None,
        })
    }

    pub fn case(ctx: &Ctx, rng: &mut Rng, idx: u64) -> R {
        let names = lxi_vxi11::verif::TYPES;
        let name = names[idx as usize % names.len()];
        let Some(v) = example(name, rng) else { return Ok(()) };
        // What follows belongs to somebody else
        let extra = rng.below(9);
        let mut data = v.clone();
        data.extend(rng.bytes(extra));
        match lxi_vxi11::verif::recode(name, &data) {
            Ok((out, n)) => {
                ensure!(
                    n == v.len(),
                    "{name}: decoding {} took {n} bytes instead of {}",
                    show(&v),
                    v.len()
                );
                ensure!(out == v, "{name}: {} was encoded again as {}", show(&v), diff(&out, &v));
            }
            Err(e) => return viol(format!("{name}: decoding {} failed: {e}", show(&v))),
        }
        for n in cuts(rng, v.len()) {
            if let Ok((out, _)) = lxi_vxi11::verif::recode(name, &v[..n]) {
                return viol(format!(
                    "{name}: {n} of the {} bytes of {} were decoded, as {}",
                    v.len(),
                    show(&v),
                    show(&out)
                ));
            }
            ctx.count("private structures cut off", 1);
        }
        ctx.count(&format!("structure {name}"), 1);
        ctx.eval(hash_of(&(name, &v)), true, || format!("{name} {}", show(&v)));
        Ok(())
    }
}

pub fn c27(ctx: &Ctx) {
    ctx.rule(
        "values: for 48 types (integers of all widths, booleans, floats, strings, fixed and variable arrays, \
         options, mappings and nestings) random and extreme values go through indirect calls of the \
         portmapper client; the bytes received by the scripted server are compared with an independent \
         RFC 4506 encoder, the decoded result with the value, and results cut off at every length (sampled \
         above 24 bytes) must be errors. core: every VXI-11 core procedure with arguments cut off must \
         neither succeed nor have an effect. private: every structure of the RPC, portmapper and VXI-11 \
         protocols is decoded from independently encoded bytes and encoded again (hook lxi_verif_xdr). \
         Distinct by values.",
    );
    ctx.cases_par("values", ctx.n(5000, 100_000), ctx.n(14, 400) as u64, 8, |rng, i| values_case(ctx, rng, i));
    ctx.cases_par("core", ctx.n(400, 4000), ctx.n(8, 120) as u64, 4, |rng, _| core_case(ctx, rng));
    #[cfg(lxi_verif_xdr)]
    ctx.cases("private", ctx.n(20_000, 1_000_000), ctx.n(6, 120) as u64, |rng, i| private::case(ctx, rng, i));
    #[cfg(not(lxi_verif_xdr))]
    ctx.count("private structures not reachable, hook did not build", 1);
}
