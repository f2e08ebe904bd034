//! C08: telnet.

use std::io::Read;
use std::time::{Duration, Instant};

use lxi_telnet::server::ServerConfig;

use crate::dev::{Ev, Unit};
use crate::exec::{Exec, Pipe};
use crate::net;
use crate::rt::*;

const IAC: u8 = 255;
const DONT: u8 = 254;
const DO: u8 = 253;
const WONT: u8 = 252;
const WILL: u8 = 251;
const GA: u8 = 249;
const EC: u8 = 247;
const EL: u8 = 248;
const ECHO: u8 = 1;
const SGA: u8 = 3;
const BINARY: u8 = 0;

pub const PROMPT: &[u8] = b"SCPI> ";

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Tok {
    Data(u8),
    Neg(u8, u8),
    Cmd(u8),
}

/// Split telnet output into tokens; a cut off sequence at the end is left out
pub fn tokens(out: &[u8]) -> Vec<Tok> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < out.len() {
        if out[i] != IAC {
            v.push(Tok::Data(out[i]));
            i += 1;
            continue;
        }
        match out.get(i + 1) {
            None => break,
            Some(&IAC) => {
                v.push(Tok::Data(IAC));
                i += 2;
            }
            Some(&c) if (WILL..=DONT).contains(&c) => {
                let Some(&o) = out.get(i + 2) else { break };
                v.push(Tok::Neg(c, o));
                i += 3;
            }
            Some(&c) => {
                v.push(Tok::Cmd(c));
                i += 2;
            }
        }
    }
    v
}

/// What remains without prompts and go-aheads
#[derive(Default)]
struct Seen {
    data: Vec<u8>,
    negs: Vec<(u8, u8)>,
    prompts: u64,
    /// Output ends in a prompt
    at_prompt: bool,
    starts_with_prompt: bool,
}

fn analyse(out: &[u8], what: &str) -> R<Seen> {
    let toks = tokens(out);
    let mut s = Seen::default();
    let mut sga = false;
    let mut i = 0;
    let mut first = true;
    while i < toks.len() {
        let is_prompt = toks.len() - i >= PROMPT.len()
            && PROMPT.iter().enumerate().all(|(k, b)| toks[i + k] == Tok::Data(*b));
        if is_prompt {
            i += PROMPT.len();
            let ga = toks.get(i) == Some(&Tok::Cmd(GA));
            if ga {
                i += 1;
            }
            // The very last prompt may still miss its go ahead
            if i < toks.len() || ga {
                ensure!(
                    ga != sga,
                    "{what}: prompt {} go-ahead while suppress-go-ahead is {} in force; output {}",
                    if ga { "with" } else { "without" },
                    if sga { "" } else { "not" },
                    show(out)
                );
            }
            s.prompts += 1;
            s.at_prompt = true;
            if first {
                s.starts_with_prompt = true;
            }
            first = false;
            continue;
        }
        first = false;
        s.at_prompt = false;
        match &toks[i] {
            Tok::Data(b) => s.data.push(*b),
            Tok::Neg(c, o) => {
                s.negs.push((*c, *o));
                if *o == SGA {
                    match *c {
                        WILL => sga = true,
                        WONT => sga = false,
                        _ => {}
                    }
                }
            }
            Tok::Cmd(c) => {
                return viol(format!(
                    "{what}: telnet command {c} outside of a prompt in the output {}",
                    show(out)
                ))
            }
        }
        i += 1;
    }
    Ok(s)
}

/// Is c made by merging a and b?
fn merges(a: &[u8], b: &[u8], c: &[u8]) -> bool {
    if a.len() + b.len() != c.len() {
        return false;
    }
    let mut row = vec![false; b.len() + 1];
    row[0] = true;
    for j in 1..=b.len() {
        row[j] = row[j - 1] && b[j - 1] == c[j - 1];
    }
    for i in 1..=a.len() {
        row[0] = row[0] && a[i - 1] == c[i - 1];
        for j in 1..=b.len() {
            row[j] = (row[j] && a[i - 1] == c[i + j - 1]) || (row[j - 1] && b[j - 1] == c[i + j - 1]);
        }
    }
    row[b.len()]
}

/// Reference model of one session
#[derive(Default, Clone)]
struct Model {
    echo: bool,
    sga: bool,
    binary: bool,
    line: Vec<u8>,
    execs: Vec<Vec<u8>>,
    /// Data expected back in the natural order
    data: Vec<u8>,
    echoed: Vec<u8>,
    resp: Vec<u8>,
    /// Answers to negotiations, and whether they must be given
    negs: Vec<((u8, u8), bool)>,
    salt: u64,
}

fn respond(cmd: &[u8], salt: u64) -> Option<Vec<u8>> {
    let mut v = crate::checks::raw::random_response(cmd, salt)?;
    v.truncate(600);
    // The prompt must stay recognisable
    for b in v.iter_mut() {
        if *b == b'>' {
            *b = IAC;
        }
    }
    Some(v)
}

impl Model {
    fn local(&mut self, o: u8) -> Option<&mut bool> {
        match o {
            ECHO => Some(&mut self.echo),
            SGA => Some(&mut self.sga),
            BINARY => Some(&mut self.binary),
            _ => None,
        }
    }
    fn byte(&mut self, b: u8) {
        if self.echo {
            self.data.push(b);
            self.echoed.push(b);
        }
        if b == b'\n' {
            if self.line.last() == Some(&b'\r') {
                self.line.pop();
            }
            let l = std::mem::take(&mut self.line);
            if let Some(r) = respond(&l, self.salt) {
                for o in [&mut self.data, &mut self.resp] {
                    o.extend_from_slice(&r);
                    o.extend_from_slice(b"\r\n");
                }
            }
            self.execs.push(l);
        } else {
            self.line.push(b);
        }
    }
    fn neg(&mut self, c: u8, o: u8) {
        match c {
            DO => match self.local(o) {
                Some(s) if !*s => {
                    *s = true;
                    self.negs.push(((WILL, o), true));
                }
                Some(_) => self.negs.push(((WILL, o), false)),
                None => self.negs.push(((WONT, o), true)),
            },
            DONT => match self.local(o) {
                Some(s) if *s => {
                    *s = false;
                    self.negs.push(((WONT, o), true));
                }
                _ => self.negs.push(((WONT, o), false)),
            },
            WILL if [ECHO, SGA, BINARY].contains(&o) => {
                // Offering these the other way round: either answer
                self.negs.push(((DO, o), false));
                self.negs.push(((DONT, o), false));
            }
            WILL => self.negs.push(((DONT, o), true)),
            _ => self.negs.push(((DONT, o), false)),
        }
    }
    fn check(&self, out: &[u8], complete: bool, what: &str) -> R<Seen> {
        let s = analyse(out, what)?;
        ensure!(
            s.starts_with_prompt || out.len() < PROMPT.len(),
            "{what}: output does not start with the prompt: {}",
            show(out)
        );
        // Answers to negotiations in order, optional ones may be missing
        let mut at = vec![false; self.negs.len() + 1];
        at[0] = true;
        let skip = |at: &mut Vec<bool>| {
            for k in 0..self.negs.len() {
                if at[k] && !self.negs[k].1 {
                    at[k + 1] = true;
                }
            }
        };
        skip(&mut at);
        for n in &s.negs {
            let mut next = vec![false; at.len()];
            for k in 0..self.negs.len() {
                next[k + 1] = at[k] && self.negs[k].0 == *n;
            }
            skip(&mut next);
            at = next;
        }
        ensure!(
            at.iter().any(|x| *x),
            "{what}: negotiations answered with {:?}, expected {:?} (those with false may be missing)",
            s.negs,
            self.negs
        );
        if !complete {
            return Ok(s);
        }
        ensure!(
            at[self.negs.len()],
            "{what}: negotiation not answered: got {:?}, expected {:?} (those with false may be missing)",
            s.negs,
            self.negs
        );
        if s.data != self.data {
            let small = self.echoed.len() * self.resp.len() < 8_000_000;
            ensure!(
                small && merges(&self.echoed, &self.resp, &s.data),
                "{what}: echo ({}) and responses in the output: {}",
                self.echo,
                diff(&s.data, &self.data)
            );
        }
        Ok(s)
    }
}

fn line(rng: &mut Rng, allow_gt: bool) -> Vec<u8> {
    let n = match rng.below(5) {
        0 => 0,
        1 | 2 => rng.below(12),
        3 => rng.below(60),
        _ => rng.below(300),
    };
    let style = rng.below(3);
    let mut v: Vec<u8> = (0..n)
        .map(|_| match style {
            0 => rng.below(255) as u8,
            1 => rng.range(32, 126) as u8,
            _ => *rng.pick(&[b'\r', 0, b' ', b'?', b'A', 0xfe, 0xf0, 0xf9, b'\x08']),
        })
        .map(|b| if b == b'>' && !allow_gt { b'<' } else { b })
        .collect();
    match rng.below(3) {
        0 => v.push(b'\n'),
        1 => v.extend_from_slice(b"\r\n"),
        _ => v.extend_from_slice(b"\n"),
    }
    v
}

fn rand_neg(rng: &mut Rng) -> (u8, u8) {
    let o = match rng.below(4) {
        0 => ECHO,
        1 => SGA,
        2 => *rng.pick(&[BINARY, ECHO, SGA]),
        // No 240 or 255: not options
        _ => *rng.pick(&[2u8, 5, 6, 24, 31, 34, 39, 70, 86, 99, 200]),
    };
    (*rng.pick(&[DO, DO, DO, DONT, WILL, WONT]), o)
}

fn pipe_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let salt = rng.next() % 3;
    let u = Unit::new();
    u.log.set_responder(move |c| respond(c, salt));
    let p = Pipe::new();
    if rng.chance(1, 3) {
        p.0.borrow_mut().max_write = rng.range(1, 10);
    }
    let slow = rng.chance(1, 5);
    if slow {
        p.0.borrow_mut().credit = rng.below(60);
    }
    let mut ex = Exec::new();
    let srv = if rng.chance(1, 2) {
        ServerConfig::default().build()
    } else {
        ServerConfig::new(rng.range(1, 100)).build()
    };
    let (lock, dev) = (u.lock.clone(), u.dev.clone());
    let io = p.clone();
    let task = ex.spawn(async move {
        let _ = srv.process_client(io, lock, dev, "peer").await;
    });
    let mut m = Model { salt, ..Default::default() };
    let steps = rng.range(2, 25);
    let mut trace: Vec<Vec<u8>> = Vec::new();
    let mut negs = 0u64;
    let mut edits = 0u64;
    for _ in 0..steps {
        let what = |t: &Vec<Vec<u8>>| {
            let tail: Vec<String> = t.iter().rev().take(6).rev().map(|s| show(s)).collect();
            format!("after segments ..{tail:?}")
        };
        match rng.below(10) {
            0 | 1 => {
                // A segment of negotiations, possibly with data behind them
                let mut seg = Vec::new();
                for _ in 0..rng.range(1, 4) {
                    let (c, o) = rand_neg(rng);
                    m.neg(c, o);
                    seg.extend_from_slice(&[IAC, c, o]);
                    negs += 1;
                }
                if rng.chance(1, 4) {
                    // Sub-negotiations are skipped
                    let o = *rng.pick(&[24u8, 31, 39]);
                    seg.extend_from_slice(&[IAC, 250, o]);
                    let n = rng.below(8);
                    seg.extend((0..n).map(|_| rng.below(200) as u8));
                    seg.extend_from_slice(&[IAC, 240]);
                }
                if rng.chance(1, 3) {
                    let mut l = line(rng, !m.echo);
                    l.truncate(60);
                    for &b in &l {
                        m.byte(b);
                    }
                    seg.extend_from_slice(&l);
                }
                trace.push(seg.clone());
                p.feed(&seg);
            }
            2 => {
                // Editing of the pending line, at the end of what arrives together
                let mut l = line(rng, !m.echo);
                l.truncate(60);
                if rng.chance(2, 3) {
                    l.retain(|b| *b != b'\n');
                }
                for &b in &l {
                    m.byte(b);
                }
                let mut seg = l;
                if rng.chance(3, 4) {
                    seg.extend_from_slice(&[IAC, EC]);
                    m.line.pop();
                } else {
                    seg.extend_from_slice(&[IAC, EL]);
                    m.line.clear();
                }
                edits += 1;
                trace.push(seg.clone());
                p.feed(&seg);
                // The next segment must not join it
                if !slow {
                    ensure!(ex.settle(rng, 200_000), "{}: the server spins", what(&trace));
                }
            }
            3 if rng.chance(1, 2) => {
                // Commands without meaning here, handled as a pair by every parser
                let seg = vec![IAC, *rng.pick(&[241u8, 249])];
                trace.push(seg.clone());
                p.feed(&seg);
            }
            _ => {
                let mut d = Vec::new();
                for _ in 0..rng.range(1, 4) {
                    d.extend(line(rng, !m.echo));
                }
                if rng.chance(1, 4) {
                    d.truncate(rng.below(d.len() + 1));
                }
                for &b in &d {
                    m.byte(b);
                }
                let segs = if rng.chance(1, 3) {
                    d.iter().map(|b| vec![*b]).collect()
                } else {
                    rng.split(&d, 8)
                };
                for s in segs {
                    p.feed(&s);
                    trace.push(s);
                    if rng.chance(1, 3) {
                        ensure!(ex.settle(rng, 200_000), "{}: the server spins", what(&trace));
                    }
                }
            }
        }
        if slow {
            p.add_credit(rng.below(800));
            ensure!(ex.settle(rng, 500_000), "{}: the server spins", what(&trace));
            m.check(&p.out(), false, &what(&trace))?;
        } else if rng.chance(2, 3) {
            ensure!(ex.settle(rng, 500_000), "{}: the server spins", what(&trace));
            let w = what(&trace);
            let execs = u.log.execs();
            ensure!(
                execs == m.execs,
                "{w}: device executed {:?}, terminated lines are {:?}",
                execs.iter().rev().take(4).map(|c| show(c)).collect::<Vec<_>>(),
                m.execs.iter().rev().take(4).map(|c| show(c)).collect::<Vec<_>>()
            );
            let s = m.check(&p.out(), true, &w)?;
            ensure!(
                s.at_prompt || !m.line.is_empty(),
                "{w}: no prompt before the next input; output ends {}",
                show(&p.out()[p.out().len().saturating_sub(30)..])
            );
        }
    }
    let w = format!("session {:?}", trace.iter().map(|s| show(s)).collect::<Vec<_>>());
    if slow {
        p.add_credit(usize::MAX);
        p.0.borrow_mut().credit = usize::MAX;
    }
    p.close();
    ensure!(ex.settle(rng, 3_000_000), "the server spins; {w}");
    let execs = u.log.execs();
    ensure!(
        execs == m.execs,
        "{} commands executed, {} lines terminated; {w}",
        execs.len(),
        m.execs.len()
    );
    m.check(&p.out(), true, &w)?;
    ensure!(!ex.alive(task), "session does not end although the client closed; {w}");
    ensure!(u.lock_state() == (false, 0), "a lock is left; {w}");
    ensure!(
        u.log.all().iter().all(|e| matches!(e, Ev::Exec(_))),
        "the device was operated in other ways than executing commands"
    );
    ctx.count("commands executed (pipe)", m.execs.len() as u64);
    ctx.count("bytes echoed (pipe)", m.echoed.len() as u64);
    ctx.count("negotiations (pipe)", negs);
    ctx.count("line edits (pipe)", edits);
    ctx.eval(hash_of(&trace), m.execs.len() > 1 && negs > 0, || w.clone());
    Ok(())
}

fn tcp_case(ctx: &Ctx, rng: &mut Rng) -> R {
    let salt = rng.next() % 3;
    let u = Unit::new();
    u.log.set_responder(move |c| respond(c, salt));
    let srv = net::start_telnet(&u, 10)?;
    let mut s = net::connect(srv.addr)?;
    let mut m = Model { salt, ..Default::default() };
    let mut out = Vec::new();
    let mut trace = Vec::new();
    // The prompt comes before any input
    let t0 = Instant::now();
    while out.len() < PROMPT.len() + 2 && t0.elapsed() < DEADLINE {
        let mut b = [0u8; 64];
        match s.read(&mut b) {
            Ok(0) => return viol("connection closed by the server"),
            Ok(n) => out.extend_from_slice(&b[..n]),
            Err(_) => {}
        }
    }
    ensure!(
        out == [PROMPT, &[IAC, GA]].concat(),
        "a new client is greeted with {} instead of the prompt and go-ahead",
        show(&out)
    );
    for _ in 0..rng.range(2, 8) {
        // Negotiate and wait for the answers
        if rng.chance(1, 2) {
            for _ in 0..rng.range(1, 3) {
                let (c, o) = rand_neg(rng);
                let was = m.negs.len();
                m.neg(c, o);
                trace.push(format!("{c} {o}"));
                net::send(&mut s, &[IAC, c, o])?;
                // Without an answer something else must show that it was processed
                let must = m.negs[was..].iter().any(|x| x.1);
                if !must {
                    std::thread::sleep(Duration::from_millis(3));
                    net::send(&mut s, &[IAC, DO, 99])?;
                    m.neg(DO, 99);
                }
                let want = m.negs.iter().filter(|x| x.1).count();
                let t0 = Instant::now();
                loop {
                    let negs = tokens(&out).iter().filter(|t| matches!(t, Tok::Neg(..))).count();
                    if negs >= want && tokens(&out).iter().rev().any(|t| matches!(t, Tok::Neg(_, x) if *x == if must { o } else { 99 })) {
                        break;
                    }
                    if t0.elapsed() > DEADLINE {
                        return late(format!("negotiation {c} {o} is not answered"));
                    }
                    let mut b = [0u8; 256];
                    match s.read(&mut b) {
                        Ok(0) => return viol("connection closed by the server"),
                        Ok(n) => out.extend_from_slice(&b[..n]),
                        Err(_) => {}
                    }
                }
            }
        }
        let mut d = Vec::new();
        for _ in 0..rng.range(1, 5) {
            d.extend(line(rng, !m.echo));
        }
        let before = m.execs.len();
        for &b in &d {
            m.byte(b);
        }
        trace.push(show(&d));
        for seg in rng.split(&d, 6) {
            net::send(&mut s, &seg)?;
            if rng.chance(1, 4) {
                std::thread::sleep(Duration::from_micros(rng.below(2000) as u64));
            }
        }
        // Everything comes back before the next negotiation
        let t0 = Instant::now();
        loop {
            let n = analyse(&out, &format!("{trace:?}"))?.data.len();
            if n >= m.data.len() && u.log.len() >= m.execs.len() {
                break;
            }
            if t0.elapsed() > DEADLINE {
                return late(format!(
                    "{trace:?}: only {n} of {} bytes of echo and responses came back, {} of {} lines executed",
                    m.data.len(),
                    u.log.len(),
                    m.execs.len()
                ));
            }
            let _ = s.set_read_timeout(Some(Duration::from_millis(20)));
            let mut b = [0u8; 8192];
            match s.read(&mut b) {
                Ok(0) => return viol("connection closed by the server"),
                Ok(n) => out.extend_from_slice(&b[..n]),
                Err(_) => {}
            }
        }
        let _ = before;
    }
    // An unterminated line, then the client closes its side
    if rng.chance(1, 2) {
        net::send(&mut s, b"NEVER EXECUTED?")?;
        for &b in b"NEVER EXECUTED?" {
            m.byte(b);
        }
    }
    let _ = s.shutdown(std::net::Shutdown::Write);
    let _ = s.set_read_timeout(Some(DEADLINE));
    out.extend(net::read_all(&mut s, "closing telnet session")?);
    let w = format!("{trace:?}");
    let execs = u.log.execs();
    ensure!(
        execs == m.execs,
        "{w}: device executed {:?}, terminated lines are {:?}",
        execs.iter().map(|c| show(c)).collect::<Vec<_>>(),
        m.execs.iter().map(|c| show(c)).collect::<Vec<_>>()
    );
    m.check(&out, true, &w)?;
    ctx.count("commands executed (tcp)", m.execs.len() as u64);
    ctx.count("bytes echoed (tcp)", m.echoed.len() as u64);
    ctx.eval(hash_of(&trace), m.execs.len() > 1, || w.clone());
    Ok(())
}

/// Feed segments to a session: commands executed and output
fn probe(segs: &[&[u8]]) -> R<(Vec<Vec<u8>>, Vec<u8>)> {
    let u = Unit::new();
    u.log.set_responder(|_| None);
    let p = Pipe::new();
    let mut ex = Exec::new();
    let srv = ServerConfig::default().build();
    let (lock, dev, io) = (u.lock.clone(), u.dev.clone(), p.clone());
    ex.spawn(async move {
        let _ = srv.process_client(io, lock, dev, "peer").await;
    });
    let mut r = Rng::new(1);
    for s in segs {
        p.feed(s);
        ensure!(ex.settle(&mut r, 100_000), "the server spins");
    }
    Ok((u.log.execs(), p.out()))
}

/// Defects of the telnet parser the server depends on, each shown by its own input
fn known(ctx: &Ctx, idx: u64) -> R {
    let (key, segs, want): (&str, Vec<&[u8]>, Vec<u8>) = match idx {
        0 => ("iac-split", vec![b"\xff\xfd", b"\x03", b"AB\n"], b"AB".to_vec()),
        1 => ("escaped-iac", vec![b"A\xff\xffB\n"], b"A\xffB".to_vec()),
        _ => ("erase-mid-read", vec![b"AB\xff\xf7CD\n"], b"ACD".to_vec()),
    };
    let (execs, _) = probe(&segs)?;
    ctx.eval(idx, true, || format!("{key}: {segs:?}"));
    if execs != [want.clone()] {
        ctx.finding(
            key,
            &format!(
                "segments {:?}: executed {:?} instead of {}",
                segs.iter().map(|s| show(s)).collect::<Vec<_>>(),
                execs.iter().map(|s| show(s)).collect::<Vec<_>>(),
                show(&want)
            ),
        )?;
    }
    Ok(())
}

pub fn c08(ctx: &Ctx) {
    ctx.rule("random sessions of lines, negotiations and line edits in random segments and flow control, output taken apart independently and compared with a session model at quiescent points (in-memory pipe) and over TCP. Non-trivial: at least two commands and (pipe) a negotiation");
    ctx.cases("known", 3, 20, |_, i| known(ctx, i));
    ctx.cases_par("pipe", ctx.n(10_000, 300_000), ctx.n(20, 240) as u64, 6, |r, _| pipe_case(ctx, r));
    ctx.cases_par("tcp", ctx.n(200, 4000), ctx.n(15, 200) as u64, 4, |r, _| tcp_case(ctx, r));
    ctx.cases("long", 1, 60, |_, _| super::long::telnet(ctx));
    ctx.cases("big", 1, 60, |_, _| super::long::big(ctx, "telnet"));
}
