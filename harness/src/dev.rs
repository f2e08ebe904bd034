//! A device which records everything that reaches it.

use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use lxi_device::lock::SharedLock;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ev {
    Exec(Vec<u8>),
    Trigger(String),
    Clear,
    Remote(bool),
    Lockout(bool),
    Status,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Err3 {
    NotSupported,
    IoTimeout,
    IoError,
}

impl Err3 {
    fn get(self) -> DeviceError {
        match self {
            Err3::NotSupported => DeviceError::NotSupported,
            Err3::IoTimeout => DeviceError::IoTimeout,
            Err3::IoError => DeviceError::IoError,
        }
    }
}

#[derive(Debug, Clone)]
pub struct Rec {
    pub ev: Ev,
    pub at: Instant,
}

type Responder = Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + Send + Sync>;

/// Shared view of a device
pub struct DevLog {
    log: Mutex<Vec<Rec>>,
    pub status: AtomicU8,
    pub fail_with: Mutex<Option<Err3>>,
    respond: Mutex<Arc<Responder>>,
    /// Microseconds each execution takes
    pub exec_us: AtomicU64,
}

/// The response every recording device gives by default:
/// nothing without a '?', otherwise "R:" and the command, or `n` bytes for "LEN<n>:<tag>?"
pub fn std_response(cmd: &[u8]) -> Option<Vec<u8>> {
    if !cmd.contains(&b'?') {
        return None;
    }
    if cmd.starts_with(b"EMPTY") {
        return Some(Vec::new());
    }
    if let Some(rest) = cmd.strip_prefix(b"LEN") {
        if let Some(p) = rest.iter().position(|&c| c == b':') {
            if let Ok(n) = std::str::from_utf8(&rest[..p]).unwrap_or("").parse::<usize>() {
                let mut r = crate::rt::Rng::new(crate::rt::hash_of(cmd));
                return Some(r.bytes(n));
            }
        }
    }
    let mut v = b"R:".to_vec();
    v.extend_from_slice(cmd);
    Some(v)
}

impl DevLog {
    pub fn new() -> Arc<Self> {
        Arc::new(DevLog {
            log: Mutex::new(Vec::new()),
            status: AtomicU8::new(0),
            fail_with: Mutex::new(None),
            respond: Mutex::new(Arc::new(Box::new(std_response))),
            exec_us: AtomicU64::new(0),
        })
    }
    pub fn set_responder(&self, f: impl Fn(&[u8]) -> Option<Vec<u8>> + Send + Sync + 'static) {
        *self.respond.lock().unwrap() = Arc::new(Box::new(f));
    }
    pub fn push(&self, ev: Ev) {
        self.log.lock().unwrap().push(Rec {
            ev,
            at: Instant::now(),
        });
    }
    pub fn all(&self) -> Vec<Ev> {
        self.log.lock().unwrap().iter().map(|r| r.ev.clone()).collect()
    }
    pub fn recs(&self) -> Vec<Rec> {
        self.log.lock().unwrap().clone()
    }
    pub fn len(&self) -> usize {
        self.log.lock().unwrap().len()
    }
    pub fn since(&self, n: usize) -> Vec<Ev> {
        self.log.lock().unwrap()[n..].iter().map(|r| r.ev.clone()).collect()
    }
    /// Everything but status reads
    pub fn effects_since(&self, n: usize) -> Vec<Ev> {
        self.since(n).into_iter().filter(|e| *e != Ev::Status).collect()
    }
    pub fn execs(&self) -> Vec<Vec<u8>> {
        self.all()
            .into_iter()
            .filter_map(|e| if let Ev::Exec(c) = e { Some(c) } else { None })
            .collect()
    }
    pub fn clear_log(&self) {
        self.log.lock().unwrap().clear()
    }
    /// Forget everything, and its memory
    pub fn drop_log(&self) {
        *self.log.lock().unwrap() = Vec::new();
    }
    pub fn set_status(&self, s: u8) {
        self.status.store(s, Ordering::SeqCst)
    }
    pub fn set_fail(&self, e: Option<Err3>) {
        *self.fail_with.lock().unwrap() = e
    }
    /// Wait until a condition on the log holds
    pub fn wait(&self, d: Duration, f: impl Fn(&[Rec]) -> bool) -> bool {
        let t = Instant::now();
        loop {
            if f(&self.log.lock().unwrap()) {
                return true;
            }
            if t.elapsed() > d {
                return false;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    pub fn wait_exec(&self, d: Duration, cmd: &[u8]) -> bool {
        self.wait(d, |l| l.iter().any(|r| matches!(&r.ev, Ev::Exec(c) if c == cmd)))
    }
    pub fn has_exec(&self, cmd: &[u8]) -> bool {
        self.log
            .lock()
            .unwrap()
            .iter()
            .any(|r| matches!(&r.ev, Ev::Exec(c) if c == cmd))
    }
}

pub struct RecDev(pub Arc<DevLog>);

impl RecDev {
    fn res(&self) -> Result<(), DeviceError> {
        match *self.0.fail_with.lock().unwrap() {
            Some(e) => Err(e.get()),
            None => Ok(()),
        }
    }
}

impl Device for RecDev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        self.0.push(Ev::Exec(cmd.to_vec()));
        let us = self.0.exec_us.load(Ordering::Relaxed);
        if us > 0 {
            std::thread::sleep(Duration::from_micros(us));
        }
        let f = self.0.respond.lock().unwrap().clone();
        f(cmd)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        self.0.push(Ev::Status);
        self.res()?;
        Ok(self.0.status.load(Ordering::SeqCst))
    }
    fn trigger(&mut self, source: Source) -> Result<(), DeviceError> {
        self.0.push(Ev::Trigger(format!("{source:?}")));
        self.res()
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        self.0.push(Ev::Clear);
        self.res()
    }
    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        self.0.push(Ev::Remote(remote));
        self.res()
    }
    fn set_local_lockout(&mut self, enable: bool) {
        self.0.push(Ev::Lockout(enable));
    }
}

pub type ADev = Arc<futures::lock::Mutex<RecDev>>;
pub type ALock = Arc<lxi_device::lock::SpinMutex<SharedLock>>;

/// A recording device together with its lock
#[derive(Clone)]
pub struct Unit {
    pub log: Arc<DevLog>,
    pub dev: ADev,
    pub lock: ALock,
}

impl Unit {
    pub fn new() -> Unit {
        let log = DevLog::new();
        Unit {
            dev: Arc::new(futures::lock::Mutex::new(RecDev(log.clone()))),
            lock: SharedLock::new(),
            log,
        }
    }
    pub fn lock_state(&self) -> (bool, u32) {
        let l = self.lock.lock();
        (l.exclusive_lock(), l.num_shared_locks())
    }
    /// Wait until the lock is in a state
    pub fn wait_lock(&self, d: Duration, excl: bool, shared: u32) -> bool {
        let t = Instant::now();
        loop {
            if self.lock_state() == (excl, shared) {
                return true;
            }
            if t.elapsed() > d {
                return false;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

/// Is `got` an interleaving of the lists, where lists marked `whole` must be used up and
/// of the others any beginning may occur? Returns how much of each list was used.
pub fn interleaving(got: &[Ev], lists: &[(&[Ev], bool)]) -> Result<Vec<usize>, String> {
    let mut states: std::collections::BTreeSet<Vec<usize>> = [vec![0; lists.len()]].into();
    for (k, e) in got.iter().enumerate() {
        let mut next = std::collections::BTreeSet::new();
        for st in &states {
            for i in 0..lists.len() {
                if lists[i].0.get(st[i]) == Some(e) {
                    let mut x = st.clone();
                    x[i] += 1;
                    next.insert(x);
                }
            }
        }
        if next.is_empty() {
            return Err(format!("effect number {k} of the device, {e:?}, is nobody's next one"));
        }
        states = next;
    }
    for st in &states {
        if lists.iter().zip(st).all(|((l, whole), n)| !whole || *n == l.len()) {
            return Ok(st.clone());
        }
    }
    Err("effects are missing".into())
}
