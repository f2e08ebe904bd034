//! C01-C04: the lock, driven directly.

use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

use futures::Future;
use lxi_device::lock::{
    LockHandle, Mutex, RemoteLockHandle, SharedLock, SharedLockError, SharedLockMode, SpinMutex,
};

use crate::exec::Exec;
use crate::rt::*;

type Dev = u32;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Focus {
    Atomic,
    Handed,
    Stuck,
    Outlive,
}

// ---------------------------------------------------------------- sequential model

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Model {
    pub excl: Option<usize>,
    pub shared: BTreeSet<usize>,
    key: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Kind {
    Excl,
    Shared(Vec<u8>),
}

impl Model {
    pub fn grantable(&self, i: usize, k: &Kind) -> bool {
        match k {
            Kind::Excl => {
                self.excl.is_none() && (self.shared.is_empty() || self.shared.contains(&i))
            }
            Kind::Shared(key) => {
                if self.shared.contains(&i) {
                    false
                } else if self.shared.is_empty() {
                    self.excl.is_none()
                } else {
                    self.key == *key
                }
            }
        }
    }
    pub fn holds_kind(&self, i: usize, k: &Kind) -> bool {
        match k {
            Kind::Excl => self.excl == Some(i),
            Kind::Shared(_) => self.shared.contains(&i),
        }
    }
    pub fn holds_any(&self, i: usize) -> bool {
        self.excl == Some(i) || self.shared.contains(&i)
    }
    pub fn grant(&mut self, i: usize, k: &Kind) {
        match k {
            Kind::Excl => self.excl = Some(i),
            Kind::Shared(key) => {
                if self.shared.is_empty() {
                    self.key = key.clone();
                }
                self.shared.insert(i);
            }
        }
    }
    pub fn release(&mut self, i: usize) -> u8 {
        let mut r = 0;
        if self.shared.remove(&i) {
            r = 1;
        }
        if self.excl == Some(i) {
            self.excl = None;
            r = 2;
        }
        r
    }
    pub fn permitted(&self, i: usize) -> bool {
        self.excl == Some(i)
            || (self.excl.is_none() && (self.shared.is_empty() || self.shared.contains(&i)))
    }
    pub fn info(&self) -> (bool, u32) {
        (self.excl.is_some(), self.shared.len() as u32)
    }
}

// ---------------------------------------------------------------- hooks inside the lock

thread_local! {
    static NEST: RefCell<Option<Rc<RefCell<World>>>> = RefCell::new(None);
    static DEPTH: Cell<u32> = Cell::new(0);
}
static DELAY_US: AtomicU32 = AtomicU32::new(0);
pub static POINTS: AtomicU64 = AtomicU64::new(0);
static DELAY_SEQ: AtomicU64 = AtomicU64::new(1);

fn hook(name: &'static str) {
    POINTS.fetch_add(1, Ordering::Relaxed);
    let d = DELAY_US.load(Ordering::Relaxed);
    if d > 0 {
        let mut r = Rng::new(DELAY_SEQ.fetch_add(1, Ordering::Relaxed));
        if r.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(r.below(d as usize) as u64));
        } else if r.chance(1, 2) {
            std::thread::yield_now();
        }
    }
    let w = NEST.with(|n| n.borrow().clone());
    if let Some(w) = w {
        if DEPTH.with(|d| d.get()) < 2 {
            DEPTH.with(|d| d.set(d.get() + 1));
            World::nested(&w, name);
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    }
}

pub fn install_hook() {
    #[cfg(lxi_verif)]
    {
        *lxi_device::verif::HOOK.lock() = Some(hook);
    }
    let _ = hook as fn(&'static str);
}

/// Random delays at the delay points of the lock, for threaded workloads
pub fn set_delays(us: u32) {
    DELAY_US.store(us, Ordering::Relaxed)
}

// ---------------------------------------------------------------- deterministic world

enum Hd {
    Direct(Rc<RefCell<LockHandle<Dev>>>),
    Remote(Arc<SpinMutex<LockHandle<Dev>>>),
}

struct Client {
    h: Option<Hd>,
    /// Task index of what it is waiting for
    acquiring: Option<(usize, Kind)>,
    locking: Option<usize>,
    inside: bool,
}

pub struct World {
    rng: Rng,
    model: Model,
    clients: Vec<Client>,
    inside: Option<usize>,
    /// Somebody has the device for a moment (within the lock's own code)
    transient: bool,
    err: Option<(Focus, String)>,
    trace: Vec<String>,
    /// Clients on the call stack right now
    active: Vec<usize>,
    /// Bumped whenever the model or the device changes
    history: Vec<(Model, bool)>,
    fail_fast: bool,
    nested_ops: u64,
    stats: [u64; 12],
    drops: bool,
    nest_p: usize,
    /// How many more operations may be injected until the next step of the history, so that
    /// clients which wake each other forever are not rescued by them
    budget: usize,
}

const KEYS: [&[u8]; 3] = [b"A", b"B", b"AB"];
/// Other keys, however alike they look
const ALIKE: [&[u8]; 10] = [b"a", b"ab", b"A ", b" A", b"A\0", b"A\n", b"\0", b"AA", b"BA", b"\xff"];

fn pick_key(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 6) {
        rng.pick(&ALIKE).to_vec()
    } else {
        rng.pick(&KEYS).to_vec()
    }
}

impl World {
    fn note(&mut self, s: String) {
        if self.trace.len() < 400 {
            self.trace.push(s);
        }
    }
    fn bad(&mut self, f: Focus, s: String) {
        if self.err.is_none() {
            let tail: Vec<_> = self.trace.iter().rev().take(14).rev().cloned().collect();
            self.err = Some((f, format!("{s}; history: {}", tail.join(", "))));
        }
    }
    fn changed(&mut self) {
        let busy = self.inside.is_some() || self.transient;
        self.history.push((self.model.clone(), busy));
    }

    /// Compare what the lock reports with what was granted
    fn compare(w: &Rc<RefCell<World>>, after: &str, focus: Focus) {
        let n = w.borrow().clients.len();
        for i in 0..n {
            let (info, hs, he, can) = {
                let b = w.borrow();
                if b.active.contains(&i) {
                    continue;
                }
                match &b.clients[i].h {
                    None => continue,
                    Some(Hd::Direct(h)) => match h.try_borrow() {
                        Ok(h) => (h.lock_info(), h.has_shared(), h.has_exclusive(), h.can_lock().is_ok()),
                        Err(_) => continue,
                    },
                    Some(Hd::Remote(h)) => {
                        let h = h.lock();
                        (h.lock_info(), h.has_shared(), h.has_exclusive(), h.can_lock().is_ok())
                    }
                }
            };
            let mut b = w.borrow_mut();
            let m = b.model.clone();
            if info != m.info() {
                b.bad(focus, format!("after {after} lock state is reported as {info:?}, granted and not released: {:?} ({m:?})", m.info()));
            }
            if hs != m.shared.contains(&i) || he != (m.excl == Some(i)) {
                b.bad(focus, format!("after {after} client {i} says shared={hs} exclusive={he}, granted and not released: {m:?}"));
            }
            if can != m.permitted(i) {
                b.bad(if focus == Focus::Atomic { Focus::Handed } else { focus }, format!("after {after} client {i} is told permitted={can}, locks are {m:?}"));
            }
        }
    }

    fn rand_kind(rng: &mut Rng) -> Kind {
        if rng.chance(2, 5) {
            Kind::Excl
        } else {
            Kind::Shared(pick_key(rng))
        }
    }

    fn do_try(w: &Rc<RefCell<World>>, i: usize, k: &Kind, via: u8) {
        w.borrow_mut().active.push(i);
        let res = {
            let b = w.borrow();
            let got = match b.clients[i].h.as_ref() {
                Some(Hd::Direct(h)) => Ok(h.clone()),
                Some(Hd::Remote(h)) => Err(h.clone()),
                None => unreachable!("harness"),
            };
            drop(b);
            match got {
                Ok(h) => {
                    let mut h = h.borrow_mut();
                    match (k, via) {
                        (Kind::Excl, 0) => h.try_acquire(b""),
                        (Kind::Excl, _) => h.try_acquire_exclusive(),
                        (Kind::Shared(s), 0) => h.try_acquire(s),
                        (Kind::Shared(s), _) => h.try_acquire_shared(s),
                    }
                }
                Err(h) => {
                    let r = RemoteLockHandle::new(h.clone());
                    match (k, via) {
                        (Kind::Excl, 0) => r.try_acquire(b""),
                        (Kind::Excl, _) => h.lock().try_acquire_exclusive(),
                        (Kind::Shared(s), 0) => r.try_acquire(s),
                        (Kind::Shared(s), _) => h.lock().try_acquire_shared(s),
                    }
                }
            }
        };
        let mut b = w.borrow_mut();
        b.active.pop();
        b.stats[0] += 1;
        let can = b.model.grantable(i, k);
        let m = b.model.clone();
        b.note(format!("{i}:try {k:?}={}", if res.is_ok() { "granted" } else { "refused" }));
        if res.is_ok() != can {
            b.bad(Focus::Atomic, format!("client {i} requests {k:?} with {m:?}: {res:?}, expected {}", if can { "granted" } else { "refused" }));
        }
        if res.is_ok() {
            b.model.grant(i, k);
            b.stats[1] += 1;
            b.changed();
        }
        drop(b);
        World::compare(w, "a request", Focus::Atomic);
    }

    fn do_release(w: &Rc<RefCell<World>>, i: usize, force: bool) {
        w.borrow_mut().active.push(i);
        let got = {
            let b = w.borrow();
            match b.clients[i].h.as_ref() {
                Some(Hd::Direct(h)) => Ok(h.clone()),
                Some(Hd::Remote(h)) => Err(h.clone()),
                None => unreachable!("harness"),
            }
        };
        let res = match got {
            Ok(h) => {
                if force {
                    h.borrow_mut().force_release();
                    None
                } else {
                    Some(h.borrow_mut().try_release())
                }
            }
            Err(h) => {
                if force {
                    h.lock().force_release();
                    None
                } else {
                    Some(h.lock().try_release())
                }
            }
        };
        let mut b = w.borrow_mut();
        b.active.pop();
        b.stats[2] += 1;
        let m = b.model.clone();
        let want = b.model.release(i);
        b.changed();
        b.note(format!("{i}:release"));
        if let Some(res) = res {
            let got = match res {
                Ok(SharedLockMode::Exclusive) => 2,
                Ok(SharedLockMode::Shared) => 1,
                Err(_) => 0,
            };
            if got != want {
                b.bad(Focus::Atomic, format!("release of client {i} with {m:?} says {got}, expected {want} (0 error, 1 shared, 2 exclusive)"));
            }
        }
        drop(b);
        World::compare(w, "a release", Focus::Atomic);
    }

    fn do_try_lock(w: &Rc<RefCell<World>>, i: usize) {
        {
            let mut b = w.borrow_mut();
            b.active.push(i);
            b.history.clear();
            b.changed();
            b.stats[3] += 1;
        }
        // MutexGuards borrow their handle, so judge right here while it is held
        let got = {
            let b = w.borrow();
            match b.clients[i].h.as_ref() {
                Some(Hd::Direct(h)) => Ok(h.clone()),
                Some(Hd::Remote(h)) => Err(h.clone()),
                None => unreachable!("harness"),
            }
        };
        let judge = |ok: bool, err: Option<&SharedLockError>| {
            let mut b = w.borrow_mut();
            b.active.pop();
            b.changed();
            let m = b.model.clone();
            let hist = b.history.clone();
            b.note(format!("{i}:try_lock={}", if ok { "ok".to_string() } else { format!("{err:?}") }));
            if ok {
                b.stats[4] += 1;
                if !m.permitted(i) {
                    b.bad(Focus::Handed, format!("client {i} is handed the device without waiting although {m:?}"));
                }
                if let Some(j) = b.inside {
                    b.bad(Focus::Handed, format!("client {i} is handed the device while client {j} has it"));
                }
            } else {
                let truth = hist.iter().any(|(m, busy)| match err.unwrap() {
                    SharedLockError::LockedByExclusive => m.excl.is_some() && m.excl != Some(i),
                    SharedLockError::LockedByShared => !m.shared.is_empty() && !m.permitted(i),
                    SharedLockError::Busy => *busy,
                    _ => false,
                });
                if !truth {
                    b.bad(Focus::Handed, format!("client {i} is refused the device with {err:?}, which was not so: {hist:?}"));
                }
                if hist.iter().all(|(m, busy)| m.permitted(i) && !busy) {
                    b.bad(Focus::Handed, format!("client {i} is refused the device with {err:?} although it is idle and permitted"));
                }
            }
        };
        match got {
            Ok(h) => {
                let h = h.borrow();
                let r = h.try_lock();
                judge(r.is_ok(), r.as_ref().err());
            }
            Err(h) => {
                let r = RemoteLockHandle::new(h);
                let mut f = Box::pin(r.try_lock());
                let wk = futures::task::noop_waker();
                let mut cx = Context::from_waker(&wk);
                let p = f.as_mut().poll(&mut cx);
                match &p {
                    Poll::Ready(r) => judge(r.is_ok(), r.as_ref().err()),
                    Poll::Pending => {
                        let mut b = w.borrow_mut();
                        b.active.pop();
                        b.bad(Focus::Handed, format!("the non-waiting attempt of client {i} waits"));
                    }
                }
                drop(p);
            }
        };
    }

    /// A random operation which cannot wait. Must not touch clients on the call stack.
    fn sync_op(w: &Rc<RefCell<World>>) {
        let (i, op, k, via) = {
            let mut b = w.borrow_mut();
            let n = b.clients.len();
            let i = b.rng.below(n);
            let ok = !b.active.contains(&i)
                && match &b.clients[i].h {
                    None => false,
                    Some(Hd::Direct(h)) => h.try_borrow_mut().is_ok(),
                    Some(Hd::Remote(_)) => true,
                };
            if !ok {
                return;
            }
            let op = b.rng.below(10);
            let k = World::rand_kind(&mut b.rng);
            let via = b.rng.below(2) as u8;
            (i, op, k, via)
        };
        match op {
            0..=3 => World::do_try(w, i, &k, via),
            4..=6 => World::do_release(w, i, op == 6 && via == 0),
            7 | 8 => World::do_try_lock(w, i),
            _ => World::compare(w, "nothing", Focus::Atomic),
        }
    }

    fn nested(w: &Rc<RefCell<World>>, name: &'static str) {
        let Ok(mut b) = w.try_borrow_mut() else {
            return;
        };
        let old = b.transient;
        if name == "obtained" {
            b.transient = true;
            b.changed();
        }
        let p = b.nest_p;
        let go = b.err.is_none() && b.budget > 0 && b.rng.chance(p, 10);
        let n = b.rng.range(1, 3);
        if go {
            b.budget = b.budget.saturating_sub(n);
        }
        drop(b);
        if go {
            for _ in 0..n {
                w.borrow_mut().nested_ops += 1;
                World::sync_op(w);
            }
        }
        w.borrow_mut().transient = old;
    }
}

struct YieldN(usize);
impl Future for YieldN {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// Marks a client as being on the call stack while its future is polled
struct Active<F> {
    w: Rc<RefCell<World>>,
    i: usize,
    direct: bool,
    f: Pin<Box<F>>,
}
impl<F: Future> Future for Active<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let i = self.i;
        // A remote handle may be used by the other channel of its client in the meantime
        if self.direct {
            self.w.borrow_mut().active.push(i);
        }
        let r = self.f.as_mut().poll(cx);
        if self.direct {
            self.w.borrow_mut().active.retain(|&x| x != i);
        }
        r
    }
}

async fn acquire_task(w: Rc<RefCell<World>>, i: usize, k: Kind, via: u8) {
    let hd = match w.borrow().clients[i].h.as_ref().unwrap() {
        Hd::Direct(h) => Ok(h.clone()),
        Hd::Remote(h) => Err(h.clone()),
    };
    let res = match hd {
        Ok(h) => {
            let mut h = h.borrow_mut();
            let k = k.clone();
            Active {
                w: w.clone(),
                i,
                direct: true,
                f: Box::pin(async move {
                    match (&k, via) {
                        (Kind::Excl, 0) => h.async_acquire(b"").await,
                        (Kind::Excl, _) => h.async_acquire_exclusive().await,
                        (Kind::Shared(s), 0) => h.async_acquire(s).await,
                        (Kind::Shared(s), _) => h.async_acquire_shared(s).await,
                    }
                }),
            }
            .await
        }
        Err(h) => {
            let r = RemoteLockHandle::new(h);
            let k = k.clone();
            Active {
                w: w.clone(),
                i,
                direct: false,
                f: Box::pin(async move {
                    match &k {
                        Kind::Excl => r.async_acquire(b"").await,
                        Kind::Shared(s) => r.async_acquire(s).await,
                    }
                }),
            }
            .await
        }
    };
    let mut b = w.borrow_mut();
    b.clients[i].acquiring = None;
    let m = b.model.clone();
    b.note(format!("{i}:wait {k:?}={}", if res.is_ok() { "granted" } else { "refused" }));
    if res.is_ok() {
        b.stats[5] += 1;
        if !m.grantable(i, &k) {
            b.bad(Focus::Atomic, format!("client {i} waiting for {k:?} is granted it with {m:?}"));
        }
        b.model.grant(i, &k);
        b.changed();
    } else if !m.holds_any(i) {
        b.bad(Focus::Atomic, format!("client {i} waiting for {k:?} is refused with {m:?}: {res:?}"));
    }
    drop(b);
    World::compare(&w, "a waiting request", Focus::Atomic);
}

async fn device_task(w: Rc<RefCell<World>>, i: usize, hold: usize) {
    async fn section(w: &Rc<RefCell<World>>, i: usize, hold: usize, ok: bool) {
        {
            let mut b = w.borrow_mut();
            let m = b.model.clone();
            b.note(format!("{i}:device"));
            if !ok {
                b.bad(Focus::Stuck, format!("waiting for the device failed for client {i}"));
                return;
            }
            b.stats[6] += 1;
            if !m.permitted(i) {
                b.bad(Focus::Handed, format!("client {i} which waited is handed the device although {m:?}"));
            }
            if let Some(j) = b.inside {
                b.bad(Focus::Handed, format!("client {i} is handed the device while client {j} has it"));
            }
            b.inside = Some(i);
            b.clients[i].inside = true;
            b.changed();
        }
        YieldN(hold).await;
        let mut b = w.borrow_mut();
        b.inside = None;
        b.clients[i].inside = false;
        b.note(format!("{i}:done"));
        b.changed();
    }
    let hd = match w.borrow().clients[i].h.as_ref().unwrap() {
        Hd::Direct(h) => Ok(h.clone()),
        Hd::Remote(h) => Err(h.clone()),
    };
    match hd {
        Ok(h) => {
            let h = h.borrow();
            let g = Active {
                w: w.clone(),
                i,
                direct: true,
                f: Box::pin(h.async_lock()),
            }
            .await;
            section(&w, i, hold, g.is_ok()).await;
            drop(g);
        }
        Err(h) => {
            let r = RemoteLockHandle::new(h);
            let g = Active {
                w: w.clone(),
                i,
                direct: false,
                f: Box::pin(r.async_lock()),
            }
            .await;
            section(&w, i, hold, g.is_ok()).await;
            drop(g);
        }
    }
    w.borrow_mut().clients[i].locking = None;
}

/// If a task is dropped while its client has the device
struct InsideReset(Rc<RefCell<World>>, usize);
impl Drop for InsideReset {
    fn drop(&mut self) {
        if let Ok(mut b) = self.0.try_borrow_mut() {
            if b.inside == Some(self.1) && b.clients[self.1].inside {
                b.inside = None;
                b.clients[self.1].inside = false;
            }
        }
    }
}

pub struct Emphasis {
    pub focus: Focus,
    pub waits: usize,
    pub drops: bool,
    pub nest: usize,
}

/// One random history of the lock
pub fn det_case(ctx: &Ctx, rng: &mut Rng, em: &Emphasis) -> R {
    let n = rng.range(2, 5);
    let lock = SharedLock::new();
    let dev: Arc<Mutex<Dev>> = Arc::new(Mutex::new(0));
    let w = Rc::new(RefCell::new(World {
        rng: rng.fork(),
        model: Model::default(),
        clients: Vec::new(),
        inside: None,
        transient: false,
        err: None,
        trace: Vec::new(),
        active: Vec::new(),
        history: Vec::new(),
        fail_fast: true,
        nested_ops: 0,
        stats: [0; 12],
        drops: em.drops,
        nest_p: em.nest,
        budget: 12,
    }));
    let new_client = |rng: &mut Rng| {
        let h = LockHandle::new(lock.clone(), dev.clone());
        Client {
            h: Some(if rng.chance(1, 2) {
                Hd::Direct(Rc::new(RefCell::new(h)))
            } else {
                Hd::Remote(Arc::new(SpinMutex::new(h)))
            }),
            acquiring: None,
            locking: None,
            inside: false,
        }
    };
    for _ in 0..n {
        let c = new_client(rng);
        w.borrow_mut().clients.push(c);
    }
    NEST.with(|x| *x.borrow_mut() = Some(w.clone()));
    struct Unhook;
    impl Drop for Unhook {
        fn drop(&mut self) {
            NEST.with(|x| *x.borrow_mut() = None);
        }
    }
    let _unhook = Unhook;

    let mut ex = Exec::new();
    let steps = rng.range(8, 60);
    let err = |w: &Rc<RefCell<World>>| w.borrow().err.clone();
    let mut out: R = Ok(());
    'run: {
        for _ in 0..steps {
            let i = rng.below(n);
            w.borrow_mut().budget = 12;
            match rng.below(14) {
                0..=2 => World::sync_op(&w),
                3 | 4 if em.waits > 0 => {
                    // Start to wait for a lock
                    let ok = {
                        let b = w.borrow();
                        let c = &b.clients[i];
                        c.acquiring.is_none()
                            && match &c.h {
                                None => false,
                                Some(Hd::Direct(h)) => h.try_borrow_mut().is_ok() && c.locking.is_none(),
                                Some(Hd::Remote(_)) => true,
                            }
                    };
                    if ok {
                        let k = World::rand_kind(rng);
                        let via = rng.below(2) as u8;
                        let t = ex.spawn(acquire_task(w.clone(), i, k.clone(), via));
                        w.borrow_mut().clients[i].acquiring = Some((t, k));
                        w.borrow_mut().note(format!("{i}:start waiting"));
                        // Direct handles are borrowed from the first poll on
                        ex.poll(t);
                    }
                }
                5 | 6 if em.waits > 0 => {
                    let ok = {
                        let b = w.borrow();
                        let c = &b.clients[i];
                        c.locking.is_none()
                            && match &c.h {
                                None => false,
                                Some(Hd::Direct(h)) => h.try_borrow_mut().is_ok() && c.acquiring.is_none(),
                                Some(Hd::Remote(_)) => true,
                            }
                    };
                    if ok {
                        let hold = rng.below(4);
                        let w2 = w.clone();
                        let t = ex.spawn(async move {
                            let _r = InsideReset(w2.clone(), i);
                            device_task(w2, i, hold).await
                        });
                        w.borrow_mut().clients[i].locking = Some(t);
                        w.borrow_mut().note(format!("{i}:want device"));
                        ex.poll(t);
                    }
                }
                7 => {
                    // Give up waiting
                    let t = {
                        let mut b = w.borrow_mut();
                        let t = b.clients[i]
                            .acquiring
                            .take()
                            .map(|x| x.0)
                            .or_else(|| b.clients[i].locking.take());
                        if t.is_some() {
                            b.note(format!("{i}:gives up"));
                            b.stats[7] += 1;
                        }
                        t
                    };
                    if let Some(t) = t {
                        ex.cancel(t);
                        World::compare(&w, "giving up", Focus::Stuck);
                    }
                }
                8 if em.drops => {
                    // The client goes away
                    let (a, l) = {
                        let mut b = w.borrow_mut();
                        let a = b.clients[i].acquiring.take().map(|x| x.0);
                        let l = b.clients[i].locking.take();
                        if b.clients[i].h.is_some() {
                            b.note(format!("{i}:goes away"));
                            b.stats[8] += 1;
                        }
                        (a, l)
                    };
                    for t in [a, l].into_iter().flatten() {
                        ex.cancel(t);
                    }
                    let h = w.borrow_mut().clients[i].h.take();
                    drop(h);
                    {
                        let mut b = w.borrow_mut();
                        b.model.release(i);
                        b.changed();
                    }
                    World::compare(&w, "a client went away", Focus::Outlive);
                    let info = {
                        let l = lock.lock();
                        (l.exclusive_lock(), l.num_shared_locks())
                    };
                    let m = w.borrow().model.clone();
                    if info != m.info() {
                        w.borrow_mut().bad(Focus::Outlive, format!("after client {i} went away the lock is {info:?}, expected {m:?}"));
                    }
                    if rng.chance(2, 3) {
                        let c = new_client(rng);
                        w.borrow_mut().clients[i] = c;
                    }
                }
                _ => {
                    ex.step(rng);
                }
            }
            if err(&w).is_some() {
                break 'run;
            }
            if rng.chance(1, 6) {
                if !ex.settle(rng, 5000) {
                    w.borrow_mut().bad(Focus::Stuck, "clients wake each other forever without proceeding".into());
                    break 'run;
                }
                quiescent(&w);
                if err(&w).is_some() {
                    break 'run;
                }
            }
        }
        // Let everything proceed: holders release until nobody waits
        for round in 0..200 {
            w.borrow_mut().budget = 12;
            if !ex.settle(rng, 20000) {
                w.borrow_mut().bad(Focus::Stuck, "clients wake each other forever without proceeding".into());
                break 'run;
            }
            quiescent(&w);
            if err(&w).is_some() {
                break 'run;
            }
            let waiting: Vec<usize> = {
                let b = w.borrow();
                (0..n)
                    .filter(|&i| b.clients[i].acquiring.is_some() || b.clients[i].locking.is_some())
                    .collect()
            };
            if waiting.is_empty() {
                break;
            }
            // Some holder which is able to must release
            let holders: Vec<usize> = {
                let b = w.borrow();
                (0..n)
                    .filter(|&i| {
                        b.model.holds_any(i)
                            && match &b.clients[i].h {
                                Some(Hd::Direct(h)) => h.try_borrow_mut().is_ok(),
                                Some(Hd::Remote(_)) => true,
                                None => false,
                            }
                    })
                    .collect()
            };
            if holders.is_empty() {
                // Sharers waiting for an upgrade block each other for good, one gives up
                let i = *rng.pick(&waiting);
                let (a, l) = {
                    let mut b = w.borrow_mut();
                    (b.clients[i].acquiring.take().map(|x| x.0), b.clients[i].locking.take())
                };
                for t in [a, l].into_iter().flatten() {
                    ex.cancel(t);
                }
                w.borrow_mut().note(format!("{i}:gives up"));
                World::compare(&w, "giving up", Focus::Stuck);
            } else {
                let i = *rng.pick(&holders);
                World::do_release(&w, i, false);
            }
            if round == 199 {
                w.borrow_mut().bad(Focus::Stuck, "waiting clients do not proceed although all locks were released".into());
            }
        }
        if err(&w).is_some() {
            break 'run;
        }
        // Everybody leaves: nothing may remain
        for i in 0..n {
            let h = w.borrow_mut().clients[i].h.take();
            drop(h);
            w.borrow_mut().model.release(i);
        }
        let l = lock.lock();
        let info = (l.exclusive_lock(), l.num_shared_locks());
        drop(l);
        if info != (false, 0) {
            w.borrow_mut().bad(Focus::Outlive, format!("all clients are gone, the lock is {info:?}"));
        } else {
            NEST.with(|x| *x.borrow_mut() = None);
            let mut h = LockHandle::new(lock.clone(), dev.clone());
            let usable = h.try_lock().is_ok()
                && h.try_acquire_shared(b"fresh").is_ok()
                && h.try_acquire_exclusive().is_ok();
            if !usable {
                w.borrow_mut().bad(Focus::Stuck, "all clients are gone, a new client cannot use the lock and the device".into());
            }
        }
    }
    let b = w.borrow();
    if let Some((f, s)) = &b.err {
        if *f == em.focus {
            out = viol(s.clone());
        } else {
            ctx.count("histories cut short by another property", 1);
        }
    }
    ctx.eval(
        hash_of(&b.trace),
        b.trace.len() >= 6 && b.stats[1] + b.stats[5] > 0,
        || b.trace.join(", "),
    );
    ctx.count("requests", b.stats[0]);
    ctx.count("requests granted at once", b.stats[1]);
    ctx.count("requests granted after waiting", b.stats[5]);
    ctx.count("releases", b.stats[2]);
    ctx.count("device attempts without waiting", b.stats[3]);
    ctx.count("device attempts without waiting which succeeded", b.stats[4]);
    ctx.count("device handed after waiting", b.stats[6]);
    ctx.count("waits given up", b.stats[7]);
    ctx.count("clients gone", b.stats[8]);
    ctx.count("operations inside the windows of other operations", b.nested_ops);
    ctx.seen("lock states", hash_of(&b.model));
    let _ = (b.fail_fast, b.drops);
    drop(b);
    drop(ex);
    out
}

/// Nobody is runnable: whoever could proceed is stuck
fn quiescent(w: &Rc<RefCell<World>>) {
    let mut b = w.borrow_mut();
    let m = b.model.clone();
    let n = b.clients.len();
    for i in 0..n {
        if let Some((_, k)) = b.clients[i].acquiring.clone() {
            if m.grantable(i, &k) {
                b.bad(Focus::Stuck, format!("client {i} waits for {k:?} forever although it is free: {m:?}"));
            } else if m.holds_kind(i, &k) {
                b.bad(Focus::Stuck, format!("client {i} waits forever for {k:?} which it holds: {m:?}"));
            }
        }
        if b.clients[i].locking.is_some() && !b.clients[i].inside && m.permitted(i) && b.inside.is_none() {
            b.bad(Focus::Stuck, format!("client {i} waits for the device forever although it is idle and permitted: {m:?}"));
        }
    }
}

// ---------------------------------------------------------------- threads: linearizability

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
enum Op {
    Try(Kind),
    Release,
    Info,
    Can,
}

#[derive(Debug, Clone, Hash)]
struct Call {
    client: usize,
    op: Op,
    res: u32,
    t0: u64,
    t1: u64,
}

fn apply(m: &mut Model, c: &Call) -> bool {
    match &c.op {
        Op::Try(k) => {
            let g = m.grantable(c.client, k);
            if g {
                m.grant(c.client, k);
            }
            g == (c.res == 1)
        }
        Op::Release => m.release(c.client) as u32 == c.res,
        Op::Info => {
            let (e, s) = m.info();
            c.res == (e as u32) << 16 | s
        }
        Op::Can => m.permitted(c.client) == (c.res == 1),
    }
}

fn linearizable(calls: &[Vec<Call>], pos: &mut Vec<usize>, m: &Model, memo: &mut std::collections::HashSet<(Vec<usize>, Model)>) -> bool {
    if pos.iter().zip(calls).all(|(p, c)| *p == c.len()) {
        return true;
    }
    if !memo.insert((pos.clone(), m.clone())) {
        return false;
    }
    // Earliest return among the next calls: nothing which starts after it may come first
    let min_ret = calls
        .iter()
        .zip(pos.iter())
        .filter_map(|(c, &p)| c.get(p).map(|x| x.t1))
        .min()
        .unwrap();
    for t in 0..calls.len() {
        if let Some(c) = calls[t].get(pos[t]) {
            if c.t0 > min_ret {
                continue;
            }
            let mut m2 = m.clone();
            if apply(&mut m2, c) {
                pos[t] += 1;
                if linearizable(calls, pos, &m2, memo) {
                    return true;
                }
                pos[t] -= 1;
            }
        }
    }
    false
}

/// Threads hammer a few handles, every round's history must be linearizable
pub fn threads_linearizable(ctx: &Ctx, rng: &mut Rng, rounds: usize) -> R {
    let threads = rng.range(2, 4);
    let ops = rng.range(1, 4);
    // Threads may share a client through its remote handle, as the two channels of a session do
    let clients = rng.range(2, threads);
    let seed = rng.next();
    let lock = SharedLock::new();
    let dev: Arc<Mutex<Dev>> = Arc::new(Mutex::new(0));
    let handles: Vec<Arc<SpinMutex<LockHandle<Dev>>>> = (0..clients)
        .map(|_| Arc::new(SpinMutex::new(LockHandle::new(lock.clone(), dev.clone()))))
        .collect();
    let clock = AtomicU64::new(0);
    let gate = AtomicUsize::new(0);
    let results: std::sync::Mutex<Vec<Vec<Call>>> = std::sync::Mutex::new(vec![Vec::new(); threads]);
    let bad: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
    let ended = std::sync::atomic::AtomicBool::new(false);
    let overlaps = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (handles, clock, gate, results, bad, ended, overlaps) =
                (&handles, &clock, &gate, &results, &bad, &ended, &overlaps);
            sc.spawn(move || {
                let mut rng = Rng::new(seed ^ (t as u64) << 32);
                let c = t % clients;
                let r = RemoteLockHandle::new(handles[c].clone());
                let barrier = |k: usize| {
                    gate.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u64;
                    while gate.load(Ordering::SeqCst) < k * threads {
                        std::hint::spin_loop();
                        spins += 1;
                        if spins % 200 == 0 {
                            std::thread::yield_now();
                        }
                    }
                };
                let mut phase = 0;
                for _ in 0..rounds {
                    let plan: Vec<(Op, bool)> = (0..ops)
                        .map(|_| {
                            (
                                match rng.below(10) {
                                    0..=2 => Op::Try(Kind::Excl),
                                    3..=5 => Op::Try(Kind::Shared(rng.pick(&KEYS[..2]).to_vec())),
                                    6 | 7 => Op::Release,
                                    8 => Op::Info,
                                    _ => Op::Can,
                                },
                                rng.chance(1, 2),
                            )
                        })
                        .collect();
                    let mut mine = Vec::with_capacity(ops);
                    phase += 1;
                    barrier(phase);
                    if ended.load(Ordering::Relaxed) {
                        return;
                    }
                    for (op, remote) in plan {
                        let t0 = clock.fetch_add(1, Ordering::SeqCst);
                        let res = match &op {
                            Op::Try(k) => {
                                let key: &[u8] = match k {
                                    Kind::Excl => b"",
                                    Kind::Shared(s) => s,
                                };
                                if remote {
                                    r.try_acquire(key).is_ok() as u32
                                } else {
                                    handles[c].lock().try_acquire(key).is_ok() as u32
                                }
                            }
                            Op::Release => match handles[c].lock().try_release() {
                                Ok(SharedLockMode::Exclusive) => 2,
                                Ok(SharedLockMode::Shared) => 1,
                                Err(_) => 0,
                            },
                            Op::Info => {
                                let (e, s) = handles[c].lock().lock_info();
                                (e as u32) << 16 | s
                            }
                            Op::Can => r.can_lock().is_ok() as u32,
                        };
                        let t1 = clock.fetch_add(1, Ordering::SeqCst);
                        mine.push(Call {
                            client: c,
                            op,
                            res,
                            t0,
                            t1,
                        });
                    }
                    results.lock().unwrap()[t] = mine;
                    phase += 1;
                    barrier(phase);
                    if t == 0 {
                        let calls = results.lock().unwrap().clone();
                        let mut all: Vec<&Call> = calls.iter().flatten().collect();
                        all.sort_by_key(|c| c.t0);
                        let ov = all.windows(2).filter(|w| w[1].t0 < w[0].t1).count();
                        overlaps.fetch_add(ov as u64, Ordering::Relaxed);
                        let mut pos = vec![0; threads];
                        if !linearizable(&calls, &mut pos, &Model::default(), &mut Default::default()) {
                            *bad.lock().unwrap() = Some(format!("no order of these calls explains their answers: {calls:?}"));
                            ended.store(true, Ordering::Relaxed);
                        }
                        let ordered: Vec<(usize, &Op, u32)> = all.iter().map(|c| (c.client, &c.op, c.res)).collect();
                        ctx.eval(hash_of(&ordered), ov > 0, || format!("{ordered:?}"));
                        for h in handles.iter() {
                            h.lock().force_release();
                        }
                        let l = handles[0].lock().lock_info();
                        if l != (false, 0) {
                            *bad.lock().unwrap() = Some(format!("after everybody released the lock is {l:?}: {calls:?}"));
                            ended.store(true, Ordering::Relaxed);
                        }
                    }
                    phase += 1;
                    barrier(phase);
                    if ended.load(Ordering::Relaxed) {
                        return;
                    }
                }
            });
        }
    });
    ctx.count("concurrent rounds", rounds as u64);
    ctx.count("overlapping call pairs", overlaps.load(Ordering::Relaxed));
    if let Some(s) = bad.into_inner().unwrap() {
        return viol(s);
    }
    Ok(())
}

// ---------------------------------------------------------------- threads: device sections

/// Clients on a real executor use the device and the locks; every section checks that no
/// excluded client has marked the device as its own
pub fn threads_sections(ctx: &Ctx, rng: &mut Rng, focus: Focus) -> R {
    let n = rng.range(3, 7);
    let iters = rng.range(10, 40);
    let seed = rng.next();
    set_delays(*rng.pick(&[0, 30, 150]));
    let lock = SharedLock::new();
    // (owner of the exclusive lock, number of sharers) as marked inside device sections
    let dev: Arc<Mutex<(i64, i64)>> = Arc::new(Mutex::new((-1, 0)));
    let busy = Arc::new(AtomicI64::new(-1));
    let bad: Arc<std::sync::Mutex<Option<String>>> = Arc::new(std::sync::Mutex::new(None));
    let sections = Arc::new(AtomicU64::new(0));
    let order: Arc<std::sync::Mutex<Vec<u8>>> = Arc::new(std::sync::Mutex::new(Vec::new()));
    let timeouts = Arc::new(AtomicU64::new(0));
    let mut joins = Vec::new();
    for i in 0..n {
        let h = LockHandle::new(lock.clone(), dev.clone());
        let (busy, bad, sections, order, timeouts) =
            (busy.clone(), bad.clone(), sections.clone(), order.clone(), timeouts.clone());
        joins.push(async_std::task::spawn(async move {
            let mut rng = Rng::new(seed ^ (i as u64) << 40);
            let me = i as i64;
            let hd = Arc::new(SpinMutex::new(h));
            let r = RemoteLockHandle::new(hd.clone());
            macro_rules! section {
                ($body:expr) => {{
                    let fut = r.async_lock();
                    let g = if rng.chance(1, 4) {
                        match async_std::future::timeout(Duration::from_micros(rng.below(2000) as u64), fut).await {
                            Ok(g) => Some(g),
                            Err(_) => {
                                timeouts.fetch_add(1, Ordering::Relaxed);
                                None
                            }
                        }
                    } else {
                        Some(fut.await)
                    };
                    if let Some(Ok(mut g)) = g {
                        let was = busy.swap(me, Ordering::SeqCst);
                        if was != -1 {
                            *bad.lock().unwrap() = Some(format!("clients {me} and {was} have the device at once"));
                        }
                        let (owner, sharers) = *g;
                        let hold = hd.lock();
                        let (hs, he) = (hold.has_shared(), hold.has_exclusive());
                        drop(hold);
                        if owner != -1 && owner != me {
                            *bad.lock().unwrap() = Some(format!("client {me} is handed the device while client {owner} holds the exclusive lock"));
                        }
                        if sharers > 0 && !hs && !he {
                            *bad.lock().unwrap() = Some(format!("client {me} is handed the device while {sharers} others hold the shared lock"));
                        }
                        order.lock().unwrap().push(me as u8);
                        sections.fetch_add(1, Ordering::Relaxed);
                        let f: fn(&mut (i64, i64), i64) = $body;
                        f(&mut g, me);
                        if rng.chance(1, 3) {
                            async_std::task::yield_now().await;
                        }
                        busy.store(-1, Ordering::SeqCst);
                        true
                    } else {
                        false
                    }
                }};
            }
            for _ in 0..iters {
                match rng.below(4) {
                    0 => {
                        section!(|_, _| {});
                    }
                    1 => {
                        let to = Duration::from_micros(rng.below(3000) as u64);
                        match async_std::future::timeout(to, r.async_acquire(b"")).await {
                            Ok(Ok(())) => {
                                if section!(|g, me| g.0 = me) {
                                    if rng.chance(1, 2) {
                                        async_std::task::yield_now().await;
                                    }
                                    while !section!(|g, _| g.0 = -1) {}
                                }
                                let _ = hd.lock().try_release();
                            }
                            Ok(Err(_)) => {}
                            Err(_) => {
                                timeouts.fetch_add(1, Ordering::Relaxed);
                            }
                        }
                    }
                    2 => {
                        if r.async_acquire(b"").await.is_ok() {
                            if section!(|g, me| g.0 = me) {
                                while !section!(|g, _| g.0 = -1) {}
                            }
                            let _ = hd.lock().try_release();
                        }
                    }
                    _ => {
                        if r.async_acquire(b"K").await.is_ok() {
                            if section!(|g, _| g.1 += 1) {
                                async_std::task::yield_now().await;
                                while !section!(|g, _| g.1 -= 1) {}
                            }
                            let _ = hd.lock().try_release();
                        }
                    }
                }
            }
        }));
    }
    // Everybody must finish: nobody keeps a lock for good
    let done = async_std::task::block_on(async {
        async_std::future::timeout(DEADLINE * 2, futures::future::join_all(joins.iter_mut()))
            .await
            .is_ok()
    });
    set_delays(0);
    beat();
    ctx.count("device sections on threads", sections.load(Ordering::Relaxed));
    ctx.count("waits timed out on threads", timeouts.load(Ordering::Relaxed));
    let o = order.lock().unwrap().clone();
    ctx.eval(hash_of(&o), o.len() > 10, || format!("order of device sections of {n} clients: {o:?}"));
    if let Some(s) = bad.lock().unwrap().clone() {
        if focus == Focus::Handed {
            return viol(s);
        }
        return Ok(());
    }
    if !done {
        for j in joins {
            async_std::task::block_on(j.cancel());
        }
        if focus == Focus::Stuck {
            let l = lock.lock();
            return late(format!(
                "{n} clients which always release did not finish within {} s, lock is {:?}",
                DEADLINE.as_secs() * 2,
                (l.exclusive_lock(), l.num_shared_locks())
            ));
        }
        return Ok(());
    }
    let l = lock.lock();
    let st = (l.exclusive_lock(), l.num_shared_locks());
    drop(l);
    let free = dev.try_lock().is_some();
    if st != (false, 0) || !free {
        let s = format!("all clients released or went away, the lock is {st:?}, device free: {free}");
        if focus == Focus::Outlive || focus == Focus::Stuck {
            return viol(s);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- races on the raw request

/// All threads request at the same instant: exactly one wins
pub fn threads_one_winner(ctx: &Ctx, rng: &mut Rng, rounds: usize) -> R {
    let threads = rng.range(2, 4);
    let lock = SharedLock::new();
    let dev: Arc<Mutex<Dev>> = Arc::new(Mutex::new(0));
    let wins = AtomicU64::new(0);
    let gate = AtomicUsize::new(0);
    let bad: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mode = rng.below(3);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (lock, dev, wins, gate, bad, stop) = (&lock, &dev, &wins, &gate, &bad, &stop);
            sc.spawn(move || {
                let mut h = LockHandle::new(lock.clone(), dev.clone());
                let mut phase = 0;
                let mut barrier = || {
                    phase += 1;
                    gate.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u64;
                    while gate.load(Ordering::SeqCst) < phase * threads {
                        std::hint::spin_loop();
                        spins += 1;
                        if spins % 200 == 0 {
                            std::thread::yield_now();
                        }
                    }
                };
                for _ in 0..rounds {
                    if mode == 2 {
                        // Everybody shares, then all try to upgrade
                        if h.try_acquire_shared(b"K").is_err() {
                            *bad.lock().unwrap() = Some("a shared request with the key of the others is refused".into());
                        }
                    }
                    barrier();
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                    let ok = match mode {
                        0 | 2 => h.try_acquire_exclusive().is_ok(),
                        _ => h.try_acquire_shared(&[b'a' + t as u8]).is_ok(),
                    };
                    if ok {
                        wins.fetch_add(1, Ordering::SeqCst);
                    }
                    barrier();
                    if t == 0 {
                        let w = wins.swap(0, Ordering::SeqCst);
                        let info = h.lock_info();
                        let want = match mode {
                            0 => (true, 0),
                            1 => (false, 1),
                            _ => (true, threads as u32),
                        };
                        if w != 1 || info != want {
                            *bad.lock().unwrap() = Some(format!("{w} of {threads} simultaneous conflicting requests were granted (mode {mode}), lock is {info:?}, expected one and {want:?}"));
                        }
                    }
                    barrier();
                    let _ = h.try_release();
                    barrier();
                    if t == 0 {
                        let info = h.lock_info();
                        if info != (false, 0) {
                            *bad.lock().unwrap() = Some(format!("after simultaneous releases the lock is {info:?}"));
                        }
                        if bad.lock().unwrap().is_some() {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    barrier();
                    if stop.load(Ordering::Relaxed) {
                        return;
                    }
                }
            });
        }
    });
    beat();
    ctx.count("simultaneous request rounds", rounds as u64);
    ctx.eval(hash_of(&(threads, mode, rounds, rng.next())), true, || format!("{threads} threads, mode {mode}, {rounds} rounds of simultaneous requests"));
    match bad.into_inner().unwrap() {
        Some(s) => viol(s),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- what is reported while it changes

/// One client goes through a fixed cycle of lock states while others ask for the state. Each
/// answer must be one of the states of the cycle, not a mixture of two of them.
fn threads_observed(ctx: &Ctx, rng: &mut Rng, millis: u64) -> R {
    let mode = rng.below(4);
    let readers = rng.range(1, 3);
    let lock = SharedLock::new();
    let dev: Arc<Mutex<Dev>> = Arc::new(Mutex::new(0));
    let stop = std::sync::atomic::AtomicBool::new(false);
    let bad: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
    // Which states may be seen
    let allowed: &[(bool, u32)] = match mode {
        // exclusive, nothing, shared, nothing
        0 => &[(true, 0), (false, 0), (false, 1)],
        // shared, both, nothing
        1 => &[(false, 1), (true, 1), (false, 0)],
        // two clients always share, a third comes and goes
        2 => &[(false, 2), (false, 3)],
        // a sharer upgrades and lets go of both while another one keeps its share
        _ => &[(false, 1), (false, 2), (true, 2)],
    };
    let seen: std::sync::Mutex<std::collections::BTreeMap<(bool, u32), u64>> = Default::default();
    let cycles = AtomicU64::new(0);
    let mut keep: Vec<LockHandle<Dev>> = Vec::new();
    for _ in 0..[0, 0, 2, 1][mode] {
        let mut h = LockHandle::new(lock.clone(), dev.clone());
        if h.try_acquire_shared(b"K").is_err() {
            return viol("a shared request is refused although nobody holds another lock");
        }
        keep.push(h);
    }
    std::thread::scope(|sc| {
        let (lock, dev, stop, bad, seen, cycles) = (&lock, &dev, &stop, &bad, &seen, &cycles);
        sc.spawn(move || {
            let mut h = LockHandle::new(lock.clone(), dev.clone());
            let t0 = Instant::now();
            while t0.elapsed() < Duration::from_millis(millis) && !stop.load(Ordering::Relaxed) {
                for _ in 0..50 {
                    let ok = match mode {
                        0 => h.try_acquire_exclusive().is_ok() && h.try_release().is_ok() && h.try_acquire_shared(b"K").is_ok() && h.try_release().is_ok(),
                        1 | 3 => h.try_acquire_shared(b"K").is_ok() && h.try_acquire_exclusive().is_ok() && h.try_release().is_ok(),
                        _ => h.try_acquire_shared(b"K").is_ok() && h.try_release().is_ok(),
                    };
                    if !ok {
                        *bad.lock().unwrap() = Some(format!("a request or release of the only client which uses the lock was refused (cycle {mode})"));
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                cycles.fetch_add(50, Ordering::Relaxed);
            }
            stop.store(true, Ordering::Relaxed);
        });
        for r in 0..readers {
            sc.spawn(move || {
                let h = LockHandle::new(lock.clone(), dev.clone());
                let mut mine: std::collections::BTreeMap<(bool, u32), u64> = Default::default();
                while !stop.load(Ordering::Relaxed) {
                    for k in 0..100 {
                        let s = h.lock_info();
                        *mine.entry(s).or_default() += 1;
                        if !allowed.contains(&s) {
                            *bad.lock().unwrap() = Some(format!("the lock is reported as {s:?} while one client goes through the states {allowed:?} and no others"));
                            stop.store(true, Ordering::Relaxed);
                            return;
                        }
                        if r == 0 && k == 0 {
                            std::thread::yield_now();
                        }
                    }
                }
                let mut all = seen.lock().unwrap();
                for (k, v) in mine {
                    *all.entry(k).or_default() += v;
                }
            });
        }
    });
    drop(keep);
    beat();
    let seen = seen.into_inner().unwrap();
    ctx.count("lock states observed while they change", seen.values().sum());
    ctx.count("cycles of lock states", cycles.load(Ordering::Relaxed));
    ctx.eval(hash_of(&(mode, &seen)), seen.len() > 1, || format!("cycle {mode}, states seen {seen:?}"));
    match bad.into_inner().unwrap() {
        Some(s) => viol(s),
        None => Ok(()),
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("random histories of 2-5 clients (direct and remote handles, waiting and not, nested inside the lock's own windows) compared call by call with a sequential lock model; threaded histories checked for linearizability. Non-trivial: at least one grant and six events / at least two overlapping calls");
    install_hook();
    let em = Emphasis { focus: Focus::Atomic, waits: 1, drops: true, nest: 4 };
    ctx.cases_par("model", ctx.n(20_000, 400_000), ctx.n(25, 240) as u64, 4, |r, _| det_case(ctx, r, &em));
    ctx.cases_par("crowd", ctx.n(60, 1200), ctx.n(8, 100) as u64, 4, |r, _| super::crowd::lock_case(ctx, r));
    ctx.cases("linearizable", ctx.n(120, 900), ctx.n(15, 200) as u64, |r, _| threads_linearizable(ctx, r, 400));
    ctx.cases("one-winner", ctx.n(9, 90), ctx.n(12, 120) as u64, |r, _| threads_one_winner(ctx, r, 6000));
    ctx.cases("observed", ctx.n(24, 240), ctx.n(12, 120) as u64, |r, _| threads_observed(ctx, r, 150));
    ctx.count("delay points passed", POINTS.load(Ordering::Relaxed));
    ctx.cases("long", 1, 60, |_, _| super::long::lock(ctx));
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("random histories with device sections, other clients' operations injected at the delay points between checking the lock and getting the device; judged at the instant the guard is handed out. Threaded runs mark the device inside sections. Non-trivial: at least one grant and six events");
    install_hook();
    let em = Emphasis { focus: Focus::Handed, waits: 1, drops: false, nest: 6 };
    ctx.cases_par("model", ctx.n(25_000, 400_000), ctx.n(25, 240) as u64, 4, |r, _| det_case(ctx, r, &em));
    ctx.cases("threads", ctx.n(60, 1500), ctx.n(20, 240) as u64, |r, _| threads_sections(ctx, r, Focus::Handed));
    ctx.cases_par("crowd", ctx.n(60, 1200), ctx.n(8, 100) as u64, 4, |r, _| super::crowd::wait_case(ctx, r));
    ctx.count("delay points passed", POINTS.load(Ordering::Relaxed));
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("random histories of waits, grants, releases and cancellations on an executor which polls only woken tasks; whenever nothing is woken, nobody who could proceed may still wait. Threaded runs with timeouts must all finish. Non-trivial: at least one grant and six events");
    install_hook();
    let em = Emphasis { focus: Focus::Stuck, waits: 1, drops: true, nest: 3 };
    ctx.cases_par("model", ctx.n(25_000, 400_000), ctx.n(25, 240) as u64, 4, |r, _| det_case(ctx, r, &em));
    ctx.cases("threads", ctx.n(60, 1500), ctx.n(20, 240) as u64, |r, _| threads_sections(ctx, r, Focus::Stuck));
    ctx.cases_par("crowd", ctx.n(60, 1200), ctx.n(8, 100) as u64, 4, |r, _| super::crowd::wait_case(ctx, r));
    ctx.count("delay points passed", POINTS.load(Ordering::Relaxed));
}

#[allow(unused)]
fn _unused(_: Instant) {}
