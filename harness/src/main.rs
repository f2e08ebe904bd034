#[macro_use]
mod rt;
mod checks;
mod dev;
mod exec;
mod hislip;
mod net;
mod vxi;

use std::sync::Arc;

use rt::Ctx;

#[global_allocator]
static ALLOC: rt::CountingAlloc = rt::CountingAlloc;

type Check = fn(&Ctx);

const CHECKS: &[(&str, Check)] = &[
    ("C01", checks::lock::c01),
    ("C02", checks::lock::c02),
    ("C03", checks::lock::c03),
    ("C04", checks::outlive::c04),
    ("C05", checks::status::c05),
    ("C06", checks::raw::c06),
    ("C07", checks::raw::c07),
    ("C08", checks::telnet::c08),
    ("C09", checks::hs_session::c09),
    ("C10", checks::hs_data::c10),
    ("C11", checks::hs_data::c11),
    ("C12", checks::hs_data::c12),
    ("C13", checks::hs_lock::c13),
    ("C14", checks::hs_lock::c14),
    ("C15", checks::rpc::c15),
    ("C16", checks::vxi_world::c16),
    ("C17", checks::vxi_world::c17),
    ("C18", checks::vxi_wait::c18),
    ("C19", checks::vxi_wait::c19),
    ("C20", checks::vxi_srq::c20),
    ("C21", checks::vxi_world::c21),
    ("C22", checks::pmap::c22),
    ("C23", checks::pmap::c23),
    ("C24", checks::fuzz::c24),
    ("C25", checks::stall::c25),
    ("C26", checks::share::c26),
    ("C27", checks::xdr::c27),
    ("C28", checks::residue::c28),
    ("C29", checks::boxed::c29),
    ("C30", checks::config::c30),
];

/// Checks whose servers run on a single thread
const ONE_THREAD: &[&str] = &["C07", "C08", "C12", "C18", "C20", "C25"];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "C24-child" {
        unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
        rt::init();
        rt::install_logger();
        checks::fuzz::child();
    }
    let Some((_, f)) = CHECKS.iter().find(|(n, _)| *n == id) else {
        eprintln!("usage: harness <property>");
        std::process::exit(2);
    };
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let only = std::env::var("VERIF_CASE").ok().and_then(|s| {
        let (a, b) = s.rsplit_once(':')?;
        Some((a.to_string(), b.parse().ok()?))
    });
    // On one thread a server which blocks, spins or keeps a mutex over a wait stops everything it serves
    if ONE_THREAD.contains(&id.as_str()) && std::env::var_os("ASYNC_STD_THREAD_COUNT").is_none() {
        std::env::set_var("ASYNC_STD_THREAD_COUNT", "1");
    }
    // A peer which disconnects must show as an error of write, not end the process
    unsafe {
        libc::signal(libc::SIGPIPE, libc::SIG_IGN);
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    rt::init();
    rt::install_logger();
    let ctx = Arc::new(Ctx::new(&id, seed, thorough, only));
    rt::watchdog(ctx.clone(), verif.clone(), 75);
    f(&ctx);
    let code = ctx.finish(&verif);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
