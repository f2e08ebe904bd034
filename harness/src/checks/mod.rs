pub mod common;
pub mod crowd;
pub mod fuzz;
pub mod lock;
pub mod long;
pub mod share;
pub mod share_ops;
pub mod stall;
pub mod outlive;
pub mod raw;
pub mod residue;
pub mod status;
pub mod telnet;
pub mod hs_session;
pub mod hs_data;
pub mod hs_lock;
pub mod rpc;
pub mod vxi_world;
pub mod vxi_wait;
pub mod vxi_srq;
pub mod pmap;
pub mod xdr;
pub mod boxed;
pub mod config;
