pub mod proto;
pub mod rl;
pub mod util;
pub mod auth;
pub mod prf;
