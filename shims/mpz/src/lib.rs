//! Stand-in for the crates of `mpz`, `serio`, the cipher and the key exchange (none of which can be built
//! offline): one process holds both parties' shared memory in the clear. It computes what the real functionalities
//! compute; it hides nothing. It exists to run the code of `crates/mpc-tls` as it is.
pub mod crypto;
mod hash;
mod parts;
pub mod world;
pub use hash::*;
pub use parts::*;
pub use parts::VmExt as ViewExt;
pub use world::World;
