pub mod ctx;
pub mod ext;
pub mod plangen;
pub mod wrong;
pub mod unset;
pub mod proc;
pub mod rot;
pub mod runner;
pub mod sched;
pub mod scen;
pub mod shim;
pub mod simio;
pub mod src;
pub mod stored;
pub mod world;
