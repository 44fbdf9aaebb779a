#![allow(clippy::all)]
pub mod bb;
pub mod boxes;
pub mod corpus;
pub mod drv;
pub mod enc;
pub mod report;
pub mod mem;
pub mod rng;
pub mod watch;
pub mod work;
pub mod refr;
