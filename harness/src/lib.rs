pub mod aging;
pub mod alloc;
pub mod checks;
pub mod collect;
pub mod cycle;
pub mod group;
pub mod hasher;
pub mod key;
pub mod kinds;
pub mod known;
pub mod long;
pub mod odd;
pub mod opt;
pub mod panics;
pub mod partial;
pub mod plain;
pub mod rng;
pub mod runner;
pub mod shared;
pub mod serdec;
pub mod special;
pub mod sys;
