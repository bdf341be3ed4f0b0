//! Deterministic simulation of how QuakeWorld demos come about and are read: a game server
//! with its players records a match, a relay passes the recording on, a disk stores it, and
//! reader tasks parse what is there. See DESIGN.md.

#[macro_use]
mod props;
mod deliver;
mod min;
mod orch;
mod proc;
mod refmodel;
mod rng;
mod scen;
mod seams;
mod sut;
mod world;

#[global_allocator]
static ALLOCATOR: seams::Accounting = seams::Accounting;

fn main() {
    std::process::exit(orch::main());
}
