//! Bounded replay engines: the real goggles API against small reference models.
//!
//!   harness run --props P[,P..] --budget MS --seed N --trace FILE [--deep]
//!   harness case ENGINE N,N,N..        run one case (exit 1 if it fails)
//!   harness list
//!
//! A case is a list of numbers, decoded by its engine; every failure is a panic of the engine.
mod alloc;
mod anyset;
mod conc;
mod deps;
mod fetch;
mod items;
mod joins;
mod many;
mod masked;
mod raw;
mod resources;
mod rset;
mod rt;
mod sizes;
mod system;
mod world;

use rt::Engine;

fn engines() -> Vec<Engine> {
    let mut v = vec![];
    alloc::engines(&mut v);
    raw::engines(&mut v);
    resources::engines(&mut v);
    fetch::engines(&mut v);
    rset::engines(&mut v);
    system::engines(&mut v);
    joins::engines(&mut v);
    many::engines(&mut v);
    masked::engines(&mut v);
    sizes::engines(&mut v);
    world::engines(&mut v);
    anyset::engines(&mut v);
    conc::engines(&mut v);
    deps::engines(&mut v);
    v
}

fn main() {
    rt::main(engines())
}
