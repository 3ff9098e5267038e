#[path = "../../ws/minter/src/main.rs"]
#[allow(dead_code)]
mod minter_main;
#[allow(dead_code)]
mod canister;
#[allow(dead_code)]
mod chain;
mod demo;
#[allow(dead_code)]
mod ledger;
#[allow(dead_code)]
mod rpc;
#[allow(dead_code)]
mod util;
#[allow(dead_code)]
mod wire;
#[allow(dead_code)]
mod world;

fn main() {
    demo::run();
    eprintln!("demo: as it should be");
}
