mod arena;
mod cell;
mod data;
mod store;
use vcommon::J;

fn run(sc: &J) {
    match sc.get("dom").str() {
        "arena" => arena::run(sc),
        "cell" => cell::run(sc),
        "store" => store::run(sc),
        x => panic!("unknown domain {x}"),
    }
}
fn main() {
    vcommon::run_main(run)
}
