mod comb;
mod dropdown;
mod event;
mod exec;
mod html;
mod ui;
mod virt;
use vcommon::J;

fn run(sc: &J) {
    match sc.get("dom").str() {
        "comb" => comb::run(sc),
        "dropdown" => dropdown::run(sc),
        "virt" => virt::run(sc),
        "ui" => ui::run(sc),
        "exec" => exec::run(sc),
        "html" => html::run(sc),
        "event" => event::run(sc),
        x => panic!("unknown domain {x}"),
    }
}
fn main() {
    vcommon::run_main(run)
}
