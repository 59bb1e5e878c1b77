//! M01: a program with many css! invocations (generated into $CSS_GEN by the check), which reports the
//! JavaScript modules and the constants they produced.
use vcommon::json::J;

include!(env!("CSS_GEN"));

fn main() {
    let mods = wasm_bindgen::__inline::MODULES.lock().unwrap();
    for (id, consts) in scenarios() {
        // the modules registered from within this scenario's Rust module
        let place = format!("::{id}::");
        let js: Vec<J> = mods.iter().filter(|m| m.0.contains(&place))
            .map(|m| J::obj([("js", J::s(&m.1)), ("imports", J::arr(m.2.iter().map(J::s)))])).collect();
        let cs: Vec<J> = consts.iter().map(|(a, b)| J::arr([J::s(a), J::s(b)])).collect();
        println!("{}", J::obj([("id", J::s(id)), ("js", J::arr(js)), ("consts", J::arr(cs))]));
    }
}
