//! Stand-in for web-sys: an in-memory DOM following the DOM and HTML standards for the parts async_ui
//! can use (tree mutation, events, timers, `<select>`, class lists, styles, intersection observers).
#![allow(clippy::all)]
mod classes;
mod dom;
mod event;
mod html;
pub mod mock;

pub use classes::*;
pub use dom::window;

#[allow(non_snake_case)]
pub mod console {
    use wasm_bindgen::JsValue;
    pub fn error_1(a: &JsValue) {
        crate::mock::console("error", &[a]);
    }
    pub fn error_2(a: &JsValue, b: &JsValue) {
        crate::mock::console("error", &[a, b]);
    }
    pub fn error_3(a: &JsValue, b: &JsValue, c: &JsValue) {
        crate::mock::console("error", &[a, b, c]);
    }
    pub fn warn_1(a: &JsValue) {
        crate::mock::console("warn", &[a]);
    }
    pub fn warn_2(a: &JsValue, b: &JsValue) {
        crate::mock::console("warn", &[a, b]);
    }
    pub fn log_1(a: &JsValue) {
        crate::mock::console("log", &[a]);
    }
    pub fn log_2(a: &JsValue, b: &JsValue) {
        crate::mock::console("log", &[a, b]);
    }
    pub fn debug_1(a: &JsValue) {
        crate::mock::console("debug", &[a]);
    }
    pub fn info_1(a: &JsValue) {
        crate::mock::console("info", &[a]);
    }
}
