//! The side of the stand-in a test harness talks to.
use crate::classes::*;
use crate::dom::nd;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use wasm_bindgen::closure::call_function;
use wasm_bindgen::{JsCast, JsValue};

/// kind, target, identity of the listener, event type, capture, passive, identity of the event
type Trace = std::rc::Rc<dyn Fn(&str, &EventTarget, u64, &str, bool, bool, u64)>;
type Layout = Box<dyn Fn(&Element) -> (f64, f64, f64, f64)>;
thread_local! {
    static TASKS: RefCell<VecDeque<(i32, JsValue)>> = const { RefCell::new(VecDeque::new()) };
    static NEXT: Cell<i32> = const { Cell::new(1) };
    static ERRORS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static OPS: RefCell<Vec<(&'static str, u64, u64)>> = const { RefCell::new(Vec::new()) };
    static OBSERVERS: RefCell<Vec<IntersectionObserver>> = const { RefCell::new(Vec::new()) };
    static LAYOUT: RefCell<Option<Layout>> = const { RefCell::new(None) };
    static TRACE: RefCell<Option<Trace>> = const { RefCell::new(None) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub(crate) fn add_task(f: JsValue) -> i32 {
    let id = NEXT.with(|n| n.replace(n.get() + 1));
    TASKS.with(|t| t.borrow_mut().push_back((id, f)));
    id
}
pub(crate) fn clear_task(h: i32) {
    TASKS.with(|t| t.borrow_mut().retain(|x| x.0 != h));
}
/// Timers waiting to fire.
pub fn pending_timers() -> usize {
    TASKS.with(|t| t.borrow().len())
}
/// Fires the oldest timer. False if there was none.
pub fn run_timer() -> bool {
    let t = TASKS.with(|t| t.borrow_mut().pop_front());
    match t {
        Some((_, f)) => {
            let _ = call_function(&f, &[]);
            true
        }
        None => false,
    }
}
/// Told about every listener that is registered ("reg"), unregistered ("unreg") and called ("call", "called").
pub fn set_trace(f: Option<Trace>) {
    TRACE.with(|t| *t.borrow_mut() = f);
}
pub(crate) fn trace(kind: &str, t: &EventTarget, f: &JsValue, ty: &str, capture: bool, passive: bool, ev: u64) {
    let h = TRACE.with(|t| t.borrow().clone());
    if let Some(h) = h {
        h(kind, t, f.__id(), ty, capture, passive, ev);
    }
}
/// Listener and observer callbacks made so far.
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
pub(crate) fn count_call() {
    CALLS.with(|c| c.set(c.get() + 1));
}
pub(crate) fn dom_error(m: &str) {
    ERRORS.with(|e| e.borrow_mut().push(m.into()));
}
pub(crate) fn console(kind: &str, args: &[&JsValue]) {
    if kind == "error" {
        let s = args.iter().map(|a| a.as_string().unwrap_or_else(|| format!("{a:?}"))).collect::<Vec<_>>().join(" ");
        ERRORS.with(|e| e.borrow_mut().push(format!("console.error: {s}")));
    }
}
/// DOM exceptions, console errors and misuse of JS closures since the last call.
pub fn take_errors() -> Vec<String> {
    let mut v = ERRORS.with(|e| std::mem::take(&mut *e.borrow_mut()));
    v.extend(wasm_bindgen::__take_faults());
    v
}
pub(crate) fn op(kind: &'static str, p: &Node, c: &Node) {
    OPS.with(|o| o.borrow_mut().push((kind, id(p), id(c))));
}
pub fn clear_ops() {
    OPS.with(|o| o.borrow_mut().clear());
}
/// (insert | remove, parent, child) tree changes since the last call.
pub fn take_ops() -> Vec<(&'static str, u64, u64)> {
    OPS.with(|o| std::mem::take(&mut *o.borrow_mut()))
}
/// Identity of a JS object.
pub fn id(v: &impl AsRef<JsValue>) -> u64 {
    v.as_ref().__id()
}
pub(crate) fn add_observer(o: &IntersectionObserver) {
    OBSERVERS.with(|v| v.borrow_mut().push(o.clone()));
}
/// Calls every intersection observer that has news.
pub fn check_observers() -> usize {
    let v: Vec<_> = OBSERVERS.with(|v| v.borrow().clone());
    v.iter().filter(|o| o.check()).count()
}
/// Number of observers observing something.
pub fn live_observers() -> usize {
    let v: Vec<_> = OBSERVERS.with(|v| v.borrow().clone());
    v.iter()
        .filter(|o| {
            let js: &JsValue = o.as_ref();
            !js.__data::<crate::html::Obs>().unwrap().targets.borrow().is_empty()
        })
        .count()
}
/// top, bottom, left, right of an element.
pub fn set_layout(f: impl Fn(&Element) -> (f64, f64, f64, f64) + 'static) {
    LAYOUT.with(|l| *l.borrow_mut() = Some(Box::new(f)));
}
pub(crate) fn rect(e: &Element) -> (f64, f64, f64, f64) {
    LAYOUT.with(|l| l.borrow().as_ref().map_or((0.0, 0.0, 0.0, 0.0), |f| f(e)))
}
/// (type, capture, passive) of the listeners registered on a target.
pub fn listeners(t: &EventTarget) -> Vec<(String, bool, bool)> {
    nd(t.as_ref()).listeners.borrow().iter().map(|l| (l.ty.clone(), l.capture, l.passive)).collect()
}
/// A new event as the browser would create it.
pub fn event(class: &str, ty: &str, bubbles: bool, cancelable: bool) -> Event {
    crate::event::new_event(class, ty, bubbles, cancelable)
}
pub fn children(n: &Node) -> Vec<Node> {
    nd(n.as_ref()).children.borrow().clone()
}
pub fn tag(n: &Node) -> String {
    nd(n.as_ref()).tag.clone()
}
pub fn data(n: &Node) -> String {
    nd(n.as_ref()).data.borrow().clone()
}
/// Everything the user selects: the option at `i` of a select (no event is fired).
pub fn user_select(s: &HtmlSelectElement, i: i32) {
    s.set_selected_index(i);
}
pub fn as_node(v: &impl AsRef<JsValue>) -> Node {
    v.as_ref().clone().unchecked_into()
}
