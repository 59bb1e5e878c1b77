use crate::classes::*;
use crate::dom::{err, make, nd, Listener};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use wasm_bindgen::closure::call_function;
use wasm_bindgen::{JsCast, JsValue};

pub(crate) struct EvData {
    pub ty: String,
    pub bubbles: Cell<bool>,
    pub cancelable: Cell<bool>,
    pub target: RefCell<Option<EventTarget>>,
    pub current: RefCell<Option<EventTarget>>,
    pub phase: Cell<u16>,
    pub stop: Cell<bool>,
    pub stop_now: Cell<bool>,
    pub prevented: Cell<bool>,
    pub passive: Cell<bool>,
}

impl EventTarget {
    pub fn new() -> Result<EventTarget, JsValue> {
        Ok(make("EventTarget", 0, "", "").unchecked_into())
    }
    fn add(&self, ty: &str, f: &js_sys::Function, capture: bool, passive: bool, once: bool) {
        let f: JsValue = f.into();
        let d = nd(self.as_ref());
        let mut ls = d.listeners.borrow_mut();
        if ls.iter().any(|l| l.ty == ty && l.f == f && l.capture == capture) {
            return;
        }
        let l = Rc::new(Listener { ty: ty.into(), f, capture, passive, once, removed: Cell::new(false) });
        ls.push(l.clone());
        drop(ls);
        crate::mock::trace("reg", self, &l.f, ty, capture, passive, 0);
    }
    fn del(&self, ty: &str, f: &js_sys::Function, capture: bool) {
        let f: JsValue = f.into();
        let d = nd(self.as_ref());
        let mut found = false;
        d.listeners.borrow_mut().retain(|l| {
            let m = l.ty == ty && l.f == f && l.capture == capture;
            if m {
                l.removed.set(true);
                found = true;
            }
            !m
        });
        if found {
            crate::mock::trace("unreg", self, &f, ty, capture, false, 0);
        }
    }
    pub fn add_event_listener_with_callback(&self, ty: &str, f: &js_sys::Function) -> Result<(), JsValue> {
        self.add(ty, f, false, false, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_bool(&self, ty: &str, f: &js_sys::Function, c: bool) -> Result<(), JsValue> {
        self.add(ty, f, c, false, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_add_event_listener_options(
        &self,
        ty: &str,
        f: &js_sys::Function,
        o: &AddEventListenerOptions,
    ) -> Result<(), JsValue> {
        let g = |k: &str| js_sys::Reflect::get(o.as_ref(), &k.into()).unwrap().is_truthy();
        self.add(ty, f, g("capture"), g("passive"), g("once"));
        Ok(())
    }
    pub fn remove_event_listener_with_callback(&self, ty: &str, f: &js_sys::Function) -> Result<(), JsValue> {
        self.del(ty, f, false);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_bool(&self, ty: &str, f: &js_sys::Function, c: bool) -> Result<(), JsValue> {
        self.del(ty, f, c);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_event_listener_options(
        &self,
        ty: &str,
        f: &js_sys::Function,
        o: &EventListenerOptions,
    ) -> Result<(), JsValue> {
        self.del(ty, f, js_sys::Reflect::get(o.as_ref(), &"capture".into()).unwrap().is_truthy());
        Ok(())
    }
    pub fn dispatch_event(&self, ev: &Event) -> Result<bool, JsValue> {
        let e = ev.ed();
        if e.phase.get() != 0 {
            return Err(err("InvalidStateError", "the event is already being dispatched"));
        }
        *e.target.borrow_mut() = Some(self.clone());
        let mut path: Vec<EventTarget> = vec![self.clone()];
        if nd(self.as_ref()).ty != 0 {
            let mut n: Node = self.clone().unchecked_into();
            while let Some(p) = n.parent_node() {
                path.push(p.clone().unchecked_into());
                n = p;
            }
            if n.node_type() == 9 {
                path.push(crate::window().unwrap().unchecked_into());
            }
        }
        let inner = |t: &EventTarget, phase: u16, capture: bool| {
            if e.stop.get() {
                return;
            }
            e.phase.set(phase);
            *e.current.borrow_mut() = Some(t.clone());
            let ls: Vec<Rc<Listener>> = nd(t.as_ref()).listeners.borrow().clone();
            for l in ls {
                if l.removed.get() || l.ty != e.ty || l.capture != capture {
                    continue;
                }
                if l.once {
                    t.del(&l.ty, l.f.unchecked_ref(), l.capture);
                }
                e.passive.set(l.passive);
                crate::mock::count_call();
                // an error thrown by a listener is reported, not propagated
                crate::mock::trace("call", t, &l.f, &l.ty, l.capture, l.passive, AsRef::<JsValue>::as_ref(ev).__id());
                let _ = call_function(&l.f, &[AsRef::<JsValue>::as_ref(ev).clone()]);
                crate::mock::trace("called", t, &l.f, &l.ty, l.capture, l.passive, AsRef::<JsValue>::as_ref(ev).__id());
                e.passive.set(false);
                if e.stop_now.get() {
                    break;
                }
            }
        };
        for t in path[1..].iter().rev() {
            inner(t, 1, true);
        }
        inner(&path[0], 2, true);
        inner(&path[0], 2, false);
        if e.bubbles.get() {
            for t in &path[1..] {
                inner(t, 3, false);
            }
        }
        e.phase.set(0);
        *e.current.borrow_mut() = None;
        e.stop.set(false);
        e.stop_now.set(false);
        Ok(!e.prevented.get())
    }
}

pub(crate) fn new_event(class: &str, ty: &str, bubbles: bool, cancelable: bool) -> Event {
    JsValue::__new(
        chain(class),
        Box::new(EvData {
            ty: ty.into(),
            bubbles: Cell::new(bubbles),
            cancelable: Cell::new(cancelable),
            target: RefCell::default(),
            current: RefCell::default(),
            phase: Cell::new(0),
            stop: Cell::new(false),
            stop_now: Cell::new(false),
            prevented: Cell::new(false),
            passive: Cell::new(false),
        }),
    )
    .unchecked_into()
}

impl Event {
    pub const NONE: u16 = 0;
    pub const CAPTURING_PHASE: u16 = 1;
    pub const AT_TARGET: u16 = 2;
    pub const BUBBLING_PHASE: u16 = 3;

    fn ed(&self) -> &EvData {
        AsRef::<JsValue>::as_ref(self).__data::<EvData>().expect("not an Event")
    }
    pub fn new(ty: &str) -> Result<Event, JsValue> {
        Ok(new_event("Event", ty, false, false))
    }
    pub fn type_(&self) -> String {
        self.ed().ty.clone()
    }
    pub fn target(&self) -> Option<EventTarget> {
        self.ed().target.borrow().clone()
    }
    pub fn current_target(&self) -> Option<EventTarget> {
        self.ed().current.borrow().clone()
    }
    pub fn event_phase(&self) -> u16 {
        self.ed().phase.get()
    }
    pub fn bubbles(&self) -> bool {
        self.ed().bubbles.get()
    }
    pub fn cancelable(&self) -> bool {
        self.ed().cancelable.get()
    }
    pub fn default_prevented(&self) -> bool {
        self.ed().prevented.get()
    }
    pub fn prevent_default(&self) {
        let e = self.ed();
        // without effect once dispatch is over, as in a browser where the default action already ran
        if e.cancelable.get() && !e.passive.get() && e.phase.get() != 0 {
            e.prevented.set(true);
        }
    }
    pub fn stop_propagation(&self) {
        self.ed().stop.set(true);
    }
    pub fn stop_immediate_propagation(&self) {
        self.ed().stop.set(true);
        self.ed().stop_now.set(true);
    }
}
macro_rules! new_events {
    ($($t:ident)*) => { $( impl $t {
        pub fn new(ty: &str) -> Result<$t, JsValue> {
            Ok(new_event(stringify!($t), ty, false, false).unchecked_into())
        }
    } )* };
}
new_events!(UiEvent MouseEvent KeyboardEvent FocusEvent InputEvent WheelEvent DragEvent ClipboardEvent CompositionEvent TouchEvent CustomEvent);

macro_rules! dict {
    ($t:ident: $($get:ident $set:ident $old:ident : $ty:ty),*) => {
        impl $t {
            pub fn new() -> $t { JsCast::unchecked_into(js_sys::Object::new()) }
            $(
                pub fn $get(&self) -> Option<$ty> {
                    let v = js_sys::Reflect::get(self.as_ref(), &stringify!($old).into()).unwrap();
                    if v.is_undefined() { None } else { Some(<$ty as wasm_bindgen::convert::FromJs>::from_js(v)) }
                }
                pub fn $set(&self, v: $ty) { js_sys::Reflect::set(self.as_ref(), &stringify!($old).into(), &v.into()).unwrap(); }
                pub fn $old(&mut self, v: $ty) -> &mut Self { self.$set(v); self }
            )*
        }
        impl Default for $t { fn default() -> Self { Self::new() } }
    };
}
dict!(AddEventListenerOptions: get_capture set_capture capture: bool, get_passive set_passive passive: bool, get_once set_once once: bool);
dict!(EventListenerOptions: get_capture set_capture capture: bool);
dict!(EventInit: get_bubbles set_bubbles bubbles: bool, get_cancelable set_cancelable cancelable: bool, get_composed set_composed composed: bool);
dict!(IntersectionObserverInit: );
impl Event {
    pub fn new_with_event_init_dict(ty: &str, i: &EventInit) -> Result<Event, JsValue> {
        Ok(new_event("Event", ty, i.get_bubbles().unwrap_or(false), i.get_cancelable().unwrap_or(false)))
    }
}
