//! Event futures and streams (E01, E02): streams polled directly with identified wakers, and streams awaited by
//! mounted apps, while events are dispatched on a small tree of elements.
use async_ui_web::race;
use async_ui_web::event_traits::{EmitElementEvent, EmitEvent, EmitHtmlElementEvent};
use async_ui_web_html::events::EventFutureStream;
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use vcommon::{guarded, log, waker, waker::Hub, J};
use wasm_bindgen::{JsCast, JsValue};
use web_sys::mock;

/// An event stream of any class of events. Yields the event and whether it really is of that class.
trait Es {
    fn poll(&mut self, cx: &mut Context<'_>, as_future: bool) -> Poll<Option<(web_sys::Event, bool)>>;
    fn capture(&mut self, b: bool);
    fn passive(&mut self, b: bool);
}
impl<E: JsCast + AsRef<JsValue> + 'static> Es for EventFutureStream<E> {
    fn poll(&mut self, cx: &mut Context<'_>, as_future: bool) -> Poll<Option<(web_sys::Event, bool)>> {
        let f = |e: E| {
            let js: JsValue = e.as_ref().clone();
            let ok = js.has_type::<E>();
            (js.unchecked_into::<web_sys::Event>(), ok)
        };
        if as_future {
            Future::poll(Pin::new(self), cx).map(|e| Some(f(e)))
        } else {
            Pin::new(self).poll_next(cx).map(|e| e.map(f))
        }
    }
    fn capture(&mut self, b: bool) {
        self.set_capture(b)
    }
    fn passive(&mut self, b: bool) {
        self.set_passive(b)
    }
}
macro_rules! table {
    ($t:expr, $how:expr, [$($n:literal => $f:ident),*]) => {
        match $how {
            $($n => Box::new($t.$f()) as Box<dyn Es>,)*
            x => panic!("no method for {x}"),
        }
    };
}
fn make(t: &web_sys::HtmlElement, d: &J) -> Box<dyn Es> {
    let ty = d.get("ty").str();
    let mut s: Box<dyn Es> = if d.get("raw").boolean() {
        let target: &web_sys::EventTarget = t.as_ref();
        Box::new(target.until_event::<web_sys::Event>(ty.to_string().into()))
    } else {
        table!(t, ty, ["cancel" => until_cancel, "error" => until_error, "scroll" => until_scroll, "securitypolicyviolation" => until_securitypolicyviolation, "select" => until_select, "wheel" => until_wheel, "compositionend" => until_compositionend, "compositionstart" => until_compositionstart, "compositionupdate" => until_compositionupdate, "blur" => until_blur, "focus" => until_focus, "focusin" => until_focusin, "focusout" => until_focusout, "fullscreenchange" => until_fullscreenchange, "fullscreenerror" => until_fullscreenerror, "keydown" => until_keydown, "keyup" => until_keyup, "auxclick" => until_auxclick, "click" => until_click, "contextmenu" => until_contextmenu, "dblclick" => until_dblclick, "mousedown" => until_mousedown, "mouseenter" => until_mouseenter, "mouseleave" => until_mouseleave, "mousemove" => until_mousemove, "mouseout" => until_mouseout, "mouseover" => until_mouseover, "mouseup" => until_mouseup, "touchcancel" => until_touchcancel, "touchend" => until_touchend, "touchmove" => until_touchmove, "touchstart" => until_touchstart, "input" => until_input, "change" => until_change, "drag" => until_drag, "dragend" => until_dragend, "dragenter" => until_dragenter, "dragleave" => until_dragleave, "dragover" => until_dragover, "dragstart" => until_dragstart, "drop" => until_drop, "load" => until_load])
    };
    // 0: not set; 1: false; 2: true
    let (c, p) = (d.get("cap").int(), d.get("pas").int());
    // the last value given for each option counts, whatever the order of the calls
    let ord = d.get("ord").int();
    let times = |again: bool| if again { [true, false] } else { [false, false] };
    for first in [true, false] {
        if c > 0 && first == (ord & 1 == 0) {
            for flip in times(ord & 2 != 0) {
                s.capture((c == 2) != flip);
            }
        }
        if p > 0 && first == (ord & 1 == 1) {
            for flip in times(ord & 4 != 0) {
                s.passive((p == 2) != flip);
            }
        }
    }
    s
}
struct World {
    hub: Hub,
    els: RefCell<BTreeMap<i64, web_sys::HtmlElement>>,
    /// serial of an element -> its name
    names: RefCell<BTreeMap<u64, i64>>,
    streams: RefCell<BTreeMap<i64, Sw>>,
    tasks: RefCell<BTreeMap<i64, async_executor::Task<()>>>,
    nexts: Cell<i64>,
    budget: Cell<i64>,
    cur: RefCell<Vec<web_sys::Event>>,
}
fn ev(op: &str, f: Vec<(&str, J)>) {
    let mut v = vec![("op".to_string(), J::s(op))];
    v.extend(f.into_iter().map(|(k, x)| (k.to_string(), x)));
    log(J::Obj(v));
}
/// A stream with its identity; polls and the drop are observed.
struct Sw {
    s: i64,
    app: bool,
    es: Option<Box<dyn Es>>,
    as_future: bool,
}
impl Sw {
    fn new(w: &World, d: &J, app: bool) -> Sw {
        let s = w.nexts.get();
        w.nexts.set(s + 1);
        let t = d.get("tgt").int();
        let el = w.els.borrow()[&t].clone();
        ev("new", vec![("s", J::i(s)), ("tgt", J::i(t)), ("ty", d.get("ty").clone()), ("cap", J::b(d.get("cap").int() == 2)), ("pas", J::b(d.get("pas").int() == 2)), ("app", J::b(app))]);
        Sw { s, app, es: Some(make(&el, d)), as_future: d.get("fut").boolean() }
    }
    fn poll_with(&mut self, wid: i64, cx: &mut Context<'_>) -> Poll<web_sys::Event> {
        ev("poll", vec![("s", J::i(self.s)), ("w", J::i(wid))]);
        let r = self.es.as_mut().unwrap().poll(cx, self.as_future);
        let (id, inst) = match &r {
            Poll::Ready(Some((e, ok))) => (mock::id(e) as i64, *ok),
            Poll::Ready(None) => (-1, false),
            Poll::Pending => (0, true),
        };
        ev("polled", vec![("s", J::i(self.s)), ("r", J::i(id)), ("inst", J::b(inst))]);
        match r {
            Poll::Ready(Some((e, _))) => Poll::Ready(e),
            _ => Poll::Pending,
        }
    }
}
impl Future for Sw {
    type Output = web_sys::Event;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<web_sys::Event> {
        assert!(self.app);
        self.get_mut().poll_with(0, cx)
    }
}
impl Drop for Sw {
    fn drop(&mut self) {
        ev("drop", vec![("s", J::i(self.s))]);
        drop(self.es.take());
        ev("dropped", vec![("s", J::i(self.s))]);
    }
}
/// Marks the polls of an app's future.
struct App<F>(Pin<Box<F>>);
impl<F: Future<Output = ()>> Future for App<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        ev("app", vec![]);
        let r = self.0.as_mut().poll(cx);
        ev("apped", vec![]);
        r
    }
}
/// One strand of an app: waits for any of its events, again and again.
async fn strand(w: Rc<World>, d: J) {
    let acts = d.get("acts").list().to_vec();
    let mut k = 0;
    let mut one = None;
    loop {
        let e = match d.get("mode").str() {
            // the same stream for all events
            "stream" => {
                let s = one.get_or_insert_with(|| Sw::new(&w, &d.get("on").list()[0], true));
                s.await
            }
            // a future per event; several wait at once and the first wins
            _ => race(d.get("on").list().iter().map(|o| Sw::new(&w, o, true)).collect::<Vec<_>>()).await,
        };
        let stop = {
            let todo = acts.get(k).cloned().unwrap_or(J::Arr(vec![]));
            k += 1;
            let mut stop = false;
            for a in todo.list() {
                match a.list()[0].str() {
                    "stop" => stop = true,
                    "prevent" => {
                        ev("prevent", vec![("e", J::i(mock::id(&e) as i64))]);
                        e.prevent_default();
                    }
                    _ => w.act(a.list()),
                }
            }
            stop
        };
        if stop {
            return;
        }
    }
}
impl World {
    fn act(self: &Rc<Self>, o: &[J]) {
        self.budget.set(self.budget.get() - 1);
        if self.budget.get() < 0 {
            return;
        }
        match o[0].str() {
            "new" => {
                let s = Sw::new(self, &o[1], false);
                self.streams.borrow_mut().insert(s.s, s);
            }
            "poll" => {
                let s = self.pick(&o[1]);
                if let Some((s, mut sw)) = s {
                    let wid = o[2].int();
                    let wk = self.hub.waker(wid);
                    let _ = sw.poll_with(wid, &mut Context::from_waker(&wk));
                    self.streams.borrow_mut().insert(s, sw);
                }
            }
            "drop" => {
                if let Some((_, sw)) = self.pick(&o[1]) {
                    drop(sw);
                }
            }
            "disp" => {
                let el = self.els.borrow()[&o[1].int()].clone();
                let e = mock::event(o[3].str(), o[2].str(), o[4].boolean(), o[5].boolean());
                self.cur.borrow_mut().push(e.clone());
                let id = J::i(mock::id(&e) as i64);
                ev("disp", vec![("e", id.clone()), ("tgt", o[1].clone()), ("ty", o[2].clone()), ("bub", o[4].clone()), ("can", o[5].clone())]);
                let r = el.dispatch_event(&e).unwrap();
                ev("disped", vec![("e", id), ("prev", J::b(!r))]);
            }
            "mount" => {
                let host = web_sys::window().unwrap().document().unwrap().create_element("div").unwrap();
                let i = o[1].int();
                if self.tasks.borrow().contains_key(&i) {
                    return;
                }
                let ws: Vec<_> = o[2].list().iter().map(|d| strand(self.clone(), d.clone())).collect();
                let f = App(Box::pin(async move {
                    async_ui_web::join(ws).await;
                }));
                let t = async_ui_web::mount_at(f, host.into());
                self.tasks.borrow_mut().insert(i, t);
                ev("mount", vec![]);
            }
            "unmount" => {
                let t = self.tasks.borrow_mut().remove(&o[1].int());
                drop(t);
                ev("unmount", vec![]);
            }
            "timers" => {
                let mut k = 0;
                ev("timers", vec![]);
                while mock::run_timer() && k < 1000 {
                    k += 1;
                }
                ev("quiet", vec![]);
            }
            x => panic!("unknown op {x}"),
        }
    }
    /// a direct stream, taken out
    fn pick(&self, k: &J) -> Option<(i64, Sw)> {
        let mut m = self.streams.borrow_mut();
        let ks: Vec<i64> = m.keys().copied().collect();
        if ks.is_empty() {
            return None;
        }
        let s = ks[k.us() % ks.len()];
        m.remove(&s).map(|x| (s, x))
    }
}
pub fn run(sc: &J) {
    let w = Rc::new(World {
        hub: Hub::new(),
        els: Default::default(),
        names: Default::default(),
        streams: Default::default(),
        tasks: Default::default(),
        nexts: Cell::new(1),
        budget: Cell::new(2000),
        cur: Default::default(),
    });
    let doc = web_sys::window().unwrap().document().unwrap();
    for (i, p) in sc.get("parents").list().iter().enumerate() {
        let e: web_sys::HtmlElement = doc.create_element("div").unwrap().unchecked_into();
        if p.int() >= 0 {
            w.els.borrow()[&p.int()].append_child(&e).unwrap();
        }
        w.names.borrow_mut().insert(mock::id(&e), i as i64);
        w.els.borrow_mut().insert(i as i64, e);
    }
    let w2 = Rc::downgrade(&w);
    mock::set_trace(Some(Rc::new(move |kind, t, f, ty, cap, pas, e| {
        let Some(w) = w2.upgrade() else { return };
        let tgt = w.names.borrow().get(&mock::id(t)).copied().unwrap_or(-1);
        ev(kind, vec![("f", J::i(f as i64)), ("tgt", J::i(tgt)), ("ty", J::s(ty)), ("cap", J::b(cap)), ("pas", J::b(pas)), ("e", J::i(e as i64))]);
    })));
    waker::set_hook(Some(Rc::new(|id| ev("woke", vec![("w", J::i(id))]))));
    let mut ok = true;
    let mut ops = sc.get("ops").list().to_vec();
    ops.push(J::Arr(vec![J::s("fin")]));
    for o in ops {
        let o = o.list();
        let r = guarded(|| match o[0].str() {
            "fin" => {
                w.tasks.borrow_mut().clear();
                let ss = std::mem::take(&mut *w.streams.borrow_mut());
                drop(ss);
                w.act(&[J::s("timers")]);
            }
            _ => w.act(o),
        });
        if let Err(m) = r {
            log(J::obj([("op", J::s("panic")), ("during", o[0].clone()), ("msg", J::s(&m))]));
            ok = false;
            break;
        }
        let e = mock::take_errors();
        if !e.is_empty() {
            log(J::obj([("op", J::s("error")), ("msg", J::s(e.join("; ")))]));
        }
    }
    if ok {
        let left: usize = w.els.borrow().values().map(|e| mock::listeners(e).len()).sum();
        ev("end", vec![("left", J::i(left as i64)), ("held", J::i(w.hub.held().len() as i64))]);
    }
    mock::set_trace(None);
    waker::set_hook(None);
    std::mem::forget(std::mem::take(&mut *w.tasks.borrow_mut()));
}
