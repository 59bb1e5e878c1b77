//! UI programs (D01-D03, L01-L04, S01): a program tree is interpreted as nested async functions using the
//! crates' public API; the driver opens gates, edits lists and slots, mounts and unmounts, and takes snapshots.
use async_ui_web::components::DynamicSlot;
use async_ui_web::html;
use async_ui_web::lists::{DiffedList, DynamicList, ListModel, ModeledList};
use async_ui_web::prelude_traits::*;
use async_ui_web::{join, race, race_ok, try_join, NoChild};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::{pending, poll_fn, Future};
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::task::{Context, Poll, Waker};
use vcommon::{guarded, log, J};
use web_sys::mock;

type R = Result<(), ()>;
type BoxFut = Pin<Box<dyn Future<Output = R>>>;

/// A list item's or slot's future: its life is observed.
pub struct Tf {
    px: String,
    fut: BoxFut,
    done: bool,
    w: Rc<World>,
}
impl Future for Tf {
    type Output = R;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        if self.done {
            log(J::obj([("op", J::s("repoll")), ("px", J::s(&self.px))]));
            return Poll::Pending;
        }
        let r = self.fut.as_mut().poll(cx);
        self.done = r.is_ready();
        r
    }
}
impl Drop for Tf {
    fn drop(&mut self) {
        self.w.alive.borrow_mut().remove(&self.px);
    }
}
#[derive(Default)]
struct Gate {
    open: Cell<bool>,
    wakers: RefCell<Vec<Waker>>,
}
type Renderer = Rc<dyn Fn(&i64) -> Tf>;
type Dl = DynamicList<'static, i64, Tf>;
type DiffL = DiffedList<'static, i64, Box<dyn FnMut(&i64) -> Tf>, Tf>;
type ModL = ModeledList<'static, i64, Tf, Box<dyn Fn(&i64) -> Tf>>;
#[derive(Clone)]
enum ListH {
    Dyn(Rc<Dl>),
    Diff(Rc<DiffL>),
    Model(Rc<ModL>),
}
struct ListReg {
    kind: String,
    weak: Option<Weak<Dl>>,
    h: Option<ListH>,
    n: Rc<Cell<i64>>,
    tpl: J,
}
pub struct World {
    shared: RefCell<BTreeMap<String, Rc<html::Div>>>,
    gates: RefCell<BTreeMap<i64, Rc<Gate>>>,
    lists: RefCell<BTreeMap<i64, ListReg>>,
    models: RefCell<BTreeMap<i64, ListModel<i64>>>,
    slots: RefCell<BTreeMap<i64, Rc<DynamicSlot<Tf>>>>,
    /// serial -> id of the program
    names: RefCell<BTreeMap<u64, String>>,
    foreign: RefCell<BTreeSet<u64>>,
    alive: RefCell<BTreeSet<String>>,
    hosts: RefCell<BTreeMap<i64, web_sys::Element>>,
    keep: RefCell<Vec<web_sys::Node>>,
    nslot: Cell<i64>,
    /// nested driver operations are performed at most this deep
    depth: Cell<i64>,
}
fn doc() -> web_sys::Document {
    web_sys::window().unwrap().document().unwrap()
}
impl World {
    fn gate(&self, g: i64) -> Rc<Gate> {
        self.gates.borrow_mut().entry(g).or_default().clone()
    }
    fn wait(&self, g: i64) -> impl Future<Output = ()> {
        let g = self.gate(g);
        poll_fn(move |cx| {
            if g.open.get() {
                Poll::Ready(())
            } else {
                let mut ws = g.wakers.borrow_mut();
                if !ws.iter().any(|w| w.will_wake(cx.waker())) {
                    ws.push(cx.waker().clone());
                }
                Poll::Pending
            }
        })
    }
    fn mk(&self, id: String, node: &web_sys::Node) {
        let o = mock::id(node);
        log(J::obj([("op", J::s("mk")), ("id", J::s(&id)), ("o", J::i(o as i64))]));
        self.names.borrow_mut().insert(o, id);
        self.keep.borrow_mut().push(node.clone()); // serials stay unique while we look at them
    }
}
macro_rules! comp {
    ($w:expr, $id:expr, $tag:expr, $fut:expr, [$($k:literal => $c:ident),*]) => {
        match $tag {
            $($k => { let e = html::$c::new(); $w.mk($id, &mock::as_node(&e.element)); e.render($fut).await })*
            _ => { let e = html::Div::new(); $w.mk($id, &mock::as_node(&e.element)); e.render($fut).await }
        }
    };
}
async fn elem<F: Future<Output = R>>(w: &World, id: String, tag: i64, f: F) -> R {
    comp!(w, id, tag, f, [1 => Span, 2 => Button, 3 => Ul, 4 => Li, 5 => Paragraph, 6 => Pre, 7 => Label, 8 => Form, 9 => Table])
}
fn all<const N: usize>(v: Vec<BoxFut>) -> [BoxFut; N] {
    v.try_into().ok().unwrap()
}
fn kids(w: &Rc<World>, p: &J, px: &str) -> Vec<BoxFut> {
    p.get("kids").list().iter().map(|k| interp(w, k, px)).collect()
}
macro_rules! tup {
    ($comb:ident, $it:ident; $($i:ident)*) => {{ $(let $i = $it.next().unwrap();)* $comb(($($i,)*)).await }};
}
async fn do_join(v: Vec<BoxFut>, shape: &str) -> R {
    let n = v.len();
    let mut it = v.into_iter();
    match (shape, n) {
        ("tup", 1) => drop(tup!(join, it; a)),
        ("tup", 2) => drop(tup!(join, it; a b)),
        ("tup", 3) => drop(tup!(join, it; a b c)),
        ("tup", 4) => drop(tup!(join, it; a b c d)),
        ("tup", 5) => drop(tup!(join, it; a b c d e)),
        ("tup", 7) => drop(tup!(join, it; a b c d e f g)),
        ("tup", 9) => drop(tup!(join, it; a b c d e f g h i)),
        ("tup", 12) => drop(tup!(join, it; a b c d e f g h i j k l)),
        ("arr", 2) => drop(join(all::<2>(it.collect())).await),
        ("arr", 3) => drop(join(all::<3>(it.collect())).await),
        ("arr", 9) => drop(join(all::<9>(it.collect())).await),
        ("arr", 20) => drop(join(all::<20>(it.collect())).await),
        ("arr", 70) => drop(join(all::<70>(it.collect())).await),
        ("arr", 300) => drop(join(all::<300>(it.collect())).await),
        _ => drop(join(it.collect::<Vec<_>>()).await),
    }
    Ok(())
}
async fn do_race(v: Vec<BoxFut>, shape: &str) -> R {
    let n = v.len();
    let mut it = v.into_iter();
    let _ = match (shape, n) {
        ("tup", 1) => tup!(race, it; a),
        ("tup", 2) => tup!(race, it; a b),
        ("tup", 3) => tup!(race, it; a b c),
        ("tup", 4) => tup!(race, it; a b c d),
        ("tup", 5) => tup!(race, it; a b c d e),
        ("tup", 7) => tup!(race, it; a b c d e f g),
        ("tup", 9) => tup!(race, it; a b c d e f g h i),
        ("tup", 12) => tup!(race, it; a b c d e f g h i j k l),
        ("arr", 2) => race(all::<2>(it.collect())).await,
        ("arr", 3) => race(all::<3>(it.collect())).await,
        ("arr", 9) => race(all::<9>(it.collect())).await,
        ("arr", 20) => race(all::<20>(it.collect())).await,
        ("arr", 70) => race(all::<70>(it.collect())).await,
        ("arr", 300) => race(all::<300>(it.collect())).await,
        ("sel", 2) => {
            let (a, b) = (it.next().unwrap(), it.next().unwrap());
            async_ui_web::select! { x = a => x, _y = b => Ok(()) }
        }
        _ => race(it.collect::<Vec<_>>()).await,
    };
    Ok(())
}
async fn do_try_join(v: Vec<BoxFut>, shape: &str) -> R {
    let n = v.len();
    let mut it = v.into_iter();
    match (shape, n) {
        ("tup", 1) => tup!(try_join, it; a).map(|_| ()),
        ("tup", 2) => tup!(try_join, it; a b).map(|_| ()),
        ("tup", 3) => tup!(try_join, it; a b c).map(|_| ()),
        ("tup", 7) => tup!(try_join, it; a b c d e f g).map(|_| ()),
        ("tup", 9) => tup!(try_join, it; a b c d e f g h i).map(|_| ()),
        ("arr", 2) => try_join(all::<2>(it.collect())).await.map(|_| ()),
        ("arr", 3) => try_join(all::<3>(it.collect())).await.map(|_| ()),
        ("arr", 9) => try_join(all::<9>(it.collect())).await.map(|_| ()),
        ("arr", 70) => try_join(all::<70>(it.collect())).await.map(|_| ()),
        ("arr", 300) => try_join(all::<300>(it.collect())).await.map(|_| ()),
        _ => try_join(it.collect::<Vec<_>>()).await.map(|_| ()),
    }
}
async fn do_race_ok(v: Vec<BoxFut>, shape: &str) -> R {
    let n = v.len();
    let mut it = v.into_iter();
    match (shape, n) {
        ("tup", 1) => tup!(race_ok, it; a).map_err(|_| ()),
        ("tup", 2) => tup!(race_ok, it; a b).map_err(|_| ()),
        ("tup", 3) => tup!(race_ok, it; a b c).map_err(|_| ()),
        ("tup", 7) => tup!(race_ok, it; a b c d e f g).map_err(|_| ()),
        ("tup", 9) => tup!(race_ok, it; a b c d e f g h i).map_err(|_| ()),
        ("arr", 2) => race_ok(all::<2>(it.collect())).await.map_err(|_| ()),
        ("arr", 3) => race_ok(all::<3>(it.collect())).await.map_err(|_| ()),
        ("arr", 9) => race_ok(all::<9>(it.collect())).await.map_err(|_| ()),
        ("arr", 70) => race_ok(all::<70>(it.collect())).await.map_err(|_| ()),
        ("arr", 300) => race_ok(all::<300>(it.collect())).await.map_err(|_| ()),
        _ => race_ok(it.collect::<Vec<_>>()).await.map_err(|_| ()),
    }
}
struct OnDrop(Rc<World>, J);
impl Drop for OnDrop {
    fn drop(&mut self) {
        for op in self.1.list() {
            do_op(&self.0, op, None);
        }
    }
}

/// Polls the inner future with a new waker each time, of which only the latest is of any use: what a
/// future experiences that is awaited in one place and later in another.
struct Rewake<F> {
    fut: F,
    last: Option<std::sync::Arc<Relay>>,
}
struct Relay(std::sync::Mutex<Option<Waker>>);
impl std::task::Wake for Relay {
    fn wake(self: std::sync::Arc<Self>) {
        let w = self.0.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake()
        }
    }
}
impl Future for Rewake<BoxFut> {
    type Output = R;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        if let Some(old) = self.last.take() {
            let w = old.0.lock().unwrap().take();
            drop(w);
        }
        let relay = std::sync::Arc::new(Relay(std::sync::Mutex::new(Some(cx.waker().clone()))));
        self.last = Some(relay.clone());
        let w = Waker::from(relay);
        self.fut.as_mut().poll(&mut Context::from_waker(&w))
    }
}
fn interp(w: &Rc<World>, p: &J, px: &str) -> BoxFut {
    let f = interp_(w, p, px);
    if p.get("rw").boolean() {
        return Box::pin(Rewake { fut: f, last: None });
    }
    f
}
fn interp_(w: &Rc<World>, p: &J, px: &str) -> BoxFut {
    let (w, p, px) = (w.clone(), p.clone(), px.to_string());
    if !p.get("st").str().is_empty() {
        return interp_static(&w, &p, &px);
    }
    let id = format!("{px}{}", p.get("id").str());
    match p.get("t").str() {
        // an element that is shown several times, one after the other
        "el" if p.has("sh") => Box::pin(async move {
            let k = interp(&w, p.get("kid"), &px);
            let e = w.shared.borrow_mut().entry(format!("{px}{}", p.get("sh").int())).or_insert_with(|| Rc::new(html::Div::new())).clone();
            w.mk(id, &mock::as_node(&e.element));
            e.render(k).await
        }),
        "el" => Box::pin(async move {
            let k = interp(&w, p.get("kid"), &px);
            elem(&w, id, p.get("tag").int(), k).await
        }),
        "text" => Box::pin(async move {
            if p.get("tag").int() % 2 == 0 {
                let t = html::Text::new();
                t.set_data(&id);
                w.mk(id, &mock::as_node(&t.node));
                t.render().await;
            } else {
                let e = html::Input::new();
                w.mk(id, &mock::as_node(&e.element));
                e.render().await;
            }
            Ok(())
        }),
        "nochild" => Box::pin(async move {
            let e = html::Span::new();
            w.mk(id, &mock::as_node(&e.element));
            e.render(NoChild).await;
            Ok(())
        }),
        "pend" => Box::pin(pending()),
        "ready" => Box::pin(std::future::ready(Ok(()))),
        "join" => Box::pin(async move { do_join(kids(&w, &p, &px), p.get("shape").str()).await }),
        "race" => Box::pin(async move { do_race(kids(&w, &p, &px), p.get("shape").str()).await }),
        "try_join" => Box::pin(async move { do_try_join(kids(&w, &p, &px), p.get("shape").str()).await }),
        "race_ok" => Box::pin(async move { do_race_ok(kids(&w, &p, &px), p.get("shape").str()).await }),
        "seq" => Box::pin(async move {
            let mut r = Ok(());
            for k in p.get("kids").list() {
                r = interp(&w, k, &px).await;
            }
            r
        }),
        "gate" => Box::pin(async move {
            w.wait(p.get("g").int()).await;
            interp(&w, p.get("kid"), &px).await
        }),
        "until" => Box::pin(async move {
            let body = interp(&w, p.get("kid"), &px);
            w.wait(p.get("g").int()).meanwhile(body).await;
            Ok(())
        }),
        "meanwhile" => Box::pin(async move {
            let mut ks = kids(&w, &p, &px).into_iter();
            let f = ks.next().unwrap();
            f.meanwhile(ks.next().unwrap()).await
        }),
        "pendafter" => {
            let k = interp(&w, p.get("kid"), &px);
            Box::pin(k.pend_after())
        }
        "fail" => Box::pin(async move {
            w.wait(p.get("g").int()).await;
            Err(())
        }),
        "yield" => Box::pin(async move {
            // comes back on its own after a few wakes
            for _ in 0..p.get("n").int() {
                futures_lite::future::yield_now().await;
            }
            interp(&w, p.get("kid"), &px).await
        }),
        "act" => Box::pin(async move {
            log(J::obj([("op", J::s("acted")), ("a", p.get("a").clone())]));
            for op in p.get("ops").list() {
                do_op(&w, op, None);
            }
            Ok(())
        }),
        "ondrop" => Box::pin(async move {
            let _g = OnDrop(w.clone(), p.get("ops").clone());
            interp(&w, p.get("kid"), &px).await
        }),
        "list" => Box::pin(async move {
            let h = w.lists.borrow().get(&p.get("l").int()).and_then(|r| r.h.clone());
            match h {
                Some(ListH::Dyn(l)) => l.render().await,
                Some(ListH::Diff(l)) => l.render().await,
                Some(ListH::Model(l)) => l.render().await,
                None => pending().await,
            }
            Ok(())
        }),
        "own" => Box::pin(async move {
            // reachable for the driver, but owned by this future
            let l: Rc<Dl> = Rc::new(DynamicList::new());
            if let Some(r) = w.lists.borrow_mut().get_mut(&p.get("l").int()) {
                r.weak = Some(Rc::downgrade(&l));
            }
            for op in p.get("ops").list() {
                do_op(&w, op, None);
            }
            l.render().await;
            Ok(())
        }),
        "ownv" => Box::pin(async move { ownv(&w, &p, &px).await }),
        "slot" => Box::pin(async move {
            let s = w.slots.borrow().get(&p.get("s").int()).cloned().unwrap();
            s.render().await;
            Ok(())
        }),
        x => panic!("node {x}"),
    }
}
/// Resolves with Ok(()) whatever the inner future's output is.
struct Okay<F>(F);
impl<F: Future> Future for Okay<F> {
    type Output = R;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<R> {
        // the inner future is pinned with the wrapper
        unsafe { self.map_unchecked_mut(|x| &mut x.0) }.poll(cx).map(|_| Ok(()))
    }
}
/// A program written down as one unboxed composition, as ordinary user code would have it.
macro_rules! composed {
    ($w:expr, $p:expr, $px:expr, |$f:ident| $go:expr, $els:expr) => {{
        let (w, p, px): (&Rc<World>, &J, &str) = ($w, $p, $px);
        let b = |q: &J| interp(w, q, px);
        let d = |q: &J| {
            let e = html::Div::new();
            w.mk(format!("{px}{}", q.get("id").str()), &mock::as_node(&e.element));
            e
        };
        let k = |q: &J, i: usize| q.get("kids").list()[i].clone();
        match p.get("st").str() {
            "elj" => {
                let j = p.get("kid");
                let e = d(p);
                if j.get("kids").list().len() == 2 {
                    let $f = Okay(e.render(join((b(&k(j, 0)), b(&k(j, 1))))));
                    $go
                } else {
                    let $f = Okay(e.render(join((b(&k(j, 0)), b(&k(j, 1)), b(&k(j, 2))))));
                    $go
                }
            }
            "sel" => {
                let j = p.get("kid");
                let (x, y) = (k(j, 0), k(j, 1));
                let (e0, e1, e2) = (d(p), d(&x), d(&y));
                let $f = Okay(e0.render(join((e1.render(b(x.get("kid"))), e2.render(b(y.get("kid")))))));
                $go
            }
            "nest3" => {
                let q = p.get("kid");
                let j = q.get("kid");
                let (x, y) = (k(j, 0), k(j, 1));
                let (e0, e1, e2) = (d(p), d(q), d(&x));
                let $f = Okay(e0.render(e1.render(join((e2.render(b(x.get("kid"))), b(&y))))));
                $go
            }
            "jel" => {
                let (x, y) = (k(p, 0), k(p, 1));
                let (e1, e2) = (d(&x), d(&y));
                let $f = Okay(join((e1.render(b(x.get("kid"))), e2.render(b(y.get("kid"))))));
                $go
            }
            "jela" => {
                let (x, y) = (k(p, 0), k(p, 1));
                let (e1, e2) = (d(&x), d(&y));
                let $f = Okay(join([e1.render(b(x.get("kid"))), e2.render(b(y.get("kid")))]));
                $go
            }
            "srace" => {
                let (x, y) = (k(p, 0), k(p, 1));
                let e1 = d(&x);
                let $f = Okay(race((Okay(e1.render(b(x.get("kid")))), b(&y))));
                $go
            }
            "sjoin" => {
                let (x, y) = (k(p, 0), k(p, 1));
                let $f = Okay(join((join((b(&k(&x, 0)), b(&k(&x, 1)))), join([b(&k(&y, 0)), b(&k(&y, 1))]))));
                $go
            }
            "selement" => {
                // a list owned by the very future a container holds
                let e = d(p);
                let (w2, q, px2) = (w.clone(), p.get("kid").clone(), px.to_string());
                let $f = Okay(e.render(async move { ownv(&w2, &q, &px2).await }));
                $go
            }
            _ => $els,
        }
    }};
}
/// Runs a static composition when first polled (its nodes must not be created earlier).
fn interp_static(w: &Rc<World>, p: &J, px: &str) -> BoxFut {
    let (w, p, px) = (w.clone(), p.clone(), px.to_string());
    Box::pin(async move { composed!(&w, &p, &px, |f| f.await, unreachable!()) })
}
/// A list that is a local variable of the async function rendering it, edited by a sibling.
async fn ownv(w: &Rc<World>, p: &J, _px: &str) -> R {
    let list: Dl = DynamicList::new();
    join((list.render(), async {
        for st in p.get("script").list() {
            w.wait(st.get("g").int()).await;
            log(J::obj([("op", J::s("acted")), ("a", st.get("a").clone())]));
            for op in st.get("ops").list() {
                do_op(w, op, Some(&list));
            }
        }
        pending::<()>().await
    }))
    .await;
    Ok(())
}
impl World {
    fn tf(self: &Rc<Self>, px: String, prog: &J) -> Tf {
        self.alive.borrow_mut().insert(px.clone());
        Tf { fut: interp(self, prog, &px), px, done: false, w: self.clone() }
    }
}
fn opt_key(j: &J) -> Option<i64> {
    j.list().first().map(|x| x.int())
}
fn snap_node(w: &World, n: &web_sys::Node, out: &mut Vec<J>) {
    if mock::tag(n) == "#comment" || n.node_type() == 8 {
        return;
    }
    let o = mock::id(n);
    let mut ks = vec![];
    for c in mock::children(n) {
        snap_node(w, &c, &mut ks);
    }
    let f = w.foreign.borrow().contains(&o);
    let id = w.names.borrow().get(&o).cloned().unwrap_or_else(|| format!("?{o}"));
    out.push(J::obj([("id", J::s(id)), ("o", J::i(o as i64)), ("f", J::b(f)), ("k", J::Arr(ks))]));
}
fn hosts(w: &World) -> J {
    let hs = w.hosts.borrow().clone();
    J::arr(hs.iter().map(|(h, e)| {
        let mut ks = vec![];
        for c in mock::children(&mock::as_node(e)) {
            snap_node(w, &c, &mut ks);
        }
        J::obj([("h", J::i(*h)), ("o", J::i(mock::id(e) as i64)), ("k", J::Arr(ks))])
    }))
}
fn find_node(w: &World, n: &web_sys::Node, id: &str) -> Option<web_sys::Node> {
    if w.names.borrow().get(&mock::id(n)).is_some_and(|x| x == id) {
        return Some(n.clone());
    }
    mock::children(n).iter().find_map(|c| find_node(w, c, id))
}
pub fn rt(r: &R) -> &'static str {
    if r.is_ok() {
        "ok"
    } else {
        "err"
    }
}

/// One operation; logs its event. Operations on things that do not exist (any more) do nothing.
fn do_op(w: &Rc<World>, op: &J, local: Option<&Dl>) {
    let name = op.get("op").str();
    let l = op.get("l").int();
    // the list the operation is for
    enum T<'a> {
        L(&'a Dl),
        R(ListH),
    }
    let list = || -> Option<T<'_>> {
        if let Some(d) = local {
            return Some(T::L(d));
        }
        let ls = w.lists.borrow();
        let r = ls.get(&l)?;
        if let Some(h) = &r.h {
            return Some(T::R(h.clone()));
        }
        r.weak.as_ref().and_then(|x| x.upgrade()).map(|d| T::R(ListH::Dyn(d)))
    };
    let mut ev: Vec<(&str, J)> = vec![("op", J::s(name))];
    macro_rules! dl {
        ($d:ident, $e:expr) => {
            match list() {
                Some(T::L($d)) => $e,
                Some(T::R(ListH::Dyn($d))) => $e,
                _ => return,
            }
        };
    }
    match name {
        "open" => {
            let g = w.gate(op.get("g").int());
            g.open.set(true);
            ev.push(("g", op.get("g").clone()));
            log(J::obj(ev));
            let ws = std::mem::take(&mut *g.wakers.borrow_mut());
            for x in ws {
                x.wake();
            }
            return;
        }
        "ins" => {
            let k = op.get("k").int();
            dl!(d, {
                let n = {
                    let ls = w.lists.borrow();
                    let r = &ls[&l];
                    r.n.set(r.n.get() + 1);
                    r.n.get()
                };
                let px = format!("L{l}:{k}:{n}:");
                let f = w.tf(px.clone(), op.get("prog"));
                let before = opt_key(op.get("before"));
                let ret = d.insert(k, f, before.as_ref());
                ev.push(("px", J::s(px)));
                ev.push(("ret", J::b(ret)));
            });
            for f in ["l", "k", "before", "prog"] {
                ev.push((f, op.get(f).clone()));
            }
        }
        "rm" => {
            dl!(d, ev.push(("ret", J::b(d.remove(&op.get("k").int())))));
            ev.push(("l", J::i(l)));
            ev.push(("k", op.get("k").clone()));
        }
        "mv" => {
            let k = op.get("k").int();
            dl!(d, {
                if !d.contains_key(&k) {
                    return;
                }
                let b = opt_key(op.get("before"));
                d.move_before(&k, b.as_ref())
            });
            for f in ["l", "k", "before"] {
                ev.push((f, op.get(f).clone()));
            }
        }
        "sw" => {
            let (a, b) = (op.get("a").int(), op.get("b").int());
            dl!(d, {
                if !d.contains_key(&a) || !d.contains_key(&b) {
                    return;
                }
                d.swap(&a, &b)
            });
            for f in ["l", "a", "b"] {
                ev.push((f, op.get(f).clone()));
            }
        }
        "retain" => {
            let keep: Vec<i64> = op.get("keep").list().iter().map(|x| x.int()).collect();
            let mut seen = vec![];
            dl!(d, d.retain(|k| {
                seen.push(*k);
                keep.contains(k)
            }));
            ev.push(("seen", J::ints(seen)));
            ev.push(("l", J::i(l)));
            ev.push(("keep", op.get("keep").clone()));
        }
        "has" => {
            let k = op.get("k").int();
            let r = match list() {
                Some(T::L(d)) => d.contains_key(&k),
                Some(T::R(ListH::Dyn(d))) => d.contains_key(&k),
                Some(T::R(ListH::Diff(d))) => d.contains_key(&k),
                _ => return,
            };
            ev.push(("l", J::i(l)));
            ev.push(("k", J::i(k)));
            ev.push(("ret", J::b(r)));
        }
        "upd" => {
            let keys: Vec<i64> = op.get("keys").list().iter().map(|x| x.int()).collect();
            let Some(T::R(ListH::Diff(d))) = list() else { return };
            let at = vcommon::log_len();
            d.update(keys);
            ev.push(("rend", rends(at)));
            ev.push(("l", J::i(l)));
            ev.push(("keys", op.get("keys").clone()));
        }
        "mupd" => {
            let Some(T::R(ListH::Model(d))) = list() else { return };
            let m = op.get("m").int();
            let at = vcommon::log_len();
            let ms = w.models.borrow();
            let Some(model) = ms.get(&m) else { return };
            d.update(model);
            ev.push(("rend", rends(at)));
            ev.push(("l", J::i(l)));
            ev.push(("m", J::i(m)));
        }
        "model" => {
            let m = op.get("m").int();
            let mut ms = w.models.borrow_mut();
            let f = op.get("f").str();
            let a = op.get("a").list().iter().map(|x| x.int()).collect::<Vec<_>>();
            if f == "clone" {
                let Some(x) = ms.get(&a[0]).cloned() else { return };
                ms.insert(m, x);
            }
            if !ms.contains_key(&m) && f != "from" {
                ms.insert(m, ListModel::new());
            }
            let len = ms.get(&m).map(|x| x.len() as i64).unwrap_or(0);
            let mut ret: Vec<i64> = vec![];
            match f {
                "clone" => {}
                "from" => {
                    let x: ListModel<i64> = if op.get("it").boolean() { a.iter().cloned().collect() } else { ListModel::from(a.clone()) };
                    ms.insert(m, x);
                }
                _ => {
                    let x = ms.get_mut(&m).unwrap();
                    match f {
                        // (the items of a model are distinct)
                        "push" if x.iter().all(|k| *k != a[0]) => x.push(a[0]),
                        "insert" if a[0] <= len && x.iter().all(|k| *k != a[1]) => x.insert(a[0] as usize, a[1]),
                        "remove" if a[0] < len => ret.push(x.remove(a[0] as usize)),
                        "pop" => ret.extend(x.pop()),
                        "swap" if a[0] < len && a[1] < len => x.swap(a[0] as usize, a[1] as usize),
                        "move" if a[0] < len && a[1] < len => x.move_item(a[0] as usize, a[1] as usize),
                        "vec" => {
                            let v = x.modify_vec();
                            v.clear();
                            v.extend(a.iter().cloned());
                        }
                        _ => return,
                    }
                }
            }
            for f in ["m", "f", "a"] {
                ev.push((f, op.get(f).clone()));
            }
            ev.push(("ret", J::ints(ret)));
            ev.push(("vec", J::ints(ms[&m].iter().cloned())));
        }
        "sset" => {
            let s = op.get("s").int();
            let Some(slot) = w.slots.borrow().get(&s).cloned() else { return };
            w.nslot.set(w.nslot.get() + 1);
            let px = format!("S{s}:{}:", w.nslot.get());
            let f = w.tf(px.clone(), op.get("prog"));
            // recorded first: setting may drop the previous future, whose drop may do further operations
            log(J::obj([("op", J::s("sset")), ("s", J::i(s)), ("px", J::s(&px)), ("prog", op.get("prog").clone())]));
            slot.set_future(f);
            return;
        }
        "sclr" => {
            let s = op.get("s").int();
            let Some(slot) = w.slots.borrow().get(&s).cloned() else { return };
            log(J::obj([("op", J::s("sclr")), ("s", J::i(s))]));
            slot.clear_future();
            return;
        }
        x => panic!("op {x}"),
    }
    log(J::obj(ev));
}
/// The renderer calls logged since `at`, taken out of the log.
fn rends(at: usize) -> J {
    J::arr(vcommon::take_from(at).into_iter().filter_map(|e| if e.get("op").str() == "rend" { Some(e.get("kn").clone()) } else { log(e); None }))
}
fn renderer(w: &Rc<World>, l: i64, tpl: J) -> Renderer {
    let w = Rc::downgrade(w);
    let count: RefCell<BTreeMap<i64, i64>> = Default::default();
    Rc::new(move |k: &i64| {
        let w = w.upgrade().unwrap();
        let n = {
            let mut c = count.borrow_mut();
            let n = c.entry(*k).or_insert(0);
            *n += 1;
            *n
        };
        log(J::obj([("op", J::s("rend")), ("kn", J::ints([*k, n]))]));
        let ts = tpl.list();
        let prog = &ts[(*k as usize) % ts.len()];
        w.tf(format!("L{l}:{k}:{n}:"), prog)
    })
}
fn settle() -> bool {
    for _ in 0..2000 {
        if !mock::run_timer() {
            return true;
        }
    }
    false
}

pub fn run(sc: &J) {
    let w = Rc::new(World {
        shared: Default::default(),
        gates: Default::default(),
        lists: Default::default(),
        models: Default::default(),
        slots: Default::default(),
        names: Default::default(),
        foreign: Default::default(),
        alive: Default::default(),
        hosts: Default::default(),
        keep: Default::default(),
        nslot: Cell::new(0),
        depth: Cell::new(0),
    });
    std::mem::forget(w.clone()); // futures refer to it until the very end
    let _ = w.depth.get();
    let foreign = |parent: &web_sys::Node, first: bool, label: &str| -> i64 {
        let e: web_sys::Node = doc().create_element("hr").unwrap().into();
        let o = mock::id(&e);
        w.names.borrow_mut().insert(o, label.to_string());
        w.foreign.borrow_mut().insert(o);
        w.keep.borrow_mut().push(e.clone());
        let r = parent.first_child();
        parent.insert_before(&e, if first { r.as_ref() } else { None }).unwrap();
        o as i64
    };
    let mut mounts: BTreeMap<i64, (Option<async_executor::Task<R>>, &'static str)> = BTreeMap::new();
    let step = |what: &str, f: &mut dyn FnMut()| -> bool {
        let r = guarded(|| f());
        let errs = mock::take_errors();
        if !errs.is_empty() {
            log(J::obj([("op", J::s("errors")), ("during", J::s(what)), ("errs", J::arr(errs.iter().map(J::s)))]));
        }
        if let Err(m) = r {
            log(J::obj([("op", J::s("panic")), ("during", J::s(what)), ("msg", J::s(&m))]));
            return false;
        }
        true
    };
    let mut ok = step("setup", &mut || {
        let body: web_sys::Node = doc().body().unwrap().into();
        for h in sc.get("hosts").list() {
            let e = doc().create_element("main").unwrap();
            body.append_child(&e).unwrap();
            w.hosts.borrow_mut().insert(h.get("h").int(), e.clone());
            let mut fs = vec![];
            for i in 0..h.get("nf").int() {
                fs.push(foreign(&e, false, &format!("h{i}")));
            }
            log(J::obj([("op", J::s("host")), ("h", h.get("h").clone()), ("o", J::i(mock::id(&e) as i64)), ("fs", J::ints(fs))]));
        }
        for d in sc.get("lists").list() {
            let l = d.get("l").int();
            let kind = d.get("kind").str().to_string();
            let rf = renderer(&w, l, d.get("tpl").clone());
            let h = match kind.as_str() {
                "dyn" => Some(ListH::Dyn(Rc::new(DynamicList::new()))),
                "diff" => Some(ListH::Diff(Rc::new(DiffedList::new(Box::new(move |k: &i64| rf(k)) as Box<dyn FnMut(&i64) -> Tf>)))),
                "model" => Some(ListH::Model(Rc::new(ModeledList::new(Box::new(move |k: &i64| rf(k)) as Box<dyn Fn(&i64) -> Tf>)))),
                _ => None,
            };
            w.lists.borrow_mut().insert(l, ListReg { kind, weak: None, h, n: Rc::new(Cell::new(0)), tpl: d.get("tpl").clone() });
        }
        for s in sc.get("slots").list() {
            w.slots.borrow_mut().insert(s.int(), Rc::new(DynamicSlot::new()));
        }
    });
    let quiet = |mounts: &mut BTreeMap<i64, (Option<async_executor::Task<R>>, &'static str)>, op: &str| {
        if !settle() {
            log(J::obj([("op", J::s("hang")), ("during", J::s("settle"))]));
            return;
        }
        let wk = async_ui_internal_utils::dummy_waker::dummy_waker();
        for (_, (t, o)) in mounts.iter_mut() {
            if let Some(task) = t {
                if task.is_finished() {
                    if let Poll::Ready(r) = Pin::new(&mut *task).poll(&mut Context::from_waker(&wk)) {
                        *o = rt(&r);
                    }
                    *t = None;
                }
            }
        }
        let outs = J::arr(mounts.iter().map(|(m, (_, o))| J::arr([J::i(*m), J::s(o)])));
        let alive = J::arr(w.alive.borrow().iter().map(J::s));
        log(J::obj([("op", J::s(op)), ("hosts", hosts(&w)), ("alive", alive), ("out", outs)]));
    };
    for op in sc.get("ops").list() {
        if !ok {
            break;
        }
        let name = op.get("op").str().to_string();
        ok = step(&name, &mut || match name.as_str() {
            "mount" => {
                let h = w.hosts.borrow().get(&op.get("h").int()).cloned().unwrap();
                let p = op.get("prog");
                let t = composed!(&w, p, "", |f| async_ui_web::mount_at(f, mock::as_node(&h)), async_ui_web::mount_at(interp(&w, p, ""), mock::as_node(&h)));
                mounts.insert(op.get("m").int(), (Some(t), "pend"));
                log(J::obj(["op", "m", "h", "prog"].map(|k| (k, op.get(k).clone()))));
            }
            "unmount" => {
                if let Some((t, o)) = mounts.get_mut(&op.get("m").int()) {
                    log(J::obj([("op", J::s("unmount")), ("m", op.get("m").clone())]));
                    *o = "gone";
                    drop(t.take());
                }
            }
            "foreign" => {
                let hs = w.hosts.borrow().clone();
                let id = op.get("id").str();
                let p = if id.is_empty() {
                    hs.get(&op.get("h").int()).map(mock::as_node)
                } else {
                    hs.values().find_map(|e| find_node(&w, &mock::as_node(e), id))
                };
                if let Some(p) = p {
                    let first = op.get("first").boolean();
                    let o = foreign(&p, first, "x");
                    log(J::obj([("op", J::s("foreign")), ("p", J::i(mock::id(&p) as i64)), ("first", J::b(first)), ("o", J::i(o))]));
                }
            }
            "tick" => {
                mock::run_timer();
            }
            "peek" => log(J::obj([("op", J::s("peek")), ("hosts", hosts(&w))])),
            "snap" => quiet(&mut mounts, "snap"),
            _ => do_op(&w, op, None),
        });
    }
    if ok {
        ok = step("end", &mut || {
            quiet(&mut mounts, "snap");
            log(J::obj([("op", J::s("close"))]));
            for (_, (t, _)) in std::mem::take(&mut mounts) {
                drop(t);
            }
            settle();
            let ls = std::mem::take(&mut *w.lists.borrow_mut());
            for r in ls.values() {
                let _ = (&r.kind, &r.tpl);
            }
            drop(ls);
            let ss = std::mem::take(&mut *w.slots.borrow_mut());
            drop(ss);
            quiet(&mut mounts, "end");
        });
    }
    if !ok {
        std::mem::forget(mounts);
        // leave everything else to the end of the process
        std::mem::forget(w);
    }
}
