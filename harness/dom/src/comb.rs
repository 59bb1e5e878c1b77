//! Combinators driven directly (C01-C04). Every combinator instance `c` has children (c, i); everything
//! observable is one flat event list: polls of instances and children, wakes, drops of children and values.
use async_ui_web_core::combinators::{join, race, race_ok, try_join, UiFutureExt};
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use vcommon::{guarded, log, waker::Hub, J};

type Ret = (&'static str, Vec<V>);
type BoxFut = Pin<Box<dyn Future<Output = Ret>>>;

/// An output value; its drop is observed.
struct V(i64);
impl Drop for V {
    fn drop(&mut self) {
        log(J::obj([("op", J::s("vdrop")), ("v", J::i(self.0))]));
    }
}
struct World {
    hub: Hub,
    /// latest waker each child was polled with
    wk: RefCell<BTreeMap<(i64, i64), Waker>>,
    /// wakers of nested instances forward to the waker the enclosing child was polled with
    fwd: RefCell<BTreeMap<i64, Waker>>,
    newv: Cell<i64>,
}
impl World {
    fn value(&self) -> V {
        self.newv.set(self.newv.get() + 1);
        V(self.newv.get())
    }
    fn wake(&self, c: i64, i: i64, byval: bool) {
        let w = self.wk.borrow().get(&(c, i)).cloned();
        let Some(w) = w else { return };
        log(J::obj([("op", J::s("wstart")), ("c", J::i(c)), ("i", J::i(i))]));
        if byval {
            w.wake()
        } else {
            w.wake_by_ref()
        }
        log(J::obj([("op", J::s("wend")), ("c", J::i(c)), ("i", J::i(i))]));
    }
}
struct Step {
    r: String,
    w: Vec<(i64, i64)>,
    nostore: bool,
}
enum Body {
    Leaf(VecDeque<Step>),
    Sub(Inst),
}
struct Kid {
    c: i64,
    i: i64,
    w: Rc<World>,
    body: Option<Body>,
}
impl Kid {
    fn poll_core(&mut self, cx: &mut Context<'_>) -> Poll<Result<V, V>> {
        let (c, i) = (self.c, self.i);
        log(J::obj([("op", J::s("cstart")), ("c", J::i(c)), ("i", J::i(i))]));
        let r: Option<&'static str> = match self.body.as_mut().unwrap() {
            Body::Leaf(steps) => {
                let st = steps.pop_front();
                match st {
                    None => {
                        self.w.wk.borrow_mut().insert((c, i), cx.waker().clone());
                        None
                    }
                    Some(st) => {
                        if !st.nostore {
                            let old = self.w.wk.borrow_mut().insert((c, i), cx.waker().clone());
                            drop(old);
                        }
                        for (c2, i2) in &st.w {
                            self.w.wake(*c2, *i2, false);
                        }
                        match st.r.as_str() {
                            "ok" => Some("ok"),
                            "err" => Some("err"),
                            _ => None,
                        }
                    }
                }
            }
            Body::Sub(inst) => {
                self.w.wk.borrow_mut().insert((c, i), cx.waker().clone());
                let n = inst.polls + 1;
                let k = if inst.fresh { n } else { 1 };
                let id = inst.c * 1000 + k;
                self.w.fwd.borrow_mut().insert(id, cx.waker().clone());
                inst.poll_with(k).map(|(r, _vs)| r)
            }
        };
        match r {
            None => {
                log(J::obj([("op", J::s("cend")), ("c", J::i(c)), ("i", J::i(i)), ("r", J::s("pend")), ("v", J::i(0))]));
                Poll::Pending
            }
            Some(r) => {
                let v = self.w.value();
                let r2 = if r == "err" { "err" } else { "ok" };
                log(J::obj([("op", J::s("cend")), ("c", J::i(c)), ("i", J::i(i)), ("r", J::s(r2)), ("v", J::i(v.0))]));
                Poll::Ready(if r2 == "err" { Err(v) } else { Ok(v) })
            }
        }
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        match self.body.take() {
            Some(Body::Sub(inst)) => drop_inst(inst),
            b => drop(b),
        }
        log(J::obj([("op", J::s("cdrop")), ("c", J::i(self.c)), ("i", J::i(self.i))]));
    }
}
fn drop_inst(mut inst: Inst) {
    let c = inst.c;
    log(J::obj([("op", J::s("drop")), ("c", J::i(c))]));
    drop(inst.fut.take());
    drop(inst);
    log(J::obj([("op", J::s("dropped")), ("c", J::i(c))]));
}
impl Future for Kid {
    type Output = Result<V, V>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.get_mut().poll_core(cx)
    }
}
/// Kid whose output is the plain value (join, race, ...)
struct P(Kid);
impl Future for P {
    type Output = V;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<V> {
        self.get_mut().0.poll_core(cx).map(|r| match r {
            Ok(v) | Err(v) => v,
        })
    }
}
/// Kid without any output
struct N(Kid);
impl Future for N {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.get_mut().0.poll_core(cx).map(drop)
    }
}

struct Inst {
    c: i64,
    fut: Option<BoxFut>,
    w: Rc<World>,
    polls: i64,
    fresh: bool,
}
impl Inst {
    /// Poll with parent waker number k; logs the poll and its result, returns the result (values dropped).
    fn poll_with(&mut self, k: i64) -> Option<Ret> {
        let c = self.c;
        self.polls += 1;
        log(J::obj([("op", J::s("poll")), ("c", J::i(c)), ("w", J::i(k))]));
        let w = self.w.hub.waker(c * 1000 + k);
        let mut cx = Context::from_waker(&w);
        let r = self.fut.as_mut().unwrap().as_mut().poll(&mut cx);
        match r {
            Poll::Pending => {
                log(J::obj([("op", J::s("ret")), ("c", J::i(c)), ("r", J::s("pend")), ("vs", J::Arr(vec![]))]));
                None
            }
            Poll::Ready((r, vs)) => {
                log(J::obj([("op", J::s("ret")), ("c", J::i(c)), ("r", J::s(r)), ("vs", J::ints(vs.iter().map(|v| v.0)))]));
                drop(vs);
                Some((r, vec![]))
            }
        }
    }
}
thread_local! { static AW: Cell<bool> = const { Cell::new(false) }; }
fn keep<F: Future + 'static>(f: F, conv: impl Fn(F::Output) -> Ret + 'static) -> BoxFut {
    if AW.get() {
        // awaited: the combinator is dropped as soon as it resolved
        return Box::pin(async move { conv(f.await) });
    }
    // the combinator stays alive after resolving, until the instance is dropped
    let mut f = Box::pin(f);
    Box::pin(poll_fn(move |cx| f.as_mut().poll(cx).map(&conv)))
}
fn res(r: Result<Vec<V>, V>) -> Ret {
    match r {
        Ok(v) => ("ok", v),
        Err(e) => ("err", vec![e]),
    }
}
fn res2(r: Result<V, Vec<V>>) -> Ret {
    match r {
        Ok(v) => ("ok", vec![v]),
        Err(e) => ("err", e),
    }
}
macro_rules! arr {
    ($kind:expr, $kids:expr, $n:literal) => {{
        const N: usize = $n;
        let kids: Vec<Kid> = $kids;
        macro_rules! a { ($wrap:expr) => {{ let a: [_; N] = kids.into_iter().map($wrap).collect::<Vec<_>>().try_into().ok().unwrap(); a }} }
        match $kind {
            "join" => keep(join(a!(P)), |x| ("ok", x.into_iter().collect())),
            "race" => keep(race(a!(P)), |x| ("ok", vec![x])),
            "try_join" => keep(try_join(a!(|k| k)), |x| res(x.map(|a| a.into_iter().collect()))),
            "race_ok" => keep(race_ok(a!(|k| k)), |x| res2(x.map_err(|a| a.into_iter().collect()))),
            k => panic!("kind {k}"),
        }
    }};
}
macro_rules! tup {
    ($kind:expr, $kids:expr, $($x:ident)+) => {{
        let mut it = ($kids as Vec<Kid>).into_iter();
        match $kind {
            "join" => keep(join(($({ stringify!($x); P(it.next().unwrap()) },)+)), |($($x,)+)| ("ok", vec![$($x),+])),
            "race" => keep(race(($({ stringify!($x); P(it.next().unwrap()) },)+)), |x| ("ok", vec![x])),
            "try_join" => keep(try_join(($({ stringify!($x); it.next().unwrap() },)+)), |x| res(x.map(|($($x,)+)| vec![$($x),+]))),
            "race_ok" => keep(race_ok(($({ stringify!($x); it.next().unwrap() },)+)), |x| res2(x.map_err(|($($x,)+)| vec![$($x),+]))),
            k => panic!("kind {k}"),
        }
    }};
}
macro_rules! tup2 {
    ($kind:expr, $kids:expr, $($x:ident)+) => {{
        let mut it = ($kids as Vec<Kid>).into_iter();
        match $kind {
            "join" => keep(join(($({ stringify!($x); P(it.next().unwrap()) },)+)), |($($x,)+)| ("ok", vec![$($x),+])),
            "race" => keep(race(($({ stringify!($x); P(it.next().unwrap()) },)+)), |x| ("ok", vec![x])),
            k => panic!("kind {k}"),
        }
    }};
}
fn handler(c: i64, i: i64, v: V) -> Ret {
    log(J::obj([("op", J::s("handler")), ("c", J::i(c)), ("i", J::i(i)), ("v", J::i(v.0))]));
    ("ok", vec![v])
}
fn make(kind: &str, shape: &str, c: i64, kids: Vec<Kid>) -> BoxFut {
    let n = kids.len();
    match kind {
        "meanwhile" => {
            let mut it = kids.into_iter();
            let (f, g) = (P(it.next().unwrap()), P(it.next().unwrap()));
            if shape == "unit" {
                return keep(f.meanwhile(N(g.0)), |v| ("ok", vec![v]));
            }
            return keep(f.meanwhile(g), |v| ("ok", vec![v]));
        }
        "pend_after" => {
            let g = P(kids.into_iter().next().unwrap());
            if shape == "unit" {
                return keep(N(g.0).pend_after::<V>(), |v| ("ok", vec![v]));
            }
            return keep(g.pend_after::<V>(), |v| ("ok", vec![v]));
        }
        "select" => {
            let mut it = kids.into_iter().map(P);
            let mut nx = move || it.next().unwrap();
            return match n {
                1 => {
                    let a = nx();
                    Box::pin(async move { async_ui_web::select! { x = a => handler(c, 0, x) } })
                }
                2 => {
                    let (a, b) = (nx(), nx());
                    Box::pin(async move {
                        async_ui_web::select! {
                            x = a => handler(c, 0, x),
                            v @ V(_) = b => handler(c, 1, v),
                        }
                    }) as BoxFut
                }
                3 => {
                    let (a, b, d) = (nx(), nx(), nx());
                    Box::pin(async move {
                        async_ui_web::select! {
                            x = a => { handler(c, 0, x) }
                            y = b => handler(c, 1, y),
                            z = d => { let r = handler(c, 2, z); r }
                        }
                    })
                }
                4 => {
                    let (a, b, d, e) = (nx(), nx(), nx(), nx());
                    Box::pin(async move {
                        async_ui_web::select! {
                            x = a => handler(c, 0, x),
                            x = async { b.await } => { handler(c, 1, x) },
                            x = d => handler(c, 2, x),
                            x = e => handler(c, 3, x),
                        }
                    })
                }
                n => panic!("select {n}"),
            };
        }
        _ => {}
    }
    match (shape, n) {
        ("vec", _) => match kind {
            "join" => keep(join(kids.into_iter().map(P).collect::<Vec<_>>()), |x| ("ok", x)),
            "race" => keep(race(kids.into_iter().map(P).collect::<Vec<_>>()), |x| ("ok", vec![x])),
            "try_join" => keep(try_join(kids), res),
            "race_ok" => keep(race_ok(kids), res2),
            k => panic!("kind {k}"),
        },
        ("arr", 0) => arr!(kind, kids, 0),
        ("arr", 1) => arr!(kind, kids, 1),
        ("arr", 2) => arr!(kind, kids, 2),
        ("arr", 3) => arr!(kind, kids, 3),
        ("arr", 5) => arr!(kind, kids, 5),
        ("arr", 8) => arr!(kind, kids, 8),
        ("arr", 33) => arr!(kind, kids, 33),
        ("arr", 64) => arr!(kind, kids, 64),
        ("arr", 70) => arr!(kind, kids, 70),
        ("arr", 130) => arr!(kind, kids, 130),
        ("arr", 200) => arr!(kind, kids, 200),
        ("tup", 0) => match kind {
            "join" => keep(join(()), |()| ("ok", vec![])),
            k => panic!("kind {k} of ()"),
        },
        ("tup", 1) => tup!(kind, kids, a),
        ("tup", 2) => tup!(kind, kids, a b),
        ("tup", 3) => tup!(kind, kids, a b c),
        ("tup", 4) => tup!(kind, kids, a b c d),
        ("tup", 5) => tup!(kind, kids, a b c d e),
        ("tup", 6) => tup!(kind, kids, a b c d e f),
        ("tup", 7) => tup!(kind, kids, a b c d e f g),
        ("tup", 8) => tup!(kind, kids, a b c d e f g h),
        ("tup", 9) => tup!(kind, kids, a b c d e f g h i),
        ("tup", 10) => tup!(kind, kids, a b c d e f g h i j),
        ("tup", 11) => tup!(kind, kids, a b c d e f g h i j k),
        // (try_join and race_ok stop at 11)
        ("tup", 12) => tup2!(kind, kids, a b c d e f g h i j k l),
        x => panic!("shape {x:?}"),
    }
}
fn build(w: &Rc<World>, d: &J) -> Inst {
    let c = d.get("c").int();
    let kids = d
        .get("kids")
        .list()
        .iter()
        .enumerate()
        .map(|(i, k)| Kid {
            c,
            i: i as i64,
            w: w.clone(),
            body: Some(if !k.has("s") {
                Body::Sub(build(w, k))
            } else {
                Body::Leaf(
                    k.get("s")
                        .list()
                        .iter()
                        .map(|s| Step {
                            r: s.get("r").str().to_string(),
                            w: s.get("w").list().iter().map(|p| (p.list()[0].int(), p.list()[1].int())).collect(),
                            nostore: s.get("nostore").boolean(),
                        })
                        .collect(),
                )
            }),
        })
        .collect();
    AW.set(d.get("aw").boolean());
    Inst { c, fut: Some(make(d.get("kind").str(), d.get("shape").str(), c, kids)), w: w.clone(), polls: 0, fresh: d.get("fresh").boolean() }
}
/// Run `f` where combinators may run: inside the poll of a root container.
fn in_dom(f: impl FnOnce()) {
    let doc = web_sys::window().unwrap().document().unwrap();
    let node: web_sys::Node = doc.create_element("div").unwrap().into();
    let mut f = Some(f);
    let mut root = Box::pin(ContainerNodeFuture::new_root(
        poll_fn(move |_| {
            (f.take().unwrap())();
            Poll::Ready(())
        }),
        node,
    ));
    let hub = Hub::new();
    let w = hub.waker(0);
    let _ = root.as_mut().poll(&mut Context::from_waker(&w));
}
pub fn run(sc: &J) {
    let w = Rc::new(World { hub: Hub::new(), wk: Default::default(), fwd: Default::default(), newv: Cell::new(0) });
    let w2 = Rc::downgrade(&w);
    vcommon::waker::set_hook(Some(Rc::new(move |id| {
        if let Some(w) = w2.upgrade() {
            log(J::obj([("op", J::s("pwake")), ("c", J::i(id / 1000)), ("w", J::i(id % 1000))]));
            let f = w.fwd.borrow().get(&id).cloned();
            if let Some(f) = f {
                // wake the child of the enclosing instance, observed like any other wake
                let key = w.wk.borrow().iter().find(|(_, x)| x.will_wake(&f)).map(|(k, _)| *k);
                match key {
                    Some((c, i)) => {
                        drop(f);
                        w.wake(c, i, true)
                    }
                    None => f.wake(),
                }
            }
        }
    })));
    let mut top = None;
    let r = guarded(|| in_dom(|| top = Some(build(&w, sc.get("comb")))));
    let mut ok = r.map_err(|m| log(J::obj([("op", J::s("panic")), ("during", J::s("build")), ("msg", J::s(&m))]))).is_ok();
    let mut done = false;
    for op in sc.get("ops").list() {
        if !ok {
            break;
        }
        let name = op.get("op").str().to_string();
        let r = guarded(|| match name.as_str() {
            "poll" => {
                if let (Some(t), false) = (top.as_mut(), done) {
                    in_dom(|| done = t.poll_with(op.get("w").int()).is_some());
                }
            }
            "wake" => w.wake(op.get("c").int(), op.get("i").int(), op.get("byval").boolean()),
            "dropw" => w.wk.borrow_mut().clear(),
            "drop" => {
                if let Some(t) = top.take() {
                    in_dom(|| drop_inst(t));
                }
            }
            x => panic!("op {x}"),
        });
        if let Err(m) = r {
            log(J::obj([("op", J::s("panic")), ("during", J::s(&name)), ("msg", J::s(&m))]));
            ok = false;
        }
    }
    if !ok {
        std::mem::forget(top);
        return;
    }
    let r = guarded(|| {
        if let Some(t) = top.take() {
            in_dom(|| drop_inst(t));
        }
        let fw = std::mem::take(&mut *w.fwd.borrow_mut());
        drop(fw);
        let wk = std::mem::take(&mut *w.wk.borrow_mut());
        drop(wk);
        log(J::obj([("op", J::s("end")), ("held", J::ints(w.hub.held().into_iter().map(|x| x.0)))]));
    });
    if let Err(m) = r {
        log(J::obj([("op", J::s("panic")), ("during", J::s("end")), ("msg", J::s(&m))]));
    }
}
