//! x_bow store driven through its public API. Two stores; every path starts with "1" or "2".
use crate::data::*;
use futures_core::Stream;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use vcommon::{step, waker::Hub, J};
use x_bow::{IntoPath, Path, PathExt, PathExtGuaranteed, Store, Trackable};

// ---------------------------------------------------------------- paths as objects
pub trait AnyPath {
    /// None if absent, otherwise the flattened data
    fn see(&self, how: i64) -> Option<J>;
    /// (success, wakes recorded before the guard was released)
    fn put(&self, how: &str, val: &[Ent], early: &dyn Fn() -> i64) -> (bool, i64);
    fn notify(&self);
    fn listen(&self, kind: &str, fire: bool, bodies: Bodies, feed: Feed) -> Box<dyn Lst>;
}
struct Wp<P: Path + 'static>(&'static P);
struct Gp<P: PathExtGuaranteed + 'static>(&'static P);

fn put_any<P: Path>(p: &P, how: &str, val: &[Ent], early: &dyn Fn() -> i64) -> (bool, i64)
where
    P::Out: Val,
{
    match how {
        "set" => match p.set_opt(P::Out::load(val)) {
            Ok(()) => (true, 0),
            Err(back) => {
                // the given value is handed back
                let same = back.dumped().to_string() == P::Out::load(val).dumped().to_string();
                assert!(same, "set_opt returned a different value");
                (false, 0)
            }
        },
        "guard" | "touch" => match p.borrow_opt_mut() {
            Some(mut g) => {
                if how == "guard" {
                    *g = P::Out::load(val);
                    // the guard also reads
                    assert_eq!(g.dumped().to_string(), P::Out::load(val).dumped().to_string());
                }
                let e = early();
                drop(g);
                (true, e)
            }
            None => (false, 0),
        },
        "quiet" => match p.borrow_opt_mut_without_notifying() {
            Some(mut g) => {
                *g = P::Out::load(val);
                (true, 0)
            }
            None => (false, 0),
        },
        x => panic!("how {x}"),
    }
}
impl<P: Path> AnyPath for Wp<P>
where
    P::Out: Val,
{
    fn see(&self, how: i64) -> Option<J> {
        if how == 0 {
            self.0.borrow_opt().map(|r| r.dumped())
        } else {
            self.0.get_opt().map(|r| r.dumped())
        }
    }
    fn put(&self, how: &str, val: &[Ent], early: &dyn Fn() -> i64) -> (bool, i64) {
        put_any(self.0, how, val, early)
    }
    fn notify(&self) {
        self.0.notify_changed()
    }
    fn listen(&self, kind: &str, fire: bool, bodies: Bodies, feed: Feed) -> Box<dyn Lst> {
        let calls: Rc<RefCell<Vec<J>>> = Default::default();
        let c2 = calls.clone();
        match kind {
            "until" => Box::new(LStream(self.0.until_change())),
            "bub" => Box::new(LStream(self.0.until_bubbling_change())),
            "signal" => Box::new(LSignal(self.0.signal_stream(fire))),
            "foreach" => Box::new(LFut(Box::pin(self.0.for_each(move |d: &P::Out| c2.borrow_mut().push(d.dumped()))), calls)),
            "fea" => Box::new(LFut(
                Box::pin(self.0.for_each_async(move |d: &P::Out| {
                    c2.borrow_mut().push(d.dumped());
                    Body::start(bodies.clone())
                })),
                calls,
            )),
            "bind" => {
                let inc = Incoming(feed, std::marker::PhantomData::<P::Out>);
                Box::new(LFut(
                    Box::pin(self.0.bind_for_each(move |d: &P::Out| c2.borrow_mut().push(d.dumped()), inc)),
                    calls,
                ))
            }
            x => panic!("kind {x}"),
        }
    }
}
impl<P: PathExtGuaranteed> AnyPath for Gp<P>
where
    P::Out: Val,
{
    fn see(&self, how: i64) -> Option<J> {
        if how == 0 {
            Some(self.0.borrow().dumped())
        } else {
            Some(self.0.get().dumped())
        }
    }
    fn put(&self, how: &str, val: &[Ent], early: &dyn Fn() -> i64) -> (bool, i64) {
        match how {
            "set" => {
                self.0.set(P::Out::load(val));
                (true, 0)
            }
            "guard" | "touch" => {
                let mut g = self.0.borrow_mut();
                if how == "guard" {
                    *g = P::Out::load(val);
                }
                let e = early();
                drop(g);
                (true, e)
            }
            _ => {
                *self.0.borrow_mut_without_notifying() = P::Out::load(val);
                (true, 0)
            }
        }
    }
    fn notify(&self) {
        Wp(self.0).notify()
    }
    fn listen(&self, kind: &str, fire: bool, bodies: Bodies, feed: Feed) -> Box<dyn Lst> {
        Wp(self.0).listen(kind, fire, bodies, feed)
    }
}

/// the content of a String: an unsized part
struct Sp<P: Path<Out = str> + 'static>(&'static P);
fn snum(s: &str) -> J {
    ents(&[(vec![], s.parse::<i64>().unwrap())])
}
impl<P: Path<Out = str>> AnyPath for Sp<P> {
    fn see(&self, _how: i64) -> Option<J> {
        self.0.borrow_opt().map(|r| snum(&r))
    }
    fn put(&self, how: &str, val: &[Ent], early: &dyn Fn() -> i64) -> (bool, i64) {
        fn put(g: &mut str, val: &[Ent]) {
            let new = format!("{:04}", own_of(val));
            unsafe { g.as_bytes_mut() }.copy_from_slice(new.as_bytes());
        }
        if how == "quiet" {
            let Some(mut g) = self.0.borrow_opt_mut_without_notifying() else { return (false, 0) };
            put(&mut g, val);
            (true, 0)
        } else {
            let Some(mut g) = self.0.borrow_opt_mut() else { return (false, 0) };
            if how != "touch" {
                put(&mut g, val);
            }
            let e = early();
            drop(g);
            (true, e)
        }
    }
    fn notify(&self) {
        self.0.notify_changed()
    }
    fn listen(&self, kind: &str, _fire: bool, bodies: Bodies, _feed: Feed) -> Box<dyn Lst> {
        let calls: Rc<RefCell<Vec<J>>> = Default::default();
        let c2 = calls.clone();
        match kind {
            "until" => Box::new(LStream(self.0.until_change())),
            "bub" => Box::new(LStream(self.0.until_bubbling_change())),
            "foreach" => Box::new(LFut(Box::pin(self.0.for_each(move |d: &str| c2.borrow_mut().push(snum(d)))), calls)),
            "fea" => Box::new(LFut(
                Box::pin(self.0.for_each_async(move |d: &str| {
                    c2.borrow_mut().push(snum(d));
                    Body::start(bodies.clone())
                })),
                calls,
            )),
            x => panic!("kind {x}"),
        }
    }
}

// ---------------------------------------------------------------- navigation
fn fin<P: Path + 'static>(p: P) -> Box<dyn AnyPath>
where
    P::Out: Val,
{
    Box::new(Wp(Box::leak(Box::new(p))))
}
fn gfin<B: IntoPath>(b: B) -> Option<Box<dyn AnyPath>>
where
    B::IntoPath: PathExtGuaranteed + 'static,
    <B::IntoPath as Path>::Out: Val,
{
    Some(Box::new(Gp(Box::leak(Box::new(b.into_path())))))
}

/// `nav` goes down natively and erases the type of the path when `cut` reaches 0;
/// `plain` never erases.
trait Nav: Trackable + Val {
    fn go<P: Path<Out = Self> + 'static>(p: P, s: &[String], cut: i64, route: i64) -> Box<dyn AnyPath>;
    fn plain<P: Path<Out = Self> + 'static>(p: P, s: &[String]) -> Box<dyn AnyPath>;
    fn nav<P: Path<Out = Self> + 'static>(p: P, s: &[String], cut: i64, route: i64) -> Box<dyn AnyPath> {
        if cut > 0 && !s.is_empty() {
            return Self::go(p, s, cut - 1, route);
        }
        match route {
            0 => Self::plain(p, s),
            1 => {
                let r: Rc<dyn Path<Out = Self>> = Rc::new(p);
                Self::plain(r.build_path().into_path(), s)
            }
            2 => {
                let l: &'static P = Box::leak(Box::new(p));
                Self::plain(l.as_ref_path().into_path(), s)
            }
            _ => {
                let r: Box<dyn Path<Out = Self>> = Box::new(p);
                Self::plain(r.build_path().into_path(), s)
            }
        }
    }
}
impl Nav for i64 {
    fn go<P: Path<Out = Self> + 'static>(p: P, _: &[String], _: i64, _: i64) -> Box<dyn AnyPath> {
        fin(p)
    }
    fn plain<P: Path<Out = Self> + 'static>(p: P, s: &[String]) -> Box<dyn AnyPath> {
        assert!(s.is_empty(), "path into i64");
        fin(p)
    }
}
macro_rules! nav {
    (@ [$($gen:tt)*] $t:ty; $b:ident, $seg:ident; $($pat:pat => $m:expr),+ $(,)?) => {
        impl<$($gen)*> Nav for $t {
            fn go<P: Path<Out = Self> + 'static>(p: P, s: &[String], cut: i64, route: i64) -> Box<dyn AnyPath> {
                let $b = p.build_path();
                let $seg = s[0].as_str();
                match $seg { $($pat => Nav::nav($m.into_path(), &s[1..], cut, route),)+ #[allow(unreachable_patterns)] x => panic!("segment {x}") }
            }
            fn plain<P: Path<Out = Self> + 'static>(p: P, s: &[String]) -> Box<dyn AnyPath> {
                if s.is_empty() { return fin(p); }
                let $b = p.build_path();
                let $seg = s[0].as_str();
                match $seg { $($pat => Nav::plain($m.into_path(), &s[1..]),)+ #[allow(unreachable_patterns)] x => panic!("segment {x}") }
            }
        }
    };
    ($t:ty; $b:ident, $seg:ident; $($pat:pat => $m:expr),+ $(,)?) => { nav!(@ [] $t; $b, $seg; $($pat => $m),+); };
}
nav!(Sub; b, seg; "x" => b.x(), "y" => b.y(), "w" => b.w());
nav!(En; b, seg; "A0" => b.A_0(), "A1" => b.A_1(), "Bp" => b.B_p(), "Bq" => b.B_q(), "D0" => b.D_0(),
    "Ep" => b.E_p(), "Eq" => b.E_q(), "F0" => b.F_0(), "F1" => b.F_1(), "F2" => b.F_2(),
    "G1" => b.G_1(), "G2" => b.G_2(), "G3" => b.G_3(), "Hq" => b.H_q(), "Hr" => b.H_r(), "Hs" => b.H_s(),
    "K0" => b.K_0(), "K2" => b.K_2(), "K4" => b.K_4());
nav!(Mix; b, seg; "t1" => b.t1(), "t3" => b.t3(), "t4" => b.t4());
nav!(Gen<Sub>; b, seg; "g" => b.g(), "h" => b.h(), "k" => b.k());
nav!(Tup; b, seg; "t0" => b.t0(), "t1" => b.t1(), "t2" => b.t2());
nav!((i64, Sub); b, seg; "t0" => b.t0(), "t1" => b.t1());
nav!(@ [T: Nav] Vec<T>; b, seg; _ => if seg.starts_with('s') { return_leaf(b.index_shallow(seg[1..].parse().unwrap())) } else { return_same(b.index(seg.parse().unwrap())) });
nav!(@ [T: Nav] HashMap<u32, T>; b, seg; _ => if seg.starts_with('s') { return_leaf(b.key_shallow(seg[1..].parse().unwrap())) } else { return_same(b.key(seg.parse().unwrap())) });
nav!(@ [T: Nav] HashMap<String, T>; b, seg; _ => b.key(seg.to_string()));
nav!(@ [T: Nav] Option<T>; b, seg; "S" => b.Some_0());
nav!(@ [T: Nav] Box<T>; b, seg; "c" => return_same(b.content()), "sc" => return_leaf(b.content_shallow()));
nav!(@ [T: Nav] Rc<T>; b, seg; "c" => b.content());
nav!(Root; b, seg; "a" => b.a(), "b" => b.b(), "s" => b.s(), "e" => b.e(), "v" => b.v(), "m" => b.m(), "n" => b.n(), "o" => b.o(),
    "bx" => b.bx(), "t" => b.t(), "rc" => b.rc(), "g" => b.g(), "u" => b.u(), "vv" => b.vv(), "oo" => b.oo(),
    "rec" => b.rec(), "tt" => b.tt(), "st" => b.st(), "mx" => b.mx());
nav!(T12; b, seg; "t0" => b.t0(), "t1" => b.t1(), "t2" => b.t2(), "t3" => b.t3(), "t4" => b.t4(), "t5" => b.t5(), "t6" => b.t6(),
    "t7" => b.t7(), "t8" => b.t8(), "t9" => b.t9(), "t10" => b.t10(), "t11" => b.t11());
/// recursive data: the type of the path is erased on every level
impl Nav for Rec {
    fn go<P: Path<Out = Self> + 'static>(p: P, s: &[String], _: i64, _: i64) -> Box<dyn AnyPath> {
        rec_nav(Rc::new(p), s)
    }
    fn plain<P: Path<Out = Self> + 'static>(p: P, s: &[String]) -> Box<dyn AnyPath> {
        rec_nav(Rc::new(p), s)
    }
}
fn rec_nav(p: Rc<dyn Path<Out = Rec>>, s: &[String]) -> Box<dyn AnyPath> {
    let b = p.build_path();
    let names: Vec<&str> = s.iter().take(3).map(|s| s.as_str()).collect();
    match &names[..] {
        [] => fin(b.into_path()),
        ["v"] => fin(b.v().into_path()),
        ["next"] => fin(b.next().into_path()),
        ["next", "S"] => fin(b.next().Some_0().into_path()),
        ["next", "S", "c"] => rec_nav(Rc::new(b.next().Some_0().content().into_path()), &s[3..]),
        x => panic!("segments {x:?}"),
    }
}
impl Nav for String {
    fn go<P: Path<Out = Self> + 'static>(p: P, s: &[String], _: i64, _: i64) -> Box<dyn AnyPath> {
        Self::plain(p, s)
    }
    fn plain<P: Path<Out = Self> + 'static>(p: P, s: &[String]) -> Box<dyn AnyPath> {
        match s.len() {
            0 => fin(p.build_path().into_path()),
            _ => Box::new(Sp(Box::leak(Box::new(p.build_path().content().into_path())))),
        }
    }
}

/// both branches of the Vec navigation yield the same path type once unwrapped
struct Un<P>(P);
impl<P> Un<P> {
    fn into_path(self) -> P {
        self.0
    }
}
fn return_leaf<B: IntoPath>(b: B) -> Un<B::IntoPath> {
    Un(b.into_path())
}
fn return_same<B: IntoPath>(b: B) -> Un<B::IntoPath> {
    Un(b.into_path())
}

fn guaranteed(st: &'static Store<Root>, s: &[String]) -> Option<Box<dyn AnyPath>> {
    let r = st.build_path();
    let s: Vec<&str> = s.iter().map(|s| s.as_str()).collect();
    match &s[..] {
        [] => gfin(r),
        ["a"] => gfin(r.a()),
        ["b"] => gfin(r.b()),
        ["s"] => gfin(r.s()),
        ["s", "x"] => gfin(r.s().x()),
        ["s", "y"] => gfin(r.s().y()),
        ["s", "w"] => gfin(r.s().w()),
        ["e"] => gfin(r.e()),
        ["v"] => gfin(r.v()),
        ["m"] => gfin(r.m()),
        ["o"] => gfin(r.o()),
        ["bx"] => gfin(r.bx()),
        ["bx", "c"] => gfin(r.bx().content()),
        ["bx", "c", "y"] => gfin(r.bx().content().y()),
        ["t"] => gfin(r.t()),
        ["t", "t0"] => gfin(r.t().t0()),
        ["t", "t1"] => gfin(r.t().t1()),
        ["t", "t1", "x"] => gfin(r.t().t1().x()),
        ["g"] => gfin(r.g()),
        ["g", "g"] => gfin(r.g().g()),
        ["g", "g", "y"] => gfin(r.g().g().y()),
        ["g", "k"] => gfin(r.g().k()),
        ["rec", "v"] => gfin(r.rec().v()),
        ["tt", "t10", "x"] => gfin(r.tt().t10().x()),
        ["tt", "t11"] => gfin(r.tt().t11()),
        ["u", "t2"] => gfin(r.u().t2()),
        ["u", "t1", "w"] => gfin(r.u().t1().w()),
        _ => None,
    }
}

// ---------------------------------------------------------------- listeners
pub trait Lst {
    /// (result, calls)
    fn poll(&mut self, cx: &mut Context<'_>) -> (&'static str, Vec<J>);
}
struct LStream<S>(S);
impl<S: Stream<Item = ()> + Unpin> Lst for LStream<S> {
    fn poll(&mut self, cx: &mut Context<'_>) -> (&'static str, Vec<J>) {
        match Pin::new(&mut self.0).poll_next(cx) {
            Poll::Ready(Some(())) => ("ready", vec![]),
            Poll::Ready(None) => ("end", vec![]),
            Poll::Pending => ("pending", vec![]),
        }
    }
}
struct LSignal<S>(S);
impl<T: Val, S: Stream<Item = std::cell::Ref<'static, T>> + Unpin> Lst for LSignal<S> {
    fn poll(&mut self, cx: &mut Context<'_>) -> (&'static str, Vec<J>) {
        match Pin::new(&mut self.0).poll_next(cx) {
            Poll::Ready(Some(r)) => ("ready", vec![r.dumped()]),
            Poll::Ready(None) => ("end", vec![]),
            Poll::Pending => ("pending", vec![]),
        }
    }
}
struct LFut(Pin<Box<dyn Future<Output = ()>>>, Rc<RefCell<Vec<J>>>);
impl Lst for LFut {
    fn poll(&mut self, cx: &mut Context<'_>) -> (&'static str, Vec<J>) {
        let r = self.0.as_mut().poll(cx).is_ready();
        (if r { "ready" } else { "pending" }, std::mem::take(&mut *self.1.borrow_mut()))
    }
}
/// bodies of for_each_async
#[derive(Default)]
pub struct BodyShared {
    n: i64,
    open: bool,
    ev: Vec<J>,
    /// mutations of the store made by a body: when next polled / when next dropped
    on_poll: Vec<Box<dyn FnOnce() -> J>>,
    on_drop: Vec<Box<dyn FnOnce() -> J>>,
}
fn acts(sh: &Bodies, poll: bool) {
    let l = {
        let mut s = sh.borrow_mut();
        std::mem::take(if poll { &mut s.on_poll } else { &mut s.on_drop })
    };
    for f in l {
        let e = f();
        sh.borrow_mut().ev.push(e);
    }
}
pub type Bodies = Rc<RefCell<BodyShared>>;
struct Body {
    sh: Bodies,
    n: i64,
    done: bool,
}
impl Body {
    fn start(sh: Bodies) -> Self {
        let n = {
            let mut s = sh.borrow_mut();
            s.n += 1;
            s.open = false;
            let n = s.n;
            s.ev.push(J::arr([J::s("start"), J::i(n)]));
            n
        };
        Body { sh, n, done: false }
    }
}
impl Future for Body {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        let n = self.n;
        self.sh.borrow_mut().ev.push(J::arr([J::s("poll"), J::i(n)]));
        acts(&self.sh, true);
        let done = {
            let mut s = self.sh.borrow_mut();
            let d = s.open || self.done;
            if d {
                s.ev.push(J::arr([J::s("done"), J::i(n)]));
            }
            d
        };
        self.done |= done;
        if done {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Body {
    fn drop(&mut self) {
        self.sh.borrow_mut().ev.push(J::arr([J::s("drop"), J::i(self.n)]));
        acts(&self.sh, false);
    }
}
/// incoming stream of bind_for_each
#[derive(Default)]
pub struct FeedShared {
    q: VecDeque<Vec<Ent>>,
    end: bool,
    waker: Option<Waker>,
}
pub type Feed = Rc<RefCell<FeedShared>>;
struct Incoming<T>(Feed, std::marker::PhantomData<T>);
impl<T> Unpin for Incoming<T> {}
impl<T: Val> Stream for Incoming<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut s = self.0.borrow_mut();
        match s.q.pop_front() {
            Some(v) => Poll::Ready(Some(T::load(&v))),
            None if s.end => Poll::Ready(None),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

// ---------------------------------------------------------------- scenarios
pub fn run(sc: &J) {
    let hub = Hub::new();
    let stores: Vec<&'static Store<Root>> = sc
        .get("init")
        .list()
        .iter()
        .map(|d| &*Box::leak(Box::new(Store::new(Root::load(&parse_ents(d))))))
        .collect();
    let path = |op: &J| -> Box<dyn AnyPath> {
        let s = segs(op.get("nav"));
        let st = stores[s[0].parse::<usize>().unwrap() - 1];
        let (cut, route) = (op.get("cut").int(), op.get("route").int());
        if route == 4 {
            if let Some(g) = guaranteed(st, &s[1..]) {
                return g;
            }
        }
        Root::nav(st.build_path().into_path(), &s[1..], cut, if route == 4 { 0 } else { route })
    };
    let dump = || {
        let mut out = vec![];
        for (i, s) in stores.iter().enumerate() {
            s.build_path().borrow_opt().unwrap().dump(&mut vec![(i + 1).to_string()], &mut out);
        }
        ents(&out)
    };
    struct Slot {
        over: bool,
        bind: bool,
        l: Box<dyn Lst>,
        bodies: Bodies,
        feed: Feed,
    }
    let mut ls: BTreeMap<i64, Slot> = BTreeMap::new();
    let mut share: Option<Rc<Sub>> = None;
    vcommon::log(J::obj([("op", J::s("init")), ("data", dump())]));
    for op in sc.get("ops").list() {
        let name = op.get("op").str().to_string();
        // operations on listeners that are gone or finished are skipped
        let skip = match name.as_str() {
            "poll" | "open" | "feed" | "act" => ls.get(&op.get("id").int()).map(|s| s.over).unwrap_or(true),
            "drop" => !ls.contains_key(&op.get("id").int()),
            "share" => share.is_some(),
            "unshare" => share.is_none(),
            _ => false,
        };
        if skip || (name == "feed" && ls[&op.get("id").int()].feed.borrow().end) {
            continue;
        }
        let ok = step(&name, || {
            hub.take();
            let mut f: Vec<(&'static str, J)> = vec![];
            let mut woken = BTreeSet::new();
            let id = op.get("id").int();
            match name.as_str() {
                "new" => {
                    let (bodies, feed) = (Bodies::default(), Feed::default());
                    let l = path(op).listen(op.get("kind").str(), op.get("fire").boolean(), bodies.clone(), feed.clone());
                    ls.insert(id, Slot { over: false, bind: op.get("kind").str() == "bind", l, bodies, feed });
                    f.push(("id", J::i(id)));
                    f.push(("kind", op.get("kind").clone()));
                    f.push(("fire", J::b(op.get("fire").boolean())));
                    f.push(("p", op.get("p").clone()));
                }
                "poll" => {
                    let w = hub.waker(op.get("w").int());
                    let mut cx = Context::from_waker(&w);
                    let s = ls.get_mut(&id).unwrap();
                    let (r, calls) = s.l.poll(&mut cx);
                    s.over = r == "end" || (r == "ready" && s.bind);
                    f.push(("id", J::i(id)));
                    f.push(("w", op.get("w").clone()));
                    f.push(("res", J::s(r)));
                    f.push(("calls", J::Arr(calls)));
                    f.push(("bev", J::Arr(std::mem::take(&mut s.bodies.borrow_mut().ev))));
                }
                "drop" => {
                    let s = ls.remove(&id).unwrap();
                    drop(s.l);
                    s.feed.borrow_mut().waker = None;
                    f.push(("id", J::i(id)));
                    f.push(("bev", J::Arr(std::mem::take(&mut s.bodies.borrow_mut().ev))));
                }
                "open" => {
                    ls[&id].bodies.borrow_mut().open = true;
                    f.push(("id", J::i(id)));
                }
                "feed" => {
                    let wk = {
                        let mut s = ls[&id].feed.borrow_mut();
                        for v in op.get("vals").list() {
                            s.q.push_back(parse_ents(v));
                        }
                        s.end |= op.get("end").boolean();
                        s.waker.take()
                    };
                    drop(wk); // the scenario decides when to poll; the hub need not see this wake
                    f.push(("id", J::i(id)));
                    f.push(("vals", op.get("vals").clone()));
                    f.push(("end", J::b(op.get("end").boolean())));
                }
                "acc" => {
                    let how = op.get("how").str();
                    let v = parse_ents(op.get("val"));
                    let p = path(op);
                    // repeated: many accesses between two polls
                    let (mut res, mut early) = (true, 0);
                    for _ in 0..op.get("rep").int().max(1) {
                        let (r, e) = if how == "notify" {
                            p.notify();
                            (true, 0)
                        } else {
                            p.put(how, &v, &|| hub.take().len() as i64)
                        };
                        res &= r;
                        early += e;
                        woken.extend(hub.take());
                    }
                    f.push(("p", op.get("p").clone()));
                    f.push(("how", J::s(how)));
                    f.push(("val", op.get("val").clone()));
                    f.push(("res", J::b(res)));
                    f.push(("early", J::i(early)));
                }
                "act" => {
                    let p = path(op);
                    let (how, v) = (op.get("how").str().to_string(), parse_ents(op.get("val")));
                    let e = ["p", "how", "val"].map(|k| op.get(k).clone());
                    let f2 = Box::new(move || {
                        let res = if how == "notify" {
                            p.notify();
                            true
                        } else {
                            p.put(&how, &v, &|| 0).0
                        };
                        let [p, how, val] = e;
                        J::arr([J::s("acc"), p, how, val, J::b(res)])
                    });
                    let mut b = ls[&id].bodies.borrow_mut();
                    if op.get("when").str() == "poll" {
                        b.on_poll.push(f2);
                    } else {
                        b.on_drop.push(f2);
                    }
                    f.push(("id", J::i(id)));
                }
                "see" => {
                    let p = segs(op.get("p"));
                    // cloning an Rc would change what is observed
                    let has_rc = p.len() == 1 || (p.len() == 2 && p[1] == "rc");
                    let r = path(op).see(if has_rc { 0 } else { op.get("how").int() });
                    f.push(("p", op.get("p").clone()));
                    f.push(("some", J::b(r.is_some())));
                    f.push(("val", r.unwrap_or(J::Arr(vec![]))));
                }
                "share" => {
                    let st = op.get("st").us();
                    share = Some(stores[st - 1].build_path().rc().borrow_opt().unwrap().clone());
                    f.push(("st", J::s(&st.to_string())));
                }
                "unshare" => {
                    share = None;
                }
                x => panic!("op {x}"),
            }
            woken.extend(hub.take());
            f.push(("wk", J::ints(woken)));
            f.push(("held", J::ints(hub.held().into_iter().map(|x| x.0))));
            f.push(("data", dump()));
            f
        });
        if !ok {
            std::mem::forget(ls);
            return;
        }
    }
    step("end", || {
        for s in ls.values_mut() {
            s.feed.borrow_mut().waker = None;
        }
        ls.clear();
        drop(share);
        vec![("held", J::ints(hub.held().into_iter().map(|x| x.0)))]
    });
}
