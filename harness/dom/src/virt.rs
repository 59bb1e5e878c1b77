//! VirtualizedList (L05): a list that scrolls inside an element of a simulated page. The page lays its children out one
//! after the other, clamps the scroll offset, and reports scrolling and intersections the way browsers do.
use async_ui_web::html::Div;
use async_ui_web::lists::VirtualizedList;
use async_ui_web::{join, NoChild};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use vcommon::{guarded, log, J};
use wasm_bindgen::JsCast;
use web_sys::mock;

type Fut = Pin<Box<dyn Future<Output = ()>>>;
type Vl = VirtualizedList<'static, Fut, Box<dyn FnMut(usize) -> Fut>>;

struct World {
    horiz: bool,
    /// size and place of the viewport
    r: Cell<f64>,
    at: f64,
    /// size of an item
    h: f64,
    scroll: Cell<f64>,
    /// serial of an element -> its fixed size (items, what is before and after the list)
    sizes: RefCell<BTreeMap<u64, f64>>,
    index: RefCell<BTreeMap<u64, i64>>,
    alive: RefCell<Vec<i64>>,
    rends: RefCell<Vec<i64>>,
    /// number of items last set
    n: Cell<i64>,
    root: web_sys::HtmlElement,
    list: RefCell<Option<Rc<Vl>>>,
    /// item -> number of items it sets when it first runs
    more: RefCell<BTreeMap<i64, i64>>,
    /// items that take a while to show
    slow: BTreeSet<i64>,
}
struct Life(Rc<World>, i64);
impl Drop for Life {
    fn drop(&mut self) {
        let mut a = self.0.alive.borrow_mut();
        let i = a.iter().position(|x| *x == self.1).unwrap();
        a.remove(i);
    }
}
impl World {
    fn size(&self, e: &web_sys::Node) -> f64 {
        if let Some(s) = self.sizes.borrow().get(&mock::id(e)) {
            return *s;
        }
        if !e.is_instance_of::<web_sys::HtmlElement>() {
            return 0.0;
        }
        let st = e.clone().unchecked_into::<web_sys::HtmlElement>().style();
        let get = |k: &str| -> Option<f64> {
            let v = st.get_property_value(k).unwrap();
            if v == "0" {
                return Some(0.0);
            }
            v.strip_suffix("px").and_then(|x| x.parse().ok())
        };
        let ks = if self.horiz { ["width", "inline-size"] } else { ["height", "block-size"] };
        get(ks[0]).or_else(|| get(ks[1])).unwrap_or(0.0)
    }
    fn total(&self) -> f64 {
        mock::children(&mock::as_node(&self.root)).iter().map(|c| self.size(c)).sum()
    }
    /// start and end along the scrolling direction
    fn extent(&self, e: &web_sys::Element) -> Option<(f64, f64)> {
        if !e.is_connected() {
            return None;
        }
        if mock::id(e) == mock::id(&self.root) {
            return Some((self.at, self.at + self.r.get()));
        }
        let mut y = self.at - self.scroll.get();
        for c in mock::children(&mock::as_node(&self.root)) {
            let s = self.size(&c);
            if mock::id(&c) == mock::id(e) {
                return Some((y, y + s));
            }
            y += s;
        }
        Some((y, y))
    }
    fn scroll_to(&self, x: f64) -> bool {
        let x = x.clamp(0.0, (self.total() - self.r.get()).max(0.0));
        let news = x != self.scroll.get();
        self.scroll.set(x);
        if self.horiz {
            self.root.set_scroll_left(x as i32);
        } else {
            self.root.set_scroll_top(x as i32);
        }
        news
    }
    /// The browser and the app until neither has anything left to do. False if that does not happen.
    fn settle(&self) -> bool {
        for _ in 0..100 {
            let mut k = 0;
            while mock::run_timer() {
                k += 1;
                if k > 1000 {
                    return false;
                }
            }
            if !self.root.is_connected() {
                return true;
            }
            if self.scroll_to(self.scroll.get()) {
                self.notify();
            } else if mock::check_observers() == 0 {
                return true;
            }
        }
        false
    }
    fn notify(&self) {
        self.root.dispatch_event(&mock::event("Event", "scroll", false, false)).unwrap();
    }
}
/// A sequence of numbers as its ascending runs, each with its two ends
fn runs(it: impl IntoIterator<Item = i64>) -> J {
    let mut v: Vec<(i64, i64)> = vec![];
    for i in it {
        match v.last_mut() {
            Some(l) if l.1 + 1 == i => l.1 = i,
            _ => v.push((i, i)),
        }
    }
    J::arr(v.into_iter().map(|(a, b)| J::ints([a, b])))
}
fn px(x: f64) -> J {
    J::i(if x.is_finite() { x.round().clamp(-1e9, 1e9) as i64 } else { -1 })
}
pub fn run(sc: &J) {
    let root = Div::new();
    let el: web_sys::HtmlElement = root.element.clone().into();
    // (the type of set_direction's argument is not exported)
    let horiz = false;
    let w = Rc::new(World {
        horiz,
        r: Cell::new(sc.get("r").int() as f64),
        at: sc.get("at").int() as f64,
        h: sc.get("h").int() as f64,
        scroll: Cell::new(0.0),
        sizes: Default::default(),
        index: Default::default(),
        alive: Default::default(),
        rends: Default::default(),
        n: Default::default(),
        root: el.clone(),
        list: Default::default(),
        more: RefCell::new(sc.get("more").list().iter().map(|x| (x.list()[0].int(), x.list()[1].int())).collect()),
        slow: sc.get("slow").list().iter().map(|x| x.int()).collect(),
    });
    let w2 = w.clone();
    mock::set_layout(move |e| {
        let (a, b) = w2.extent(e).unwrap_or((0.0, 0.0));
        let (c, d) = if w2.extent(e).is_some() { (0.0, 100.0) } else { (0.0, 0.0) };
        if w2.horiz {
            (c, d, a, b)
        } else {
            (a, b, c, d)
        }
    });
    let w3 = w.clone();
    let render = move |i: usize| -> Fut {
        let w = w3.clone();
        let i = i as i64;
        w.rends.borrow_mut().push(i);
        w.alive.borrow_mut().push(i);
        let life = Life(w.clone(), i);
        Box::pin(async move {
            let _life = life;
            if w.slow.contains(&i) {
                futures_lite::future::yield_now().await;
            }
            let d = Div::new();
            w.sizes.borrow_mut().insert(mock::id(&d.element), w.h);
            w.index.borrow_mut().insert(mock::id(&d.element), i);
            let act = async {
                let more = w.more.borrow_mut().remove(&i);
                if let Some(m) = more {
                    let l = w.list.borrow().clone();
                    w.n.set(m);
                    l.unwrap().set_num_items(m as usize);
                }
                std::future::pending::<()>().await
            };
            join((d.render(NoChild), act)).await;
        })
    };
    let rootref: &'static web_sys::HtmlElement = Box::leak(Box::new(el.clone()));
    let (spf, spb): (web_sys::HtmlElement, web_sys::HtmlElement) = (Div::new().element.clone().into(), Div::new().element.clone().into());
    let vl: Rc<Vl> = Rc::new(VirtualizedList::new(rootref, spf.clone(), spb.clone(), Box::new(render) as Box<dyn FnMut(usize) -> Fut>));
    *w.list.borrow_mut() = Some(vl.clone());
    let host = web_sys::window().unwrap().document().unwrap().body().unwrap();
    let root = Rc::new(root);
    let (pre, post) = (sc.get("pre").int() as f64, sc.get("post").int() as f64);
    let mut task = None;
    let mut ok = true;
    for o in sc.get("ops").list() {
        let l = o.list();
        let name = l[0].str().to_string();
        let r = guarded(|| match name.as_str() {
            "num" => {
                for n in l[1].list() {
                    w.n.set(n.int());
                    vl.set_num_items(n.us());
                }
            }
            "scroll" => {
                if root.element.is_connected() {
                    // to a place given in thousandths of the whole
                    let max = (w.total() - w.r.get()).max(0.0);
                    if w.scroll_to((max * l[1].int() as f64 / 1000.0).round()) {
                        w.notify();
                    }
                }
            }
            "by" => {
                if root.element.is_connected() && w.scroll_to(w.scroll.get() + l[1].int() as f64) {
                    w.notify();
                }
            }
            "size" => w.r.set(l[1].int() as f64),
            "mount" => {
                if task.is_none() {
                    let (root, vl, w) = (root.clone(), vl.clone(), w.clone());
                    w.scroll.set(0.0);
                    task = Some(async_ui_web::mount_at(
                        async move {
                            let (p, q) = (Div::new(), Div::new());
                            w.sizes.borrow_mut().insert(mock::id(&p.element), pre);
                            w.sizes.borrow_mut().insert(mock::id(&q.element), post);
                            root.render(join((p.render(NoChild), vl.render(), q.render(NoChild)))).await;
                        },
                        mock::as_node(&host),
                    ));
                }
            }
            "unmount" => task = None,
            x => panic!("op {x}"),
        });
        let mut calm = true;
        let r = r.and_then(|_| guarded(|| calm = w.settle()));
        if let Err(m) = r {
            log(J::obj([("op", J::s("panic")), ("during", J::s(&name)), ("msg", J::s(&m))]));
            ok = false;
            break;
        }
        let errs = mock::take_errors();
        if !errs.is_empty() {
            log(J::obj([("op", J::s("errors")), ("errs", J::arr(errs.iter().map(J::s)))]));
        }
        let cs = mock::children(&mock::as_node(&root.element));
        let pos = |e: &web_sys::HtmlElement| cs.iter().position(|c| mock::id(c) == mock::id(e)).map_or(-1, |i| i as i64);
        let ix = w.index.borrow();
        let items: Vec<(i64, i64)> = cs.iter().enumerate().filter_map(|(p, c)| ix.get(&mock::id(c)).map(|i| (p as i64, *i))).collect();
        let mut alive = w.alive.borrow().clone();
        alive.sort();
        let mut rends: Vec<i64> = w.rends.borrow_mut().drain(..).collect();
        rends.sort();
        // (elements are in order front spacer, items, back spacer)
        let placed = items.first().is_none_or(|x| pos(&spf) < x.0) && items.last().is_none_or(|x| x.0 < pos(&spb));
        log(J::obj([
            ("op", J::s(&name)),
            ("n", J::i(w.n.get())),
            ("calm", J::b(calm)),
            ("shown", J::b(pos(&spf) >= 0 && pos(&spb) > pos(&spf))),
            ("some", J::b(pos(&spf) >= 0 || pos(&spb) >= 0 || !items.is_empty())),
            ("placed", J::b(placed)),
            ("items", runs(items.iter().map(|x| x.1))),
            ("alive", runs(alive)),
            ("rends", runs(rends)),
            ("f", px(w.size(&mock::as_node(&spf)))),
            ("b", px(w.size(&mock::as_node(&spb)))),
            ("r", px(w.r.get())),
            ("v", px(w.scroll.get() - pre)),
            ("ls", J::i(mock::listeners(&root.element).len() as i64)),
            ("obs", J::i(mock::live_observers() as i64)),
        ]));
    }
    *w.list.borrow_mut() = None;
    if ok {
        drop(task);
        let _ = guarded(|| w.settle());
    } else {
        std::mem::forget(task);
        std::mem::forget(vl);
    }
}
