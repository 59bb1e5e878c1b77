//! ReactiveCell driven through its public API.
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use futures_core::Stream;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use vcommon::{step, waker::Hub, J};

enum L {
    Until(Box<dyn DynUntil>),
    ForEach(Pin<Box<dyn Future<Output = ()>>>, Rc<RefCell<Vec<i64>>>),
}
trait DynUntil {
    fn poll_fut(&mut self, cx: &mut Context<'_>) -> bool;
    fn poll_str(&mut self, cx: &mut Context<'_>) -> bool;
}
impl<T: Future<Output = ()> + Stream<Item = ()> + Unpin> DynUntil for T {
    fn poll_fut(&mut self, cx: &mut Context<'_>) -> bool {
        Pin::new(self).poll(cx).is_ready()
    }
    fn poll_str(&mut self, cx: &mut Context<'_>) -> bool {
        match Pin::new(self).poll_next(cx) {
            Poll::Ready(Some(())) => true,
            Poll::Ready(None) => panic!("stream ended"),
            Poll::Pending => false,
        }
    }
}
pub fn run(sc: &J) {
    let hub = Hub::new();
    let cell: &'static ReactiveCell<i64> = Box::leak(Box::new(ReactiveCell::new(sc.get("init").int())));
    let mut ls: BTreeMap<i64, L> = BTreeMap::new();
    for op in sc.get("ops").list() {
        let name = op.get("op").str().to_string();
        let ok = step(&name, || {
            hub.take();
            let mut f = vec![];
            let mut woken = BTreeSet::new();
            match name.as_str() {
                "new" => {
                    let kind = op.get("kind").str();
                    let l = match kind {
                        "until" => L::Until(Box::new(cell.until_change())),
                        _ => {
                            let calls = Rc::new(RefCell::new(vec![]));
                            let c2 = calls.clone();
                            L::ForEach(Box::pin(cell.for_each(move |x| c2.borrow_mut().push(*x))), calls)
                        }
                    };
                    ls.insert(op.get("id").int(), l);
                    f.push(("id", op.get("id").clone()));
                    f.push(("kind", J::s(kind)));
                }
                "poll" => {
                    let w = hub.waker(op.get("w").int());
                    let mut cx = Context::from_waker(&w);
                    let (r, calls) = match ls.get_mut(&op.get("id").int()).unwrap() {
                        L::Until(u) => (
                            if op.get("as").boolean() { u.poll_str(&mut cx) } else { u.poll_fut(&mut cx) },
                            vec![],
                        ),
                        L::ForEach(fu, calls) => {
                            let r = fu.as_mut().poll(&mut cx).is_ready();
                            (r, std::mem::take(&mut *calls.borrow_mut()))
                        }
                    };
                    f.push(("id", op.get("id").clone()));
                    f.push(("w", op.get("w").clone()));
                    f.push(("res", J::b(r)));
                    f.push(("calls", J::ints(calls)));
                }
                "drop" => {
                    drop(ls.remove(&op.get("id").int()));
                    f.push(("id", op.get("id").clone()));
                }
                "set" => {
                    // how: 0 = borrow_mut, 1 = try_borrow_mut; nop = borrow without writing
                    let v = op.get("v").int();
                    // repeated: many borrows between two polls
                    let (mut refused, mut early) = (true, 0);
                    for _ in 0..op.get("rep").int().max(1) {
                        let mut g = if op.get("how").int() == 1 { cell.try_borrow_mut().unwrap() } else { cell.borrow_mut() };
                        // while the guard lives nothing is notified yet and other borrows are refused
                        refused &= cell.try_borrow().is_err() && cell.try_borrow_mut().is_err();
                        early += hub.take().len() as i64;
                        if !op.get("nop").boolean() {
                            *g = v;
                        }
                        drop(g);
                        woken.extend(hub.take());
                    }
                    f.push(("refused", J::b(refused)));
                    f.push(("early", J::i(early)));
                    f.push(("v", J::i(v)));
                    f.push(("nop", J::b(op.get("nop").boolean())));
                }
                "read" => {
                    let a = cell.borrow();
                    let b = cell.try_borrow().unwrap(); // shared borrows coexist
                    let refused = cell.try_borrow_mut().is_err();
                    f.push(("v", J::i(*a)));
                    f.push(("v2", J::i(*b)));
                    f.push(("refused", J::b(refused)));
                }
                "clone" => {
                    // a clone is an independent cell
                    let c = cell.clone();
                    let v = *c.borrow();
                    *c.borrow_mut() += 1;
                    f.push(("v", J::i(v)));
                }
                x => panic!("op {x}"),
            }
            woken.extend(hub.take());
            f.push(("wk", J::ints(woken)));
            f.push(("held", J::ints(hub.held().into_iter().map(|x| x.0))));
            f
        });
        if !ok {
            std::mem::forget(ls);
            return;
        }
    }
    step("end", || {
        ls.clear();
        vec![("held", J::ints(hub.held().into_iter().map(|x| x.0)))]
    });
}
