//! The root executor (R01): scripted tasks on the app executor (or one scripted root future on the mini executor)
//! wake, spawn, cancel each other, run and schedule the executor, from inside and outside of polls.
use async_executor::Task;
use async_ui_web_core::executor::{run_now, schedule, set_executor_future};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use vcommon::{guarded, log, J};
use wasm_bindgen::{closure::Closure, JsCast};
use web_sys::mock;

struct World {
    core: bool,
    prog: RefCell<BTreeMap<i64, Vec<Vec<Vec<J>>>>>,
    wakers: RefCell<BTreeMap<i64, Waker>>,
    handles: RefCell<BTreeMap<i64, Task<()>>>,
    target: web_sys::EventTarget,
    listener: RefCell<Option<Closure<dyn Fn(web_sys::Event)>>>,
    /// tasks the listener wakes
    towake: RefCell<Vec<i64>>,
    hosts: RefCell<Vec<web_sys::Element>>,
    used: RefCell<BTreeMap<i64, ()>>,
    budget: Cell<i64>,
}
struct T {
    i: i64,
    k: usize,
    w: Rc<World>,
}
fn n() -> J {
    J::i(mock::pending_timers() as i64)
}
fn ev(op: &str, f: Vec<(&str, J)>) {
    let mut v = vec![("op".to_string(), J::s(op))];
    v.extend(f.into_iter().map(|(k, x)| (k.to_string(), x)));
    v.push(("n".into(), n()));
    log(J::Obj(v));
}
impl Future for T {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = self.get_mut();
        ev("poll", vec![("i", J::i(this.i))]);
        this.w.wakers.borrow_mut().insert(this.i, cx.waker().clone());
        let acts = this.w.prog.borrow().get(&this.i).and_then(|p| p.get(this.k).cloned()).unwrap_or_default();
        this.k += 1;
        let mut done = false;
        for a in acts {
            if a[0].str() == "done" {
                done = true;
            } else {
                this.w.act(&a);
            }
        }
        ev("polled", vec![("i", J::i(this.i)), ("done", J::Bool(done))]);
        if done {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl World {
    fn task(self: &Rc<Self>, i: i64) -> T {
        T { i, k: 0, w: self.clone() }
    }
    fn run(&self, k: &str, f: impl FnOnce()) {
        // a timer is gone when it fires
        let n = mock::pending_timers() - (k == "timer") as usize;
        log(J::obj([("op", J::s("in")), ("k", J::s(k)), ("n", J::i(n as i64))]));
        f();
        ev("out", vec![("k", J::s(k))]);
    }
    fn act(self: &Rc<Self>, a: &[J]) {
        self.budget.set(self.budget.get() - 1);
        if self.budget.get() < 0 {
            return;
        }
        let i = a.get(1).map_or(0, |x| x.int());
        match a[0].str() {
            "wake" => {
                let w = self.wakers.borrow().get(&i).cloned();
                if let Some(w) = w {
                    w.wake();
                    ev("wake", vec![("i", J::i(i))]);
                }
            }
            "spawn" | "mount" => {
                if self.core || self.used.borrow_mut().insert(i, ()).is_some() {
                    return;
                }
                let h = if a[0].str() == "spawn" {
                    async_ui_web::executor::get_executor().spawn(self.task(i))
                } else {
                    let host = web_sys::window().unwrap().document().unwrap().create_element("div").unwrap();
                    self.hosts.borrow_mut().push(host.clone());
                    async_ui_web::mount_at(self.task(i), host.into())
                };
                self.handles.borrow_mut().insert(i, h);
                ev("spawn", vec![("i", J::i(i))]);
            }
            "cancel" => {
                let h = self.handles.borrow_mut().remove(&i);
                if let Some(h) = h {
                    drop(h);
                    ev("cancel", vec![("i", J::i(i))]);
                }
            }
            "run" => self.run("run", run_now),
            "sched" => {
                schedule();
                ev("sched", vec![]);
            }
            "disp" => {
                *self.towake.borrow_mut() = a[1..].iter().map(|x| x.int()).collect();
                let e = mock::event("Event", "x", false, false);
                self.target.dispatch_event(&e).unwrap();
            }
            "timer" => self.timer(),
            "quiet" => {
                let mut k = 0;
                while mock::pending_timers() > 0 && k < 1000 {
                    self.timer();
                    k += 1;
                }
                ev("quiet", vec![]);
            }
            x => panic!("unknown action {x}"),
        }
    }
    fn timer(self: &Rc<Self>) {
        if mock::pending_timers() > 0 {
            self.run("timer", || {
                mock::run_timer();
            });
        }
    }
}
pub fn run(sc: &J) {
    let w = Rc::new(World {
        core: sc.get("core").boolean(),
        prog: Default::default(),
        wakers: Default::default(),
        handles: Default::default(),
        target: web_sys::EventTarget::new().unwrap(),
        listener: Default::default(),
        towake: Default::default(),
        hosts: Default::default(),
        used: Default::default(),
        budget: Cell::new(4000),
    });
    for p in sc.get("prog").list() {
        let polls = p.list()[1].list().iter().map(|acts| acts.list().iter().map(|a| a.list().to_vec()).collect()).collect();
        w.prog.borrow_mut().insert(p.list()[0].int(), polls);
    }
    let w2 = w.clone();
    let c: Closure<dyn Fn(web_sys::Event)> = Closure::new(move |_e: web_sys::Event| {
        let t = w2.towake.borrow().clone();
        for i in t {
            w2.act(&[J::s("wake"), J::i(i)]);
        }
        w2.run("disp", run_now);
    });
    w.target.add_event_listener_with_callback("x", c.as_ref().unchecked_ref()).unwrap();
    *w.listener.borrow_mut() = Some(c);
    if w.core {
        let t = w.task(0);
        w.used.borrow_mut().insert(0, ());
        set_executor_future(Box::new(t));
        ev("set", vec![]);
    }
    for o in sc.get("ops").list() {
        let o = o.list();
        if let Err(m) = guarded(|| w.act(o)) {
            log(J::obj([("op", J::s("panic")), ("during", o[0].clone()), ("msg", J::s(&m))]));
            break;
        }
        let e = mock::take_errors();
        if !e.is_empty() {
            log(J::obj([("op", J::s("error")), ("msg", J::s(&e.join("; ")))]));
        }
    }
    // keep everything: the executor is never torn down
    std::mem::forget(std::mem::take(&mut *w.handles.borrow_mut()));
    w.prog.borrow_mut().clear();
}
