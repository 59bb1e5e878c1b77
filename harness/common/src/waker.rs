//! Wakers with an identity: every wake is recorded, and the number of live clones is known.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::task::{Wake, Waker};

struct W {
    id: i64,
    hub: Arc<HubInner>,
}
#[derive(Default)]
struct HubInner {
    /// ids in wake order since last take
    wakes: Mutex<Vec<i64>>,
}
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.hub.wakes.lock().unwrap().push(self.id);
        let cb = HOOK.with(|h| h.borrow().clone());
        if let Some(cb) = cb {
            cb(self.id);
        }
    }
}
thread_local! {
    static HOOK: RefCell<Option<std::rc::Rc<dyn Fn(i64)>>> = const { RefCell::new(None) };
}
/// Called on every wake (in addition to recording).
pub fn set_hook(f: Option<std::rc::Rc<dyn Fn(i64)>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}

/// A family of identified wakers.
#[derive(Default)]
pub struct Hub {
    inner: Arc<HubInner>,
    ws: RefCell<BTreeMap<i64, Arc<W>>>,
}
impl Hub {
    pub fn new() -> Self {
        Self::default()
    }
    /// The waker with this id (always the same underlying waker: `will_wake` holds).
    pub fn waker(&self, id: i64) -> Waker {
        let w = self
            .ws
            .borrow_mut()
            .entry(id)
            .or_insert_with(|| Arc::new(W { id, hub: self.inner.clone() }))
            .clone();
        Waker::from(w)
    }
    /// Wakes since the last call, in order.
    pub fn take(&self) -> Vec<i64> {
        std::mem::take(&mut *self.inner.wakes.lock().unwrap())
    }
    /// Number of live clones of waker `id` held by anybody but the hub.
    pub fn clones(&self, id: i64) -> usize {
        self.ws.borrow().get(&id).map(|a| Arc::strong_count(a) - 1).unwrap_or(0)
    }
    /// (id, clones) for every waker with at least one live clone.
    pub fn held(&self) -> Vec<(i64, usize)> {
        self.ws
            .borrow()
            .iter()
            .map(|(k, a)| (*k, Arc::strong_count(a) - 1))
            .filter(|(_, n)| *n > 0)
            .collect()
    }
}
