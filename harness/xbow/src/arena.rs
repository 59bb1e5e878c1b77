//! WakersArena driven through its public API. Names of lists/slots are chosen by the scenario.
use async_ui_internal_utils::wakers_arena::{WakerSlot, WakersArena, WakersSublist};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::task::Waker;
use vcommon::{step, waker::Hub, J};

pub struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn live() -> i64 {
    LIVE.with(|c| c.get())
}

pub fn run(sc: &J) {
    let hub = Hub::new();
    for w in 1..=sc.get("nw").int() {
        drop(hub.waker(w)); // allocate up front
    }
    let mut mem = 0i64;
    let m0 = live();
    let mut arena = WakersArena::new();
    mem += live() - m0;
    let mut lists: BTreeMap<i64, WakersSublist> = BTreeMap::new();
    let mut slots: BTreeMap<i64, WakerSlot> = BTreeMap::new();
    // how a waker is recognised when iterating: wake it and look at the hub
    let contents = |arena: &WakersArena, l: &WakersSublist, hub: &Hub| -> J {
        let mut v = vec![];
        let mut n = 0;
        for w in arena.iter(l) {
            hub.take();
            let w: &Waker = w;
            w.wake_by_ref();
            let got = hub.take();
            v.push(J::i(got.first().copied().unwrap_or(0)));
            n += 1;
            if n > 10_000 {
                v.push(J::i(-1)); // cyclic garbage
                break;
            }
        }
        J::Arr(v)
    };
    for op in sc.get("ops").list() {
        let name = op.get("op").str().to_string();
        let ok = step(&name, || {
            let m0 = live();
            let mut extra = vec![];
            match name.as_str() {
                "mklist" => {
                    let l = arena.add_sublist();
                    mem += live() - m0;
                    lists.insert(op.get("l").int(), l);
                    extra.push(("l", op.get("l").clone()));
                }
                "add" => {
                    let s = arena.add(&lists[&op.get("l").int()]);
                    mem += live() - m0;
                    slots.insert(op.get("s").int(), s);
                    extra.push(("l", op.get("l").clone()));
                    extra.push(("s", op.get("s").clone()));
                }
                "upd" => {
                    let w = hub.waker(op.get("w").int());
                    arena.update(&slots[&op.get("s").int()], &w);
                    drop(w);
                    mem += live() - m0;
                    extra.push(("s", op.get("s").clone()));
                    extra.push(("w", op.get("w").clone()));
                }
                "rm" => {
                    let s = slots.remove(&op.get("s").int()).unwrap();
                    let m0 = live();
                    arena.remove(&s);
                    mem += live() - m0;
                    extra.push(("s", op.get("s").clone()));
                }
                "rmlist" => {
                    let id = op.get("l").int();
                    let r = arena.remove_sublist_if_empty(&lists[&id]);
                    mem += live() - m0;
                    if r {
                        lists.remove(&id);
                    }
                    extra.push(("l", op.get("l").clone()));
                    extra.push(("res", J::b(r)));
                }
                x => panic!("op {x}"),
            }
            let mut c = vec![];
            for (id, l) in &lists {
                c.push(J::arr([J::i(*id), contents(&arena, l, &hub)]));
            }
            extra.push(("lists", J::Arr(c)));
            extra.push(("held", J::arr(hub.held().into_iter().map(|(w, n)| J::ints([w, n as i64])))));
            extra.push(("mem", J::i(mem)));
            extra
        });
        if !ok {
            std::mem::forget(arena);
            return;
        }
    }
    step("end", || {
        drop(slots);
        drop(lists);
        drop(arena);
        vec![("held", J::arr(hub.held().into_iter().map(|(w, n)| J::ints([w, n as i64]))))]
    });
}
