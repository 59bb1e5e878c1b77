//! Dropdown (O01): a menu whose options and value the program changes and the user picks from.
use async_ui_web::components::Dropdown;
use async_ui_web::event_traits::EmitHtmlElementEvent;
use async_ui_web::join;
use std::cell::RefCell;
use std::rc::Rc;
use vcommon::{guarded, log, J};
use wasm_bindgen::JsCast;
use web_sys::mock;

const KEYS: i64 = 310;

pub fn run(sc: &J) {
    let doc = web_sys::window().unwrap().document().unwrap();
    let host = doc.create_element("div").unwrap();
    let dd: Rc<Dropdown<i64>> = Rc::new(if sc.get("dflt").boolean() { Default::default() } else { Dropdown::new() });
    let seen: Rc<RefCell<Vec<i64>>> = Default::default();
    let el: web_sys::HtmlSelectElement = mock::as_node(&**dd).unchecked_into();
    let mut task = None;
    let settle = || {
        let mut k = 0;
        while mock::run_timer() && k < 1000 {
            k += 1;
        }
    };
    for o in sc.get("ops").list() {
        let l = o.list();
        let f: Vec<(&'static str, J)> = vec![("a", J::arr(l[1..].iter().cloned()))];
        let name = l[0].str().to_string();
        let r = guarded(|| match name.as_str() {
            "upd" => dd.update_options(l[1].list().iter().map(|kt| (kt.list()[0].int(), kt.list()[1].str()))),
            "set" => dd.set_value(if l[1].int() == 0 { None } else { Some(l[1].int()) }),
            "user" => {
                // the user opens the menu and picks the option at this place
                let n = el.length() as i64;
                if n > 0 {
                    mock::user_select(&el, (l[1].int() % n) as i32);
                    let e = mock::event("Event", "change", true, false);
                    el.dispatch_event(&e).unwrap();
                }
            }
            "mount" => {
                task = None;
                settle();
                let (dd, seen) = (dd.clone(), seen.clone());
                let via_select = l[1].boolean();
                let fut = async move {
                    join((dd.render(), async {
                        loop {
                            if via_select {
                                {
                                let h: &web_sys::HtmlElement = (**dd).as_ref();
                                h.until_change().await
                            };;
                            } else {
                                dd.until_change().await;
                            }
                            seen.borrow_mut().push(dd.value().unwrap_or(0));
                        }
                    }))
                    .await;
                };
                task = Some(async_ui_web::mount_at(fut, mock::as_node(&host)));
            }
            "unmount" => task = None,
            x => panic!("op {x}"),
        });
        let r = r.and_then(|_| guarded(settle));
        if let Err(m) = r {
            log(J::obj([("op", J::s("panic")), ("during", J::s(&name)), ("msg", J::s(&m))]));
            std::mem::forget(task);
            return;
        }
        let errs = mock::take_errors();
        if !errs.is_empty() {
            log(J::obj([("op", J::s("errors")), ("errs", J::arr(errs.iter().map(J::s)))]));
        }
        let opts = J::arr(mock::children(&mock::as_node(&el)).iter().map(|c| {
            let t = c.text_content().unwrap_or_default();
            J::obj([("e", J::i(mock::id(c) as i64)), ("g", J::s(mock::tag(c))), ("t", J::s(t))])
        }));
        let mut v = vec![("op".to_string(), J::s(&name))];
        v.extend(f.into_iter().map(|(k, x)| (k.to_string(), x)));
        v.extend(
            [
                ("opts", opts),
                ("sel", J::i(el.selected_index() as i64)),
                ("val", J::i(dd.value().unwrap_or(0))),
                ("has", J::ints((1..=KEYS).filter(|k| dd.contains_key(k)))),
                ("seen", J::ints(seen.borrow_mut().drain(..))),
                ("shown", J::b(mock::children(&mock::as_node(&host)).iter().any(|c| mock::id(c) == mock::id(&el)))),
            ]
            .map(|(k, x)| (k.to_string(), x)),
        );
        log(J::Obj(v));
    }
    drop(task);
    let _ = guarded(settle);
}
