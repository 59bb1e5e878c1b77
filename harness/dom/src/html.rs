//! H01: every element component, the class shortcuts and text.
use async_ui_web::shortcut_traits::*;
use async_ui_web::{html, join, NoChild};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use vcommon::{guarded, log, J};
use wasm_bindgen::JsCast;
use web_sys::{mock, Element};

type Fut = Pin<Box<dyn Future<Output = ()>>>;
trait Comp {
    fn el(&self) -> &Element;
    fn show(self: Rc<Self>, kid: Fut) -> Fut;
    fn with(&self, c: &str) -> bool;
    fn withs(&self, c: &[String]) -> bool;
}
macro_rules! shared {
    () => {
        fn el(&self) -> &Element {
            self.element.as_ref()
        }
        fn with(&self, c: &str) -> bool {
            std::ptr::eq(self.with_class(c), self)
        }
        fn withs(&self, c: &[String]) -> bool {
            std::ptr::eq(self.with_classes(c.iter().map(|s| s.as_str())), self)
        }
    };
}
macro_rules! childed {
    ($($t:ident)*) => { $(impl Comp for html::$t {
        shared!();
        fn show(self: Rc<Self>, kid: Fut) -> Fut {
            Box::pin(async move { self.render(kid).await })
        }
    })* };
}
macro_rules! childless {
    ($($t:ident)*) => { $(impl Comp for html::$t {
        shared!();
        fn show(self: Rc<Self>, _kid: Fut) -> Fut {
            Box::pin(async move { self.render().await })
        }
    })* };
}
struct Custom(html::CustomElement);
impl Comp for Custom {
    fn el(&self) -> &Element {
        &self.0.element
    }
    fn show(self: Rc<Self>, kid: Fut) -> Fut {
        Box::pin(async move { self.0.render(kid).await })
    }
    fn with(&self, c: &str) -> bool {
        std::ptr::eq(self.el().with_class(c), self.el())
    }
    fn withs(&self, c: &[String]) -> bool {
        std::ptr::eq(self.el().with_classes(c.iter().map(|s| s.as_str())), self.el())
    }
}
childed!(Anchor Audio Bold Button Canvas Dl Data DataList Dialog Div FieldSet Form FrameSet H1 H2 H3 H4 H5 H6 Italic IFrame Img Li Label Legend Map Meter Ol Object OptGroup Option Output Paragraph Picture Pre Progress Quote Select Span Style Th Td Col ColGroup Table Tr THead TFoot TBody Template TextArea Time Ul Video);
childless!(Area Br Base Embed Hr Input Link Meta Source Track);
macro_rules! make { ($k:expr, $d:expr, $($t:ident)*) => { match $k { $(stringify!($t) => if $d { Rc::new(html::$t::default()) as Rc<dyn Comp> } else { Rc::new(html::$t::new()) },)* x => panic!("component {x}") } } }
fn make(k: &str, dflt: bool) -> Rc<dyn Comp> {
    match k {
        "Input.new_button" => return Rc::new(html::Input::new_button()),
        "Input.new_checkbox" => return Rc::new(html::Input::new_checkbox()),
        "Input.new_color" => return Rc::new(html::Input::new_color()),
        "Input.new_date" => return Rc::new(html::Input::new_date()),
        "Input.new_datetime" => return Rc::new(html::Input::new_datetime()),
        "Input.new_email" => return Rc::new(html::Input::new_email()),
        "Input.new_file" => return Rc::new(html::Input::new_file()),
        "Input.new_hidden" => return Rc::new(html::Input::new_hidden()),
        "Input.new_image" => return Rc::new(html::Input::new_image()),
        "Input.new_month" => return Rc::new(html::Input::new_month()),
        "Input.new_number" => return Rc::new(html::Input::new_number()),
        "Input.new_password" => return Rc::new(html::Input::new_password()),
        "Input.new_radio" => return Rc::new(html::Input::new_radio()),
        "Input.new_range" => return Rc::new(html::Input::new_range()),
        "Input.new_reset" => return Rc::new(html::Input::new_reset()),
        "Input.new_search" => return Rc::new(html::Input::new_search()),
        "Input.new_submit" => return Rc::new(html::Input::new_submit()),
        "Input.new_tel" => return Rc::new(html::Input::new_tel()),
        "Input.new_text" => return Rc::new(html::Input::new_text()),
        "Input.new_time" => return Rc::new(html::Input::new_time()),
        "Input.new_url" => return Rc::new(html::Input::new_url()),
        "Input.new_week" => return Rc::new(html::Input::new_week()),
        _ => {}
    }
    if let Some(n) = k.strip_prefix("Custom.") {
        return Rc::new(Custom(html::CustomElement::new(n.to_string().into())));
    }
    make!(k, dflt, Anchor Area Audio Bold Br Base Button Canvas Dl Data DataList Dialog Div Embed FieldSet Form FrameSet Hr H1 H2 H3 H4 H5 H6 Italic IFrame Img Input Li Label Legend Link Map Meta Meter Ol Object OptGroup Option Output Paragraph Picture Pre Progress Quote Select Source Span Style Th Td Col ColGroup Table Tr THead TFoot TBody Template TextArea Time Track Ul Video)
}

pub fn run(sc: &J) {
    let doc = web_sys::window().unwrap().document().unwrap();
    let host = doc.create_element("div").unwrap();
    let mut els: BTreeMap<i64, Rc<dyn Comp>> = BTreeMap::new();
    let mut tasks = BTreeMap::new();
    let kids: Rc<RefCell<Vec<(i64, u64)>>> = Default::default();
    let settle = || {
        let mut k = 0;
        while mock::run_timer() && k < 1000 {
            k += 1;
        }
    };
    for o in sc.get("ops").list() {
        let l = o.list();
        let name = l[0].str().to_string();
        let e = l[1].int();
        let mut f: Vec<(&'static str, J)> = vec![];
        let r = guarded(|| match name.as_str() {
            "new" => {
                let c = make(l[2].str(), l[3].boolean());
                let k = l[2].str();
                f.push(("k", J::s(k)));
                f.push(("custom", J::s(k.strip_prefix("Custom.").unwrap_or(""))));
                f.push(("input", J::s(k.strip_prefix("Input.").unwrap_or(""))));
                f.push(("tag", J::s(mock::tag(&mock::as_node(c.el())))));
                f.push(("ty", J::s(c.el().get_attribute("type").unwrap_or_default())));
                f.push(("in", J::b(mock::as_node(c.el()).parent_node().is_some())));
                els.insert(e, c);
            }
            "cls" => {
                let c = &els[&e];
                let a: Vec<String> = l[3].list().iter().map(|x| x.str().to_string()).collect();
                let it = || a.iter().map(|s| s.as_str());
                let same = match l[2].str() {
                    "add" => { c.el().add_class(&a[0]); true }
                    "adds" => { c.el().add_classes(it()); true }
                    "del" => { c.el().del_class(&a[0]); true }
                    "dels" => { c.el().del_classes(it()); true }
                    "on" => { c.el().set_class(&a[0], true); true }
                    "off" => { c.el().set_class(&a[0], false); true }
                    "with" => c.with(&a[0]),
                    "withs" => c.withs(&a),
                    "ext" => { c.el().set_class_name(&a.join(" ")); true }
                    x => panic!("{x}"),
                };
                f.push(("k", l[2].clone()));
                f.push(("a", l[3].clone()));
                f.push(("same", J::b(same)));
            }
            "show" => {
                // the elements listed, each with a child of its own, side by side in one app
                let es: Vec<i64> = l[2].list().iter().map(|x| x.int()).collect();
                let v: Vec<Fut> = es.iter().map(|e| {
                    let c = els[e].clone();
                    let (kids, e) = (kids.clone(), *e);
                    let d: &'static str = Box::leak(format!("t{e}").into_boxed_str());
                    let k: Fut = Box::pin(async move {
                        let s = html::Span::new();
                        kids.borrow_mut().push((e, mock::id(&mock::as_node(&s.element))));
                        join((s.render(d.render()), async { NoChild.await })).await;
                    });
                    c.show(k)
                }).collect();
                tasks.insert(e, async_ui_web::mount_at(async move { join(v).await; }, mock::as_node(&host)));
                f.push(("es", l[2].clone()));
            }
            "hide" => drop(tasks.remove(&e)),
            "text" => {
                // a string as a component; or a text node whose data is set before or after it is shown
                let (s, via) = (l[2].str().to_string(), l[3].str().to_string());
                let fut: Fut = if via == "str" {
                    Box::pin(async move { s.render().await })
                } else {
                    Box::pin(async move {
                        let t = if via == "dflt" { html::Text::default() } else { html::Text::new() };
                        if via == "late" {
                            join((t.render(), async { t.set_data("x"); t.set_data(&s) })).await;
                        } else {
                            t.set_data(&s);
                            t.render().await;
                        }
                    })
                };
                tasks.insert(e, async_ui_web::mount_at(fut, mock::as_node(&host)));
                f.push(("s", l[2].clone()));
            }
            x => panic!("op {x}"),
        });
        let r = r.and_then(|_| guarded(settle));
        if let Err(m) = r {
            log(J::obj([("op", J::s("panic")), ("during", J::s(&name)), ("msg", J::s(&m))]));
            std::mem::forget(tasks);
            return;
        }
        let errs = mock::take_errors();
        if !errs.is_empty() {
            log(J::obj([("op", J::s("errors")), ("errs", J::arr(errs.iter().map(J::s)))]));
        }
        let mut ev = vec![("op", J::s(&name)), ("e", J::i(e))];
        ev.extend(f);
        // what the page looks like now
        let ids: BTreeMap<u64, i64> = els.iter().map(|(k, c)| (mock::id(&mock::as_node(c.el())), *k)).collect();
        let kid = |n: &web_sys::Node| kids.borrow().iter().find(|x| x.1 == mock::id(n)).map(|x| x.0).unwrap_or(-1);
        let page = J::arr(mock::children(&mock::as_node(&host)).iter().map(|n| {
            if n.node_type() == 3 {
                return J::obj([("e", J::i(0)), ("in", J::s(n.text_content().unwrap_or_default()))]);
            }
            let inner = mock::children(n);
            let s = match &inner[..] {
                [] => "".to_string(),
                [k] => format!("{}:{}", kid(k), k.text_content().unwrap_or_default()),
                _ => "?".into(),
            };
            J::obj([("e", J::i(ids.get(&mock::id(n)).copied().unwrap_or(-1))), ("in", J::s(s))])
        }));
        ev.push(("page", page));
        ev.push(("cls", J::arr(els.values().map(|c| {
            let l = c.el().class_list();
            J::arr((0..l.length()).map(|i| J::s(l.item(i).unwrap())))
        }))));
        log(J::obj(ev));
    }
    let _ = guarded(|| drop(tasks));
}
