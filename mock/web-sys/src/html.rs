use crate::classes::*;
use crate::dom::{nd, Nd};
use crate::mock;
use std::cell::RefCell;
use wasm_bindgen::{JsCast, JsValue};

pub(crate) fn class_of(tag: &str) -> &'static str {
    match tag {
        "a" => "HtmlAnchorElement",
        "area" => "HtmlAreaElement",
        "audio" => "HtmlAudioElement",
        "base" => "HtmlBaseElement",
        "body" => "HtmlBodyElement",
        "br" => "HtmlBrElement",
        "button" => "HtmlButtonElement",
        "canvas" => "HtmlCanvasElement",
        "col" | "colgroup" => "HtmlTableColElement",
        "data" => "HtmlDataElement",
        "datalist" => "HtmlDataListElement",
        "dialog" => "HtmlDialogElement",
        "div" => "HtmlDivElement",
        "dl" => "HtmlDListElement",
        "embed" => "HtmlEmbedElement",
        "fieldset" => "HtmlFieldSetElement",
        "form" => "HtmlFormElement",
        "frameset" => "HtmlFrameSetElement",
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => "HtmlHeadingElement",
        "head" => "HtmlHeadElement",
        "hr" => "HtmlHrElement",
        "html" => "HtmlHtmlElement",
        "iframe" => "HtmlIFrameElement",
        "img" => "HtmlImageElement",
        "input" => "HtmlInputElement",
        "label" => "HtmlLabelElement",
        "legend" => "HtmlLegendElement",
        "li" => "HtmlLiElement",
        "link" => "HtmlLinkElement",
        "map" => "HtmlMapElement",
        "meta" => "HtmlMetaElement",
        "meter" => "HtmlMeterElement",
        "object" => "HtmlObjectElement",
        "ol" => "HtmlOListElement",
        "optgroup" => "HtmlOptGroupElement",
        "option" => "HtmlOptionElement",
        "output" => "HtmlOutputElement",
        "p" => "HtmlParagraphElement",
        "picture" => "HtmlPictureElement",
        "pre" => "HtmlPreElement",
        "progress" => "HtmlProgressElement",
        "q" => "HtmlQuoteElement",
        "script" => "HtmlScriptElement",
        "select" => "HtmlSelectElement",
        "source" => "HtmlSourceElement",
        "span" => "HtmlSpanElement",
        "style" => "HtmlStyleElement",
        "table" => "HtmlTableElement",
        "tbody" | "thead" | "tfoot" => "HtmlTableSectionElement",
        "td" | "th" => "HtmlTableCellElement",
        "template" => "HtmlTemplateElement",
        "textarea" => "HtmlTextAreaElement",
        "time" => "HtmlTimeElement",
        "title" => "HtmlTitleElement",
        "tr" => "HtmlTableRowElement",
        "track" => "HtmlTrackElement",
        "ul" => "HtmlUListElement",
        "video" => "HtmlVideoElement",
        _ => "HtmlElement",
    }
}

impl Element {
    fn n(&self) -> &Nd {
        nd(self.as_ref())
    }
    pub fn tag_name(&self) -> String {
        self.node_name()
    }
    pub fn local_name(&self) -> String {
        self.n().tag.clone()
    }
    pub fn get_attribute(&self, k: &str) -> Option<String> {
        self.n().attrs.borrow().get(k).cloned()
    }
    pub fn set_attribute(&self, k: &str, v: &str) -> Result<(), JsValue> {
        self.n().attrs.borrow_mut().insert(k.into(), v.into());
        Ok(())
    }
    pub fn remove_attribute(&self, k: &str) -> Result<(), JsValue> {
        self.n().attrs.borrow_mut().remove(k);
        Ok(())
    }
    pub fn has_attribute(&self, k: &str) -> bool {
        self.n().attrs.borrow().contains_key(k)
    }
    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }
    pub fn set_id(&self, v: &str) {
        let _ = self.set_attribute("id", v);
    }
    pub fn class_name(&self) -> String {
        self.get_attribute("class").unwrap_or_default()
    }
    pub fn set_class_name(&self, v: &str) {
        let _ = self.set_attribute("class", v);
    }
    pub fn class_list(&self) -> DomTokenList {
        let e: Element = self.clone();
        JsValue::__new(chain("DomTokenList"), Box::new(e)).unchecked_into()
    }
    pub fn get_bounding_client_rect(&self) -> DomRect {
        JsValue::__new(chain("DomRect"), Box::new(mock::rect(self))).unchecked_into()
    }
    pub fn next_element_sibling(&self) -> Option<Element> {
        let mut n = self.next_sibling();
        while let Some(x) = n {
            if x.node_type() == 1 {
                return Some(x.unchecked_into());
            }
            n = x.next_sibling();
        }
        None
    }
    pub fn previous_element_sibling(&self) -> Option<Element> {
        let mut n = self.previous_sibling();
        while let Some(x) = n {
            if x.node_type() == 1 {
                return Some(x.unchecked_into());
            }
            n = x.previous_sibling();
        }
        None
    }
    pub fn scroll_top(&self) -> i32 {
        self.n().scroll.get().0 as i32
    }
    pub fn set_scroll_top(&self, v: i32) {
        let (_, l) = self.n().scroll.get();
        self.n().scroll.set((v as f64, l));
    }
    pub fn scroll_left(&self) -> i32 {
        self.n().scroll.get().1 as i32
    }
    pub fn set_scroll_left(&self, v: i32) {
        let (t, _) = self.n().scroll.get();
        self.n().scroll.set((t, v as f64));
    }
    pub fn client_height(&self) -> i32 {
        let r = mock::rect(self);
        (r.1 - r.0) as i32
    }
    pub fn client_width(&self) -> i32 {
        let r = mock::rect(self);
        (r.3 - r.2) as i32
    }
    pub fn scroll_height(&self) -> i32 {
        self.client_height()
    }
}
impl DomTokenList {
    fn el(&self) -> &Element {
        AsRef::<JsValue>::as_ref(self).__data::<Element>().unwrap()
    }
    fn toks(&self) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        for t in self.el().class_name().split_ascii_whitespace() {
            if !v.iter().any(|x| x == t) {
                v.push(t.into());
            }
        }
        v
    }
    fn put(&self, v: Vec<String>) {
        self.el().set_class_name(&v.join(" "));
    }
    fn check(t: &str) -> Result<(), JsValue> {
        if t.is_empty() {
            return Err(crate::dom::err("SyntaxError", "empty token"));
        }
        if t.contains(|c: char| c.is_ascii_whitespace()) {
            return Err(crate::dom::err("InvalidCharacterError", "token contains whitespace"));
        }
        Ok(())
    }
    pub fn length(&self) -> u32 {
        self.toks().len() as u32
    }
    pub fn item(&self, i: u32) -> Option<String> {
        self.toks().get(i as usize).cloned()
    }
    pub fn value(&self) -> String {
        self.el().class_name()
    }
    pub fn set_value(&self, v: &str) {
        self.el().set_class_name(v);
    }
    pub fn contains(&self, t: &str) -> bool {
        self.toks().iter().any(|x| x == t)
    }
    fn adds(&self, ts: &[String]) -> Result<(), JsValue> {
        for t in ts {
            Self::check(t)?;
        }
        let mut v = self.toks();
        for t in ts {
            if !v.contains(t) {
                v.push(t.clone());
            }
        }
        self.put(v);
        Ok(())
    }
    fn dels(&self, ts: &[String]) -> Result<(), JsValue> {
        for t in ts {
            Self::check(t)?;
        }
        let mut v = self.toks();
        v.retain(|x| !ts.contains(x));
        self.put(v);
        Ok(())
    }
    fn strs(a: &js_sys::Array) -> Vec<String> {
        a.iter().map(|x| x.as_string().unwrap_or_default()).collect()
    }
    pub fn add(&self, a: &js_sys::Array) -> Result<(), JsValue> {
        self.adds(&Self::strs(a))
    }
    pub fn add_0(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn add_1(&self, a: &str) -> Result<(), JsValue> {
        self.adds(&[a.into()])
    }
    pub fn add_2(&self, a: &str, b: &str) -> Result<(), JsValue> {
        self.adds(&[a.into(), b.into()])
    }
    pub fn remove(&self, a: &js_sys::Array) -> Result<(), JsValue> {
        self.dels(&Self::strs(a))
    }
    pub fn remove_0(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn remove_1(&self, a: &str) -> Result<(), JsValue> {
        self.dels(&[a.into()])
    }
    pub fn remove_2(&self, a: &str, b: &str) -> Result<(), JsValue> {
        self.dels(&[a.into(), b.into()])
    }
    pub fn toggle(&self, t: &str) -> Result<bool, JsValue> {
        let on = !self.contains(t);
        self.toggle_with_force(t, on)
    }
    pub fn toggle_with_force(&self, t: &str, on: bool) -> Result<bool, JsValue> {
        if on {
            self.add_1(t)?
        } else {
            self.remove_1(t)?
        }
        Ok(on)
    }
    pub fn replace(&self, a: &str, b: &str) -> Result<bool, JsValue> {
        Self::check(a)?;
        Self::check(b)?;
        if !self.contains(a) {
            return Ok(false);
        }
        let mut v = self.toks();
        for x in v.iter_mut() {
            if x == a {
                *x = b.into();
            }
        }
        self.put(v);
        Ok(true)
    }
}
type Rect = (f64, f64, f64, f64); // top bottom left right
macro_rules! rects { ($($t:ident)*) => { $( impl $t {
    fn r(&self) -> Rect { *AsRef::<JsValue>::as_ref(self).__data::<Rect>().unwrap() }
    pub fn top(&self) -> f64 { self.r().0 }
    pub fn bottom(&self) -> f64 { self.r().1 }
    pub fn left(&self) -> f64 { self.r().2 }
    pub fn right(&self) -> f64 { self.r().3 }
    pub fn height(&self) -> f64 { self.r().1 - self.r().0 }
    pub fn width(&self) -> f64 { self.r().3 - self.r().2 }
    pub fn x(&self) -> f64 { self.r().2 }
    pub fn y(&self) -> f64 { self.r().0 }
} )* } }
rects!(DomRect DomRectReadOnly);

impl HtmlElement {
    pub fn style(&self) -> CssStyleDeclaration {
        let e: Element = self.clone().unchecked_into();
        JsValue::__new(chain("CssStyleDeclaration"), Box::new(e)).unchecked_into()
    }
    pub fn hidden(&self) -> bool {
        self.has_attribute("hidden")
    }
    pub fn set_hidden(&self, v: bool) {
        let _ = if v { self.set_attribute("hidden", "") } else { self.remove_attribute("hidden") };
    }
    pub fn title(&self) -> String {
        self.get_attribute("title").unwrap_or_default()
    }
    pub fn set_title(&self, v: &str) {
        let _ = self.set_attribute("title", v);
    }
    pub fn inner_text(&self) -> String {
        self.text_content().unwrap_or_default()
    }
    pub fn set_inner_text(&self, v: &str) {
        self.set_text_content(Some(v));
    }
    pub fn focus(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn blur(&self) -> Result<(), JsValue> {
        Ok(())
    }
    pub fn click(&self) {
        let e = crate::event::new_event("MouseEvent", "click", true, true);
        let _ = self.dispatch_event(&e);
    }
    pub fn offset_height(&self) -> i32 {
        self.client_height()
    }
    pub fn offset_width(&self) -> i32 {
        self.client_width()
    }
}
impl CssStyleDeclaration {
    fn el(&self) -> &Element {
        AsRef::<JsValue>::as_ref(self).__data::<Element>().unwrap()
    }
    pub fn set_property(&self, k: &str, v: &str) -> Result<(), JsValue> {
        let size = ["height", "width", "block-size", "inline-size"].contains(&k);
        if size && v != "0" && !v.is_empty() && !v.strip_suffix("px").and_then(|x| x.parse::<f64>().ok()).is_some_and(|x| x >= 0.0 && x.is_finite()) {
            // not a value the property can have: ignored
        } else if v.is_empty() {
            self.el().n().style.borrow_mut().remove(k);
        } else {
            self.el().n().style.borrow_mut().insert(k.into(), v.into());
        }
        Ok(())
    }
    pub fn remove_property(&self, k: &str) -> Result<String, JsValue> {
        Ok(self.el().n().style.borrow_mut().remove(k).unwrap_or_default())
    }
    pub fn get_property_value(&self, k: &str) -> Result<String, JsValue> {
        Ok(self.el().n().style.borrow().get(k).cloned().unwrap_or_default())
    }
}

// ------------------------------------------------------------------ form controls
macro_rules! attr_str { ($t:ident: $($get:ident $set:ident $a:literal),*) => { impl $t { $(
    pub fn $get(&self) -> String { self.get_attribute($a).unwrap_or_default() }
    pub fn $set(&self, v: &str) { let _ = self.set_attribute($a, v); }
)* } } }
macro_rules! attr_bool { ($t:ident: $($get:ident $set:ident $a:literal),*) => { impl $t { $(
    pub fn $get(&self) -> bool { self.has_attribute($a) }
    pub fn $set(&self, v: bool) { let _ = if v { self.set_attribute($a, "") } else { self.remove_attribute($a) }; }
)* } } }
attr_str!(HtmlInputElement: type_ set_type "type", name set_name "name", placeholder set_placeholder "placeholder");
attr_str!(HtmlAnchorElement: href set_href "href");
attr_str!(HtmlImageElement: src set_src "src", alt set_alt "alt");
attr_str!(HtmlLabelElement: html_for set_html_for "for");
attr_str!(HtmlSelectElement: name set_name "name");
attr_bool!(HtmlInputElement: disabled set_disabled "disabled", required set_required "required");
attr_bool!(HtmlButtonElement: disabled set_disabled "disabled");
attr_bool!(HtmlSelectElement: disabled set_disabled "disabled", multiple set_multiple "multiple");
attr_bool!(HtmlOptionElement: disabled set_disabled "disabled", default_selected set_default_selected "selected");
macro_rules! val { ($($t:ident)*) => { $( impl $t {
    pub fn value(&self) -> String { nd(self.as_ref()).value.borrow().clone().unwrap_or_default() }
    pub fn set_value(&self, v: &str) { *nd(self.as_ref()).value.borrow_mut() = Some(v.into()); }
} )* } }
val!(HtmlInputElement HtmlTextAreaElement);
impl HtmlInputElement {
    pub fn checked(&self) -> bool {
        nd(self.as_ref()).checked.get()
    }
    pub fn set_checked(&self, v: bool) {
        nd(self.as_ref()).checked.set(v)
    }
}

fn options_of(sel: &Node) -> Vec<HtmlOptionElement> {
    let mut v = vec![];
    for c in nd(sel.as_ref()).children.borrow().iter() {
        match nd(c.as_ref()).tag.as_str() {
            "option" => v.push(c.clone().unchecked_into()),
            "optgroup" => v.extend(options_of(c)),
            _ => {}
        }
    }
    v
}
fn select_of(o: &Node) -> Option<HtmlSelectElement> {
    let mut n = o.parent_node()?;
    if nd(n.as_ref()).tag == "optgroup" {
        n = n.parent_node()?;
    }
    (nd(n.as_ref()).tag == "select").then(|| n.unchecked_into())
}
fn is_sel(o: &HtmlOptionElement) -> bool {
    nd(o.as_ref()).selected.get()
}
fn put_sel(o: &HtmlOptionElement, v: bool) {
    nd(o.as_ref()).selected.set(v)
}
/// "selectedness setting algorithm" (display size 1)
fn settle(sel: &HtmlSelectElement) {
    if sel.multiple() {
        return;
    }
    let os = options_of(sel);
    let on: Vec<usize> = (0..os.len()).filter(|i| is_sel(&os[*i])).collect();
    if on.is_empty() {
        if let Some(o) = os.iter().find(|o| !o.disabled()) {
            put_sel(o, true);
        }
    } else {
        for i in &on[..on.len() - 1] {
            put_sel(&os[*i], false);
        }
    }
}
fn select_at(n: &Node) -> Option<HtmlSelectElement> {
    let mut n = n.clone();
    if nd(n.as_ref()).tag == "optgroup" {
        n = n.parent_node()?;
    }
    (nd(n.as_ref()).tag == "select").then(|| n.unchecked_into())
}
pub(crate) fn children_changed(parent: &Node) {
    if let Some(s) = select_at(parent) {
        settle(&s);
    }
}
pub(crate) fn inserted(parent: &Node, c: &Node) {
    if let Some(s) = select_at(parent) {
        if nd(c.as_ref()).tag == "option" && nd(c.as_ref()).selected.get() && !s.multiple() {
            for o in options_of(&s) {
                put_sel(&o, o.is_same_node(Some(c)));
            }
        }
        settle(&s);
    }
}
impl HtmlSelectElement {
    fn opts(&self) -> Vec<HtmlOptionElement> {
        options_of(self)
    }
    pub fn length(&self) -> u32 {
        self.opts().len() as u32
    }
    pub fn selected_index(&self) -> i32 {
        self.opts().iter().position(is_sel).map_or(-1, |i| i as i32)
    }
    pub fn set_selected_index(&self, i: i32) {
        for (k, o) in self.opts().iter().enumerate() {
            put_sel(o, k as i32 == i);
        }
    }
    pub fn value(&self) -> String {
        self.opts().iter().find(|o| is_sel(o)).map(|o| o.value()).unwrap_or_default()
    }
    pub fn set_value(&self, v: &str) {
        let os = self.opts();
        let hit = os.iter().position(|o| o.value() == v);
        for (k, o) in os.iter().enumerate() {
            put_sel(o, Some(k) == hit);
        }
    }
    pub fn options(&self) -> HtmlOptionsCollection {
        let n: Node = self.clone().unchecked_into();
        JsValue::__new(chain("HtmlOptionsCollection"), Box::new(n)).unchecked_into()
    }
    pub fn item(&self, i: u32) -> Option<Element> {
        self.opts().get(i as usize).map(|o| o.clone().unchecked_into())
    }
    pub fn remove_with_index(&self, i: i32) {
        if let Some(o) = self.opts().get(i as usize) {
            o.remove();
        }
    }
}
impl HtmlOptionElement {
    pub fn text(&self) -> String {
        self.text_content().unwrap_or_default().split_ascii_whitespace().collect::<Vec<_>>().join(" ")
    }
    pub fn set_text(&self, v: &str) {
        self.set_text_content(Some(v));
    }
    pub fn value(&self) -> String {
        self.get_attribute("value").unwrap_or_else(|| self.text())
    }
    pub fn set_value(&self, v: &str) {
        let _ = self.set_attribute("value", v);
    }
    pub fn selected(&self) -> bool {
        is_sel(self)
    }
    pub fn set_selected(&self, v: bool) {
        put_sel(self, v);
        if let Some(s) = select_of(self) {
            if v && !s.multiple() {
                for o in s.opts() {
                    put_sel(&o, o.is_same_node(Some(self)));
                }
            } else if !v {
                settle(&s);
            }
        }
    }
    pub fn index(&self) -> i32 {
        select_of(self).and_then(|s| s.opts().iter().position(|o| o.is_same_node(Some(self)))).map_or(0, |i| i as i32)
    }
}

// ------------------------------------------------------------------ intersection observers
pub(crate) struct Obs {
    pub f: JsValue,
    root: Option<Element>,
    /// in pixels, or a part of the root's size
    margin: (f64, f64),
    /// what is observed, and what it was last reported to be
    pub targets: RefCell<Vec<(Element, Option<bool>)>>,
}
impl IntersectionObserverInit {
    fn put(&self, k: &str, v: JsValue) {
        js_sys::Reflect::set(self.as_ref(), &k.into(), &v).unwrap();
    }
    pub fn root(&mut self, e: Option<&Element>) -> &mut Self {
        self.set_root(e);
        self
    }
    pub fn set_root(&self, e: Option<&Element>) {
        self.put("root", e.map(|e| e.into()).unwrap_or(JsValue::NULL));
    }
    pub fn root_margin(&mut self, m: &str) -> &mut Self {
        self.set_root_margin(m);
        self
    }
    pub fn set_root_margin(&self, m: &str) {
        self.put("rootMargin", m.into());
    }
    pub fn threshold(&mut self, _v: &JsValue) -> &mut Self {
        self
    }
    pub fn set_threshold(&self, _v: &JsValue) {}
}
impl IntersectionObserver {
    fn o(&self) -> &Obs {
        AsRef::<JsValue>::as_ref(self).__data::<Obs>().unwrap()
    }
    pub fn new(f: &js_sys::Function) -> Result<IntersectionObserver, JsValue> {
        Self::new_with_options(f, &IntersectionObserverInit::new())
    }
    pub fn new_with_options(f: &js_sys::Function, o: &IntersectionObserverInit) -> Result<IntersectionObserver, JsValue> {
        let get = |k: &str| js_sys::Reflect::get(o.as_ref(), &k.into()).unwrap();
        let m = get("rootMargin").as_string().unwrap_or_default();
        let m = m.split_whitespace().next().unwrap_or("0px").to_string();
        let margin = match m.strip_suffix('%') {
            Some(x) => (0.0, x.parse::<f64>().map_err(|_| JsValue::from("SyntaxError"))? / 100.0),
            None => (m.strip_suffix("px").and_then(|x| x.parse().ok()).ok_or(JsValue::from("SyntaxError"))?, 0.0),
        };
        let root = get("root").dyn_into::<Element>().ok();
        let r: IntersectionObserver =
            JsValue::__new(chain("IntersectionObserver"), Box::new(Obs { f: f.into(), root, margin, targets: RefCell::default() })).unchecked_into();
        mock::add_observer(&r);
        Ok(r)
    }
    pub fn observe(&self, e: &Element) {
        if !self.o().targets.borrow().iter().any(|t| t.0 == *e) {
            self.o().targets.borrow_mut().push((e.clone(), None));
        }
    }
    pub fn unobserve(&self, e: &Element) {
        self.o().targets.borrow_mut().retain(|t| t.0 != *e);
    }
    pub fn disconnect(&self) {
        self.o().targets.borrow_mut().clear();
    }
    /// The browser looks at the layout: does an observed element come into or go out of sight?
    pub(crate) fn check(&self) -> bool {
        let o = self.o();
        let Some(root) = o.root.clone() else { return false };
        let r = mock::rect(&root);
        let (my, mx) = (o.margin.0 + o.margin.1 * (r.1 - r.0), o.margin.0 + o.margin.1 * (r.3 - r.2));
        let mut news = false;
        for (e, was) in o.targets.borrow_mut().iter_mut() {
            let t = mock::rect(e);
            let is = e.is_connected() && root.contains(Some(e)) && t.0 <= r.1 + my && t.1 >= r.0 - my && t.2 <= r.3 + mx && t.3 >= r.2 - mx;
            news |= *was != Some(is);
            *was = Some(is);
        }
        if news {
            let a = js_sys::Array::new();
            mock::count_call();
            let _ = wasm_bindgen::closure::call_function(&o.f, &[a.into(), self.into()]);
        }
        news
    }
}
