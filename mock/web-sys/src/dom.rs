use crate::classes::*;
use crate::mock;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use wasm_bindgen::{JsCast, JsValue};

pub(crate) struct Listener {
    pub ty: String,
    pub f: JsValue,
    pub capture: bool,
    pub passive: bool,
    pub once: bool,
    pub removed: Cell<bool>,
}

/// Data of every EventTarget.
#[derive(Default)]
pub(crate) struct Nd {
    pub ty: u16, // nodeType; 0: not a node
    pub tag: String,
    pub data: RefCell<String>,
    pub parent: RefCell<Option<Node>>,
    pub children: RefCell<Vec<Node>>,
    pub attrs: RefCell<BTreeMap<String, String>>,
    pub style: RefCell<BTreeMap<String, String>>,
    pub listeners: RefCell<Vec<std::rc::Rc<Listener>>>,
    pub selected: Cell<bool>,
    pub value: RefCell<Option<String>>,
    pub checked: Cell<bool>,
    pub scroll: Cell<(f64, f64)>,
}

pub(crate) fn make(class: &str, ty: u16, tag: &str, data: &str) -> JsValue {
    JsValue::__new(chain(class), Box::new(Nd { ty, tag: tag.into(), data: RefCell::new(data.into()), ..Default::default() }))
}

pub(crate) fn nd(v: &JsValue) -> &Nd {
    v.__data::<Nd>().expect("not an EventTarget")
}
impl Node {
    pub(crate) fn nd(&self) -> &Nd {
        nd(self.as_ref())
    }
    pub(crate) fn nid(&self) -> u64 {
        AsRef::<JsValue>::as_ref(self).__id()
    }
}

pub(crate) fn err(kind: &str, what: &str) -> JsValue {
    let m = format!("{kind}: {what}");
    mock::dom_error(&m);
    JsValue::from_str(&m)
}

// ------------------------------------------------------------------ window and document
thread_local! {
    static WINDOW: Window = make("Window", 0, "window", "").unchecked_into();
    static DOCUMENT: Document = {
        let d: Document = make("Document", 9, "#document", "").unchecked_into();
        let html = create("html");
        let head = create("head");
        let body = create("body");
        d.append_child(&html).unwrap();
        html.append_child(&head).unwrap();
        html.append_child(&body).unwrap();
        mock::clear_ops();
        d
    };
}
pub fn window() -> Option<Window> {
    Some(WINDOW.with(|w| w.clone()))
}
pub(crate) fn doc() -> Document {
    DOCUMENT.with(|d| d.clone())
}
fn create(tag: &str) -> Element {
    let t = tag.to_ascii_lowercase();
    make(crate::html::class_of(&t), 1, &t, "").unchecked_into()
}

impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(doc())
    }
    pub fn set_timeout_with_callback(&self, f: &js_sys::Function) -> Result<i32, JsValue> {
        Ok(mock::add_task(f.into()))
    }
    pub fn set_timeout_with_callback_and_timeout_and_arguments_0(&self, f: &js_sys::Function, _ms: i32) -> Result<i32, JsValue> {
        Ok(mock::add_task(f.into()))
    }
    pub fn clear_timeout_with_handle(&self, h: i32) {
        mock::clear_task(h);
    }
    pub fn queue_microtask(&self, f: &js_sys::Function) {
        mock::add_task(f.into());
    }
    pub fn request_animation_frame(&self, f: &js_sys::Function) -> Result<i32, JsValue> {
        Ok(mock::add_task(f.into()))
    }
    pub fn cancel_animation_frame(&self, h: i32) -> Result<(), JsValue> {
        mock::clear_task(h);
        Ok(())
    }
    pub fn inner_height(&self) -> Result<JsValue, JsValue> {
        Ok(JsValue::from_f64(600.0))
    }
    pub fn inner_width(&self) -> Result<JsValue, JsValue> {
        Ok(JsValue::from_f64(800.0))
    }
}
impl Document {
    pub fn create_element(&self, tag: &str) -> Result<Element, JsValue> {
        if tag.is_empty() {
            return Err(err("InvalidCharacterError", "createElement"));
        }
        Ok(create(tag))
    }
    pub fn create_text_node(&self, s: &str) -> Text {
        make("Text", 3, "#text", s).unchecked_into()
    }
    pub fn create_comment(&self, s: &str) -> Comment {
        make("Comment", 8, "#comment", s).unchecked_into()
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        make("DocumentFragment", 11, "#document-fragment", "").unchecked_into()
    }
    pub fn document_element(&self) -> Option<Element> {
        self.nd().children.borrow().iter().find(|c| c.nd().ty == 1).map(|c| c.clone().unchecked_into())
    }
    fn part(&self, tag: &str) -> Option<HtmlElement> {
        let e = self.document_element()?;
        let r = e.nd().children.borrow().iter().find(|c| c.nd().tag == tag).map(|c| c.clone().unchecked_into());
        r
    }
    pub fn body(&self) -> Option<HtmlElement> {
        self.part("body")
    }
    pub fn head(&self) -> Option<HtmlHeadElement> {
        self.part("head").map(|h| h.unchecked_into())
    }
    pub fn get_element_by_id(&self, id: &str) -> Option<Element> {
        fn go(n: &Node, id: &str) -> Option<Element> {
            for c in n.nd().children.borrow().iter() {
                if c.nd().attrs.borrow().get("id").map(|s| s.as_str()) == Some(id) {
                    return Some(c.clone().unchecked_into());
                }
                if let Some(e) = go(c, id) {
                    return Some(e);
                }
            }
            None
        }
        go(self, id)
    }
}
impl Text {
    pub fn new() -> Result<Text, JsValue> {
        Ok(doc().create_text_node(""))
    }
    pub fn new_with_data(s: &str) -> Result<Text, JsValue> {
        Ok(doc().create_text_node(s))
    }
}
impl Comment {
    pub fn new() -> Result<Comment, JsValue> {
        Ok(doc().create_comment(""))
    }
    pub fn new_with_data(s: &str) -> Result<Comment, JsValue> {
        Ok(doc().create_comment(s))
    }
}
impl DocumentFragment {
    pub fn new() -> Result<DocumentFragment, JsValue> {
        Ok(doc().create_document_fragment())
    }
}

// ------------------------------------------------------------------ the tree

fn index(p: &Node, c: &Node) -> Option<usize> {
    p.nd().children.borrow().iter().position(|x| x.nid() == c.nid())
}

fn detach(c: &Node) {
    let p = c.nd().parent.borrow_mut().take();
    if let Some(p) = p {
        let i = index(&p, c).expect("tree broken");
        p.nd().children.borrow_mut().remove(i);
        mock::op("remove", &p, c);
        crate::html::children_changed(&p);
    }
}

impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;

    pub fn node_type(&self) -> u16 {
        self.nd().ty
    }
    pub fn node_name(&self) -> String {
        let n = self.nd();
        if n.ty == 1 {
            n.tag.to_ascii_uppercase()
        } else {
            n.tag.clone()
        }
    }
    pub fn parent_node(&self) -> Option<Node> {
        self.nd().parent.borrow().clone()
    }
    pub fn parent_element(&self) -> Option<Element> {
        self.parent_node().filter(|p| p.nd().ty == 1).map(|p| p.unchecked_into())
    }
    pub fn owner_document(&self) -> Option<Document> {
        (self.nd().ty != 9).then(doc)
    }
    pub fn is_connected(&self) -> bool {
        let mut n = self.clone();
        while let Some(p) = n.parent_node() {
            n = p;
        }
        n.nd().ty == 9
    }
    pub fn get_root_node(&self) -> Node {
        let mut n = self.clone();
        while let Some(p) = n.parent_node() {
            n = p;
        }
        n
    }
    pub fn has_child_nodes(&self) -> bool {
        !self.nd().children.borrow().is_empty()
    }
    pub fn child_nodes(&self) -> NodeList {
        JsValue::__new(chain("NodeList"), Box::new(self.clone())).unchecked_into()
    }
    pub fn first_child(&self) -> Option<Node> {
        self.nd().children.borrow().first().cloned()
    }
    pub fn last_child(&self) -> Option<Node> {
        self.nd().children.borrow().last().cloned()
    }
    fn sibling(&self, d: isize) -> Option<Node> {
        let p = self.parent_node()?;
        let i = index(&p, self)? as isize + d;
        if i < 0 {
            return None;
        }
        let r = p.nd().children.borrow().get(i as usize).cloned();
        r
    }
    pub fn next_sibling(&self) -> Option<Node> {
        self.sibling(1)
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        self.sibling(-1)
    }
    pub fn contains(&self, o: Option<&Node>) -> bool {
        let mut n = o.cloned();
        while let Some(x) = n {
            if x.nid() == self.nid() {
                return true;
            }
            n = x.parent_node();
        }
        false
    }
    pub fn is_same_node(&self, o: Option<&Node>) -> bool {
        o.is_some_and(|o| o.nid() == self.nid())
    }
    pub fn is_equal_node(&self, o: Option<&Node>) -> bool {
        self.is_same_node(o)
    }
    pub fn node_value(&self) -> Option<String> {
        matches!(self.nd().ty, 3 | 8).then(|| self.nd().data.borrow().clone())
    }
    pub fn set_node_value(&self, v: Option<&str>) {
        if matches!(self.nd().ty, 3 | 8) {
            *self.nd().data.borrow_mut() = v.unwrap_or("").into();
        }
    }
    pub fn text_content(&self) -> Option<String> {
        match self.nd().ty {
            3 | 8 => Some(self.nd().data.borrow().clone()),
            9 => None,
            _ => Some(
                self.nd()
                    .children
                    .borrow()
                    .iter()
                    .filter(|c| c.nd().ty != 8)
                    .map(|c| c.text_content().unwrap_or_default())
                    .collect(),
            ),
        }
    }
    pub fn set_text_content(&self, v: Option<&str>) {
        match self.nd().ty {
            3 | 8 => *self.nd().data.borrow_mut() = v.unwrap_or("").into(),
            9 => {}
            _ => {
                while let Some(c) = self.first_child() {
                    detach(&c);
                }
                if let Some(v) = v.filter(|v| !v.is_empty()) {
                    let t = doc().create_text_node(v);
                    let _ = self.append_child(&t);
                }
            }
        }
    }
    pub fn insert_before(&self, node: &Node, child: Option<&Node>) -> Result<Node, JsValue> {
        if !matches!(self.nd().ty, 1 | 9 | 11) {
            return Err(err("HierarchyRequestError", "insertBefore: this node cannot have children"));
        }
        if node.contains(Some(self)) {
            return Err(err("HierarchyRequestError", "insertBefore: the new child contains the parent"));
        }
        if let Some(c) = child {
            if !c.parent_node().is_some_and(|p| p.nid() == self.nid()) {
                return Err(err("NotFoundError", "insertBefore: the reference node is not a child of this node"));
            }
        }
        if node.nd().ty == 9 {
            return Err(err("HierarchyRequestError", "insertBefore: a document cannot be a child"));
        }
        let mut reference = child.cloned();
        if reference.as_ref().is_some_and(|r| r.nid() == node.nid()) {
            reference = node.next_sibling();
        }
        let nodes: Vec<Node> = if node.nd().ty == 11 { node.nd().children.borrow().clone() } else { vec![node.clone()] };
        for n in nodes {
            detach(&n);
            let i = match &reference {
                Some(r) => index(self, r).expect("tree broken"),
                None => self.nd().children.borrow().len(),
            };
            self.nd().children.borrow_mut().insert(i, n.clone());
            *n.nd().parent.borrow_mut() = Some(self.clone());
            mock::op("insert", self, &n);
            crate::html::inserted(self, &n);
        }
        Ok(node.clone())
    }
    pub fn append_child(&self, node: &Node) -> Result<Node, JsValue> {
        self.insert_before(node, None)
    }
    pub fn remove_child(&self, child: &Node) -> Result<Node, JsValue> {
        if !child.parent_node().is_some_and(|p| p.nid() == self.nid()) {
            return Err(err("NotFoundError", "removeChild: the node is not a child of this node"));
        }
        detach(child);
        Ok(child.clone())
    }
    pub fn replace_child(&self, node: &Node, child: &Node) -> Result<Node, JsValue> {
        if !child.parent_node().is_some_and(|p| p.nid() == self.nid()) {
            return Err(err("NotFoundError", "replaceChild: the node is not a child of this node"));
        }
        if node.nid() == child.nid() {
            return Ok(child.clone());
        }
        let mut next = child.next_sibling();
        if next.as_ref().is_some_and(|n| n.nid() == node.nid()) {
            next = node.next_sibling();
        }
        if node.contains(Some(self)) {
            return Err(err("HierarchyRequestError", "replaceChild"));
        }
        detach(child);
        self.insert_before(node, next.as_ref())?;
        Ok(child.clone())
    }
    pub fn compare_document_position(&self, o: &Node) -> u16 {
        fn path(n: &Node) -> Vec<usize> {
            let mut v = vec![];
            let mut n = n.clone();
            while let Some(p) = n.parent_node() {
                v.push(index(&p, &n).unwrap());
                n = p;
            }
            v.reverse();
            v
        }
        if self.nid() == o.nid() {
            return 0;
        }
        if self.get_root_node().nid() != o.get_root_node().nid() {
            return 1;
        }
        let (a, b) = (path(self), path(o));
        if b.starts_with(&a) {
            20
        } else if a.starts_with(&b) {
            10
        } else if a < b {
            4
        } else {
            2
        }
    }
}
impl NodeList {
    fn of(&self) -> &Node {
        AsRef::<JsValue>::as_ref(self).__data::<Node>().unwrap()
    }
    pub fn length(&self) -> u32 {
        self.of().nd().children.borrow().len() as u32
    }
    pub fn item(&self, i: u32) -> Option<Node> {
        self.of().nd().children.borrow().get(i as usize).cloned()
    }
    pub fn get(&self, i: u32) -> Option<Node> {
        self.item(i)
    }
}
impl CharacterData {
    pub fn data(&self) -> String {
        self.nd().data.borrow().clone()
    }
    pub fn set_data(&self, s: &str) {
        *self.nd().data.borrow_mut() = s.into();
    }
    pub fn length(&self) -> u32 {
        self.nd().data.borrow().encode_utf16().count() as u32
    }
    pub fn append_data(&self, s: &str) -> Result<(), JsValue> {
        self.nd().data.borrow_mut().push_str(s);
        Ok(())
    }
}
macro_rules! child_node {
    ($($t:ty)*) => { $(
        impl $t {
            pub fn remove(&self) { detach(self) }
            pub fn before_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) => p.insert_before(n, Some(self)).map(|_| ()),
                    None => Ok(()),
                }
            }
            pub fn after_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) => {
                        let mut next = self.next_sibling();
                        if next.as_ref().is_some_and(|x| x.nid() == n.nid()) {
                            next = n.next_sibling();
                        }
                        p.insert_before(n, next.as_ref()).map(|_| ())
                    }
                    None => Ok(()),
                }
            }
            pub fn replace_with_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                match self.parent_node() {
                    Some(p) => p.replace_child(n, self).map(|_| ()),
                    None => Ok(()),
                }
            }
        }
    )* };
}
child_node!(CharacterData Element);
macro_rules! parent_node {
    ($($t:ty)*) => { $(
        impl $t {
            pub fn append_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                self.append_child(n).map(|_| ())
            }
            pub fn append_with_node_2(&self, a: &Node, b: &Node) -> Result<(), JsValue> {
                self.append_child(a)?;
                self.append_child(b).map(|_| ())
            }
            pub fn append_with_str_1(&self, s: &str) -> Result<(), JsValue> {
                self.append_child(&doc().create_text_node(s)).map(|_| ())
            }
            pub fn prepend_with_node_1(&self, n: &Node) -> Result<(), JsValue> {
                let f = self.first_child();
                self.insert_before(n, f.as_ref()).map(|_| ())
            }
            pub fn replace_children_with_node_0(&self) {
                while let Some(c) = self.first_child() {
                    detach(&c);
                }
            }
            pub fn first_element_child(&self) -> Option<Element> {
                self.nd().children.borrow().iter().find(|c| c.nd().ty == 1).map(|c| c.clone().unchecked_into())
            }
            pub fn last_element_child(&self) -> Option<Element> {
                self.nd().children.borrow().iter().rev().find(|c| c.nd().ty == 1).map(|c| c.clone().unchecked_into())
            }
            pub fn child_element_count(&self) -> u32 {
                self.nd().children.borrow().iter().filter(|c| c.nd().ty == 1).count() as u32
            }
            pub fn children(&self) -> HtmlCollection {
                let n: Node = AsRef::<Node>::as_ref(self).clone();
                JsValue::__new(chain("HtmlCollection"), Box::new(n)).unchecked_into()
            }
        }
    )* };
}
parent_node!(Element Document DocumentFragment);
impl HtmlCollection {
    fn els(&self) -> Vec<Element> {
        let n = AsRef::<JsValue>::as_ref(self).__data::<Node>().unwrap();
        let r = n.nd().children.borrow().iter().filter(|c| c.nd().ty == 1).map(|c| c.clone().unchecked_into()).collect();
        r
    }
    pub fn length(&self) -> u32 {
        self.els().len() as u32
    }
    pub fn item(&self, i: u32) -> Option<Element> {
        self.els().get(i as usize).cloned()
    }
    pub fn get_with_index(&self, i: u32) -> Option<Element> {
        self.item(i)
    }
}
