//! Stand-in for js-sys (see the wasm-bindgen stand-in).
use std::cell::RefCell;
use wasm_bindgen::closure::{call_function, make_function};
use wasm_bindgen::{js_class, JsCast, JsValue};

js_class!(Object);
js_class!(Function: Object);
js_class!(Array: Object);
js_class!(Error: Object);
js_class!(Promise: Object);

impl Object {
    pub fn new() -> Object {
        JsValue::__new(&["Object"], Box::new(())).unchecked_into()
    }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        a == b
    }
}
impl Default for Object {
    fn default() -> Self {
        Self::new()
    }
}
impl Function {
    pub fn new_no_args(_body: &str) -> Function {
        make_function(std::rc::Rc::new(|_| Ok(JsValue::UNDEFINED))).unchecked_into()
    }
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        call_function(self.as_ref(), &[])
    }
    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        call_function(self.as_ref(), &[a.clone()])
    }
    pub fn call2(&self, _this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        call_function(self.as_ref(), &[a.clone(), b.clone()])
    }
}
struct Items(RefCell<Vec<JsValue>>);
impl Array {
    pub fn new() -> Array {
        JsValue::__new(&["Array", "Object"], Box::new(Items(RefCell::default()))).unchecked_into()
    }
    fn items(&self) -> &RefCell<Vec<JsValue>> {
        let v: &JsValue = self.as_ref();
        &v.__data::<Items>().expect("not an array").0
    }
    pub fn new_with_length(n: u32) -> Array {
        let a = Array::new();
        a.items().borrow_mut().resize(n as usize, JsValue::UNDEFINED);
        a
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.items().borrow_mut().push(v.clone());
        self.length()
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().borrow().get(i as usize).cloned().unwrap_or_default()
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut b = self.items().borrow_mut();
        if b.len() <= i as usize {
            b.resize(i as usize + 1, JsValue::UNDEFINED);
        }
        b[i as usize] = v;
    }
    pub fn length(&self) -> u32 {
        self.items().borrow().len() as u32
    }
    pub fn of1(a: &JsValue) -> Array {
        [a.clone()].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a.clone(), b.clone()].into_iter().collect()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().borrow().clone()
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
}
impl Default for Array {
    fn default() -> Self {
        Self::new()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(i: T) -> Array {
        let a = Array::new();
        for x in i {
            a.push(x.as_ref());
        }
        a
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, i: T) {
        for x in i {
            self.push(x.as_ref());
        }
    }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        let Some(o) = o.__obj() else { return Err("TypeError".into()) };
        Ok(o.props.borrow().get(&k.as_string().unwrap_or_default()).cloned().unwrap_or_default())
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let Some(o) = o.__obj() else { return Err("TypeError".into()) };
        o.props.borrow_mut().insert(k.as_string().unwrap_or_default(), v.clone());
        Ok(true)
    }
    pub fn has(o: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        let Some(o) = o.__obj() else { return Err("TypeError".into()) };
        Ok(o.props.borrow().contains_key(&k.as_string().unwrap_or_default()))
    }
}
