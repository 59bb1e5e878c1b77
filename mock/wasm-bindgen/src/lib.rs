//! A stand-in for the wasm-bindgen crate that keeps JavaScript values in Rust, so that the real
//! async_ui crates run natively. Only behaviour visible through the public API is modelled.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

pub mod closure;
pub mod convert;
pub use closure::Closure;

/// Modules given by `inline_js`, registered before main starts.
#[doc(hidden)]
pub mod __inline {
    use std::sync::Mutex;
    pub struct Static;
    impl std::ops::Deref for Static {
        type Target = crate::JsValue;
        fn deref(&self) -> &crate::JsValue {
            Box::leak(Box::new(crate::JsValue::undefined()))
        }
    }
    pub static MODULES: Mutex<Vec<(&'static str, String, Vec<String>)>> = Mutex::new(Vec::new());
    pub fn register(place: &'static str, js: &str, imports: &[&str]) {
        MODULES.lock().unwrap().push((place, js.into(), imports.iter().map(|s| s.to_string()).collect()));
    }
}

pub use vmock_wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use vmock_wasm_bindgen_macro::wasm_bindgen;
    pub use crate::closure::Closure;
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
}

thread_local! {
    static NEXT: Cell<u64> = const { Cell::new(1) };
    static FAULTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

/// Things that would be errors in the JavaScript console.
#[doc(hidden)]
pub fn __fault(s: impl Into<String>) {
    let s = s.into();
    FAULTS.with(|f| f.borrow_mut().push(s));
}
#[doc(hidden)]
pub fn __take_faults() -> Vec<String> {
    FAULTS.with(|f| std::mem::take(&mut *f.borrow_mut()))
}

pub struct Obj {
    pub id: u64,
    /// class names, most derived first
    pub chain: &'static [&'static str],
    pub data: Box<dyn Any>,
    pub props: RefCell<BTreeMap<String, JsValue>>,
}

#[derive(Clone)]
pub enum Val {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Obj(Rc<Obj>),
}

#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue {
    v: Val,
}

#[allow(non_upper_case_globals)]
impl JsValue {
    pub const NULL: JsValue = JsValue { v: Val::Null };
    pub const UNDEFINED: JsValue = JsValue { v: Val::Undefined };
    pub const TRUE: JsValue = JsValue { v: Val::Bool(true) };
    pub const FALSE: JsValue = JsValue { v: Val::Bool(false) };

    #[doc(hidden)]
    pub fn __new(chain: &'static [&'static str], data: Box<dyn Any>) -> JsValue {
        let id = NEXT.with(|n| n.replace(n.get() + 1));
        JsValue { v: Val::Obj(Rc::new(Obj { id, chain, data, props: RefCell::default() })) }
    }
    #[doc(hidden)]
    pub fn __obj(&self) -> Option<&Rc<Obj>> {
        match &self.v {
            Val::Obj(o) => Some(o),
            _ => None,
        }
    }
    #[doc(hidden)]
    pub fn __data<T: 'static>(&self) -> Option<&T> {
        self.__obj().and_then(|o| o.data.downcast_ref())
    }
    #[doc(hidden)]
    pub fn __id(&self) -> u64 {
        self.__obj().map_or(0, |o| o.id)
    }
    #[doc(hidden)]
    pub fn __is(&self, class: &str) -> bool {
        self.__obj().is_some_and(|o| o.chain.contains(&class))
    }
    #[doc(hidden)]
    pub fn __val(&self) -> &Val {
        &self.v
    }

    pub fn from_str(s: &str) -> JsValue {
        JsValue { v: Val::Str(s.into()) }
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue { v: Val::Num(n) }
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue { v: Val::Bool(b) }
    }
    pub const fn undefined() -> JsValue {
        JsValue { v: Val::Undefined }
    }
    pub const fn null() -> JsValue {
        JsValue { v: Val::Null }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.v, Val::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.v, Val::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_object(&self) -> bool {
        matches!(self.v, Val::Obj(_))
    }
    pub fn is_function(&self) -> bool {
        self.__is("Function")
    }
    pub fn is_string(&self) -> bool {
        matches!(self.v, Val::Str(_))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.v {
            Val::Undefined | Val::Null => false,
            Val::Bool(b) => *b,
            Val::Num(n) => *n != 0.0,
            Val::Str(s) => !s.is_empty(),
            Val::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.v {
            Val::Num(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.v {
            Val::Bool(n) => Some(n),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.v {
            Val::Str(n) => Some(n.to_string()),
            _ => None,
        }
    }
}

impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&self.v, &o.v) {
            (Val::Undefined, Val::Undefined) | (Val::Null, Val::Null) => true,
            (Val::Bool(a), Val::Bool(b)) => a == b,
            (Val::Num(a), Val::Num(b)) => a == b,
            (Val::Str(a), Val::Str(b)) => a == b,
            (Val::Obj(a), Val::Obj(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl Eq for JsValue {}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.v {
            Val::Undefined => write!(f, "undefined"),
            Val::Null => write!(f, "null"),
            Val::Bool(b) => write!(f, "{b}"),
            Val::Num(b) => write!(f, "{b}"),
            Val::Str(b) => write!(f, "{b:?}"),
            Val::Obj(o) => write!(f, "{}#{}", o.chain.first().unwrap_or(&"Object"), o.id),
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        Self::from_bool(s)
    }
}
macro_rules! nums { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(s: $t) -> Self { Self::from_f64(s as f64) } })* } }
nums!(f64 f32 i32 u32 i16 u16 i8 u8);
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(s: Option<T>) -> Self {
        s.map_or(Self::UNDEFINED, JsValue::from)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

pub trait JsCast
where
    Self: AsRef<JsValue> + Into<JsValue>,
{
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;

    fn is_type_of(val: &JsValue) -> bool {
        Self::instanceof(val)
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::is_type_of(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(self.unchecked_into())
        } else {
            Err(self)
        }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() {
            Some(self.unchecked_ref())
        } else {
            None
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(v: JsValue) -> JsValue {
        v
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &JsValue {
        v
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    #[track_caller]
    fn unwrap_throw(self) -> T;
    #[track_caller]
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        match self {
            Some(v) => v,
            None => panic!("called `Option::unwrap_throw()` on a `None` value"),
        }
    }
    fn expect_throw(self, m: &str) -> T {
        match self {
            Some(v) => v,
            None => panic!("{}", m),
        }
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        match self {
            Ok(v) => v,
            Err(e) => panic!("called `Result::unwrap_throw()` on an `Err` value: {:?}", e),
        }
    }
    fn expect_throw(self, m: &str) -> T {
        match self {
            Ok(v) => v,
            Err(e) => panic!("{}: {:?}", m, e),
        }
    }
}

#[derive(Clone, Debug)]
pub struct JsError {
    value: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError { value: JsValue::from_str(s) }
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        e.value
    }
}

#[track_caller]
pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}
#[track_caller]
pub fn throw_val(s: JsValue) -> ! {
    panic!("{:?}", s)
}
pub fn intern(s: &str) -> &str {
    s
}
pub fn unintern(_: &str) {}

/// Defines a JS class: `js_class!(Node: EventTarget Object)` (ancestors, nearest first).
#[doc(hidden)]
#[macro_export]
macro_rules! js_class {
    ($name:ident) => { $crate::js_class!(@def $name, $crate::JsValue, []); };
    ($name:ident : $first:ty $(, $rest:ty)*) => {
        $crate::js_class!(@def $name, $first, [$first $(, $rest)*]);
    };
    (@def $name:ident, $deref:ty, [$($anc:ty),*]) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        #[repr(transparent)]
        pub struct $name { v: $crate::JsValue }
        impl $crate::JsCast for $name {
            fn instanceof(v: &$crate::JsValue) -> bool { v.__is(stringify!($name)) }
            fn unchecked_from_js(v: $crate::JsValue) -> Self { $name { v } }
            fn unchecked_from_js_ref(v: &$crate::JsValue) -> &Self {
                // SAFETY: repr(transparent)
                unsafe { &*(v as *const $crate::JsValue as *const $name) }
            }
        }
        impl AsRef<$crate::JsValue> for $name { fn as_ref(&self) -> &$crate::JsValue { &self.v } }
        impl AsRef<$name> for $name { fn as_ref(&self) -> &$name { self } }
        impl From<$name> for $crate::JsValue { fn from(x: $name) -> $crate::JsValue { x.v } }
        impl From<&$name> for $crate::JsValue { fn from(x: &$name) -> $crate::JsValue { x.v.clone() } }
        impl From<$crate::JsValue> for $name { fn from(v: $crate::JsValue) -> $name { $name { v } } }
        impl core::ops::Deref for $name {
            type Target = $deref;
            fn deref(&self) -> &$deref { $crate::JsCast::unchecked_from_js_ref(&self.v) }
        }
        $(
            impl AsRef<$anc> for $name { fn as_ref(&self) -> &$anc { $crate::JsCast::unchecked_from_js_ref(&self.v) } }
            impl From<$name> for $anc { fn from(x: $name) -> $anc { $crate::JsCast::unchecked_from_js(x.v) } }
            impl From<&$name> for $anc { fn from(x: &$name) -> $anc { $crate::JsCast::unchecked_from_js(x.v.clone()) } }
        )*
    };
}
