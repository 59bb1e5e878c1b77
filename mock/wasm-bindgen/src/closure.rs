use crate::convert::{FromJs, IntoJs};
use crate::{JsCast, JsValue};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

pub type Callee = Rc<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>;

/// Data of a Function object. `None` after its Rust closure was dropped.
pub struct FuncData {
    pub call: RefCell<Option<Callee>>,
}

pub const FUNCTION: &[&str] = &["Function", "Object"];

#[doc(hidden)]
pub fn make_function(c: Callee) -> JsValue {
    JsValue::__new(FUNCTION, Box::new(FuncData { call: RefCell::new(Some(c)) }))
}

#[doc(hidden)]
pub fn call_function(f: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
    let Some(d) = f.__data::<FuncData>() else {
        return Err("TypeError: not a function".into());
    };
    let c = d.call.borrow().clone();
    match c {
        Some(c) => c(args),
        None => {
            crate::__fault("closure called after it was dropped");
            Err("closure invoked recursively or after being dropped".into())
        }
    }
}

pub struct Closure<T: ?Sized> {
    js: JsValue,
    owned: bool,
    ph: PhantomData<Box<T>>,
}

fn arg(a: &[JsValue], i: usize) -> JsValue {
    a.get(i).cloned().unwrap_or(JsValue::UNDEFINED)
}

pub trait WasmClosure {
    #[doc(hidden)]
    fn boxed(b: Box<Self>) -> Callee;
}
pub trait IntoWasmClosure<T: ?Sized> {
    #[doc(hidden)]
    fn into_closure(self) -> Box<T>;
}
pub trait WasmClosureFnOnce<T: ?Sized, A, R>: 'static {
    #[doc(hidden)]
    fn into_callee(self) -> Callee;
}

macro_rules! impls {
    ($($a:ident $i:tt),*) => {
        impl<$($a: FromJs + 'static,)* R: IntoJs + 'static> WasmClosure for dyn Fn($($a),*) -> R {
            fn boxed(b: Box<Self>) -> Callee {
                #[allow(unused_variables)]
                Rc::new(move |args: &[JsValue]| Ok(b($(<$a>::from_js(arg(args, $i))),*).into_js()))
            }
        }
        impl<$($a: FromJs + 'static,)* R: IntoJs + 'static> WasmClosure for dyn FnMut($($a),*) -> R {
            fn boxed(b: Box<Self>) -> Callee {
                let b = RefCell::new(b);
                #[allow(unused_variables)]
                Rc::new(move |args: &[JsValue]| match b.try_borrow_mut() {
                    Ok(mut f) => Ok((*f)($(<$a>::from_js(arg(args, $i))),*).into_js()),
                    Err(_) => {
                        crate::__fault("FnMut closure called recursively");
                        Err("closure invoked recursively or after being dropped".into())
                    }
                })
            }
        }
        impl<F, $($a,)* R> IntoWasmClosure<dyn Fn($($a),*) -> R> for F where F: Fn($($a),*) -> R + 'static {
            fn into_closure(self) -> Box<dyn Fn($($a),*) -> R> { Box::new(self) }
        }
        impl<F, $($a,)* R> IntoWasmClosure<dyn FnMut($($a),*) -> R> for F where F: FnMut($($a),*) -> R + 'static {
            fn into_closure(self) -> Box<dyn FnMut($($a),*) -> R> { Box::new(self) }
        }
        impl<F, $($a: FromJs + 'static,)* R: IntoJs + 'static> WasmClosureFnOnce<dyn FnMut($($a),*) -> R, ($($a,)*), R> for F
        where F: FnOnce($($a),*) -> R + 'static {
            fn into_callee(self) -> Callee {
                let b = RefCell::new(Some(self));
                #[allow(unused_variables)]
                Rc::new(move |args: &[JsValue]| {
                    let f = b.borrow_mut().take();
                    match f {
                        Some(f) => Ok(f($(<$a>::from_js(arg(args, $i))),*).into_js()),
                        None => {
                            crate::__fault("FnOnce closure called twice");
                            Err("FnOnce called more than once".into())
                        }
                    }
                })
            }
        }
    };
}
impls!();
impls!(A 0);
impls!(A 0, B 1);
impls!(A 0, B 1, C 2);

impl<T: ?Sized + WasmClosure> Closure<T> {
    pub fn new<F: IntoWasmClosure<T> + 'static>(t: F) -> Closure<T> {
        Self::wrap(t.into_closure())
    }
    pub fn wrap(b: Box<T>) -> Closure<T> {
        Closure { js: make_function(T::boxed(b)), owned: true, ph: PhantomData }
    }
    pub fn once<F, A, R>(f: F) -> Closure<T>
    where
        F: WasmClosureFnOnce<T, A, R>,
    {
        Closure { js: make_function(f.into_callee()), owned: true, ph: PhantomData }
    }
    pub fn once_into_js<F, A, R>(f: F) -> JsValue
    where
        F: WasmClosureFnOnce<T, A, R>,
    {
        make_function(f.into_callee())
    }
    pub fn into_js_value(mut self) -> JsValue {
        self.owned = false;
        self.js.clone()
    }
    pub fn forget(mut self) {
        self.owned = false;
    }
}
impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
    fn as_ref(&self) -> &JsValue {
        &self.js
    }
}
impl<T: ?Sized> std::fmt::Debug for Closure<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Closure { ... }")
    }
}
impl<T: ?Sized> Closure<T> {
    #[doc(hidden)]
    pub fn __js(&self) -> &JsValue {
        &self.js
    }
}
impl<T: ?Sized> Drop for Closure<T> {
    fn drop(&mut self) {
        if self.owned {
            if let Some(d) = self.js.__data::<FuncData>() {
                let c = d.call.borrow_mut().take();
                drop(c);
            }
        }
    }
}
#[doc(hidden)]
pub fn __unused<T: JsCast>() {}
