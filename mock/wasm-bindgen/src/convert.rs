//! Conversions between Rust values and JS values, for closure arguments and results.
use crate::{JsCast, JsValue};

pub trait FromJs: Sized {
    fn from_js(v: JsValue) -> Self;
}
pub trait IntoJs {
    fn into_js(self) -> JsValue;
}
impl<T: JsCast> FromJs for T {
    fn from_js(v: JsValue) -> T {
        T::unchecked_from_js(v)
    }
}
impl<T: JsCast> IntoJs for T {
    fn into_js(self) -> JsValue {
        self.into()
    }
}
impl FromJs for f64 {
    fn from_js(v: JsValue) -> f64 {
        v.as_f64().unwrap_or(f64::NAN)
    }
}
impl FromJs for i32 {
    fn from_js(v: JsValue) -> i32 {
        v.as_f64().unwrap_or(0.0) as i32
    }
}
impl FromJs for u32 {
    fn from_js(v: JsValue) -> u32 {
        v.as_f64().unwrap_or(0.0) as u32
    }
}
impl FromJs for bool {
    fn from_js(v: JsValue) -> bool {
        v.is_truthy()
    }
}
impl FromJs for String {
    fn from_js(v: JsValue) -> String {
        v.as_string().unwrap_or_default()
    }
}
impl<T: FromJs> FromJs for Option<T> {
    fn from_js(v: JsValue) -> Option<T> {
        if v.is_null_or_undefined() {
            None
        } else {
            Some(T::from_js(v))
        }
    }
}
impl IntoJs for () {
    fn into_js(self) -> JsValue {
        JsValue::UNDEFINED
    }
}
impl IntoJs for bool {
    fn into_js(self) -> JsValue {
        self.into()
    }
}
impl IntoJs for f64 {
    fn into_js(self) -> JsValue {
        self.into()
    }
}
impl IntoJs for String {
    fn into_js(self) -> JsValue {
        self.into()
    }
}
