//! Takes the place of wasm-bindgen: a value of JavaScript is a JSON value here.
pub type JsValue = serde_json::Value;
pub use wasm_bindgen_macro_stub::wasm_bindgen;

#[derive(Debug, Clone)]
pub struct JsError(String);
impl JsError {
    pub fn new(message: &str) -> Self {
        JsError(message.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(error: E) -> Self {
        JsError(error.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(error: JsError) -> Self {
        JsValue::String(error.0)
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsError, JsValue, UnwrapThrowExt};
}
