//! Stand-in for anyhow: an error with a chain of contexts.
use std::fmt;
pub struct Error { msg: String, source: Option<Box<dyn std::error::Error + Send + Sync + 'static>> }
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl Error {
    pub fn msg<M: fmt::Display + fmt::Debug + Send + Sync + 'static>(m: M) -> Self { Error { msg: m.to_string(), source: None } }
    pub fn new<E: std::error::Error + Send + Sync + 'static>(e: E) -> Self { Error { msg: String::new(), source: Some(Box::new(e)) } }
    pub fn context<C: fmt::Display + Send + Sync + 'static>(self, c: C) -> Self { Error { msg: c.to_string(), source: self.source } }
}
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.msg) } }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.msg) } }
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error { fn from(e: E) -> Self { Error::new(e) } }
pub fn Ok<T>(t: T) -> Result<T> { Result::Ok(t) }
pub trait Context<T, E> {
    fn context<C: fmt::Display + Send + Sync + 'static>(self, c: C) -> Result<T>;
    fn with_context<C: fmt::Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
pub trait IntoError { fn into_error(self) -> Error; }
impl<E: std::error::Error + Send + Sync + 'static> IntoError for E { fn into_error(self) -> Error { Error::new(self) } }
impl IntoError for Error { fn into_error(self) -> Error { self } }
impl<T, E: IntoError> Context<T, E> for core::result::Result<T, E> {
    fn context<C: fmt::Display + Send + Sync + 'static>(self, c: C) -> Result<T> { match self { Result::Ok(v) => Result::Ok(v), Err(e) => Err(e.into_error().context(c)) } }
    fn with_context<C: fmt::Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T> { match self { Result::Ok(v) => Result::Ok(v), Err(e) => Err(e.into_error().context(f())) } }
}
impl<T> Context<T, std::convert::Infallible> for Option<T> {
    fn context<C: fmt::Display + Send + Sync + 'static>(self, c: C) -> Result<T> { match self { Some(v) => Result::Ok(v), None => Err(Error { msg: c.to_string(), source: None }) } }
    fn with_context<C: fmt::Display + Send + Sync + 'static, F: FnOnce() -> C>(self, f: F) -> Result<T> { match self { Some(v) => Result::Ok(v), None => Err(Error { msg: f().to_string(), source: None }) } }
}
#[macro_export] macro_rules! anyhow { ($($t:tt)*) => { $crate::Error::msg(format!($($t)*)) } }
#[macro_export] macro_rules! bail { ($($t:tt)*) => { return Err($crate::anyhow!($($t)*)) } }
#[macro_export] macro_rules! ensure { ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::anyhow!($($t)*)) } }; ($c:expr $(,)?) => { if !$c { return Err($crate::anyhow!("condition failed")) } } }
