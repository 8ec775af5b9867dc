//! Stand-in for clap: option values come from the harness instead of the command line.
pub use clap_derive::Parser;
pub trait Parser: Sized { fn parse() -> Self; }
#[derive(Clone, Copy)]
pub enum Value { Text(&'static str), Number(u64), Flag(bool) }
/// what the harness "passes on the command line"
pub static mut GIVEN: [(&str, Value); 16] = [("", Value::Flag(false)); 16];
pub static mut COUNT: usize = 0;
/// called when a value is refused (the real program prints an error and exits)
pub static mut REFUSED: fn(&'static str) -> ! = none;
fn none(_: &'static str) -> ! { panic!("refused") }
pub fn clear() { unsafe { COUNT = 0; } }
pub fn give(name: &'static str, v: Value) { unsafe { GIVEN[COUNT] = (name, v); COUNT += 1; } }
fn find(name: &str) -> Option<Value> { unsafe { let mut i = 0; while i < COUNT { if GIVEN[i].0 == name { return Some(GIVEN[i].1) } i += 1; } None } }
fn refuse(name: &'static str) -> ! { unsafe { REFUSED(name) } }

pub trait FromValue: Sized { fn from_text(s: &str) -> Option<Self>; fn from_number(_: u64) -> Option<Self> { None } }
macro_rules! num { ($($t:ty),*) => { $(impl FromValue for $t { fn from_text(s: &str) -> Option<Self> { s.parse().ok() } fn from_number(n: u64) -> Option<Self> { <$t>::try_from(n).ok() } })* } }
num!(usize, u64, u32, u16, u8, i64, i32);
impl FromValue for f64 { fn from_text(s: &str) -> Option<Self> { s.parse().ok() } fn from_number(n: u64) -> Option<Self> { Some(n as f64) } }
impl FromValue for String { fn from_text(s: &str) -> Option<Self> { Some(s.to_owned()) } }
impl FromValue for std::path::PathBuf { fn from_text(s: &str) -> Option<Self> { Some(s.into()) } }

pub fn flag(name: &'static str) -> bool { matches!(find(name), Some(Value::Flag(true))) }
pub fn option<T: FromValue>(name: &'static str) -> Option<T> {
    let r = match find(name) { None => return None, Some(Value::Text(s)) => T::from_text(s), Some(Value::Number(n)) => T::from_number(n), Some(_) => None };
    if r.is_none() { refuse(name) }
    r
}
pub fn required<T: FromValue, D: FnOnce() -> String>(name: &'static str, d: Option<D>) -> T {
    match option(name) { Some(v) => v, None => match d { Some(d) => match T::from_text(&d()) { Some(v) => v, None => refuse(name) }, None => refuse(name) } }
}
pub fn option_with<T, E, P: Fn(&str) -> Result<T, E>>(name: &'static str, p: P) -> Option<T> {
    match find(name) { None => None, Some(Value::Text(s)) => match p(s) { Ok(v) => Some(v), Err(_) => refuse(name) }, Some(_) => refuse(name) }
}
pub fn required_with<T, E, P: Fn(&str) -> Result<T, E>, D: FnOnce() -> String>(name: &'static str, d: Option<D>, p: P) -> T {
    match find(name) {
        Some(Value::Text(s)) => match p(s) { Ok(v) => v, Err(_) => refuse(name) },
        Some(_) => refuse(name),
        None => match d { Some(d) => match p(&d()) { Ok(v) => v, Err(_) => refuse(name) }, None => refuse(name) },
    }
}
