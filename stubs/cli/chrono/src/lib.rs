//! Stand-in for chrono: a clock that stands still unless the harness sets it.
pub static mut MICROS: i64 = 0;
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct DateTime(i64);
impl DateTime {
    pub fn timestamp_micros(&self) -> i64 { self.0 }
    pub fn timestamp_millis(&self) -> i64 { self.0.div_euclid(1000) }
    pub fn timestamp(&self) -> i64 { self.0.div_euclid(1_000_000) }
    pub fn timestamp_subsec_micros(&self) -> u32 { self.0.rem_euclid(1_000_000) as u32 }
    pub fn timestamp_subsec_nanos(&self) -> u32 { self.0.rem_euclid(1_000_000) as u32 * 1000 }
}
pub struct Local;
impl Local { pub fn now() -> DateTime { DateTime(unsafe { MICROS }) } }
pub struct Utc;
impl Utc { pub fn now() -> DateTime { DateTime(unsafe { MICROS }) } }
