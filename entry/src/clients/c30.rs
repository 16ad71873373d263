//! C30: the frequency of a counter value is edges per second.
use super::util::*;
use crate::rt::*;
use std::time::Duration;
use ur20::ur20_2fcnt_100::{Mod, ProcessInput};

const TOL: f64 = 1e-6;

fn value(d: Option<Duration>, count: u32) -> ProcessInput {
    let active: bool = any("active");
    ProcessInput { duration: d, count, active }
}
fn check(p: &ProcessInput, nanos: u64, count: u32) {
    match p.hertz() {
        Some(h) => {
            if nanos > 0 {
                let want = count as f64 * 1e9 / nanos as f64;
                require_close(h, want as f32, TOL, 1e-30, "edges per second of the period")
            }
        }
        None => require(false, "a value with a period has a frequency"),
    }
}
/// a period without measurement has no frequency
pub fn no_period() {
    let n: u32 = any("count");
    require(value(None, n).hertz().is_none(), "no frequency without a period");
}
const NANOS: [u64; 14] = [
    125, 250, 1_000, 10_000, 333_375, 1_000_000, 999_999_875, 1_000_000_000, 1_000_000_125, 1_500_000_000, 3_000_000_000,
    8_388_607_000, 12_345_678_875, 16_777_215_750,
];
const COUNTS: [u32; 12] =
    [0, 1, 2, 3, 255, 1000, 65_535, 65_536, 100_000, 16_777_217, 2_147_483_648, 4_294_967_295];
/// all counts of windows of 65536 counts
pub fn counts() {
    let k = part(14 * if thorough() { 64 } else { 8 });
    let hi = match k / 14 {
        0 => 0u32,
        1 => 1,
        2 => 255,
        3 => 256,
        4 => 0x7FFF,
        5 => 0x8000,
        6 => 0xFFFF,
        n => (n as u32 * 9377) % 65536,
    };
    let low: u16 = any("low count");
    let count = (hi << 16) | low as u32;
    let n = NANOS[k % 14];
    check(&value(Some(Duration::new(n / 1_000_000_000, (n % 1_000_000_000) as u32)), count), n, count);
}
/// all periods of windows of 65536 periods, as decoded from the registers
pub fn periods() {
    let k = part(12 * if thorough() { 64 } else { 8 });
    // periods in units of 125 ns, below 0x07FFFFFF
    let hi = match k / 12 {
        0 => 0u16,
        1 => 1,
        2 => 121, // around 1 s
        3 => 122,
        4 => 123,
        5 => 1024, // around 8.388608 s
        6 => 0x07FF,
        n => (n as u16 * 377) % 2048,
    };
    let low: u16 = any("low period");
    let count = COUNTS[k % 12];
    let period = (hi as u64) * 65536 + low as u64;
    assume(period < 0x07FF_FFFF);
    let other: [u16; 4] = any("second channel");
    let w = [
        hi,
        low,
        (count >> 16) as u16,
        count as u16,
        other[0],
        other[1],
        other[2],
        other[3],
        0,
        0,
    ];
    match Mod::default().process_input_data(&w) {
        Ok(v) => match &v[0] {
            ChannelValue::FcntIn(p) => check(p, period * 125, count),
            _ => require(false, "a counter value"),
        },
        Err(_) => require(false, "a window of the declared length is accepted"),
    }
}
/// all nanoseconds of windows of 65536 ns after whole seconds
pub fn nanos() {
    let k = part(12 * if thorough() { 64 } else { 6 });
    let (s, hi) = match k / 12 {
        0 => (0u64, 0u32),
        1 => (0, 1),
        2 => (1, 0),
        3 => (8, 5929), // around the longest duration
        4 => (16, 11858),
        n => (n as u64 % 17, (n as u32 * 2411) % 15258),
    };
    let low: u16 = any("low nanos");
    let count = COUNTS[k % 12];
    let n = (hi << 16) | low as u32;
    check(&value(Some(Duration::new(s, n)), count), s * 1_000_000_000 + n as u64, count);
}
/// wrapping a counter value as channel value keeps it
pub fn wrapped() {
    let n: u32 = any("count");
    let us: u32 = any("micros");
    let some: bool = any("some");
    let d = if some { Some(Duration::from_micros((us & 0xFFFFFF) as u64)) } else { None };
    let p = value(d, n);
    require(ChannelValue::from(p.clone()) == ChannelValue::FcntIn(p), "an input value keeps its content");
    let c = any_command();
    let o = FcOut { duration: Duration::from_micros((us & 0xFFFFFF) as u64), command: c };
    require(ChannelValue::from(o) == ChannelValue::FcntOut(o), "an output value keeps its content");
}
