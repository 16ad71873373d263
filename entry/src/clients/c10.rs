//! C10: frequency counter registers are decoded and encoded exactly.
use super::util::*;
use crate::rt::*;
use std::time::Duration;
use ur20::ur20_2fcnt_100::{Command, Mod};

fn module() -> Mod {
    let d: [u16; 2] = any("params");
    match Mod::from_modbus_parameter_data(&d) {
        Ok(m) => m,
        Err(_) => stop(),
    }
}
fn flag(w: u16, bit: u16) -> bool {
    (w >> bit) & 1 == 1
}
fn check_input(m: Mod) {
    let w: [u16; 10] = any("window");
    let v = match m.process_input_data(&w) {
        Ok(v) => v,
        Err(_) => {
            require(false, "a window of the declared length is accepted");
            stop()
        }
    };
    require(v.len() == 2, "two channels");
    for i in 0..2 {
        let period = (w[4 * i] as u64) * 65536 + w[4 * i + 1] as u64;
        let count = (w[4 * i + 2] as u32) * 65536 + w[4 * i + 3] as u32;
        match &v[i] {
            ChannelValue::FcntIn(p) => {
                require(p.count == count, "32-bit edge count, high word first");
                require(p.active == flag(w[8 + i], 8), "active is bit 8 of the status word");
                match p.duration {
                    Some(d) => {
                        require(period < 0x07FF_FFFF, "no period from 0x07FFFFFF upwards");
                        require(d.as_nanos() == (period * 125) as u128, "period in units of 125 ns");
                    }
                    None => require(period >= 0x07FF_FFFF, "a period below 0x07FFFFFF"),
                }
            }
            _ => require(false, "a counter value"),
        }
    }
}
pub fn input() {
    check_input(module());
}
pub fn default_input() {
    check_input(Mod::default());
}
fn check_output(m: Mod) {
    let w: [u16; 6] = any("window");
    let v = match m.process_output_data(&w) {
        Ok(v) => v,
        Err(_) => {
            require(false, "a window of the declared length is accepted");
            stop()
        }
    };
    require(v.len() == 2, "two channels");
    for i in 0..2 {
        let micros = (w[2 * i] as u64) * 65536 + w[2 * i + 1] as u64;
        let (start, stop) = (flag(w[4 + i], 8), flag(w[4 + i], 9));
        match &v[i] {
            ChannelValue::FcntOut(p) => {
                require(p.duration.as_nanos() == (micros * 1000) as u128, "duration in whole microseconds");
                if start && !stop {
                    require(p.command == Some(Command::Start), "start is bit 8 of the control word");
                }
                if stop && !start {
                    require(p.command == Some(Command::Stop), "stop is bit 9 of the control word");
                }
                if !stop && !start {
                    require(p.command.is_none(), "no command without its bit");
                }
            }
            _ => require(false, "a counter value"),
        }
    }
}
pub fn output() {
    check_output(module());
}
pub fn default_output() {
    check_output(Mod::default());
}
fn encoded(r: &[u16], i: usize, micros: u64, c: Option<Command>) {
    require(r.len() == 6, "six output words");
    require(r[2 * i] as u64 * 65536 + r[2 * i + 1] as u64 == micros, "whole microseconds, high word first");
    let want = match c {
        Some(Command::Start) => 0x0100,
        Some(Command::Stop) => 0x0200,
        None => 0,
    };
    require(r[4 + i] == want, "the command in its bit and nothing else");
}
fn value(d: Duration, c: Option<Command>) -> ChannelValue {
    ChannelValue::FcntOut(FcOut { duration: d, command: c })
}
/// any duration, any commands
fn check_encode(m: Mod) {
    let k = part(2);
    let s: u64 = any("seconds");
    let n: u32 = any("nanos");
    assume(n < 1_000_000_000);
    let c = any_command();
    let o: u16 = any("other milliseconds");
    assume(o <= 8000);
    let oc = any_command();
    let mut v = vec![value(Duration::new(s, n), c)];
    v.insert(1 - k, value(Duration::from_millis(o as u64), oc));
    let long = s > 8 || (s == 8 && n > 388_607_000);
    match m.process_output_values(&v) {
        Ok(r) => {
            require(!long, "more than 8.388607 s is rejected");
            encoded(&r, k, s * 1_000_000 + (n / 1000) as u64, c);
            encoded(&r, 1 - k, o as u64 * 1000, oc);
        }
        Err(_) => require(long, "up to 8.388607 s is accepted"),
    }
}
pub fn encode() {
    check_encode(module());
}
pub fn default_encode() {
    check_encode(Mod::default());
}
/// fractions of a microsecond are cut off: every nanosecond of windows of 16 microseconds
pub fn encode_fraction() {
    let m = module();
    let low: u8 = any("low microseconds");
    let n: u16 = any("nanos");
    let n = n & 1023;
    assume(n < 1000);
    let k = part(if thorough() { 512 } else { 24 });
    // from 0, around every second and up to the limit
    let base: u64 = match k {
        0 => 0,
        1..=8 => k as u64 * 1_000_000 - 8,
        9 => 8_388_600,
        _ => k as u64 * (if thorough() { 16_381 } else { 370_007 }) % 8_388_592,
    };
    let u = base + (low & 15) as u64;
    let long = u > 8_388_607 || (u == 8_388_607 && n > 0);
    let mut v = Vec::new();
    v.push(value(Duration::new(u / 1_000_000, (u % 1_000_000) as u32 * 1000 + n as u32), None));
    v.push(value(Duration::from_millis(3), Some(Command::Stop)));
    match m.process_output_values(&v) {
        Ok(r) => {
            require(!long, "more than 8.388607 s is rejected");
            encoded(&r, 0, u, None);
            encoded(&r, 1, 3000, Some(Command::Stop));
        }
        Err(_) => require(long, "up to 8.388607 s is accepted"),
    }
}
/// what was written is read back
pub fn round_trip() {
    let m = module();
    let u: [u32; 2] = any("micros");
    // all values up to 8388607
    let u = [u[0] & 0x7F_FFFF, u[1] & 0x7F_FFFF];
    let c = [any_command(), any_command()];
    let mut v = Vec::new();
    for i in 0..2 {
        v.push(value(Duration::from_micros(u[i] as u64), c[i]));
    }
    let r = match m.process_output_values(&v) {
        Ok(r) => r,
        Err(_) => {
            require(false, "up to 8.388607 s is accepted");
            stop()
        }
    };
    match m.process_output_data(&r) {
        Ok(b) => {
            require(b.len() == 2, "two channels");
            for i in 0..2 {
                match &b[i] {
                    ChannelValue::FcntOut(p) => {
                        require(p.command == c[i], "the command is read back");
                        require(p.duration.as_micros() == u[i] as u128, "the duration is read back");
                        require(p.duration.as_nanos() == u[i] as u128 * 1000, "the duration is read back exactly");
                    }
                    _ => require(false, "a counter value"),
                }
            }
        }
        Err(_) => require(false, "the written window is accepted"),
    }
}
