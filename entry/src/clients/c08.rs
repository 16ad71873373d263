//! C08: analog output encoding and read-back are mutually inverse.
use super::util::*;
use crate::rt::*;

fn signed(c: u16) -> i32 {
    let v = c as i32;
    if v >= 32768 {
        v - 65536
    } else {
        v
    }
}
fn nominal(f: u16) -> f64 {
    if f == 0 {
        16384.0
    } else {
        27648.0
    }
}
/// value at code zero, and span up to the nominal code
fn bounds(r: u16) -> (f64, f64) {
    match r {
        0 => (0.0, 20.0),
        1 => (4.0, 16.0),
        2 => (0.0, 10.0),
        3 => (0.0, 10.0),
        4 => (0.0, 5.0),
        5 => (0.0, 5.0),
        6 => (1.0, 4.0),
        _ => (2.0, 8.0),
    }
}
fn bipolar(r: u16) -> bool {
    r == 3 || r == 5
}

macro_rules! outputs {
    ($n:ident, $t:ty, $regs:expr, $per:expr) => {
        pub mod $n {
            use super::*;
            fn module(d: &[u16; $regs]) -> $t {
                match <$t>::from_modbus_parameter_data(d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                }
            }
            /// read back, then encode: the same code for every enabled channel
            pub fn inverse() {
                let d: [u16; $regs] = any("params");
                let m = module(&d);
                let w: [u16; 4] = any("window");
                let v = match m.process_output_data(&w) {
                    Ok(v) => v,
                    Err(_) => {
                        require(false, "a window of the declared length is accepted");
                        stop()
                    }
                };
                match m.process_output_values(&v) {
                    Ok(r) => {
                        require(r.len() == 4, "one code per channel");
                        for i in 0..4 {
                            if d[$per * i + 1] != 8 {
                                require(r[i] == w[i], "encoding the value read back yields the same code");
                            }
                        }
                    }
                    Err(_) => require(false, "values read back can be written"),
                }
            }
            /// the value read back is linear in the code
            pub fn scale() {
                let d: [u16; $regs] = any("params");
                let m = module(&d);
                let w: [u16; 4] = any("window");
                match m.process_output_data(&w) {
                    Ok(v) => {
                        for i in 0..4 {
                            let range = d[$per * i + 1];
                            if range != 8 {
                                let (lo, span) = bounds(range);
                                let x = lo + signed(w[i]) as f64 / nominal(d[$per * i]) * span;
                                match v[i] {
                                    ChannelValue::Decimal32(y) => {
                                        require_close(y, x as f32, 1e-6, span, "the value read back is linear in the code")
                                    }
                                    _ => require(false, "an enabled channel reads back a value"),
                                }
                            }
                        }
                    }
                    Err(_) => require(false, "a window of the declared length is accepted"),
                }
            }
            pub fn substitute() {
                let d: [u16; $regs] = any("params");
                let m = module(&d);
                for i in 0..4 {
                    let range = d[$per * i + 1];
                    if range != 8 {
                        let (lo, span) = bounds(range);
                        let x = lo + signed(d[$per * i + 2]) as f64 / nominal(d[$per * i]) * span;
                        require_close(
                            m.ch_params[i].substitute_value,
                            x as f32,
                            1e-6,
                            span,
                            "the substitute value is decoded by the scale of the channel",
                        );
                    }
                }
            }
            /// values between two codes: the nearest one
            pub fn nearest() {
                let steps = if thorough() { 193 } else { 97 };
                let k = part(steps);
                let offset = 0.48 * (2.0 * k as f64 / (steps as f64 - 1.0) - 1.0);
                let d: [u16; $regs] = any("params");
                let m = module(&d);
                let w: [u16; 4] = any("codes");
                let mut v = Vec::new();
                for i in 0..4 {
                    let range = d[$per * i + 1];
                    if range == 8 {
                        v.push(ChannelValue::Disabled);
                        continue;
                    }
                    let c = signed(w[i]);
                    let n = if d[$per * i] == 0 { 16384 } else { 27648 };
                    assume(c <= n && (c >= 0 || (bipolar(range) && c >= -n)));
                    let (lo, span) = bounds(range);
                    let x = lo + (c as f64 + offset) / nominal(d[$per * i]) * span;
                    v.push(ChannelValue::Decimal32(x as f32));
                }
                match m.process_output_values(&v) {
                    Ok(r) => {
                        for i in 0..4 {
                            if d[$per * i + 1] != 8 {
                                require(r[i] == w[i], "a value within the range yields the nearest code");
                            }
                        }
                    }
                    Err(_) => require(false, "values within the range can be written"),
                }
            }
        }
    };
}
outputs! { ao, ur20_4ao_ui_16::Mod, 12, 3 }
outputs! { aodiag, ur20_4ao_ui_16_diag::Mod, 16, 4 }
