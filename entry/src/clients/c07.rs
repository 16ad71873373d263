//! C07: analog, resistance and temperature inputs are scaled by the
//! configured range and format. The module is made from an arbitrary valid
//! parameter block, so range and format of every channel are arbitrary.
use super::util::*;
use crate::rt::*;

const TOL: f64 = 1e-6;

/// two's complement code
fn signed(c: u16) -> f32 {
    let v = c as i32;
    (if v >= 32768 { v - 65536 } else { v }) as f32
}
fn nominal(f: u16) -> f32 {
    if f == 0 {
        16384.0
    } else {
        27648.0
    }
}
/// value at code zero, and span up to the nominal code
fn ui_bounds(r: u16) -> (f32, f32) {
    match r {
        0 => (0.0, 20.0),
        1 => (4.0, 16.0),
        2 => (0.0, 10.0),
        3 => (0.0, 10.0),
        4 => (0.0, 5.0),
        5 => (0.0, 5.0),
        6 => (1.0, 4.0),
        _ => (2.0, 8.0),
    }
}
fn linear(v: &ChannelValue, code: u16, lo: f32, span: f32, nominal: f32) {
    match v {
        ChannelValue::Decimal32(x) => {
            require_close(*x, lo + signed(code) / nominal * span, TOL, span as f64, "linear between the bounds of the range");
        }
        _ => require(false, "an enabled channel reports a value"),
    }
}
fn ui(v: &ChannelValue, code: u16, format: u16, range: u16) {
    if range < 8 {
        let (lo, span) = ui_bounds(range);
        linear(v, code, lo, span, nominal(format));
    }
}

macro_rules! analog {
    ($n:ident, $t:ty, $regs:expr, $chs:expr, |$v:ident, $code:ident, $d:ident, $i:ident| $check:expr) => {
        pub mod $n {
            use super::*;
            /// every channel at once: its value depends on its own register only
            pub fn scaled() {
                let $d: [u16; $regs] = any("params");
                let m = match <$t>::from_modbus_parameter_data(&$d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                };
                let w: [u16; $chs] = any("window");
                match m.process_input_data(&w) {
                    Ok(v) => {
                        require(v.len() == $chs, "one value per channel");
                        for $i in 0..$chs {
                            let $v = &v[$i];
                            let $code = w[$i];
                            $check;
                        }
                    }
                    Err(_) => require(false, "a window of the declared length is accepted"),
                }
            }
        }
    };
}
analog! { ai12, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>, 9, 4,
    |v, code, d, i| ui(v, code, d[1 + 2 * i], d[2 + 2 * i]) }
analog! { ai16, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, 9, 4,
    |v, code, d, i| ui(v, code, d[1 + 2 * i], d[2 + 2 * i]) }
analog! { aidiag, ur20_4ai_ui_16_diag::Mod, 21, 4, |v, code, d, i| ui(v, code, d[4 + 5 * i], d[5 + 5 * i]) }
analog! { ai8, ur20_8ai_i_16_diag_hd::Mod, 33, 8, |v, code, d, i| {
    let range = d[4 + 4 * i];
    if range < 2 {
        ui(v, code, d[3 + 4 * i], range);
    }
} }
analog! { rtd, ur20_4ai_rtd_diag::Mod, 29, 4, |v, code, d, i| {
    let range = d[1 + 7 * i];
    if range < 10 {
        match v {
            ChannelValue::Decimal32(x) => require_close(*x, signed(code) / 10.0, TOL, 0.1, "temperatures in tenths of a degree"),
            _ => require(false, "an enabled channel reports a value"),
        }
    } else if range < 18 {
        let ohms = match range {
            10 => 40.0,
            11 => 80.0,
            12 => 150.0,
            13 => 300.0,
            14 => 500.0,
            15 => 1000.0,
            16 => 2000.0,
            _ => 4000.0,
        };
        match v {
            ChannelValue::Decimal32(x) => {
                require_close(*x, (code as u32) as f32 / 27648.0 * ohms, TOL, 0.001, "resistances linear in the unsigned code")
            }
            _ => require(false, "an enabled channel reports a value"),
        }
    }
} }
analog! { tc, ur20_4ai_tc_diag::Mod, 29, 4, |v, code, d, i| {
    let range = d[1 + 7 * i];
    if range < 11 {
        match v {
            ChannelValue::Decimal32(x) => {
                require(code != 32767, "no value for the line break code");
                require_close(*x, signed(code) / 10.0, TOL, 0.1, "temperatures in tenths of a degree");
            }
            ChannelValue::None => require(code == 32767, "a value for every code but the line break code"),
            _ => require(false, "an enabled channel is not disabled"),
        }
    } else if range < 19 {
        let full = match range {
            11 => 0.015625,
            12 => 0.03125,
            13 => 0.0625,
            14 => 0.125,
            15 => 0.25,
            16 => 0.5,
            17 => 1.0,
            _ => 2.0,
        };
        match v {
            ChannelValue::Decimal32(x) => {
                require_close(*x, signed(code) / 32767.0 * full, TOL, full as f64 / 32767.0, "voltages linear up to full scale")
            }
            _ => require(false, "an enabled channel reports a value"),
        }
    }
} }
