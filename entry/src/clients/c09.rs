//! C09: disabled channels are reported as disabled and driven to zero.
use super::util::*;
use crate::rt::*;

macro_rules! inputs {
    ($n:ident, $t:ty, $regs:expr, $chs:expr, $first:expr, $per:expr, $off:expr) => {
        pub mod $n {
            use super::*;
            pub fn reported() {
                let d: [u16; $regs] = any("params");
                let m = match <$t>::from_modbus_parameter_data(&d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                };
                let w: [u16; $chs] = any("window");
                match m.process_input_data(&w) {
                    Ok(v) => {
                        for i in 0..$chs {
                            let disabled = d[$first + $per * i] == $off;
                            require(
                                matches!(v[i], ChannelValue::Disabled) == disabled,
                                "disabled exactly if the range is disabled",
                            );
                        }
                    }
                    Err(_) => require(false, "a window of the declared length is accepted"),
                }
            }
            pub fn default_reported() {
                let m = <$t>::default();
                let w: [u16; $chs] = any("window");
                match m.process_input_data(&w) {
                    Ok(v) => {
                        for i in 0..$chs {
                            require(matches!(v[i], ChannelValue::Disabled), "channels are disabled by default");
                        }
                    }
                    Err(_) => require(false, "a window of the declared length is accepted"),
                }
            }
        }
    };
}
inputs! { ai12, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>, 9, 4, 2, 2, 8 }
inputs! { ai16, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, 9, 4, 2, 2, 8 }
inputs! { aidiag, ur20_4ai_ui_16_diag::Mod, 21, 4, 5, 5, 8 }
inputs! { ai8, ur20_8ai_i_16_diag_hd::Mod, 33, 8, 4, 4, 2 }
inputs! { rtd, ur20_4ai_rtd_diag::Mod, 29, 4, 1, 7, 18 }
inputs! { tc, ur20_4ai_tc_diag::Mod, 29, 4, 1, 7, 19 }

/// the words of channel `k` are zero in `r`, those of the others as in `full`
fn cleared(kind: u8, r: &[u16], full: &[u16], k: usize) {
    require(r.len() == full.len(), "the same number of output words");
    if kind == 0 {
        // one bit per channel
        require(r[0] == full[0] & !(1 << k), "only the bit of the disabled channel is cleared");
    } else if kind == 1 {
        // one word per channel
        for i in 0..4 {
            require(r[i] == if i == k { 0 } else { full[i] }, "only the code of the disabled channel is cleared");
        }
    } else {
        // two words and a control word per channel
        for i in 0..2 {
            for j in [2 * i, 2 * i + 1, 4 + i] {
                require(r[j] == if i == k { 0 } else { full[j] }, "only the words of the disabled channel are cleared");
            }
        }
    }
}
fn own_value(kind: u8) -> ChannelValue {
    if kind == 0 {
        ChannelValue::Bit(any("bit"))
    } else if kind == 1 {
        ChannelValue::Decimal32(any("decimal"))
    } else {
        let ms: u16 = any("milliseconds");
        assume(ms <= 8000);
        let d = std::time::Duration::from_millis(ms as u64);
        ChannelValue::FcntOut(FcOut { duration: d, command: any_command() })
    }
}
fn foreign(kind: u8, v: &ChannelValue) -> bool {
    match v {
        ChannelValue::Bit(_) => kind != 0,
        ChannelValue::Decimal32(_) => kind != 1,
        ChannelValue::FcntOut(_) => kind != 2,
        ChannelValue::Disabled => false,
        _ => true,
    }
}
/// a code of its own for each channel
fn analog_values(m: &dyn ProcessModbusTcpData) -> Vec<ChannelValue> {
    let w: [u16; 4] = any("codes");
    match m.process_output_data(&w) {
        Ok(v) => v,
        Err(_) => stop(),
    }
}

macro_rules! outputs {
    ($n:ident, $t:ty, $regs:expr, $chs:expr, $kind:expr) => {
        pub mod $n {
            use super::*;
            fn module() -> $t {
                let d: [u16; $regs] = any("params");
                match <$t>::from_modbus_parameter_data(&d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                }
            }
            /// channel k written as disabled, the others not
            pub fn written() {
                let m = module();
                let k = part($chs);
                let v = if $kind == 1 {
                    analog_values(&m)
                } else {
                    let mut v = Vec::new();
                    for _ in 0..$chs {
                        v.push(own_value($kind));
                    }
                    v
                };
                let mut off = v.clone();
                off[k] = ChannelValue::Disabled;
                match (m.process_output_values(&v), m.process_output_values(&off)) {
                    (Ok(full), Ok(r)) => cleared($kind, &r, &full, k),
                    _ => require(false, "values of the module kind and 'disabled' are accepted"),
                }
            }
            pub fn all_disabled() {
                let m = module();
                let v = vec![ChannelValue::Disabled; $chs];
                match m.process_output_values(&v) {
                    Ok(r) => {
                        for w in r {
                            require(w == 0, "a disabled module is driven to zero");
                        }
                    }
                    Err(_) => require(false, "'disabled' is accepted by every output channel"),
                }
            }
            /// one foreign value among own ones
            pub fn foreign_kind() {
                let m = module();
                let k = part($chs);
                let mut v = Vec::new();
                for i in 0..$chs {
                    v.push(if i == k {
                        let x = any_value(2);
                        assume(foreign($kind, &x));
                        x
                    } else {
                        own_value($kind)
                    });
                }
                require(m.process_output_values(&v).is_err(), "a value of a foreign kind is rejected");
            }
        }
    };
}
outputs! { do4, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, 4, 4, 0 }
outputs! { do4a, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>, 4, 4, 0 }
outputs! { do8, ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, 8, 8, 0 }
outputs! { do16, ur20_16do_p::Mod, 0, 16, 0 }
outputs! { ro4, ur20_4ro_co_255::Mod, 4, 4, 0 }
outputs! { ao, ur20_4ao_ui_16::Mod, 12, 4, 1 }
outputs! { aodiag, ur20_4ao_ui_16_diag::Mod, 16, 4, 1 }
outputs! { fcnt, ur20_2fcnt_100::Mod, 2, 2, 2 }

macro_rules! read_back {
    ($n:ident, $t:ty, $regs:expr, $per:expr) => {
        pub mod $n {
            use super::*;
            pub fn reported() {
                let d: [u16; $regs] = any("params");
                let m = match <$t>::from_modbus_parameter_data(&d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                };
                let w: [u16; 4] = any("window");
                match m.process_output_data(&w) {
                    Ok(v) => {
                        for i in 0..4 {
                            require(
                                matches!(v[i], ChannelValue::Disabled) == (d[$per * i + 1] == 8),
                                "disabled exactly if the range is disabled",
                            );
                        }
                    }
                    Err(_) => require(false, "a window of the declared length is accepted"),
                }
            }
        }
    };
}
macro_rules! range_off {
    ($n:ident, $t:ty, $regs:expr, $per:expr) => {
        pub fn $n() {
            let d: [u16; $regs] = any("params");
            let m = match <$t>::from_modbus_parameter_data(&d) {
                Ok(m) => m,
                Err(_) => stop(),
            };
            let mut v = Vec::new();
            for _ in 0..4 {
                v.push(own_value(1));
            }
            match m.process_output_values(&v) {
                Ok(r) => {
                    for i in 0..4 {
                        if d[$per * i + 1] == 8 {
                            require(r[i] == 0, "a channel with the range 'disabled' is driven to zero");
                        }
                    }
                }
                Err(_) => require(false, "decimal values are accepted"),
            }
        }
    };
}
range_off! { ao_range_off, ur20_4ao_ui_16::Mod, 12, 3 }
range_off! { aodiag_range_off, ur20_4ao_ui_16_diag::Mod, 16, 4 }
read_back! { ao_read, ur20_4ao_ui_16::Mod, 12, 3 }
read_back! { aodiag_read, ur20_4ao_ui_16_diag::Mod, 16, 4 }

/// the serial module accepts nothing but its own message
pub fn serial_foreign() {
    let m = Com::default();
    let v = any_value(2);
    assume(!matches!(v, ChannelValue::ComRsOut(_)));
    require(m.process_output_values(&[v]).is_err(), "a value of a foreign kind is rejected");
}
