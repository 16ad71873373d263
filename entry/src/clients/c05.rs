//! C05: parameter registers configure exactly the documented field.
use super::tables::*;
use super::util::*;
use crate::rt::*;

/// `name, type, registers, channels, first register of the channels,
/// registers per channel; module fields; channel fields`; a field is
/// `access, register, table`
macro_rules! params {
    ($n:ident, $t:ty, $regs:expr, $chs:expr, $first:expr, $per:expr;
     $($mf:ident, $mr:expr, $mt:ident);*; ; $($cf:ident, $cr:expr, $ct:ident);*;) => {
        pub mod $n {
            use super::*;
            type M = $t;
            /// block of exact or greater length
            pub fn fields() {
                let d: [u16; $regs + 3] = any("params");
                let n: usize = any("surplus");
                assume(n <= 3);
                let r = M::from_modbus_parameter_data(&d[..$regs + n]);
                match r {
                    Ok(m) => {
                        $(match $mt(d[$mr]) {
                            Some(x) => require(m.mod_params.$mf == x, concat!("module field ", stringify!($mf))),
                            None => require(false, concat!("undocumented code rejected: ", stringify!($mf))),
                        })*
                        require(m.ch_params.len() == $chs, "one parameter set per channel");
                        for i in 0..$chs {
                            let _b = $first + i * $per;
                            $(match $ct(d[_b + $cr]) {
                                Some(x) => require(m.ch_params[i].$cf == x, concat!("channel field ", stringify!($cf))),
                                None => require(false, concat!("undocumented code rejected: ", stringify!($cf))),
                            })*
                        }
                    }
                    Err(_) => {
                        let mut ok = true;
                        $(ok = ok && $mt(d[$mr]).is_some();)*
                        for i in 0..$chs {
                            let _b = $first + i * $per;
                            $(ok = ok && $ct(d[_b + $cr]).is_some();)*
                        }
                        require(!ok, "a documented block is accepted");
                    }
                }
            }
            /// surplus registers are ignored, however many
            pub fn long() {
                let d: [u16; $regs] = any("params");
                let w = long_block(&d);
                let n = LONG[part(LONG.len())];
                match (M::from_modbus_parameter_data(&w[..n]), M::from_modbus_parameter_data(&d)) {
                    (Ok(a), Ok(b)) => {
                        $(require(a.mod_params.$mf == b.mod_params.$mf, "registers behind the block do not matter");)*
                        require(a.ch_params == b.ch_params, "registers behind the block do not matter");
                    }
                    (Err(_), Err(_)) => (),
                    _ => require(false, "registers behind the block do not matter"),
                }
            }
            pub fn short() {
                let d: [u16; $regs] = any("params");
                let n: usize = any("length");
                assume(n < $regs);
                let r = M::from_modbus_parameter_data(&d[..n]);
                require(r.is_err(), "a block with too few registers is rejected");
            }
        }
    };
}
fn limit(c: u16) -> Option<i16> {
    let v = c as i32;
    Some(if v >= 32768 { (v - 65536) as i16 } else { v as i16 })
}
fn character(c: u16) -> Option<char> {
    if c <= 255 {
        char::from_u32(c as u32)
    } else {
        None
    }
}

params! { di4, ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>, 4, 4, 0, 1; ; ; input_delay, 0, delay; }
params! { di8, ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>, 8, 8, 0, 1; ; ; input_delay, 0, delay; }
params! { do4, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, 4, 4, 0, 1; ; ; substitute_value, 0, flag; }
params! { do4a, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>, 4, 4, 0, 1; ; ; substitute_value, 0, flag; }
params! { do8, ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, 8, 8, 0, 1; ; ; substitute_value, 0, flag; }
params! { ro4, ur20_4ro_co_255::Mod, 4, 4, 0, 1; ; ; substitute_value, 0, flag; }
params! { ai12, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>, 9, 4, 1, 2;
frequency_suppression, 0, frequency; ; data_format, 0, format; measurement_range, 1, ui_range; }
params! { ai16, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, 9, 4, 1, 2;
frequency_suppression, 0, frequency; ; data_format, 0, format; measurement_range, 1, ui_range; }
params! { aidiag, ur20_4ai_ui_16_diag::Mod, 21, 4, 1, 5; frequency_suppression, 0, frequency; ;
channel_diagnostics, 0, flag; diag_short_circuit, 1, flag; diag_line_break, 2, flag; data_format, 3, format;
measurement_range, 4, ui_range; }
params! { ai8, ur20_8ai_i_16_diag_hd::Mod, 33, 8, 1, 4; frequency_suppression, 0, frequency; ;
channel_diagnostics, 0, flag; diag_short_circuit, 1, flag; data_format, 2, format; measurement_range, 3, i_range; }
params! { rtd, ur20_4ai_rtd_diag::Mod, 29, 4, 1, 7; temperature_unit, 0, unit; ;
measurement_range, 0, rtd_range; connection_type, 1, connection; conversion_time, 2, conversion;
channel_diagnostics, 3, flag; limit_value_monitoring, 4, flag; high_limit_value, 5, limit; low_limit_value, 6, limit; }
params! { tc, ur20_4ai_tc_diag::Mod, 29, 4, 1, 7; temperature_unit, 0, unit; ;
measurement_range, 0, tc_range; cold_junction_compensation, 1, junction; conversion_time, 2, conversion;
channel_diagnostics, 3, flag; limit_value_monitoring, 4, flag; high_limit_value, 5, limit; low_limit_value, 6, limit; }
params! { ao, ur20_4ao_ui_16::Mod, 12, 4, 0, 3; ; ; data_format, 0, format; output_range, 1, ui_range; }
params! { aodiag, ur20_4ao_ui_16_diag::Mod, 16, 4, 0, 4; ; ; data_format, 0, format; output_range, 1, ui_range;
channel_diagnostics, 3, flag; }
params! { fcnt, ur20_2fcnt_100::Mod, 2, 2, 0, 1; ; ; input_filter, 0, filter; }
params! { com, ur20_1com_232_485_422::Mod, 10, 1, 0, 10; process_data_len, 0, frame_len; ;
operating_mode, 1, mode; baud_rate, 2, baud; stop_bit, 3, stop_bit; parity, 4, parity; flow_control, 5, flow;
data_bits, 6, data_bits; terminating_resistor, 7, flag; XON_char, 8, character; XOFF_char, 9, character; }

/// modules without parameters accept exactly the empty block
pub fn empty() {
    let d: [u16; 8] = any("params");
    let w = prefix(&d, "length");
    require(ur20_16do_p::Mod::from_modbus_parameter_data(w).is_ok() == w.is_empty(), "16DO-P: only the empty block");
    require(
        ur20_pf_o_1di_sil::Mod::from_modbus_parameter_data(w).is_ok() == w.is_empty(),
        "PF-O-1DI-SIL: only the empty block",
    );
}
