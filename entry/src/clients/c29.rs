//! C29: a default module is one with the factory default block.
use super::util::*;
use crate::rt::*;

fn same<T: PartialEq>(a: Result<T, Error>, b: Result<T, Error>, rule: &'static str) {
    match (a, b) {
        (Ok(a), Ok(b)) => require(a == b, rule),
        (Err(_), Err(_)) => {}
        _ => require(false, rule),
    }
}
macro_rules! defaults {
    ($n:ident, $t:ty, $width:expr, $($m:ident)?, $block:expr) => {
        pub mod $n {
            use super::*;
            type M = $t;
            fn both() -> (M, M) {
                match M::from_modbus_parameter_data(&$block) {
                    Ok(b) => (M::default(), b),
                    Err(_) => {
                        require(false, "the factory default block is accepted");
                        (M::default(), M::default())
                    }
                }
            }
            pub fn parameters() {
                let (a, b) = both();
                $(require(a.$m == b.$m, "module parameters of the factory default block");)?
                require(a.ch_params.len() == b.ch_params.len(), "one parameter set per channel");
                for i in 0..b.ch_params.len() {
                    require(a.ch_params[i] == b.ch_params[i], "channel parameters of the factory default block");
                }
            }
            pub fn behaviour() {
                let (a, b) = both();
                let d: [u16; $width + 1] = any("window");
                let w = prefix(&d, "length");
                same(a.process_input_data(w), b.process_input_data(w), "decodes like the factory default block");
                same(a.process_output_data(w), b.process_output_data(w), "reads back like the factory default block");
            }
        }
    };
}

defaults! { di4, ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>, 1, , [2; 4] }
defaults! { di8, ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>, 1, , [2; 8] }
defaults! { do4, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, 1, , [0; 4] }
defaults! { do4a, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>, 1, , [0; 4] }
defaults! { do8, ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, 1, , [0; 8] }
defaults! { ro4, ur20_4ro_co_255::Mod, 1, , [0; 4] }
defaults! { ai12, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>, 4, mod_params,
[0, 1, 8, 1, 8, 1, 8, 1, 8] }
defaults! { ai16, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, 4, mod_params,
[0, 1, 8, 1, 8, 1, 8, 1, 8] }
defaults! { aidiag, ur20_4ai_ui_16_diag::Mod, 4, mod_params,
[0, 0, 0, 0, 1, 8, 0, 0, 0, 1, 8, 0, 0, 0, 1, 8, 0, 0, 0, 1, 8] }
defaults! { ai8, ur20_8ai_i_16_diag_hd::Mod, 8, mod_params,
[0, 0, 0, 1, 2, 0, 0, 1, 2, 0, 0, 1, 2, 0, 0, 1, 2, 0, 0, 1, 2, 0, 0, 1, 2, 0, 0, 1, 2, 0, 0, 1, 2] }
defaults! { rtd, ur20_4ai_rtd_diag::Mod, 4, mod_params,
[0, 18, 0, 2, 0, 0, 0, 0, 18, 0, 2, 0, 0, 0, 0, 18, 0, 2, 0, 0, 0, 0, 18, 0, 2, 0, 0, 0, 0] }
defaults! { tc, ur20_4ai_tc_diag::Mod, 4, mod_params,
[0, 19, 0, 2, 0, 0, 0x7FFF, 0x8000, 19, 0, 2, 0, 0, 0x7FFF, 0x8000, 19, 0, 2, 0, 0, 0x7FFF, 0x8000,
19, 0, 2, 0, 0, 0x7FFF, 0x8000] }
defaults! { ao, ur20_4ao_ui_16::Mod, 4, , [1, 8, 0, 1, 8, 0, 1, 8, 0, 1, 8, 0] }
defaults! { aodiag, ur20_4ao_ui_16_diag::Mod, 4, , [1, 8, 0, 0, 1, 8, 0, 0, 1, 8, 0, 0, 1, 8, 0, 0] }
defaults! { fcnt, ur20_2fcnt_100::Mod, 6, , [0; 2] }
defaults! { com, ur20_1com_232_485_422::Mod, 8, mod_params, [1, 0, 5, 0, 0, 0, 1, 0, 17, 19] }

/// modules without parameters
pub fn do16() {
    let (a, b) = (
        ur20_16do_p::Mod::default(),
        ur20_16do_p::Mod::from_modbus_parameter_data(&[]),
    );
    let d: [u16; 2] = any("window");
    let w = prefix(&d, "length");
    match b {
        Ok(b) => same(
            a.process_output_data(w),
            b.process_output_data(w),
            "reads back like the factory default block",
        ),
        Err(_) => require(false, "the factory default block is accepted"),
    }
}
pub fn sil() {
    let (a, b) = (
        ur20_pf_o_1di_sil::Mod::default(),
        ur20_pf_o_1di_sil::Mod::from_modbus_parameter_data(&[]),
    );
    let d: [u16; 2] = any("window");
    let w = prefix(&d, "length");
    match b {
        Ok(b) => same(
            a.process_input_data(w),
            b.process_input_data(w),
            "decodes like the factory default block",
        ),
        Err(_) => require(false, "the factory default block is accepted"),
    }
}

/// default process values are those of an all-zero window, and are encoded to one
pub fn values() {
    let f = ur20_2fcnt_100::ProcessOutput::default();
    require(
        f.command.is_none() && f.duration.as_nanos() == 0,
        "a default counter output does nothing",
    );
    let m = ur20_2fcnt_100::Mod::default();
    match m.process_output_values(&[ChannelValue::FcntOut(f), ChannelValue::FcntOut(f)]) {
        Ok(w) => require(w == [0; 6], "default counter outputs are encoded to zero words"),
        Err(_) => require(false, "default counter outputs are accepted"),
    }
    let o = ur20_1com_232_485_422::ProcessOutput::default();
    let i = ur20_1com_232_485_422::ProcessInput::default();
    for short in [false, true] {
        let m =
            match ur20_1com_232_485_422::Mod::from_modbus_parameter_data(&[!short as u16, 1, 5, 0, 0, 0, 1, 0, 17, 19])
            {
                Ok(m) => m,
                Err(_) => stop(),
            };
        let w = vec![0; if short { 4 } else { 8 }];
        match m.process_output_values(&[ChannelValue::ComRsOut(o.clone())]) {
            Ok(r) => require(r == w, "a default serial output is encoded to zero words"),
            Err(_) => require(false, "a default serial output is accepted"),
        }
        same(
            m.process_input_data(&w),
            Ok(vec![ChannelValue::ComRsIn(i.clone())]),
            "a default serial input is that of an empty frame",
        );
        same(
            m.process_output_data(&w),
            Ok(vec![ChannelValue::ComRsOut(o.clone())]),
            "a default serial output is that of an empty frame",
        );
    }
    same(
        ur20_pf_o_1di_sil::Mod::default().process_input_data(&[0, 0]),
        Ok(vec![ChannelValue::SilPFIn(ur20_pf_o_1di_sil::ProcessInput::default())]),
        "a default safety input is that of a zero window",
    );
}
