//! Shared client helpers: arbitrary values and the catalogue of modules.
use crate::rt::*;
use std::time::Duration;
pub use ur20::ur20_fbc_mod_tcp::*;
pub use ur20::*;

pub type Com = ur20_1com_232_485_422::Mod;
pub type ComIn = ur20_1com_232_485_422::ProcessInput;
pub type ComOut = ur20_1com_232_485_422::ProcessOutput;
pub type FcIn = ur20_2fcnt_100::ProcessInput;
pub type FcOut = ur20_2fcnt_100::ProcessOutput;
pub type SilIn = ur20_pf_o_1di_sil::ProcessInput;

/// `short name, module, type, parameter registers, channels, input words, output words`
#[macro_export]
macro_rules! all_modules {
    ($m:ident) => {
        $m! { di4, ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>, UR20_4DI_P, 4, 4, 1, 0 }
        $m! { di8, ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>, UR20_8DI_P_2W, 8, 8, 1, 0 }
        $m! { do4, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, UR20_4DO_P, 4, 4, 0, 1 }
        $m! { do4a, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>, UR20_4DO_P_2A, 4, 4, 0, 1 }
        $m! { do8, ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, UR20_8DO_P, 8, 8, 0, 1 }
        $m! { do16, ur20_16do_p::Mod, UR20_16DO_P, 0, 16, 0, 1 }
        $m! { ro4, ur20_4ro_co_255::Mod, UR20_4RO_CO_255, 4, 4, 0, 1 }
        $m! { ai12, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>, UR20_4AI_UI_12, 9, 4, 4, 0 }
        $m! { ai16, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, UR20_4AI_UI_16, 9, 4, 4, 0 }
        $m! { aidiag, ur20_4ai_ui_16_diag::Mod, UR20_4AI_UI_16_DIAG, 21, 4, 4, 0 }
        $m! { ai8, ur20_8ai_i_16_diag_hd::Mod, UR20_8AI_I_16_DIAG_HD, 33, 8, 8, 0 }
        $m! { rtd, ur20_4ai_rtd_diag::Mod, UR20_4AI_RTD_DIAG, 29, 4, 4, 0 }
        $m! { tc, ur20_4ai_tc_diag::Mod, UR20_4AI_TC_DIAG, 29, 4, 4, 0 }
        $m! { ao, ur20_4ao_ui_16::Mod, UR20_4AO_UI_16, 12, 4, 0, 4 }
        $m! { aodiag, ur20_4ao_ui_16_diag::Mod, UR20_4AO_UI_16_DIAG, 16, 4, 0, 4 }
        $m! { fcnt, ur20_2fcnt_100::Mod, UR20_2FCNT_100, 2, 2, 10, 6 }
        $m! { sil, ur20_pf_o_1di_sil::Mod, UR20_PF_O_1DI_SIL, 0, 1, 2, 0 }
    };
}

/// a prefix of arbitrary length of the given words
pub fn prefix<'a, T>(w: &'a [T], name: &'static str) -> &'a [T] {
    let n = length(w.len(), name);
    &w[..n]
}
/// the words of a window longer than any other, most of them zero
pub fn long_window() -> [u16; 0x10010] {
    let mut v = [0u16; 0x10010];
    let d: [u16; 12] = any("window");
    for k in 0..12 {
        v[k] = d[k];
    }
    v
}
/// registers of a parameter block followed by many others
pub fn long_block(d: &[u16]) -> [u16; 0x10030] {
    let mut v = [0u16; 0x10030];
    for k in 0..d.len() {
        v[k] = d[k];
    }
    v
}
/// lengths of blocks whose low bits look like a block that is too short
pub const LONG: [usize; 6] = [0x40, 0x80, 0x100, 0x101, 0x1000, 0x10001];
/// any length up to `max`, all of them in one analysis
pub fn any_length(max: usize) -> usize {
    let n: usize = any("length");
    assume(n <= max);
    n
}
/// bytes of arbitrary length up to `max`
pub fn any_bytes(max: usize) -> Vec<u8> {
    let n = length(max, "bytes.len");
    let mut v = Vec::new();
    for i in 0..max {
        if i < n {
            let b: u8 = any("byte");
            v.push(b);
        }
    }
    v
}
pub fn any_duration() -> Duration {
    let s: u64 = any("seconds");
    let n: u32 = any("nanos");
    assume(n < 1_000_000_000);
    Duration::new(s, n)
}
pub fn any_com_in(max: usize) -> ComIn {
    ComIn {
        data_available: any("in.available"),
        buffer_nearly_full: any("in.full"),
        rx_cnt: any("in.rx_cnt"),
        tx_cnt_ack: any("in.tx_cnt_ack"),
        ready: any("in.ready"),
        data: any_bytes(max),
    }
}
pub fn any_com_out(max: usize) -> ComOut {
    ComOut {
        rx_buf_flush: any("out.rx_flush"),
        tx_buf_flush: any("out.tx_flush"),
        disable_tx_hw_buffer: any("out.disable"),
        tx_cnt: any("out.tx_cnt"),
        rx_cnt_ack: any("out.rx_cnt_ack"),
        reset: any("out.reset"),
        data: any_bytes(max),
    }
}
pub fn any_command() -> Option<ur20_2fcnt_100::Command> {
    any("command")
}
/// any channel value at all; serial payloads up to `max` bytes
pub fn any_value(max: usize) -> ChannelValue {
    let k: u8 = any("value.kind");
    match k {
        0 => ChannelValue::Bit(any("bit")),
        1 => ChannelValue::Decimal32(any("decimal")),
        2 => ChannelValue::ComRsIn(any_com_in(max)),
        3 => ChannelValue::ComRsOut(any_com_out(max)),
        4 => ChannelValue::FcntIn(FcIn {
            duration: if any("has duration") { Some(any_duration()) } else { None },
            count: any("count"),
            active: any("active"),
        }),
        5 => ChannelValue::FcntOut(FcOut { duration: any_duration(), command: any_command() }),
        6 => ChannelValue::SilPFIn(any("sil")),
        7 => ChannelValue::Bytes(any_bytes(max)),
        8 => ChannelValue::Disabled,
        _ => ChannelValue::None,
    }
}
pub fn any_values(n: usize, max: usize) -> Vec<ChannelValue> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(any_value(max));
    }
    v
}
pub use crate::all_modules;

/// values far outside of every range, and numbers that are none
pub const EXTREMES: [f32; 20] = [
    f32::NAN,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::MAX,
    f32::MIN,
    f32::MIN_POSITIVE,
    -f32::MIN_POSITIVE,
    -0.0,
    1e-30,
    -4.0,
    25.0,
    -25.0,
    40.0,
    -40.0,
    1e3,
    -1e3,
    1e6,
    -1e6,
    1e12,
    -1e12,
];
