//! C06: digital channels are exactly the bits of their word.
use super::util::*;
use crate::rt::*;

fn bit(w: u16, i: usize) -> bool {
    (w as u32 / [1u32, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768][i]) % 2 == 1
}
fn is_bit(v: &ChannelValue, b: bool) -> bool {
    match v {
        ChannelValue::Bit(x) => *x == b,
        _ => false,
    }
}

macro_rules! digital {
    ($n:ident, $t:ty, $regs:expr, $chs:expr, in) => {
        pub mod $n {
            use super::*;
            fn check(m: $t) {
                let w: u16 = any("word");
                let v = match m.process_input_data(&[w]) {
                    Ok(v) => v,
                    Err(_) => {
                        require(false, "a process word is accepted");
                        stop()
                    }
                };
                require(v.len() == $chs, "one value per channel");
                for i in 0..$chs {
                    require(is_bit(&v[i], bit(w, i)), "input channel i is bit i of the word");
                }
            }
            pub fn input() {
                let d: [u16; $regs] = any("params");
                match <$t>::from_modbus_parameter_data(&d) {
                    Ok(m) => check(m),
                    Err(_) => {}
                }
            }
            pub fn default_input() {
                check(<$t>::default());
            }
        }
    };
    ($n:ident, $t:ty, $regs:expr, $chs:expr, out) => {
        pub mod $n {
            use super::*;
            fn check_read_back(m: $t) {
                let w: u16 = any("word");
                let v = match m.process_output_data(&[w]) {
                    Ok(v) => v,
                    Err(_) => {
                        require(false, "a process word is accepted");
                        stop()
                    }
                };
                require(v.len() == $chs, "one value per channel");
                for i in 0..$chs {
                    require(is_bit(&v[i], bit(w, i)), "output channel i is bit i of the word");
                }
            }
            fn check_encode(m: $t) {
                let b: [bool; $chs] = any("bits");
                let off: [bool; $chs] = any("disabled");
                let mut v = Vec::new();
                for i in 0..$chs {
                    v.push(if off[i] { ChannelValue::Disabled } else { ChannelValue::Bit(b[i]) });
                }
                let w = match m.process_output_values(&v) {
                    Ok(w) => w,
                    Err(_) => {
                        require(false, "bit values are accepted");
                        stop()
                    }
                };
                require(w.len() == 1, "one output word");
                for i in 0..$chs {
                    require(
                        bit(w[0], i) == (b[i] && !off[i]),
                        "bit i of the word is output channel i, a disabled channel is off",
                    );
                }
                for i in $chs..16 {
                    require(!bit(w[0], i), "unused output bits are zero");
                }
            }
            fn module() -> $t {
                let d: [u16; $regs] = any("params");
                match <$t>::from_modbus_parameter_data(&d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                }
            }
            pub fn read_back() {
                check_read_back(module());
            }
            pub fn encode() {
                check_encode(module());
            }
            pub fn default_read_back() {
                check_read_back(<$t>::default());
            }
            pub fn default_encode() {
                check_encode(<$t>::default());
            }
        }
    };
}
digital! { di4, ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>, 4, 4, in }
digital! { di8, ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>, 8, 8, in }
digital! { do4, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, 4, 4, out }
digital! { do4a, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>, 4, 4, out }
digital! { do8, ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, 8, 8, out }
digital! { do16, ur20_16do_p::Mod, 0, 16, out }
digital! { ro4, ur20_4ro_co_255::Mod, 4, 4, out }

fn sil_check(m: ur20_pf_o_1di_sil::Mod) {
    let w: [u16; 2] = any("words");
    match m.process_input_data(&w) {
        Ok(v) => {
            require(v.len() == 1, "one value");
            match &v[0] {
                ChannelValue::SilPFIn(p) => {
                    require(p.safety_input == bit(w[0], 0), "safety input is byte 0 bit 0");
                    require(p.autostart == bit(w[0], 2), "autostart is byte 0 bit 2");
                    require(p.manual_start == bit(w[0], 3), "manual start is byte 0 bit 3");
                    require(p.safety_input_channel_1 == bit(w[0], 4), "safety input channel 1 is byte 0 bit 4");
                    require(p.safety_input_channel_2 == bit(w[0], 5), "safety input channel 2 is byte 0 bit 5");
                    require(p.volt_24_safe_output == bit(w[0], 8), "24 V safe output is byte 1 bit 0");
                    require(p.volt_24_dc == bit(w[0], 10), "24 V DC is byte 1 bit 2");
                }
                _ => require(false, "the value of the module kind"),
            }
        }
        Err(_) => require(false, "a process window is accepted"),
    }
}
pub fn sil() {
    match ur20_pf_o_1di_sil::Mod::from_modbus_parameter_data(&[]) {
        Ok(m) => sil_check(m),
        Err(_) => require(false, "the empty parameter block is accepted"),
    }
}
pub fn sil_default() {
    sil_check(ur20_pf_o_1di_sil::Mod::default());
}
