//! C01: module codecs never panic.  Every panic, overflow and index check in
//! the reachable library code is an obligation of its own.
use super::util::*;
use crate::rt::*;

/// the serial module takes windows of any length apart, word by word
fn long(t: &ModuleType, n: usize) -> usize {
    if matches!(t, ModuleType::UR20_1COM_232_485_422) {
        [9, 64, 127, 128, 129, 300][part(6)]
    } else {
        n
    }
}

macro_rules! codecs {
    ($n:ident, $t:ty, $id:ident, $p:expr, $c:expr, $i:expr, $o:expr) => {
        pub mod $n {
            use super::*;
            type M = $t;
            pub fn params() {
                let d: [u16; $p + 16] = any("params");
                let _ = M::from_modbus_parameter_data(prefix(&d, "params.len"));
            }
            fn module() -> M {
                let d: [u16; $p] = any("params");
                match M::from_modbus_parameter_data(&d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                }
            }
            pub fn input() {
                let m = module();
                let d: [u16; 20] = any("window");
                let _ = m.process_input_data(prefix(&d, "window.len"));
            }
            pub fn output() {
                let m = module();
                let d: [u16; 20] = any("window");
                let _ = m.process_output_data(prefix(&d, "window.len"));
            }
            pub fn encode() {
                let m = module();
                let v = any_values(18, 3);
                let _ = m.process_output_values(prefix(&v, "values.len"));
            }
            /// blocks, windows and lists of any length
            pub fn long_params() {
                let d: [u16; $p] = any("params");
                let d = long_block(&d);
                let _ = M::from_modbus_parameter_data(&d[..LONG[part(LONG.len())]]);
            }
            pub fn long_input() {
                let w = long_window();
                let _ = module().process_input_data(&w[..any_length(long(&ModuleType::$id, w.len()))]);
            }
            pub fn long_output() {
                let w = long_window();
                let _ = module().process_output_data(&w[..any_length(long(&ModuleType::$id, w.len()))]);
            }
            pub fn long_encode() {
                let mut v = any_values($c, 3);
                let last = v[$c - 1].clone();
                for _ in 0..1024 {
                    v.push(last.clone());
                }
                let _ = module().process_output_values(&v[..any_length(v.len())]);
            }
        }
    };
}
all_modules!(codecs);
codecs! { com, Com, UR20_1COM_232_485_422, 10, 1, 8, 8 }


/// the channel parameters are public: any number of them
macro_rules! tampered {
    ($n:ident, $t:ty, $id:ident, $p:expr, $c:expr, $i:expr, $o:expr) => {
        pub mod $n {
            use super::super::*;
            type M = $t;
            fn module(n: usize) -> M {
                let d: [u16; $p] = any("params");
                match M::from_modbus_parameter_data(&d) {
                    Ok(mut m) => {
                        if n > $c {
                            let x = m.ch_params[0].clone();
                            m.ch_params.push(x);
                        }
                        while m.ch_params.len() > n {
                            let _ = m.ch_params.pop();
                        }
                        m
                    }
                    Err(_) => stop(),
                }
            }
            pub fn input() {
                let m = module(part($c + 2));
                let d: [u16; 20] = any("window");
                let _ = m.process_input_data(prefix(&d, "window.len"));
            }
            pub fn output() {
                let m = module(part($c + 2));
                let d: [u16; 20] = any("window");
                let _ = m.process_output_data(prefix(&d, "window.len"));
            }
            pub fn encode() {
                let m = module(part($c + 2));
                let v = any_values(9, 3);
                let _ = m.process_output_values(prefix(&v, "values.len"));
            }
        }
    };
}
mod tampered {
    use super::*;
    tampered! { di4, ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>, UR20_4DI_P, 4, 4, 1, 0 }
    tampered! { di8, ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>, UR20_8DI_P_2W, 8, 8, 1, 0 }
    tampered! { do4, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, UR20_4DO_P, 4, 4, 0, 1 }
    tampered! { do4a, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>, UR20_4DO_P_2A, 4, 4, 0, 1 }
    tampered! { do8, ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, UR20_8DO_P, 8, 8, 0, 1 }
    tampered! { ro4, ur20_4ro_co_255::Mod, UR20_4RO_CO_255, 4, 4, 0, 1 }
    tampered! { ai12, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>, UR20_4AI_UI_12, 9, 4, 4, 0 }
    tampered! { ai16, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, UR20_4AI_UI_16, 9, 4, 4, 0 }
    tampered! { aidiag, ur20_4ai_ui_16_diag::Mod, UR20_4AI_UI_16_DIAG, 21, 4, 4, 0 }
    tampered! { ai8, ur20_8ai_i_16_diag_hd::Mod, UR20_8AI_I_16_DIAG_HD, 33, 8, 8, 0 }
    tampered! { rtd, ur20_4ai_rtd_diag::Mod, UR20_4AI_RTD_DIAG, 29, 4, 4, 0 }
    tampered! { ao, ur20_4ao_ui_16::Mod, UR20_4AO_UI_16, 12, 4, 0, 4 }
    tampered! { aodiag, ur20_4ao_ui_16_diag::Mod, UR20_4AO_UI_16_DIAG, 16, 4, 0, 4 }
    tampered! { fcnt, ur20_2fcnt_100::Mod, UR20_2FCNT_100, 2, 2, 10, 6 }
    tampered! { com, Com, UR20_1COM_232_485_422, 10, 1, 8, 8 }
}

macro_rules! extreme {
    ($n:ident, $t:ty, $p:expr) => {
        /// the same analog outputs with each of these values, for every range and format
        pub fn $n() {
            let x = EXTREMES[part(EXTREMES.len())];
            let d: [u16; $p] = any("params");
            if let Ok(m) = <$t>::from_modbus_parameter_data(&d) {
                let v = [
                    ChannelValue::Decimal32(x),
                    ChannelValue::Decimal32(x),
                    ChannelValue::Decimal32(x),
                    ChannelValue::Decimal32(x),
                ];
                let _ = m.process_output_values(&v);
            }
        }
    };
}
mod extreme {
    use super::*;
    extreme! { ao, ur20_4ao_ui_16::Mod, 12 }
    extreme! { aodiag, ur20_4ao_ui_16_diag::Mod, 16 }
}
