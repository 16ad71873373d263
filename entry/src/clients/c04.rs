//! C04: channel vectors and windows have the declared shape.
use super::util::*;
use crate::rt::*;

fn is_input_kind(t: &ModuleType, v: &ChannelValue) -> bool {
    use ModuleType::*;
    match t {
        UR20_4DI_P | UR20_8DI_P_2W => matches!(v, ChannelValue::Bit(_)),
        UR20_4AI_UI_12 | UR20_4AI_UI_16 | UR20_4AI_UI_16_DIAG | UR20_8AI_I_16_DIAG_HD | UR20_4AI_RTD_DIAG => {
            matches!(v, ChannelValue::Decimal32(_) | ChannelValue::Disabled)
        }
        UR20_4AI_TC_DIAG => {
            matches!(v, ChannelValue::Decimal32(_) | ChannelValue::Disabled | ChannelValue::None)
        }
        UR20_2FCNT_100 => matches!(v, ChannelValue::FcntIn(_)),
        UR20_PF_O_1DI_SIL => matches!(v, ChannelValue::SilPFIn(_)),
        _ => matches!(v, ChannelValue::None),
    }
}
fn is_output_kind(t: &ModuleType, v: &ChannelValue) -> bool {
    use ModuleType::*;
    match t {
        UR20_4DO_P | UR20_4DO_P_2A | UR20_8DO_P | UR20_16DO_P | UR20_4RO_CO_255 => matches!(v, ChannelValue::Bit(_)),
        UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG => matches!(v, ChannelValue::Decimal32(_) | ChannelValue::Disabled),
        UR20_2FCNT_100 => matches!(v, ChannelValue::FcntOut(_)),
        _ => matches!(v, ChannelValue::None),
    }
}
/// a value the module can write
fn writable(t: &ModuleType, v: &ChannelValue) -> bool {
    use ModuleType::*;
    if matches!(v, ChannelValue::Disabled) {
        return true;
    }
    match (t, v) {
        (UR20_4DO_P | UR20_4DO_P_2A | UR20_8DO_P | UR20_16DO_P | UR20_4RO_CO_255, ChannelValue::Bit(_)) => true,
        (UR20_4AO_UI_16 | UR20_4AO_UI_16_DIAG, ChannelValue::Decimal32(_)) => true,
        (UR20_2FCNT_100, ChannelValue::FcntOut(o)) => o.duration <= std::time::Duration::new(8, 388_607_000),
        _ => false,
    }
}
fn bytes(t: &ModuleType, words: usize) -> usize {
    use ModuleType::*;
    match t {
        UR20_4DI_P | UR20_8DI_P_2W | UR20_4DO_P | UR20_4DO_P_2A | UR20_8DO_P | UR20_4RO_CO_255 => {
            if words == 0 {
                0
            } else {
                1
            }
        }
        _ => 2 * words,
    }
}

macro_rules! shapes {
    ($n:ident, $t:ty, $id:ident, $p:expr, $c:expr, $i:expr, $o:expr) => {
        pub mod $n {
            use super::*;
            type M = $t;
            fn module() -> M {
                let d: [u16; $p] = any("params");
                match M::from_modbus_parameter_data(&d) {
                    Ok(m) => m,
                    Err(_) => stop(),
                }
            }
            fn check_input(m: M) {
                let t = ModuleType::$id;
                require(m.process_input_byte_count() == bytes(&t, $i), "declared number of input bytes");
                let d: [u16; 20] = any("window");
                let w = prefix(&d, "window.len");
                match m.process_input_data(w) {
                    Ok(v) => {
                        require(w.len() == $i, "an input window of another length is rejected");
                        require(v.len() == $c, "one input value per channel");
                        require(v.len() == t.channel_count(), "as many input values as the type has channels");
                        for x in v.iter() {
                            require(is_input_kind(&t, x), "input values are of the kind of the module");
                        }
                    }
                    Err(_) => require(w.len() != $i, "an input window of the declared length is accepted"),
                }
            }
            fn check_output(m: M) {
                let t = ModuleType::$id;
                require(m.process_output_byte_count() == bytes(&t, $o), "declared number of output bytes");
                let d: [u16; 20] = any("window");
                let w = prefix(&d, "window.len");
                match m.process_output_data(w) {
                    Ok(v) => {
                        require(w.len() == $o, "an output window of another length is rejected");
                        require(v.len() == $c, "one output value per channel");
                        require(v.len() == t.channel_count(), "as many output values as the type has channels");
                        for x in v.iter() {
                            require(is_output_kind(&t, x), "output values are of the kind of the module");
                        }
                    }
                    Err(_) => require(w.len() != $o, "an output window of the declared length is accepted"),
                }
            }
            fn check_encode(m: M) {
                let t = ModuleType::$id;
                let v = any_values(18, 2);
                let v = prefix(&v, "values.len");
                let r = m.process_output_values(v);
                if $o == 0 {
                    match r {
                        Ok(w) => {
                            require(w.is_empty(), "a module without outputs writes nothing");
                            require(v.is_empty() || v.len() == $c, "a value list of another length is rejected");
                        }
                        Err(_) => require(v.len() != $c, "a value list of the declared length is accepted"),
                    }
                } else {
                    let mut ok = v.len() == $c;
                    for x in v.iter() {
                        ok = ok && writable(&t, x);
                    }
                    match r {
                        Ok(w) => {
                            require(v.len() == $c, "a value list of another length is rejected");
                            require(ok, "values the module cannot write are rejected");
                            require(w.len() == $o, "exactly the declared output is written");
                        }
                        Err(_) => require(!ok, "a writable value list of the declared length is accepted"),
                    }
                }
            }
            pub fn input() {
                check_input(module());
            }
            pub fn output() {
                check_output(module());
            }
            pub fn encode() {
                check_encode(module());
            }
            /// windows and lists of values of any length
            pub fn long_input() {
                let w = long_window();
                let n = any_length(w.len());
                require(module().process_input_data(&w[..n]).is_ok() == (n == $i), "an input window of another length is rejected");
            }
            pub fn long_output() {
                let w = long_window();
                let n = any_length(w.len());
                require(module().process_output_data(&w[..n]).is_ok() == (n == $o), "an output window of another length is rejected");
            }
            pub fn long_encode() {
                let mut v = any_values($c, 2);
                let last = v[$c - 1].clone();
                for _ in 0..1024 {
                    v.push(last.clone());
                }
                let n = any_length(v.len());
                assume(n != $c);
                if $o == 0 && n == 0 {
                    return;
                }
                require(module().process_output_values(&v[..n]).is_err(), "a value list of another length is rejected");
            }
            pub fn default_input() {
                check_input(M::default());
            }
            pub fn default_output() {
                check_output(M::default());
            }
            pub fn default_encode() {
                check_encode(M::default());
            }
        }
    };
}
all_modules!(shapes);

/// the serial module: one channel, fixed output frame
pub fn com_shape() {
    let d: [u16; 10] = any("params");
    let m = match Com::from_modbus_parameter_data(&d) {
        Ok(m) => m,
        Err(_) => stop(),
    };
    let n: usize = if d[0] == 0 { 8 } else { 16 };
    require(m.process_input_byte_count() == n, "input bytes of the configured frame");
    require(m.process_output_byte_count() == n, "output bytes of the configured frame");
    let w: [u16; 8] = any("frame");
    let w = &w[..n / 2];
    if let Ok(v) = m.process_input_data(w) {
        require(v.len() == 1 && matches!(v[0], ChannelValue::ComRsIn(_)), "one serial input value");
    }
    if let Ok(v) = m.process_output_data(w) {
        require(v.len() == 1 && matches!(v[0], ChannelValue::ComRsOut(_)), "one serial output value");
    }
}
pub fn com_encode() {
    let d: [u16; 10] = any("params");
    let m = match Com::from_modbus_parameter_data(&d) {
        Ok(m) => m,
        Err(_) => stop(),
    };
    let n: usize = if d[0] == 0 { 8 } else { 16 };
    let v = any_values(3, 3);
    let v = prefix(&v, "values.len");
    if let Ok(r) = m.process_output_values(v) {
        require(v.len() == 1, "a value list of another length is rejected");
        require(matches!(v[0], ChannelValue::ComRsOut(_)), "only a serial output message is accepted");
        require(2 * r.len() == n, "exactly the configured frame is written");
    }
}
