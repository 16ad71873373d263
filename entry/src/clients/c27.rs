//! C27: a rejection names its cause.
use super::line::*;
use super::serial::{counter, MessageProcessor, ProcessDataLength};
use crate::rt::*;
use std::str::FromStr;

fn kind<T>(r: Result<T, Error>, e: Error) {
    match r {
        Ok(_) => require(false, "the wrong input is rejected"),
        Err(x) => require(x == e, "the rejection names its cause"),
    }
}
fn kind_if_any<T>(r: Result<T, Error>, e: Error) {
    if let Err(x) = r {
        require(x == e, "the rejection names its cause");
    }
}

/// `short name, module, type, parameter registers, channels, input words, output words`
macro_rules! kinds {
    ($n:ident, $t:ty, $id:ident, $p:expr, $c:expr, $i:expr, $o:expr) => {
        pub mod $n {
            use super::*;
            type M = $t;
            fn valid() -> [u16; $p] {
                let d: [u16; $p] = any("params");
                assume(M::from_modbus_parameter_data(&d).is_ok());
                d
            }
            fn module() -> M {
                match M::from_modbus_parameter_data(&valid()) {
                    Ok(m) => m,
                    Err(_) => stop(),
                }
            }
            /// a valid block that is cut off
            pub fn short_parameters() {
                let d = valid();
                let n = length($p, "params.len");
                let r = M::from_modbus_parameter_data(&d[..n]);
                if n < $p {
                    kind(r, Error::BufferLength);
                }
            }
            /// one register of a valid block is replaced
            pub fn parameter_code() {
                if $p > 0 {
                    let k = part($p);
                    let d = valid();
                    let mut w = d.to_vec();
                    w[k] = any("code");
                    kind_if_any(M::from_modbus_parameter_data(&w), Error::ChannelParameter);
                }
            }
            pub fn window_length() {
                let m = module();
                let d: [u16; 20] = any("window");
                let w = prefix(&d, "window.len");
                kind_if_any(m.process_input_data(w), Error::BufferLength);
                kind_if_any(m.process_output_data(w), Error::BufferLength);
            }
            pub fn long_window_length() {
                let m = module();
                let w = long_window();
                let n = any_length(w.len());
                kind_if_any(m.process_input_data(&w[..n]), Error::BufferLength);
                kind_if_any(m.process_output_data(&w[..n]), Error::BufferLength);
            }
            pub fn values() {
                let m = module();
                let v = any_values(18, 2);
                kind_if_any(m.process_output_values(prefix(&v, "values.len")), Error::ChannelValue);
            }
        }
    };
}
all_modules!(kinds);

/// as many windows and values as there are channels, but another number of channel parameters
macro_rules! missing {
    ($n:ident, $t:ty, $id:ident, $p:expr, $c:expr, $i:expr, $o:expr) => {
        pub mod $n {
            use super::super::*;
            type M = $t;
            pub fn channel_parameters() {
                let n = part($c + 2);
                let d: [u16; $p] = any("params");
                let m = match M::from_modbus_parameter_data(&d) {
                    Ok(mut m) => {
                        if n > $c {
                            let x = m.ch_params[0].clone();
                            m.ch_params.push(x);
                        }
                        while m.ch_params.len() > n {
                            let _ = m.ch_params.pop();
                        }
                        m
                    }
                    Err(_) => stop(),
                };
                let w: [u16; 20] = any("window");
                kind_if_any(m.process_input_data(&w[..$i]), Error::ChannelParameter);
                kind_if_any(m.process_output_data(&w[..$o]), Error::ChannelParameter);
                let mut v = Vec::new();
                for _ in 0..$c {
                    v.push(fitting(&ModuleType::$id));
                }
                for x in &v {
                    if let ChannelValue::FcntOut(f) = x {
                        assume(f.duration.as_secs() < 8);
                    }
                }
                kind_if_any(m.process_output_values(&v), Error::ChannelParameter);
            }
        }
    };
}
mod missing {
    missing! { di4, ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>, UR20_4DI_P, 4, 4, 1, 0 }
    missing! { di8, ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>, UR20_8DI_P_2W, 8, 8, 1, 0 }
    missing! { do4, ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, UR20_4DO_P, 4, 4, 0, 1 }
    missing! { do8, ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, UR20_8DO_P, 8, 8, 0, 1 }
    missing! { ro4, ur20_4ro_co_255::Mod, UR20_4RO_CO_255, 4, 4, 0, 1 }
    missing! { ai16, ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, UR20_4AI_UI_16, 9, 4, 4, 0 }
    missing! { aidiag, ur20_4ai_ui_16_diag::Mod, UR20_4AI_UI_16_DIAG, 21, 4, 4, 0 }
    missing! { ai8, ur20_8ai_i_16_diag_hd::Mod, UR20_8AI_I_16_DIAG_HD, 33, 8, 8, 0 }
    missing! { rtd, ur20_4ai_rtd_diag::Mod, UR20_4AI_RTD_DIAG, 29, 4, 4, 0 }
    missing! { ao, ur20_4ao_ui_16::Mod, UR20_4AO_UI_16, 12, 4, 0, 4 }
    missing! { aodiag, ur20_4ao_ui_16_diag::Mod, UR20_4AO_UI_16_DIAG, 16, 4, 0, 4 }
    missing! { fcnt, ur20_2fcnt_100::Mod, UR20_2FCNT_100, 2, 2, 10, 6 }
}

/// identification codes, names and categories
pub fn codes() {
    kind_if_any(ModuleType::try_from_u32(any("id")), Error::UnknownModule);
}
pub fn names() {
    let n = part(27);
    let b: [u8; 26] = any("name");
    let b = &b[..n];
    for c in b.iter() {
        assume(*c < 128);
    }
    let s: &str = unsafe { std::str::from_utf8_unchecked(b) };
    kind_if_any(ModuleType::from_str(s), Error::UnknownModule);
    if n < 6 {
        kind_if_any(ModuleCategory::from_str(s), Error::UnknownCategory);
    }
}
pub fn module_list() {
    let w: [u16; 5] = any("registers");
    let n = part(6);
    let r = module_list_from_registers(&w[..n]);
    if n == 0 {
        kind(r, Error::RegisterCount);
    } else if n % 2 == 1 {
        let mut known = true;
        for k in 0..n / 2 {
            known = known && ModuleType::try_from_u32(65536 * w[2 * k] as u32 + w[2 * k + 1] as u32).is_ok();
        }
        assume(known);
        kind(r, Error::RegisterCount);
    } else {
        kind_if_any(r, Error::UnknownModule);
    }
}

/// serial frames
fn com(k: usize) -> Com {
    let mut d: [u16; 10] = any("params");
    d[0] = k as u16;
    match Com::from_modbus_parameter_data(&d) {
        Ok(m) => m,
        Err(_) => stop(),
    }
}
pub fn com_parameters() {
    let mut d: [u16; 10] = any("params");
    assume(Com::from_modbus_parameter_data(&d).is_ok());
    let k = part(11);
    if k == 10 {
        let n = length(9, "params.len");
        kind(Com::from_modbus_parameter_data(&d[..n]), Error::BufferLength);
    } else {
        d[k] = any("code");
        kind_if_any(Com::from_modbus_parameter_data(&d), Error::ChannelParameter);
    }
}
pub fn com_messages() {
    let b: [u8; 16] = any("message");
    let b = prefix(&b, "message.len");
    kind_if_any(ComIn::try_from_byte_message(b), Error::BufferLength);
    kind_if_any(ComOut::try_from_byte_message(b), Error::BufferLength);
}
pub fn com_windows() {
    let m = com(part(2));
    let w: [u16; 8] = any("window");
    let w = prefix(&w, "window.len");
    kind_if_any(m.process_input_data(w), Error::BufferLength);
    kind_if_any(m.process_output_data(w), Error::BufferLength);
}
fn message(max: usize) -> ComOut {
    let mut o = any_com_out(max);
    o.tx_cnt = counter("tx_cnt");
    o.rx_cnt_ack = counter("rx_cnt_ack");
    o
}
fn lengths(k: usize) -> (ProcessDataLength, usize) {
    super::serial::frame_length(k)
}
pub fn com_counters() {
    let k = part(2);
    let (l, user) = lengths(k);
    let mut o = message(user);
    let c: usize = any("counter");
    assume(c > 3);
    if any("which") {
        o.tx_cnt = c;
    } else {
        o.rx_cnt_ack = c;
    }
    kind(o.try_into_byte_message(&l), Error::SequenceNumber);
    kind(com(k).process_output_values(&[ChannelValue::ComRsOut(o)]), Error::SequenceNumber);
}
pub fn com_long_data() {
    let k = part(2);
    let (l, user) = lengths(k);
    let o = message(user + 3);
    assume(o.data.len() > user);
    kind(o.try_into_byte_message(&l), Error::DataLength);
}
pub fn com_values() {
    let m = com(part(2));
    let v = any_values(2, 2);
    let v = prefix(&v, "values.len");
    for x in v {
        if let ChannelValue::ComRsOut(o) = x {
            assume(o.tx_cnt < 4 && o.rx_cnt_ack < 4);
        }
    }
    kind_if_any(m.process_output_values(v), Error::ChannelValue);
}

/// configurations of the coupler
pub fn lists() {
    let types = [ModuleType::UR20_4DO_P, ModuleType::UR20_4AI_UI_16, ModuleType::UR20_1COM_232_485_422];
    let mut c = config(&types, &[0x8000, 0xFFFF, 0xFFFF, 0, 0x8010, 0x40]);
    match part(6) {
        0 => {
            c.params.pop();
            kind(Coupler::new(&c), Error::BufferLength);
        }
        1 => {
            c.params.push(vec![]);
            kind(Coupler::new(&c), Error::BufferLength);
        }
        2 => {
            let n = length(5, "offsets");
            c.offsets.truncate(n);
            kind(Coupler::new(&c), Error::ModuleOffset);
        }
        3 => {
            for _ in 0..1 + length(2, "more offsets") {
                c.offsets.push(any("offset"));
            }
            kind(Coupler::new(&c), Error::ModuleOffset);
        }
        4 => {
            let m = length(2, "module");
            let n = c.params[m].len();
            let k = length(n - 1, "params.len");
            c.params[m].truncate(k);
            kind(Coupler::new(&c), Error::BufferLength);
        }
        _ => {
            let m = length(2, "module");
            let k = length(3, "register");
            c.params[m][k] = any("code");
            kind_if_any(Coupler::new(&c), Error::ChannelParameter);
        }
    }
}
/// addresses of channels
pub fn addresses() {
    let mut c = coupler(
        &[ModuleType::UR20_4DO_P, ModuleType::UR20_4AI_UI_16, ModuleType::UR20_1COM_232_485_422],
        &[0x8000, 0xFFFF, 0xFFFF, 0, 0x8010, 0x40],
    );
    let k = part(4);
    let a = Address { module: any("module"), channel: any("channel") };
    assume(if k < 3 { a.module == k } else { a.module > 2 });
    let a = Address { module: if k < 3 { k } else { a.module }, channel: a.channel };
    kind_if_any(c.set_output(&a, any_value(2)), Error::Address);
}
/// images that do not contain the window of a module
pub fn short_images() {
    let mut l = line(&[ModuleType::UR20_4DO_P, ModuleType::UR20_4AI_UI_16, ModuleType::UR20_4AO_UI_16, ModuleType::UR20_8DI_P_2W]);
    let i = words(l.inputs, "input image");
    let o = words(l.outputs, "output image");
    if part(2) == 0 {
        kind_if_any(l.coupler.next(prefix(&i, "input length"), &o), Error::BufferLength);
    } else {
        kind_if_any(l.coupler.next(&i, prefix(&o, "output length")), Error::BufferLength);
    }
}
/// a frame that announces more data than its window holds
pub fn malformed_frames() {
    let t = if part(2) == 0 { ModuleType::UR20_1COM_232_485_422 } else { WIDE };
    let mut l = line(&[ModuleType::UR20_4DO_P, t, ModuleType::UR20_4AI_UI_16]);
    let i = words(l.inputs, "input image");
    let o = words(l.outputs, "output image");
    kind_if_any(l.coupler.next(&i, &o), Error::BufferLength);
}
/// a pending value of a kind the module cannot write
pub fn foreign_values() {
    let mut l = line(&[ModuleType::UR20_4DO_P, ModuleType::UR20_4AO_UI_16, ModuleType::UR20_2FCNT_100]);
    let m = part(3);
    let a = Address { module: m, channel: if m == 2 { 1 } else { 3 } };
    require(l.coupler.set_output(&a, any_value(2)).is_ok(), "an existing channel is accepted");
    let i = words(l.inputs, "input image");
    let mut o = words(l.outputs, "output image");
    // durations that can be written back
    let at = l.at[2].1 / 2;
    o[at] &= 0x007F;
    o[at + 2] &= 0x007F;
    kind_if_any(l.coupler.next(&i, &o), Error::ChannelValue);
}
/// windows at any offset: rejected as a whole because of the offset if the image is long enough
pub fn offsets() {
    let types = [ModuleType::UR20_4DO_P, ModuleType::UR20_4AI_UI_16, ModuleType::UR20_16DO_P, ModuleType::UR20_8DI_P_2W];
    let t = &types[part(4)];
    let m = enabled(t);
    let a: u16 = any("offset");
    assume(a % 0x8000 < 16 * 4);
    let w: [u16; 8] = any("image");
    if byte_counts(t).0 > 0 {
        assume(a < 0x8000);
        let at = ModuleOffset { input: Some(a), output: None };
        kind_if_any(process_input_data(&[(&*m, &at)], &w), Error::ModuleOffset);
    } else {
        let at = ModuleOffset { input: None, output: Some(a) };
        kind_if_any(process_output_data(&[(&*m, &at)], &w), Error::ModuleOffset);
        let mut v = Vec::new();
        for _ in 0..t.channel_count() {
            v.push(fitting(t));
        }
        kind_if_any(process_output_values(&[(&*m, &at)], &[v]), Error::ModuleOffset);
    }
}
/// layouts of two and three modules with gaps, overlaps or unrepresentable offsets
pub fn layouts() {
    let types = [ModuleType::UR20_4DO_P, ModuleType::UR20_8DO_P, ModuleType::UR20_16DO_P];
    let a = part(3);
    let (m, n, k) = (enabled(&types[a]), enabled(&types[(a + 1) % 3]), enabled(&types[(a + 2) % 3]));
    let x = ModuleOffset { input: None, output: Some(any("first")) };
    let y = ModuleOffset { input: None, output: Some(any("second")) };
    let z = ModuleOffset { input: None, output: Some(any("third")) };
    let mut v = Vec::new();
    for q in 0..3 {
        let mut w = Vec::new();
        let t = &types[(a + q) % 3];
        for _ in 0..t.channel_count() {
            w.push(fitting(t));
        }
        v.push(w);
    }
    kind_if_any(process_output_values(&[(&*m, &x), (&*n, &y), (&*k, &z)], &v), Error::ModuleOffset);
}
/// lists of values that do not belong to the list of modules
pub fn value_lists() {
    let m = enabled(&ModuleType::UR20_4DO_P);
    let x = ModuleOffset { input: None, output: Some(0x8000) };
    let y = ModuleOffset { input: None, output: Some(0x8008) };
    let v = vec![any_values(4, 2), any_values(4, 2), any_values(4, 2)];
    for w in &v {
        for c in w {
            assume(matches!(c, ChannelValue::Bit(_) | ChannelValue::Disabled));
        }
    }
    let r = process_output_values(&[(&*m, &x), (&*m, &y)], prefix(&v, "lists"));
    kind_if_any(r, Error::ChannelValue);
}
/// the streams of a serial module are never refused
pub fn streams() {
    let (l, _) = lengths(part(2));
    let mut p = MessageProcessor::new(l);
    let b = any_bytes(20);
    require(std::io::Write::write(&mut p, &b).is_ok(), "writing succeeds");
    require(std::io::Write::flush(&mut p).is_ok(), "flushing succeeds");
}
