//! C28: every call comes back.  Each loop of the library that is reached is an obligation:
//! no input may lead to the same state of the loop again.
use super::line::*;
use super::serial::{any_input, any_output, frame_length, initialised, MessageProcessor, Read, Write};
use crate::rt::*;
use std::str::FromStr;

macro_rules! calls {
    ($n:ident, $t:ty, $id:ident, $p:expr, $c:expr, $i:expr, $o:expr) => {
        pub fn $n() {
            let d: [u16; $p + 4] = any("params");
            let m = match <$t>::from_modbus_parameter_data(prefix(&d, "params.len")) {
                Ok(m) => m,
                Err(_) => <$t>::default(),
            };
            let w: [u16; 20] = any("window");
            let w = prefix(&w, "window.len");
            let _ = m.process_input_data(w);
            let _ = m.process_output_data(w);
            let v = any_values(9, 3);
            let _ = m.process_output_values(prefix(&v, "values.len"));
        }
    };
}
all_modules!(calls);
calls! { com, Com, UR20_1COM_232_485_422, 10, 1, 8, 8 }

pub fn names() {
    let n = part(27);
    let b: [u8; 26] = any("name");
    for c in b.iter() {
        assume(*c < 128);
    }
    let s: &str = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    let _ = ModuleType::from_str(s);
    let _ = ModuleCategory::from_str(s);
}
pub fn registers() {
    let w: [u16; 12] = any("registers");
    let w = &w[..part(13)];
    let _ = module_list_from_registers(w);
    let _ = offsets_of_process_data(w);
}
pub fn addresses() {
    let (r, b) = to_register_address(any("address"));
    let _ = to_bit_address(r, b);
    let mut l = Vec::new();
    for k in 0..SUPPORTED {
        l.push(supported(k));
    }
    let _ = param_addresses_and_register_counts(&l);
}
pub fn messages() {
    let b: [u8; 20] = any("message");
    let b = prefix(&b, "message.len");
    let _ = ComIn::try_from_byte_message(b);
    let _ = ComOut::try_from_byte_message(b);
    let (l, _) = frame_length(part(2));
    let _ = any_com_out(20).try_into_byte_message(&l);
}
/// any amount of data, any buffers, empty ones too; reading in a loop reaches the end
pub fn reading() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut most = 1;
    for _ in 0..3 {
        let i = any_input(3);
        o = p.next(&i, &o);
        most += i.data.len();
        let mut b = [0u8; 4];
        let n = length(4, "read size");
        let _ = p.read(&mut b[..n]);
    }
    let mut b = [0u8; 2];
    let n = 1 + length(1, "read size");
    let mut calls = 0;
    while calls < 12 {
        match p.read(&mut b[..n]) {
            Ok(0) => break,
            Ok(_) => calls += 1,
            Err(_) => {
                require(false, "reading succeeds");
                stop()
            }
        }
    }
    require(calls < most, "reading in a loop reaches the end");
}
/// writing everything, also nothing, and flushing; a device that never answers
pub fn writing() {
    let (l, user) = frame_length(part(2));
    let mut p = MessageProcessor::new(l);
    let mut o = any_output(user);
    for _ in 0..4 {
        let b = any_bytes(user + 2);
        require(p.write_all(&b).is_ok(), "writing succeeds");
        require(p.flush().is_ok(), "flushing succeeds");
        let i = any_input(2);
        o = p.next(&i, &o);
    }
}
/// thousands of frames for a device that never answers, and received bytes nobody reads
pub fn much() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let first: u8 = any("first byte");
    let mut b = vec![first; 12000];
    for n in [12000, 1, 0, 6000, 2000] {
        b.truncate(n);
        require(p.write_all(&b).is_ok(), "writing succeeds");
        require(p.flush().is_ok(), "flushing succeeds");
        b.resize(12000, first);
        let i = ComIn { tx_cnt_ack: (o.tx_cnt + 3) % 4, ..ComIn::default() };
        o = p.next(&i, &o);
    }
    for c in 0..1000usize {
        let i = ComIn {
            data_available: true,
            rx_cnt: c % 4,
            tx_cnt_ack: (o.tx_cnt + 3) % 4,
            data: vec![(c % 256) as u8; user],
            ..ComIn::default()
        };
        o = p.next(&i, &o);
    }
    let mut r = [0u8; 100];
    let mut got = 0;
    let mut calls = 0;
    while calls < 6000 {
        match p.read(&mut r) {
            Ok(0) => break,
            Ok(n) => got += n,
            Err(_) => {
                require(false, "reading succeeds");
                stop()
            }
        }
        calls += 1;
    }
    require(calls < 6000, "reading in a loop reaches the end");
    require(got >= 1000 * user, "everything received is read");
}
/// counters that no frame can hold, in inputs and outputs made by hand
pub fn counters() {
    const C: [usize; 7] = [4, 5, 7, 8, 63, 256, 65536];
    let k = part(C.len() * 2);
    let c = C[k / 2];
    let (l, user) = frame_length(k % 2);
    let (mut p, mut o) = initialised(l, user);
    for n in 0..4 {
        require(p.write_all(&any_bytes(user + 1)).is_ok(), "writing succeeds");
        let mut i = any_input(2);
        if n != 1 {
            i.tx_cnt_ack = c;
        }
        if n != 2 {
            i.rx_cnt = c;
        }
        if n == 3 {
            o.tx_cnt = c;
            o.rx_cnt_ack = c;
        }
        o = p.next(&i, &o);
        let mut r = [0u8; 3];
        require(p.read(&mut r).is_ok(), "reading succeeds");
    }
}
/// pending data of any length, in all states of the transmission
pub fn pending() {
    let mut l = line(&[ModuleType::UR20_4DO_P, ModuleType::UR20_1COM_232_485_422, WIDE]);
    for _ in 0..3 {
        for m in 1..3 {
            let a = Address { module: m, channel: 0 };
            let v = if any("data") { ChannelValue::Bytes(any_bytes(9)) } else { ChannelValue::Disabled };
            require(l.coupler.set_output(&a, v).is_ok(), "an existing channel is accepted");
        }
        let a = Address { module: 0, channel: 2 };
        require(l.coupler.set_output(&a, fitting(&l.types[0])).is_ok(), "an existing channel is accepted");
        let mut i = words(l.inputs, "input image");
        let mut o = words(l.outputs, "output image");
        for m in 1..3 {
            i[l.at[m].0 / 2] &= 0x03FF;
            o[l.at[m].1 / 2] &= 0x03FF;
        }
        let _ = l.coupler.next(&i, &o);
        if let Some(r) = l.coupler.reader(2) {
            let mut b = [0u8; 3];
            let n = length(3, "read size");
            let _ = r.read(&mut b[..n]);
        }
    }
}
/// any offsets and images of any length
pub fn cycles() {
    let k = part(3);
    let t = [
        [ModuleType::UR20_4DO_P, ModuleType::UR20_4AI_UI_16],
        [ModuleType::UR20_4AO_UI_16, ModuleType::UR20_8DI_P_2W],
        [ModuleType::UR20_16DO_P, ModuleType::UR20_PF_O_1DI_SIL],
    ];
    let t = &t[k];
    let w: [u16; 4] = any("offsets");
    let mut offsets = Vec::new();
    for (m, t) in t.iter().enumerate() {
        let (i, o) = byte_counts(t);
        // within the first registers, or none
        let (x, y) = (0x8000 + (w[2 * m] & 0x001F), w[2 * m + 1] & 0x001F);
        offsets.push(if o > 0 { x } else { 0xFFFF });
        offsets.push(if i > 0 { y } else { 0xFFFF });
    }
    let mut c = coupler(t, &offsets);
    let i: [u16; 6] = any("input image");
    let o: [u16; 6] = any("output image");
    let _ = c.next(prefix(&i, "input length"), prefix(&o, "output length"));
    let _ = c.next(&i, &o);
}
