//! C11: serial frames are encoded and decoded exactly.
use super::util::*;
use crate::rt::*;
use ur20::ur20_1com_232_485_422::ProcessDataLength;

fn bit(b: u8, i: u32) -> bool {
    (b / (1u8 << i)) % 2 == 1
}
fn two_bits(b: u8, i: u32) -> usize {
    (if bit(b, i) { 1 } else { 0 }) + (if bit(b, i + 1) { 2 } else { 0 })
}
fn lengths(k: usize) -> (ProcessDataLength, usize) {
    if k == 0 {
        (ProcessDataLength::EightBytes, 6)
    } else {
        (ProcessDataLength::SixteenBytes, 14)
    }
}
fn malformed(b: &[u8]) -> bool {
    b.len() < 2 || b.len() < 2 + b[1] as usize
}
fn same_data(data: &[u8], frame: &[u8], max: usize) {
    require(data.len() == frame[1] as usize, "the length byte delimits the user data");
    for i in 0..max {
        if i < data.len() {
            require(data[i] == frame[2 + i], "user data follow the length byte");
        }
    }
}
fn check_in(b: &[u8], r: Result<ComIn, Error>, max: usize) {
    match r {
        Ok(m) => {
            require(!malformed(b), "a frame shorter than announced is rejected");
            require(m.data_available == bit(b[0], 0), "'data available' is bit 0");
            require(m.buffer_nearly_full == bit(b[0], 1), "'buffer nearly full' is bit 1");
            require(m.rx_cnt == two_bits(b[0], 3), "the receive counter is bits 3 and 4");
            require(m.tx_cnt_ack == two_bits(b[0], 5), "the transmit acknowledge is bits 5 and 6");
            require(m.ready == bit(b[0], 7), "'ready' is bit 7");
            same_data(&m.data, b, max);
        }
        Err(_) => require(malformed(b), "a complete frame is accepted"),
    }
}
fn check_out(b: &[u8], r: Result<ComOut, Error>, max: usize) {
    match r {
        Ok(m) => {
            require(!malformed(b), "a frame shorter than announced is rejected");
            require(m.rx_buf_flush == bit(b[0], 0), "'clear receive buffer' is bit 0");
            require(m.tx_buf_flush == bit(b[0], 1), "'clear transmit buffer' is bit 1");
            require(m.disable_tx_hw_buffer == bit(b[0], 2), "'disable hardware buffer' is bit 2");
            require(m.tx_cnt == two_bits(b[0], 3), "the transmit counter is bits 3 and 4");
            require(m.rx_cnt_ack == two_bits(b[0], 5), "the receive acknowledge is bits 5 and 6");
            require(m.reset == bit(b[0], 7), "'reset' is bit 7");
            same_data(&m.data, b, max);
        }
        Err(_) => require(malformed(b), "a complete frame is accepted"),
    }
}
pub fn decode_input() {
    let b: [u8; 24] = any("bytes");
    let b = prefix(&b, "length");
    check_in(b, ComIn::try_from_byte_message(b), 22);
}
pub fn decode_output() {
    let b: [u8; 24] = any("bytes");
    let b = prefix(&b, "length");
    check_out(b, ComOut::try_from_byte_message(b), 22);
}
/// buffers longer than any frame
pub fn decode_long() {
    let n = if part(2) == 0 { 200 } else { 257 };
    let l: u8 = any("announced");
    let s: u8 = any("status");
    let mut b = vec![7u8; n];
    b[0] = s;
    b[1] = l;
    match (ComIn::try_from_byte_message(&b), ComOut::try_from_byte_message(&b)) {
        (Ok(i), Ok(o)) => {
            require(l as usize + 2 <= n, "a frame shorter than announced is rejected");
            require(i.data.len() == l as usize, "the length byte delimits the user data");
            require(o.data.len() == l as usize, "the length byte delimits the user data");
        }
        (Err(_), Err(_)) => require(l as usize + 2 > n, "a complete frame is accepted"),
        _ => require(false, "input and output frames have the same shape"),
    }
}
fn rejected(m: &ComOut, user: usize) -> bool {
    m.tx_cnt > 3 || m.rx_cnt_ack > 3 || m.data.len() > user
}
fn check_frame(m: &ComOut, f: &[u8], user: usize) {
    require(f.len() == user + 2, "a frame has the configured length");
    require(bit(f[0], 0) == m.rx_buf_flush, "'clear receive buffer' is bit 0");
    require(bit(f[0], 1) == m.tx_buf_flush, "'clear transmit buffer' is bit 1");
    require(bit(f[0], 2) == m.disable_tx_hw_buffer, "'disable hardware buffer' is bit 2");
    require(two_bits(f[0], 3) == m.tx_cnt, "the transmit counter is bits 3 and 4");
    require(two_bits(f[0], 5) == m.rx_cnt_ack, "the receive acknowledge is bits 5 and 6");
    require(bit(f[0], 7) == m.reset, "'reset' is bit 7");
    same_data(&m.data, f, user);
}
pub fn encode() {
    let (l, user) = lengths(part(2));
    let m = any_com_out(user + 4);
    match m.try_into_byte_message(&l) {
        Ok(f) => {
            require(!rejected(&m, user), "wrong counters and too long data are rejected");
            check_frame(&m, &f, user);
        }
        Err(_) => require(rejected(&m, user), "a representable message is accepted"),
    }
}
pub fn round_trip() {
    let (l, user) = lengths(part(2));
    let m = any_com_out(user);
    match m.try_into_byte_message(&l) {
        Ok(f) => match ComOut::try_from_byte_message(&f) {
            Ok(b) => require(b == m, "decoding an encoded message yields the message"),
            Err(_) => require(false, "an encoded message can be decoded"),
        },
        Err(_) => assume(rejected(&m, user)),
    }
}
/// long user data are rejected, whatever the length
pub fn too_long() {
    let (l, user) = lengths(part(2));
    let n: u16 = any("length");
    assume(n as usize > user && n <= 300);
    let mut m = any_com_out(0);
    m.data = vec![1; n as usize];
    require(m.try_into_byte_message(&l).is_err(), "too long data are rejected");
}
fn module(k: usize) -> (Com, usize) {
    let mut d: [u16; 10] = any("params");
    d[0] = k as u16;
    match Com::from_modbus_parameter_data(&d) {
        Ok(m) => (m, lengths(k).1),
        Err(_) => stop(),
    }
}
fn bytes(w: &[u16]) -> Vec<u8> {
    let mut b = Vec::new();
    for x in w {
        b.push((*x % 256) as u8);
        b.push((*x / 256) as u8);
    }
    b
}
pub fn module_input() {
    let (m, user) = module(part(2));
    let w: [u16; 8] = any("window");
    let w = &w[..(user + 2) / 2];
    let b = bytes(w);
    match m.process_input_data(w) {
        Ok(v) => {
            require(v.len() == 1, "one channel");
            match &v[0] {
                ChannelValue::ComRsIn(x) => check_in(&b, Ok(x.clone()), user),
                _ => require(false, "a serial value"),
            }
        }
        Err(e) => check_in(&b, Err(e), user),
    }
}
pub fn module_output() {
    let (m, user) = module(part(2));
    let w: [u16; 8] = any("window");
    let w = &w[..(user + 2) / 2];
    let b = bytes(w);
    match m.process_output_data(w) {
        Ok(v) => {
            require(v.len() == 1, "one channel");
            match &v[0] {
                ChannelValue::ComRsOut(x) => check_out(&b, Ok(x.clone()), user),
                _ => require(false, "a serial value"),
            }
        }
        Err(e) => check_out(&b, Err(e), user),
    }
}
pub fn module_write() {
    let (m, user) = module(part(2));
    let o = any_com_out(user + 4);
    match m.process_output_values(&[ChannelValue::ComRsOut(o.clone())]) {
        Ok(w) => {
            require(!rejected(&o, user), "wrong counters and too long data are rejected");
            check_frame(&o, &bytes(&w), user);
        }
        Err(_) => require(rejected(&o, user), "a representable message is accepted"),
    }
}
