//! Shared by C12 to C14: a message processor, its device and the expected streams.
pub use super::util::*;
use crate::rt::*;
pub use std::io::{Read, Write};
pub use ur20::ur20_1com_232_485_422::{MessageProcessor, ProcessDataLength};

pub fn frame_length(k: usize) -> (ProcessDataLength, usize) {
    if k == 0 {
        (ProcessDataLength::EightBytes, 6)
    } else {
        (ProcessDataLength::SixteenBytes, 14)
    }
}
pub fn counter(name: &'static str) -> usize {
    let c: u8 = any(name);
    (c & 3) as usize
}
/// any input frame of the device
pub fn any_input(max: usize) -> ComIn {
    let mut i = any_com_in(max);
    i.rx_cnt = counter("rx_cnt");
    i.tx_cnt_ack = counter("tx_cnt_ack");
    i
}
/// any output frame in the process image
pub fn any_output(max: usize) -> ComOut {
    let mut o = any_com_out(max);
    o.tx_cnt = counter("tx_cnt");
    o.rx_cnt_ack = counter("rx_cnt_ack");
    o
}
pub fn no_data() -> ComIn {
    ComIn { ready: true, ..ComIn::default() }
}
/// a processor after its two initialisation frames, and the output image
pub fn initialised(l: ProcessDataLength, user: usize) -> (MessageProcessor, ComOut) {
    let mut p = MessageProcessor::new(l);
    let o = p.next(&no_data(), &any_output(user));
    let o = p.next(&no_data(), &o);
    (p, o)
}
pub fn fixed_bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        let b: u8 = any("byte");
        v.push(b);
    }
    v
}
pub fn put(p: &mut dyn Write, b: &[u8]) {
    match p.write(b) {
        Ok(n) => require(n == b.len(), "all bytes are taken over"),
        Err(_) => require(false, "writing succeeds"),
    }
}
/// what was written, and how much of it the device has been given
pub struct Stream {
    pub all: Vec<u8>,
    pub sent: usize,
}
impl Stream {
    pub fn new() -> Stream {
        Stream { all: Vec::new(), sent: 0 }
    }
    pub fn pending(&self) -> bool {
        self.sent < self.all.len()
    }
    /// the frame `new` follows the frame `old`, which the device has acknowledged or not
    pub fn step(&mut self, user: usize, acked: bool, old: &ComOut, new: &ComOut, rx_cnt: usize) {
        if acked && self.pending() {
            require(new.tx_cnt == (old.tx_cnt + 1) % 4, "a new frame has the next sequence number");
            let n = new.data.len();
            require(n > 0, "a new frame carries data");
            require(n <= user, "a frame carries at most the configured user data length");
            require(n <= self.all.len() - self.sent, "nothing but the written bytes is sent");
            for i in 0..user {
                if i < n && i < self.all.len() - self.sent {
                    require(new.data[i] == self.all[self.sent + i], "the written bytes are sent in order");
                }
            }
            self.sent = self.sent + n;
            require(
                new.reset == old.reset && new.rx_buf_flush == old.rx_buf_flush && new.tx_buf_flush == old.tx_buf_flush,
                "the control flags stay as they are",
            );
        } else {
            let mut same = old.clone();
            same.rx_cnt_ack = rx_cnt;
            let mut n = new.clone();
            n.rx_cnt_ack = rx_cnt;
            require(n == same, "the frame stays unchanged until it is acknowledged");
        }
    }
}
/// a coupler with one serial module, which owns the whole process image
pub fn serial_coupler(k: usize) -> Coupler {
    let cfg = CouplerConfig {
        modules: vec![ModuleType::UR20_1COM_232_485_422],
        offsets: vec![0x8000, 0x0000],
        params: vec![vec![k as u16, 1, 5, 0, 0, 0, 1, 0, 17, 19]],
    };
    match Coupler::new(&cfg) {
        Ok(c) => c,
        Err(_) => {
            require(false, "a valid configuration is accepted");
            stop()
        }
    }
}
pub fn words_of(b: &[u8]) -> Vec<u16> {
    let mut w = Vec::new();
    for i in 0..b.len() / 2 {
        w.push(b[2 * i] as u16 + 256 * b[2 * i + 1] as u16);
    }
    w
}
pub fn bytes_of(w: &[u16]) -> Vec<u8> {
    let mut b = Vec::new();
    for x in w {
        b.push((*x % 256) as u8);
        b.push((*x / 256) as u8);
    }
    b
}
/// the register image of an input frame
pub fn image_in(i: &ComIn, user: usize) -> Vec<u16> {
    let mut b = vec![0u8; user + 2];
    b[0] = (i.data_available as u8)
        + 2 * (i.buffer_nearly_full as u8)
        + 8 * (i.rx_cnt as u8)
        + 32 * (i.tx_cnt_ack as u8)
        + 128 * (i.ready as u8);
    b[1] = i.data.len() as u8;
    for k in 0..user {
        if k < i.data.len() {
            b[2 + k] = i.data[k];
        }
    }
    words_of(&b)
}
/// the output frame in a register image
pub fn frame_out(w: &[u16]) -> ComOut {
    let b = bytes_of(w);
    let mut data = Vec::new();
    for k in 2..b.len() {
        if k - 2 < b[1] as usize {
            data.push(b[k]);
        }
    }
    ComOut {
        rx_buf_flush: b[0] % 2 == 1,
        tx_buf_flush: (b[0] / 2) % 2 == 1,
        disable_tx_hw_buffer: (b[0] / 4) % 2 == 1,
        tx_cnt: ((b[0] / 8) % 4) as usize,
        rx_cnt_ack: ((b[0] / 32) % 4) as usize,
        reset: b[0] / 128 == 1,
        data,
    }
}
pub fn image_out(o: &ComOut, user: usize) -> Vec<u16> {
    let mut b = vec![0u8; user + 2];
    b[0] = (o.rx_buf_flush as u8)
        + 2 * (o.tx_buf_flush as u8)
        + 4 * (o.disable_tx_hw_buffer as u8)
        + 8 * (o.tx_cnt as u8)
        + 32 * (o.rx_cnt_ack as u8)
        + 128 * (o.reset as u8);
    b[1] = o.data.len() as u8;
    for k in 0..user {
        if k < o.data.len() {
            b[2 + k] = o.data[k];
        }
    }
    words_of(&b)
}
pub fn cycle_ok(c: &mut Coupler, i: &[u16], o: &[u16]) -> Vec<u16> {
    match c.next(i, o) {
        Ok(w) => w,
        Err(_) => {
            require(false, "a cycle with complete images succeeds");
            stop()
        }
    }
}
pub fn com_writer(c: &mut Coupler, m: usize, b: &[u8]) {
    match c.writer(m) {
        Some(w) => put(w, b),
        None => require(false, "a serial module has a writer"),
    }
}
