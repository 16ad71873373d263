//! C32: memory does not grow with the number of cycles.
use super::plant::*;
use super::serial::{cycle_ok, fixed_bytes, frame_length, frame_out, image_in, image_out, initialised, put, serial_coupler, Read, Write};
use super::serial::MessageProcessor;
use crate::rt::*;

/// the most elements held in the first and in the second half of a run
struct Peak {
    half: usize,
    most: [usize; 2],
}
impl Peak {
    fn new(half: usize) -> Peak {
        Peak { half, most: [0; 2] }
    }
    fn note(&mut self, c: usize, n: usize) {
        let k = (c >= self.half) as usize;
        if n > self.most[k] {
            self.most[k] = n;
        }
    }
    fn end(&self) {
        require(
            self.most[1] <= self.most[0] + self.most[0] / 4 + 16,
            "twice as many cycles need no more memory",
        );
    }
}
fn half() -> usize {
    if thorough() { 2000 } else { 800 }
}
fn read_all(p: &mut dyn Read, n: usize) {
    let mut b = [0u8; 40];
    match p.read(&mut b[..n]) {
        Ok(k) => require(k <= n, "no more is read than asked for"),
        Err(_) => require(false, "reading succeeds"),
    }
}
/// what the device answers in cycle `c`
fn answer(c: usize, o: &ComOut, acked: bool, data: usize) -> ComIn {
    let b: u8 = any("received");
    ComIn {
        ready: true,
        data_available: data > 0,
        rx_cnt: c % 4,
        tx_cnt_ack: if acked { o.tx_cnt } else { (o.tx_cnt + 3) % 4 },
        data: vec![b; data],
        ..ComIn::default()
    }
}
/// small writes and segments, all of them sent, acknowledged and read at once
pub fn steady() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut m = Peak::new(half());
    for c in 0..2 * half() {
        put(&mut p, &fixed_bytes(1 + c % 3));
        o = p.next(&answer(c, &o, true, 1 + c % 4), &o);
        read_all(&mut p, 8);
        m.note(c, footprint(&p));
    }
    m.end();
}
/// bursts that take many cycles to be sent, acknowledged late, and are read byte by byte
pub fn bursts() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut m = Peak::new(half());
    for c in 0..2 * half() {
        if c % 50 == 0 {
            put(&mut p, &fixed_bytes(15 * user + 2));
        }
        let offered = if c % 50 < 20 { 2 } else { 0 };
        o = p.next(&answer(c, &o, c % 3 != 1, offered), &o);
        read_all(&mut p, 1);
        m.note(c, footprint(&p));
    }
    m.end();
}
/// a reader and a device that never catch up completely
pub fn backlog() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut m = Peak::new(half());
    put(&mut p, &fixed_bytes(2 * user));
    for c in 0..2 * half() {
        put(&mut p, &fixed_bytes(user));
        o = p.next(&answer(c, &o, true, 4), &o);
        if c > 0 {
            read_all(&mut p, 4);
        }
        m.note(c, footprint(&p));
    }
    m.end();
}
/// nothing is written; segments are repeated or announced without data
pub fn idle() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut m = Peak::new(half());
    for c in 0..2 * half() {
        // the same segment again and again, after the first it is none
        let i = match c % 2 {
            0 => answer(1, &o, true, 3),
            _ => answer(1, &o, false, 0),
        };
        o = p.next(&i, &o);
        put(&mut p, &[]);
        m.note(c, footprint(&p));
    }
    m.end();
}
/// a device that stays away; nothing is written or received
pub fn silent() {
    let (l, user) = frame_length(part(2));
    let mut p = MessageProcessor::new(l);
    let mut o = ComOut::default();
    let mut m = Peak::new(half());
    for c in 0..2 * half() {
        if c == 3 {
            put(&mut p, &fixed_bytes(3 * user));
        }
        o = p.next(&answer(0, &o, c < 4, 0), &o);
        m.note(c, footprint(&p));
    }
    m.end();
}
/// the same through the coupler, with the writer or pending data
fn coupled(pending: bool) {
    let k = part(2);
    let (_, user) = frame_length(k);
    let mut c = serial_coupler(k);
    let mut o = image_out(&ComOut::default(), user);
    let mut m = Peak::new(half() / 2);
    for n in 0..half() {
        let b = fixed_bytes(1 + n % 4);
        if pending {
            let a = Address { module: 0, channel: 0 };
            require(c.set_output(&a, ChannelValue::Bytes(b)).is_ok(), "a serial channel can be written");
        } else {
            match c.writer(0) {
                Some(w) => put(w, &b),
                None => require(false, "a serial module has a writer"),
            }
        }
        let old = frame_out(&o);
        o = cycle_ok(&mut c, &image_in(&answer(n, &old, true, 1 + n % 3), user), &o);
        match c.reader(0) {
            Some(r) => read_all(r, 8),
            None => require(false, "a serial module has a reader"),
        }
        m.note(n, footprint(&c));
    }
    m.end();
}
pub fn coupled_writer() {
    coupled(false);
}
pub fn coupled_pending() {
    coupled(true);
}
/// values are set in every cycle; some cycles are rejected, some values can't be encoded
pub fn outputs() {
    let types = vec![
        ModuleType::UR20_4DO_P,
        ModuleType::UR20_4AO_UI_16,
        ModuleType::UR20_8DI_P_2W,
        ModuleType::UR20_1COM_232_485_422,
        ModuleType::UR20_4AI_UI_16,
    ];
    let cfg = CouplerConfig {
        params: types.iter().map(|t| params_of(t)).collect(),
        modules: types,
        offsets: vec![0x8000, 0xFFFF, 0x8010, 0xFFFF, 0xFFFF, 0, 0x8050, 16, 0xFFFF, 80],
    };
    let mut c = match Coupler::new(&cfg) {
        Ok(c) => c,
        Err(_) => {
            require(false, "a valid configuration is accepted");
            stop()
        }
    };
    let mut o = vec![0u16; 13];
    let mut m = Peak::new(half() / 2);
    for n in 0..half() {
        let bit: bool = any("bit");
        let a = Address { module: 0, channel: n % 4 };
        require(c.set_output(&a, ChannelValue::Bit(bit)).is_ok(), "an output can be set");
        let a = Address { module: 1, channel: (n / 2) % 4 };
        let v = if n % 10 == 9 { ChannelValue::Bit(bit) } else { ChannelValue::Decimal32(1.5) };
        require(c.set_output(&a, v).is_ok(), "an output can be set");
        // values for channels that cannot be written
        let a = Address { module: 2, channel: n % 8 };
        require(c.set_output(&a, ChannelValue::Bit(bit)).is_ok(), "any channel can be addressed");
        let a = Address { module: 9, channel: n };
        require(c.set_output(&a, ChannelValue::Bit(bit)).is_err(), "a missing channel is rejected");
        let a = Address { module: 3, channel: 0 };
        require(c.set_output(&a, ChannelValue::Bit(bit)).is_ok(), "any channel can be addressed");
        let mut i = vec![0u16; 9];
        i[0] = n as u16;
        i[1] = 0x80 + 8 * (n % 4) as u16 + ((o[5] / 8) % 4) * 32;
        let short = n % 7 == 6;
        match c.next(if short { &i[..4] } else { &i }, &o) {
            Ok(w) => {
                require(!short, "a short image is rejected");
                require(w.len() == 9, "an image for all outputs");
                for k in 0..9 {
                    o[k] = w[k];
                }
            }
            // also for the value of the cycle before, if that one was rejected for its image
            Err(_) => {}
        }
        m.note(n, footprint(&c));
    }
    m.end();
}
