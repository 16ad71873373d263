//! C13: the serial receive stream is taken over exactly once, in order, and acknowledged.
use super::serial::*;
use crate::rt::*;

/// what the device has offered, and how much of it was read
struct Received {
    all: Vec<u8>,
    read: usize,
    last: Option<usize>,
}
impl Received {
    fn new() -> Received {
        Received { all: Vec::new(), read: 0, last: None }
    }
    fn frame(&mut self, i: &ComIn) {
        if i.data_available && self.last != Some(i.rx_cnt) {
            self.all.extend_from_slice(&i.data);
            self.last = Some(i.rx_cnt);
        }
    }
    fn read(&mut self, p: &mut dyn Read, b: &mut [u8], max: usize) {
        let left = self.all.len() - self.read;
        match p.read(b) {
            Ok(n) => {
                require(n <= b.len(), "at most as many bytes as asked for");
                require(n == if left < b.len() { left } else { b.len() }, "all received bytes can be read");
                for k in 0..max {
                    if k < n && k < left {
                        require(b[k] == self.all[self.read + k], "the received bytes are read in order, each once");
                    }
                }
                self.read = self.read + n;
            }
            Err(_) => require(false, "reading succeeds"),
        }
    }
}
fn cycle(p: &mut MessageProcessor, r: &mut Received, data: usize, o: &ComOut) -> ComOut {
    let i = any_input(data);
    let n = p.next(&i, o);
    require(n.rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
    r.frame(&i);
    n
}
fn start(user: usize, l: ProcessDataLength) -> (MessageProcessor, ComOut) {
    let mut p = MessageProcessor::new(l);
    let i = any_input(2);
    let o = p.next(&i, &any_output(user));
    require(o.rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
    let i = any_input(2);
    let o = p.next(&i, &o);
    require(o.rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
    (p, o)
}
/// several frames, read at the end
pub fn frames() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = start(user, l);
    let mut r = Received::new();
    let n = if thorough() { 7 } else { 5 };
    for _ in 0..n {
        o = cycle(&mut p, &mut r, 2, &o);
    }
    let mut b = [0u8; 16];
    r.read(&mut p, &mut b, 16);
    r.read(&mut p, &mut b, 0);
}
/// frames of full length
pub fn full_frames() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = start(user, l);
    let mut r = Received::new();
    o = cycle(&mut p, &mut r, user, &o);
    let _ = cycle(&mut p, &mut r, if thorough() { user } else { 5 }, &o);
    let mut b = [0u8; 30];
    r.read(&mut p, &mut b, 30);
}
/// reads of any size between the frames
pub fn reads() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = start(user, l);
    let mut r = Received::new();
    let n = if thorough() { 4 } else { 3 };
    for _ in 0..n {
        o = cycle(&mut p, &mut r, 2, &o);
        let mut b = [0u8; 4];
        let k: u8 = any("read size");
        assume(k <= 4);
        r.read(&mut p, &mut b[..k as usize], 4);
    }
}
/// received while transmitting
pub fn both_directions() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = start(user, l);
    let mut r = Received::new();
    for c in 0..4 {
        if c < 3 {
            put(&mut p, &fixed_bytes(user + 1));
        }
        o = cycle(&mut p, &mut r, 2, &o);
    }
    let mut b = [0u8; 10];
    r.read(&mut p, &mut b, 10);
}
/// many frames with repetitions
pub fn long() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = start(user, l);
    let mut r = Received::new();
    let mut x = 0u8;
    for c in 0..20usize {
        let mut i = no_data();
        // every frame is shown twice, some without data
        i.data_available = c % 5 != 4;
        i.rx_cnt = (c / 2 + 3) % 4;
        for _ in 0..(c / 2) % user {
            i.data.push(x);
            x = x.wrapping_add(1);
        }
        let n = p.next(&i, &o);
        require(n.rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
        r.frame(&i);
        o = n;
        if c % 3 == 0 {
            let mut b = [0u8; 3];
            r.read(&mut p, &mut b, 3);
        }
    }
    let mut b = [0u8; 100];
    r.read(&mut p, &mut b, 100);
}
/// hundreds of full frames that nobody reads, then all at once
pub fn backlog() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = start(user, l);
    let mut r = Received::new();
    for c in 0..1000usize {
        let mut i = no_data();
        i.data_available = true;
        // every third frame is shown twice
        i.rx_cnt = (c - c / 3 + 1) % 4;
        for k in 0..user {
            i.data.push(((c + k) % 251) as u8);
        }
        let b: u8 = any("byte");
        i.data[user - 1] = b;
        let n = p.next(&i, &o);
        require(n.rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
        r.frame(&i);
        o = n;
    }
    let mut b = [0u8; 1000];
    r.read(&mut p, &mut b, 1000);
    let mut b = [0u8; 15000];
    r.read(&mut p, &mut b, 15000);
    r.read(&mut p, &mut b, 0);
}
/// hundreds of cycles without data, and a frame with the first sequence number after them
pub fn idle() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = start(user, l);
    let mut r = Received::new();
    for c in 0..300usize {
        let mut i = no_data();
        i.data_available = c % 140 == 3;
        i.rx_cnt = if c < 143 { 1 } else { 2 };
        i.data = fixed_bytes(2);
        let n = p.next(&i, &o);
        require(n.rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
        r.frame(&i);
        o = n;
    }
    let mut b = [0u8; 10];
    r.read(&mut p, &mut b, 10);
}
/// through the coupler
pub fn coupler() {
    let k = part(2);
    let (_, user) = frame_length(k);
    let mut c = serial_coupler(k);
    let mut r = Received::new();
    let mut o = image_out(&any_output(user), user);
    for n in 0..(if thorough() { 5 } else { 4 }) {
        let i = any_input(2);
        o = cycle_ok(&mut c, &image_in(&i, user), &o);
        require(frame_out(&o).rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
        if n >= 2 {
            r.frame(&i);
        }
        if n == 3 {
            let mut b = [0u8; 3];
            match c.reader(0) {
                Some(p) => r.read(p, &mut b, 3),
                None => require(false, "a serial module has a reader"),
            }
        }
    }
    let mut b = [0u8; 8];
    match c.reader(0) {
        Some(p) => r.read(p, &mut b, 8),
        None => require(false, "a serial module has a reader"),
    }
}
/// hundreds of cycles of a coupler, with repetitions, gaps and reads
pub fn coupler_long() {
    let k = part(2);
    let (_, user) = frame_length(k);
    let mut c = serial_coupler(k);
    let mut r = Received::new();
    let mut o = image_out(&ComOut::default(), user);
    for n in 0..if thorough() { 1100usize } else { 550 } {
        let mut i = no_data();
        i.ready = n % 5 != 0;
        i.buffer_nearly_full = n % 13 == 0;
        i.data_available = n % 7 != 6 && !(n > 280 && n < 300);
        i.rx_cnt = if i.data_available { (n - n / 3) % 4 } else { (n / 2) % 4 };
        i.tx_cnt_ack = (n / 5) % 4;
        i.data = vec![(n % 251) as u8; n % (user + 1)];
        if i.data.len() > 0 {
            i.data[0] = any("byte");
        }
        o = cycle_ok(&mut c, &image_in(&i, user), &o);
        require(frame_out(&o).rx_cnt_ack == i.rx_cnt, "the sequence number of the latest frame is acknowledged");
        if n >= 2 {
            r.frame(&i);
        }
        if n % 6 == 5 {
            let mut b = [0u8; 40];
            let want = if n % 12 == 5 { 40 } else { 7 };
            match c.reader(0) {
                Some(p) => r.read(p, &mut b, want),
                None => require(false, "a serial module has a reader"),
            }
        }
    }
}
