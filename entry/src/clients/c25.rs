//! C25: a serial transfer makes progress with every acknowledgement.
use super::serial::*;
use crate::rt::*;

/// the bytes still queued and the acknowledged cycles the transfer may still need
struct Queue {
    /// lengths of the writes, less what was sent of them
    left: Vec<usize>,
}
impl Queue {
    fn new() -> Queue {
        Queue { left: Vec::new() }
    }
    fn bytes(&self) -> usize {
        let mut n = 0;
        for k in &self.left {
            n += *k;
        }
        n
    }
    /// frames that are needed for the queued writes
    fn frames(&self, user: usize) -> usize {
        let mut n = 0;
        for k in &self.left {
            n += (*k + user - 1) / user;
        }
        n
    }
    fn take(&mut self, mut n: usize) {
        for k in self.left.iter_mut() {
            let x = if n < *k { n } else { *k };
            *k -= x;
            n -= x;
        }
        require(n == 0, "no more bytes are sent than were written");
    }
    /// one cycle: `old` is the frame in the output image, `new` the one the cycle answers with
    fn step(&mut self, user: usize, ack: usize, old: &ComOut, new: &ComOut) {
        let needed = self.frames(user);
        if self.bytes() == 0 {
            require(new.tx_cnt == old.tx_cnt, "while nothing is queued no new frame is announced");
        } else if ack == old.tx_cnt {
            require(new.tx_cnt != old.tx_cnt, "an acknowledged frame is followed by a new one in the same cycle");
            require(new.data.len() > 0, "the new frame carries at least one byte");
            self.take(new.data.len());
            require(self.frames(user) < needed, "every acknowledgement saves one of the remaining cycles");
        } else if new.tx_cnt != old.tx_cnt {
            self.take(new.data.len());
        }
    }
}
fn write(p: &mut dyn Write, q: &mut Queue, b: &[u8]) {
    put(p, b);
    q.left.push(b.len());
}
fn ack(old: &ComOut) -> usize {
    let yes: bool = any("acked");
    if yes {
        old.tx_cnt
    } else {
        (old.tx_cnt + 3) % 4
    }
}
/// writes of the given lengths before the given cycles, whatever the device reports
fn history(early: &[usize], writes: &[(usize, usize)], cycles: usize) {
    let (l, user) = frame_length(part(2));
    let mut p = MessageProcessor::new(l);
    let mut q = Queue::new();
    for n in early {
        write(&mut p, &mut q, &fixed_bytes(*n));
    }
    let o = p.next(&any_input(2), &any_output(user));
    let mut o = p.next(&any_input(2), &o);
    for c in 0..cycles {
        for &(at, n) in writes {
            if at == c {
                write(&mut p, &mut q, &fixed_bytes(n));
            }
        }
        let mut i = any_input(2);
        i.tx_cnt_ack = ack(&o);
        let n = p.next(&i, &o);
        q.step(user, i.tx_cnt_ack, &o, &n);
        o = n;
    }
}
fn depth() -> usize {
    if thorough() {
        8
    } else {
        6
    }
}
pub fn one_write() {
    history(&[], &[(0, 31)], depth());
}
pub fn early_writes() {
    history(&[7, 3], &[], depth());
}
pub fn early_and_late() {
    history(&[15], &[(1, 6), (3, 14)], depth());
}
pub fn small_writes() {
    history(&[], &[(0, 1), (0, 1), (1, 2), (3, 0), (3, 5)], depth());
}
pub fn nothing() {
    history(&[], &[], depth());
    history(&[0], &[(1, 0)], depth());
}
/// a write of any length needs one acknowledged cycle per frame and no more
pub fn any_length() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let b = any_bytes(3 * user);
    let needed = (b.len() + user - 1) / user;
    put(&mut p, &b);
    let mut sent = 0;
    for c in 0..4usize {
        let mut i = any_input(2);
        i.tx_cnt_ack = o.tx_cnt;
        let n = p.next(&i, &o);
        if c < needed {
            require(n.tx_cnt != o.tx_cnt && n.data.len() > 0, "each acknowledgement brings a new frame with data");
            sent += n.data.len();
        } else {
            require(n.tx_cnt == o.tx_cnt, "no further frame is announced");
        }
        if c + 1 >= needed {
            require(sent == b.len(), "one acknowledged cycle per frame is enough");
        }
        o = n;
    }
}
/// hundreds of frames, with acknowledgements that come late
pub fn long() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut q = Queue::new();
    for c in 0..700usize {
        if c % 100 == 7 {
            let n = 3 * c / 2;
            write(&mut p, &mut q, &vec![(c % 256) as u8; n]);
        }
        let mut i = no_data();
        i.ready = c % 7 != 0;
        i.data_available = c % 5 == 0;
        i.buffer_nearly_full = c % 11 == 3;
        i.rx_cnt = c % 4;
        i.tx_cnt_ack = if c % 3 != 1 { o.tx_cnt } else { (o.tx_cnt + 3) % 4 };
        let n = p.next(&i, &o);
        q.step(user, i.tx_cnt_ack, &o, &n);
        o = n;
    }
}
/// through the coupler, sending with the writer or with pending outputs
fn coupled(pending: bool) {
    let k = part(2);
    let (_, user) = frame_length(k);
    let mut c = serial_coupler(k);
    let mut q = Queue::new();
    let o = image_out(&any_output(user), user);
    com_writer(&mut c, 0, &fixed_bytes(2));
    q.left.push(2);
    let o = cycle_ok(&mut c, &image_in(&any_input(2), user), &o);
    let mut o = cycle_ok(&mut c, &image_in(&any_input(2), user), &o);
    for n in 0..depth() - 1 {
        if n == 0 || n == 3 {
            let b = fixed_bytes(if n == 0 { user + 2 } else { 5 });
            if pending {
                let a = Address { module: 0, channel: 0 };
                require(c.set_output(&a, ChannelValue::Bytes(b.clone())).is_ok(), "a serial channel can be written");
            } else {
                com_writer(&mut c, 0, &b);
            }
            q.left.push(b.len());
        }
        let old = frame_out(&o);
        let mut i = any_input(2);
        i.tx_cnt_ack = ack(&old);
        let w = cycle_ok(&mut c, &image_in(&i, user), &o);
        q.step(user, i.tx_cnt_ack, &old, &frame_out(&w));
        o = w;
    }
}
pub fn coupler_writer() {
    coupled(false);
}
pub fn coupler_pending() {
    coupled(true);
}
