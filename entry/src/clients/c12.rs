//! C12: the serial transmit stream is delivered complete, in order, exactly once.
use super::serial::*;
use crate::rt::*;

/// one cycle with a device that has acknowledged the current frame or only the one before
fn cycle(p: &mut MessageProcessor, s: &mut Stream, user: usize, o: &ComOut) -> ComOut {
    let acked: bool = any("acked");
    let mut i = any_input(2);
    i.tx_cnt_ack = if acked { o.tx_cnt } else { (o.tx_cnt + 3) % 4 };
    let n = p.next(&i, o);
    s.step(user, acked, o, &n, i.rx_cnt);
    n
}
fn write(p: &mut MessageProcessor, s: &mut Stream, b: &[u8]) {
    put(p, b);
    s.all.extend_from_slice(b);
}
/// writes of several sizes between the cycles
fn history(writes: &[(usize, usize)], cycles: usize) {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    for c in 0..cycles {
        for &(at, n) in writes {
            if at == c {
                write(&mut p, &mut s, &fixed_bytes(n));
            }
        }
        o = cycle(&mut p, &mut s, user, &o);
    }
}
pub fn one_write() {
    let n = if thorough() { 10 } else { 8 };
    history(&[(0, 35)], n);
}
pub fn small_writes() {
    let n = if thorough() { 8 } else { 6 };
    history(&[(0, 1), (0, 3), (1, 6), (2, 14), (2, 0), (4, 7)], n);
}
pub fn late_writes() {
    let n = if thorough() { 11 } else { 8 };
    history(&[(2, 15), (6, 20)], n);
}
/// writes of any length
pub fn any_write() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    let b = any_bytes(2 * user + 3);
    write(&mut p, &mut s, &b);
    for _ in 0..5 {
        o = cycle(&mut p, &mut s, user, &o);
    }
}
pub fn two_any_writes() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    let b = any_bytes(if thorough() { 7 } else { 3 });
    write(&mut p, &mut s, &b);
    o = cycle(&mut p, &mut s, user, &o);
    let b = any_bytes(7);
    write(&mut p, &mut s, &b);
    for _ in 0..4 {
        o = cycle(&mut p, &mut s, user, &o);
    }
}
/// data queued before and during the initialisation
pub fn early_writes() {
    let (l, user) = frame_length(part(2));
    let mut p = MessageProcessor::new(l);
    let mut s = Stream::new();
    write(&mut p, &mut s, &fixed_bytes(8));
    let o = p.next(&any_input(2), &any_output(user));
    write(&mut p, &mut s, &fixed_bytes(9));
    let mut o = p.next(&any_input(2), &o);
    for _ in 0..6 {
        o = cycle(&mut p, &mut s, user, &o);
    }
}
/// an acknowledging device gets everything
pub fn complete() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    let b = any_bytes(2 * user);
    write(&mut p, &mut s, &b);
    for _ in 0..3 {
        let mut i = no_data();
        i.tx_cnt_ack = o.tx_cnt;
        let n = p.next(&i, &o);
        s.step(user, true, &o, &n, i.rx_cnt);
        o = n;
    }
    require(s.sent == s.all.len(), "everything is sent");
}
/// many frames, the sequence number wraps several times
pub fn long() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    let mut x = 0u8;
    for n in [1usize, 2 * user, 13, 0, 60, 17] {
        let mut b = Vec::new();
        for _ in 0..n {
            b.push(x);
            x = x.wrapping_add(1);
        }
        write(&mut p, &mut s, &b);
        for c in 0..9 {
            let acked = c % 4 != 1;
            let mut i = no_data();
            i.tx_cnt_ack = if acked { o.tx_cnt } else { (o.tx_cnt + 3) % 4 };
            let n = p.next(&i, &o);
            s.step(user, acked, &o, &n, i.rx_cnt);
            o = n;
        }
    }
    for _ in 0..16 {
        let mut i = no_data();
        i.tx_cnt_ack = o.tx_cnt;
        let n = p.next(&i, &o);
        s.step(user, true, &o, &n, i.rx_cnt);
        o = n;
    }
    require(s.sent == s.all.len(), "everything is sent");
}
/// hundreds of frames, of idle cycles and of cycles without acknowledgement
pub fn huge() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    for (n, cycles) in [(1100 * user, 1105), (0, 270), (3 * user, 5), (1, 2), (700, 120)] {
        let first: u8 = any("first byte");
        let mut b = vec![0u8; n];
        if n > 0 {
            b[0] = first;
        }
        for k in 1..n {
            b[k] = (k % 251) as u8;
        }
        write(&mut p, &mut s, &b);
        for c in 0..cycles {
            let acked = n != 1 || c == 0;
            let mut i = no_data();
            i.tx_cnt_ack = if acked { o.tx_cnt } else { (o.tx_cnt + 3) % 4 };
            i.rx_cnt = c % 4;
            let n = p.next(&i, &o);
            s.step(user, acked, &o, &n, i.rx_cnt);
            o = n;
        }
    }
    require(s.sent == s.all.len(), "everything is sent");
}
/// one call that takes more bytes than 16 bits can count
pub fn one_call() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    let first: u8 = any("first byte");
    let mut b = [0u8; 0x10003];
    b[0] = first;
    for k in 1..100 {
        b[k] = (k % 251) as u8;
    }
    put(&mut p, &b);
    // what can be sent in the cycles below
    s.all.extend_from_slice(&b[..100]);
    for _ in 0..4 {
        o = cycle(&mut p, &mut s, user, &o);
    }
    require(p.write(&[]).is_ok_and(|n| n == 0), "nothing is written");
}
/// an acknowledgement that stays away for hundreds of cycles
pub fn patient() {
    let (l, user) = frame_length(part(2));
    let (mut p, mut o) = initialised(l, user);
    let mut s = Stream::new();
    for c in 0..300usize {
        if c % 16 == 0 {
            write(&mut p, &mut s, &fixed_bytes(3));
        }
        let acked = c == 0 || c >= 290;
        let mut i = no_data();
        i.tx_cnt_ack = if acked { o.tx_cnt } else { (o.tx_cnt + 3) % 4 };
        let n = p.next(&i, &o);
        s.step(user, acked, &o, &n, i.rx_cnt);
        o = n;
    }
}
/// the same through the coupler; data come from the writer or from pending outputs
fn coupled(pending: bool) {
    let k = part(2);
    let (_, user) = frame_length(k);
    let mut c = serial_coupler(k);
    let mut s = Stream::new();
    let o = image_out(&any_output(user), user);
    let o = cycle_ok(&mut c, &image_in(&any_input(2), user), &o);
    let mut o = cycle_ok(&mut c, &image_in(&any_input(2), user), &o);
    for n in 0..(if thorough() { 7 } else { 5 }) {
        if n == 0 || n == 3 {
            let b = fixed_bytes(if n == 0 { user + 2 } else { 5 });
            if pending {
                let a = Address { module: 0, channel: 0 };
                require(c.set_output(&a, ChannelValue::Bytes(b.clone())).is_ok(), "a serial channel can be written");
            } else {
                com_writer(&mut c, 0, &b);
            }
            s.all.extend_from_slice(&b);
        }
        let acked: bool = any("acked");
        let old = frame_out(&o);
        let mut i = any_input(2);
        i.tx_cnt_ack = if acked { old.tx_cnt } else { (old.tx_cnt + 3) % 4 };
        let w = cycle_ok(&mut c, &image_in(&i, user), &o);
        s.step(user, acked, &old, &frame_out(&w), i.rx_cnt);
        o = w;
    }
}
pub fn coupler_writer() {
    coupled(false);
}
pub fn coupler_pending() {
    coupled(true);
}
/// hundreds of cycles of a coupler, with writes of both kinds in between
pub fn coupler_long() {
    let k = part(2);
    let (_, user) = frame_length(k);
    let mut c = serial_coupler(k);
    let mut s = Stream::new();
    let o = image_out(&ComOut::default(), user);
    let o = cycle_ok(&mut c, &image_in(&no_data(), user), &o);
    let mut o = cycle_ok(&mut c, &image_in(&no_data(), user), &o);
    for n in 0..if thorough() { 1100usize } else { 550 } {
        let mut b = vec![(n % 251) as u8; 1 + n % (2 * user)];
        b[0] = any("byte");
        match n % 16 {
            0 => com_writer(&mut c, 0, &b),
            // pending data come after what is queued at once
            1 | 9 => {
                let a = Address { module: 0, channel: 0 };
                if n % 16 == 9 {
                    // the last one counts
                    require(c.set_output(&a, ChannelValue::Bytes(vec![9; 20])).is_ok(), "a serial channel can be written");
                }
                require(c.set_output(&a, ChannelValue::Bytes(b.clone())).is_ok(), "a serial channel can be written");
            }
            _ => b.clear(),
        }
        s.all.extend_from_slice(&b);
        let acked = n % 3 != 1 && !(n > 300 && n < 330);
        let old = frame_out(&o);
        let mut i = no_data();
        i.ready = n % 5 != 0;
        i.data_available = n % 4 < 2;
        i.buffer_nearly_full = n % 11 == 0;
        i.rx_cnt = n % 4;
        i.tx_cnt_ack = if acked { old.tx_cnt } else { (old.tx_cnt + 3) % 4 };
        i.data = vec![n as u8; n % 3];
        let w = cycle_ok(&mut c, &image_in(&i, user), &o);
        s.step(user, acked, &old, &frame_out(&w), i.rx_cnt);
        o = w;
    }
}
