//! C14: serial communication starts with flush and reset, before any user data.
use super::serial::*;
use crate::rt::*;

fn first(n: &ComOut, o: &ComOut) {
    require(n.rx_buf_flush && n.tx_buf_flush, "the first frame clears both buffers");
    require(!n.reset, "the first frame has the status reset off");
    require(n.data.is_empty(), "the first frame carries no data");
    require(n.tx_cnt == o.tx_cnt, "the first frame announces no data");
}
fn second(n: &ComOut, o: &ComOut) {
    require(n.reset, "the second frame has the status reset on");
    require(!n.rx_buf_flush && !n.tx_buf_flush, "the second frame clears no buffer");
    require(n.data.is_empty(), "the second frame carries no data");
    require(n.tx_cnt == o.tx_cnt, "the second frame announces no data");
}
fn no_input(p: &mut MessageProcessor) {
    let mut b = [0u8; 4];
    match p.read(&mut b) {
        Ok(n) => require(n == 0, "nothing is taken over during the initialisation"),
        Err(_) => require(false, "reading succeeds"),
    }
}
fn run(queued: usize) {
    let (l, user) = frame_length(part(2));
    let mut p = MessageProcessor::new(l);
    put(&mut p, &fixed_bytes(queued));
    let o = any_output(user);
    let n = p.next(&any_input(user), &o);
    first(&n, &o);
    no_input(&mut p);
    put(&mut p, &fixed_bytes(queued));
    let o = any_output(user);
    let n = p.next(&any_input(user), &o);
    second(&n, &o);
    no_input(&mut p);
    let i = any_input(user);
    let _ = p.next(&i, &any_output(user));
    taken(&mut p, &i, user);
}
fn taken(p: &mut MessageProcessor, i: &ComIn, user: usize) {
    let mut b = [0u8; 20];
    match p.read(&mut b) {
        Ok(n) => {
            if i.data_available {
                require(n == i.data.len(), "the first offered frame is taken over");
                for k in 0..user {
                    if k < i.data.len() {
                        require(b[k] == i.data[k], "the first offered frame is taken over unchanged");
                    }
                }
            } else {
                require(n == 0, "nothing is taken over without an offer");
            }
        }
        Err(_) => require(false, "reading succeeds"),
    }
}
pub fn idle() {
    run(0);
}
pub fn queued() {
    run(17);
}
/// the first offer comes later
pub fn later_offer() {
    let (l, user) = frame_length(part(2));
    let mut p = MessageProcessor::new(l);
    let o = p.next(&any_input(user), &any_output(user));
    let mut o = p.next(&any_input(user), &o);
    for _ in 0..2 {
        let mut i = any_input(user);
        i.data_available = false;
        o = p.next(&i, &o);
        no_input(&mut p);
    }
    let i = any_input(user);
    let _ = p.next(&i, &o);
    taken(&mut p, &i, user);
}
/// through the coupler
pub fn coupler() {
    let k = part(2);
    let (_, user) = frame_length(k);
    let mut c = serial_coupler(k);
    com_writer(&mut c, 0, &fixed_bytes(3));
    let a = Address { module: 0, channel: 0 };
    require(c.set_output(&a, ChannelValue::Bytes(fixed_bytes(4))).is_ok(), "a serial channel can be written");
    let o = any_output(user);
    let n = cycle_ok(&mut c, &image_in(&any_input(user), user), &image_out(&o, user));
    first(&frame_out(&n), &o);
    require(c.set_output(&a, ChannelValue::Bytes(fixed_bytes(7))).is_ok(), "a serial channel can be written");
    let o = any_output(user);
    let n = cycle_ok(&mut c, &image_in(&any_input(user), user), &image_out(&o, user));
    second(&frame_out(&n), &o);
    let mut b = [0u8; 4];
    match c.reader(0) {
        Some(p) => match p.read(&mut b) {
            Ok(n) => require(n == 0, "nothing is taken over during the initialisation"),
            Err(_) => require(false, "reading succeeds"),
        },
        None => require(false, "a serial module has a reader"),
    }
}
