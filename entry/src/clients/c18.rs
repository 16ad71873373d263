//! C18: serial modules on one coupler are independent of each other.
use super::plant::*;
use crate::rt::*;
use std::io::{Read, Write};

const COM: ModuleType = ModuleType::UR20_1COM_232_485_422;

struct Pair {
    both: Coupler,
    alone: [Coupler; 2],
    /// registers of each one's frame
    n: [usize; 2],
    /// module numbers, and the registers before the first
    m: [usize; 2],
    extra: usize,
}
fn make(types: Vec<ModuleType>, offsets: Vec<u16>, params: Vec<Vec<u16>>) -> Coupler {
    match Coupler::new(&CouplerConfig { modules: types, offsets, params }) {
        Ok(c) => c,
        Err(_) => {
            require(false, "a valid configuration is accepted");
            stop()
        }
    }
}
fn com_params(k: usize) -> Vec<u16> {
    vec![k as u16, 1, 5, 0, 0, 0, 1, 0, 17, 19]
}
/// serial modules with frames of 8 or 16 bytes, with a digital module before and between them
fn pair(k: usize, between: bool) -> Pair {
    let n = [4 + 4 * (k % 2), 4 + 4 * (k / 2)];
    let alone = [
        make(vec![COM], vec![0x8000, 0], vec![com_params(k % 2)]),
        make(vec![COM], vec![0x8000, 0], vec![com_params(k / 2)]),
    ];
    if between {
        let a = 16 as u16;
        let b = a + 16 * n[0] as u16;
        let both = make(
            vec![ModuleType::UR20_4DO_P, COM, ModuleType::UR20_4DI_P, COM],
            vec![0x8000, 0xFFFF, 0x8000 + a, a, 0xFFFF, 0, 0x8000 + b, b],
            vec![vec![0; 4], com_params(k % 2), vec![0; 4], com_params(k / 2)],
        );
        Pair { both, alone, n, m: [1, 3], extra: 1 }
    } else {
        let b = 16 * n[0] as u16;
        let both = make(
            vec![COM, COM],
            vec![0x8000, 0, 0x8000 + b, b],
            vec![com_params(k % 2), com_params(k / 2)],
        );
        Pair { both, alone, n, m: [0, 1], extra: 0 }
    }
}
/// any frame with at most 3 bytes of data
fn frame(n: usize, name: &'static str) -> Vec<u16> {
    let w: [u16; 8] = any(name);
    let mut w = w[..n].to_vec();
    w[0] &= 0x03FF;
    w
}
fn joined(extra: usize, a: &[u16], b: &[u16]) -> Vec<u16> {
    let mut w = Vec::new();
    if extra > 0 {
        let x: u16 = any("digital");
        w.push(x & 0xFF);
    }
    w.extend_from_slice(a);
    w.extend_from_slice(b);
    w
}
fn cycle(p: &mut Pair, o: &mut [Vec<u16>; 2]) {
    let i = [frame(p.n[0], "first input frame"), frame(p.n[1], "second input frame")];
    cycle_with(p, o, i)
}
fn cycle_with(p: &mut Pair, o: &mut [Vec<u16>; 2], i: [Vec<u16>; 2]) {
    let r = p.both.next(&joined(p.extra, &i[0], &i[1]), &joined(p.extra, &o[0], &o[1]));
    let w = match r {
        Ok(w) => w,
        Err(_) => {
            require(false, "two complete frames are accepted");
            stop()
        }
    };
    let mut at = p.extra;
    for k in 0..2 {
        match p.alone[k].next(&i[k], &o[k]) {
            Ok(v) => {
                require(v.len() == p.n[k] && w.len() >= at + p.n[k], "one frame per module");
                for x in 0..p.n[k] {
                    require(w[at + x] == v[x], "the output frame of a module is the one it has alone");
                }
                at += p.n[k];
                require(
                    p.both.inputs()[p.m[k]][0] == p.alone[k].inputs()[0][0],
                    "a module reports the input value it has alone",
                );
                require(
                    p.both.outputs()[p.m[k]][0] == p.alone[k].outputs()[0][0],
                    "a module reports the output value it has alone",
                );
                o[k] = v;
            }
            Err(_) => {
                require(false, "a complete frame is accepted");
                stop()
            }
        }
    }
    require(w.len() == at, "nothing follows the last module");
}
fn write(p: &mut Pair, k: usize, b: &[u8], pending: bool) {
    if pending {
        let a = Address { module: p.m[k], channel: 0 };
        require(p.both.set_output(&a, ChannelValue::Bytes(b.to_vec())).is_ok(), "a serial channel can be written");
        let a = Address { module: 0, channel: 0 };
        require(p.alone[k].set_output(&a, ChannelValue::Bytes(b.to_vec())).is_ok(), "a serial channel can be written");
    } else {
        match p.both.writer(p.m[k]) {
            Some(w) => require(w.write(b).is_ok(), "writing succeeds"),
            None => require(false, "a serial module has a writer"),
        }
        match p.alone[k].writer(0) {
            Some(w) => require(w.write(b).is_ok(), "writing succeeds"),
            None => require(false, "a serial module has a writer"),
        }
    }
}
fn read(p: &mut Pair, k: usize) {
    let mut x = [0u8; 10];
    let mut y = [0u8; 10];
    let n = match p.both.reader(p.m[k]) {
        Some(r) => r.read(&mut x).unwrap_or(99),
        None => 99,
    };
    let m = match p.alone[k].reader(0) {
        Some(r) => r.read(&mut y).unwrap_or(99),
        None => 99,
    };
    require(n < 99 && n == m, "as many bytes are read as alone");
    for i in 0..10 {
        require(i >= n || x[i] == y[i], "the bytes read are those of the module alone");
    }
}
fn initial(p: &Pair) -> [Vec<u16>; 2] {
    [frame(p.n[0], "first output frame"), frame(p.n[1], "second output frame")]
}
fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        let b: u8 = any("byte");
        v.push(b);
    }
    v
}
fn history(between: bool, writes: &[(usize, usize, usize, bool)], cycles: usize, reads: usize) {
    let mut p = pair(part(4), between);
    let mut o = initial(&p);
    for c in 0..cycles {
        for &(at, k, n, pending) in writes {
            if at == c {
                write(&mut p, k, &bytes(n), pending);
            }
        }
        cycle(&mut p, &mut o);
        for k in 0..2 {
            if (reads >> (2 * c + k)) & 1 == 1 {
                read(&mut p, k);
            }
        }
    }
    for k in 0..2 {
        read(&mut p, k);
    }
}
fn depth(quick: usize) -> usize {
    quick + 2 * thorough() as usize
}
pub fn nothing_written() {
    history(false, &[], depth(5), 0);
}
pub fn one_writes() {
    history(false, &[(0, 0, 9, false)], depth(5), 0);
}
pub fn other_writes() {
    history(false, &[(0, 1, 9, false)], depth(5), 0);
}
pub fn both_write() {
    history(true, &[(0, 0, 5, false), (0, 1, 8, false), (2, 0, 3, false)], depth(5), 0);
}
pub fn pending_first() {
    history(true, &[(0, 0, 4, true), (2, 0, 3, true)], depth(5), 0);
}
pub fn pending_second() {
    history(true, &[(0, 1, 4, true), (2, 1, 3, true)], depth(5), 0);
}
pub fn pending_both() {
    history(false, &[(0, 1, 4, true), (0, 0, 7, true), (2, 0, 3, false)], depth(5), 0);
}
/// pending data that fill several frames
pub fn pending_long() {
    history(true, &[(0, 0, 15, true), (0, 1, 31, true), (2, 1, 3, true)], depth(4), 0);
}
pub fn pending_long_first() {
    history(false, &[(1, 0, 40, true)], depth(4), 0b0100_0000);
}
pub fn written_long() {
    history(true, &[(0, 1, 33, false), (2, 0, 20, false)], depth(4), 0);
}
pub fn reading() {
    history(true, &[(0, 0, 2, false)], depth(5), 0b0110_1100);
}
/// 64 serial modules, all of them sending and receiving, one after the other or at once
pub fn many() {
    const N: usize = 64;
    let mut offsets = Vec::new();
    let mut params = Vec::new();
    let mut alone = Vec::new();
    let mut at = Vec::new();
    let mut next = 0;
    for m in 0..N {
        offsets.push(0x8000 + 16 * next as u16);
        offsets.push(16 * next as u16);
        params.push(com_params(m % 2));
        alone.push(make(vec![COM], vec![0x8000, 0], vec![com_params(m % 2)]));
        at.push(next);
        next += 4 + 4 * (m % 2);
    }
    let mut all = make(vec![COM; N], offsets, params);
    let mut o = vec![0u16; next];
    for c in 0..8usize {
        for m in 0..N {
            if c == 0 || (c + m) % 3 == 0 {
                let b = bytes(3 + m % 5);
                let (x, y) = (Address { module: m, channel: 0 }, Address { module: 0, channel: 0 });
                if m % 2 == c % 2 {
                    require(all.set_output(&x, ChannelValue::Bytes(b.clone())).is_ok(), "a serial channel can be written");
                    require(alone[m].set_output(&y, ChannelValue::Bytes(b)).is_ok(), "a serial channel can be written");
                } else {
                    for c in [all.writer(m), alone[m].writer(0)] {
                        match c {
                            Some(w) => require(w.write(&b).is_ok(), "writing succeeds"),
                            None => require(false, "a serial module has a writer"),
                        }
                    }
                }
            }
        }
        // each module acknowledges and offers data at its own pace
        let mut i = vec![0u16; next];
        for m in 0..N {
            let x: [u8; 2] = any("received");
            let tx = (o[at[m]] / 8) % 4;
            let ack = if (c * (m + 1)) % 4 == 3 { (tx + 3) % 4 } else { tx };
            i[at[m]] = 0x80 + 0x0200 + 32 * ack + 8 * ((c / (1 + m % 3)) % 4) as u16 + ((c + m) % 5 != 0) as u16;
            i[at[m] + 1] = x[0] as u16 + 256 * x[1] as u16;
        }
        let w = match all.next(&i, &o) {
            Ok(w) => w,
            Err(_) => {
                require(false, "complete frames are accepted");
                stop()
            }
        };
        require(w.len() == next, "one frame per module");
        for m in 0..N {
            let end = at[m] + 4 + 4 * (m % 2);
            match alone[m].next(&i[at[m]..end], &o[at[m]..end]) {
                Ok(v) => require(w[at[m]..end] == v[..], "the output frame of a module is the one it has alone"),
                Err(_) => require(false, "a complete frame is accepted"),
            }
            require(all.inputs()[m] == alone[m].inputs()[0], "a module reports the input value it has alone");
            require(all.outputs()[m] == alone[m].outputs()[0], "a module reports the output value it has alone");
        }
        o = w;
    }
    for m in 0..N {
        let (mut x, mut y) = ([0u8; 20], [0u8; 20]);
        let a = all.reader(m).map(|r| r.read(&mut x).unwrap_or(99)).unwrap_or(99);
        let b = alone[m].reader(0).map(|r| r.read(&mut y).unwrap_or(99)).unwrap_or(99);
        require(a < 99 && a == b, "as many bytes are read as alone");
        for k in 0..20 {
            require(k >= a || x[k] == y[k], "the bytes read are those of the module alone");
        }
    }
}
/// output images that the coupler has not written itself
pub fn foreign_images() {
    let mut p = pair(part(4), false);
    for _ in 0..depth(5) {
        let mut o = initial(&p);
        cycle(&mut p, &mut o);
    }
    for k in 0..2 {
        read(&mut p, k);
    }
}
/// nothing but a serial module can be read or written
pub fn streams() {
    let mut p = pair(part(4), true);
    let m: usize = any("module");
    require(p.both.reader(m).is_some() == (m == 1 || m == 3), "exactly the serial modules can be read");
    require(p.both.writer(m).is_some() == (m == 1 || m == 3), "exactly the serial modules can be written");
}
/// hundreds of cycles in which the modules go on at their own pace
pub fn long() {
    let k = part(8);
    let mut p = pair(k % 4, k / 4 == 1);
    let mut o = [vec![0u16; p.n[0]], vec![0u16; p.n[1]]];
    for c in 0..if thorough() { 600usize } else { 300 } {
        for k in 0..2 {
            if (c + 2 * k) % 5 == 0 {
                let mut b = vec![(c % 251) as u8; 1 + (c / 5) % 17];
                b[0] = any("byte");
                write(&mut p, k, &b, (c + k) % 2 == 0);
            }
        }
        let mut i = [vec![0u16; p.n[0]], vec![0u16; p.n[1]]];
        for k in 0..2 {
            let x: u8 = any("received");
            let tx = (o[k][0] / 8) % 4;
            let ack = if (c + k) % 4 == 3 { (tx + 3) % 4 } else { tx };
            let data = (c / (k + 1)) % 5;
            i[k][0] = 0x80 + 32 * ack + 8 * ((c / (k + 2)) % 4) as u16 + ((c + k) % 6 != 0) as u16 + 2 * (c % 9 == k) as u16 + 256 * data as u16;
            i[k][1] = 256 * (c % 256) as u16 + x as u16;
        }
        cycle_with(&mut p, &mut o, i);
        for k in 0..2 {
            if (c + k) % 3 == 0 {
                read(&mut p, k);
            }
        }
    }
}
