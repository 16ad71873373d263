//! C20: a rejected cycle loses no pending output and no serial data.
use super::line::*;
use crate::rt::*;
use std::io::{Read, Write};
use std::time::Duration;
use ChannelValue::{Bit, Bytes, ComRsIn, ComRsOut, Decimal32, FcntOut, SilPFIn};

const COM: ModuleType = ModuleType::UR20_1COM_232_485_422;

fn same(a: Result<Vec<u16>, Error>, b: Result<Vec<u16>, Error>) -> Vec<u16> {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            require(x == y, "the output image is the one without the rejected cycle");
            x
        }
        _ => {
            require(false, "a valid cycle is accepted after a rejected one");
            stop()
        }
    }
}
fn values(a: &Coupler, b: &Coupler) {
    require(a.inputs() == b.inputs(), "the input values are those without the rejected cycle");
    require(a.outputs() == b.outputs(), "the output values are those without the rejected cycle");
}
/// frames of up to 3 bytes for the serial modules
fn valid(l: &Line, input: bool, name: &'static str) -> Vec<u16> {
    let mut w = words(if input { l.inputs } else { l.outputs }, name);
    for m in 0..l.types.len() {
        if is_serial(&l.types[m]) {
            let at = if input { l.at[m].0 } else { l.at[m].1 };
            w[at / 2] &= 0x03FF;
        }
    }
    w
}
#[derive(Clone, Copy, PartialEq)]
enum Fault {
    ShortInput,
    ShortOutput,
    InputFrame,
    OutputFrame,
}
fn fault(k: usize) -> Fault {
    match k {
        0 => Fault::ShortInput,
        1 => Fault::ShortOutput,
        2 => Fault::InputFrame,
        _ => Fault::OutputFrame,
    }
}
/// any shorter length, of long images some of them
fn shorter(len: usize, name: &'static str) -> usize {
    let n: usize = any(name);
    assume(n < len);
    if len > 32 {
        assume(n == 0 || n == len / 3 || n == len - 1);
    }
    n
}
/// a cycle that has to be rejected
fn rejected(l: &mut Line, f: Fault) {
    let mut i = valid(l, true, "rejected input");
    let mut o = valid(l, false, "rejected output");
    let r = match f {
        Fault::ShortInput => {
            let n = shorter(i.len(), "input length");
            l.coupler.next(&i[..n], &o)
        }
        Fault::ShortOutput => {
            let n = shorter(o.len(), "output length");
            l.coupler.next(&i, &o[..n])
        }
        _ => {
            for m in (0..l.types.len()).rev() {
                if is_serial(&l.types[m]) {
                    let n: u8 = any("announced data");
                    assume(n as usize > user_data(&l.types[m]));
                    if f == Fault::InputFrame {
                        let at = l.at[m].0 / 2;
                        i[at] = (i[at] & 0xFF) | n as u16 * 256;
                    } else {
                        let at = l.at[m].1 / 2;
                        o[at] = (o[at] & 0xFF) | n as u16 * 256;
                    }
                    break;
                }
            }
            l.coupler.next(&i, &o)
        }
    };
    require(r.is_err(), "an incomplete image or a malformed frame is rejected");
}
fn bytes(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        let b: u8 = any("byte");
        v.push(b);
    }
    v
}
fn write(l: &mut Line, k: &mut Line, m: usize, b: &[u8]) {
    for c in [&mut l.coupler, &mut k.coupler] {
        match c.writer(m) {
            Some(w) => require(w.write(b).is_ok(), "writing succeeds"),
            None => require(false, "a serial module has a writer"),
        }
    }
}
fn set(l: &mut Line, k: &mut Line, a: Address, v: ChannelValue) {
    require(l.coupler.set_output(&a, v.clone()).is_ok(), "an existing channel is accepted");
    require(k.coupler.set_output(&a, v).is_ok(), "an existing channel is accepted");
}
fn read(l: &mut Line, k: &mut Line, m: usize) {
    let mut x = [0u8; 20];
    let mut y = [0u8; 20];
    let n = l.coupler.reader(m).map(|r| r.read(&mut x).unwrap_or(99)).unwrap_or(99);
    let o = k.coupler.reader(m).map(|r| r.read(&mut y).unwrap_or(99)).unwrap_or(99);
    require(n < 99 && n == o, "as many bytes are read as without the rejected cycle");
    for i in 0..20 {
        require(i >= n || x[i] == y[i], "the bytes read are those without the rejected cycle");
    }
}
/// the cycle before which the rejected one lies, and everything that is pending then
fn history(types: &[ModuleType], f: Fault, at: usize, cycles: usize) {
    let mut l = line(types);
    let mut k = line(types);
    let mut o = valid(&l, false, "first output");
    for c in 0..cycles {
        // digital and analog outputs, both ways of sending serial data
        if c == 0 || c == at {
            for m in 0..types.len() {
                if is_serial(&types[m]) {
                    write(&mut l, &mut k, m, &bytes(3));
                    let a = Address { module: m, channel: 0 };
                    set(&mut l, &mut k, a, ChannelValue::Bytes(bytes(5)));
                } else {
                    let n = types[m].channel_count();
                    let v = fitting(&types[m]);
                    set(&mut l, &mut k, Address { module: m, channel: n - 1 }, v);
                }
            }
        }
        if c == at {
            rejected(&mut l, f);
            if thorough() {
                rejected(&mut l, f);
            }
        }
        let i = valid(&l, true, "input");
        o = same(l.coupler.next(&i, &o), k.coupler.next(&i, &o));
        values(&l.coupler, &k.coupler);
    }
    for m in 0..types.len() {
        if is_serial(&types[m]) {
            read(&mut l, &mut k, m);
        }
    }
}
fn depth() -> usize {
    if thorough() {
        6
    } else {
        5
    }
}
macro_rules! histories {
    ($($name:ident, $faults:expr, $cycles:expr, $($t:expr),*;)*) => {$(
        pub fn $name() {
            let n: usize = $cycles;
            let k = part($faults * (n - 1));
            history(&[$($t),*], fault(k % $faults), k / $faults, n);
        }
    )*};
}
histories! {
    digital, 2, 3, ModuleType::UR20_4DO_P, ModuleType::UR20_8DI_P_2W, ModuleType::UR20_8DO_P;
    analog, 2, 3, ModuleType::UR20_4AO_UI_16, ModuleType::UR20_4AI_UI_16, ModuleType::UR20_4AO_UI_16_DIAG;
    relay, 2, 3, ModuleType::UR20_4RO_CO_255, ModuleType::UR20_PF_O_1DI_SIL, ModuleType::UR20_16DO_P;
    serial, 4, depth(), COM;
    serial_first, 4, depth(), COM, ModuleType::UR20_4DO_P, ModuleType::UR20_4DI_P;
    serial_last, 4, depth(), ModuleType::UR20_4DO_P, ModuleType::UR20_8DI_P_2W, COM;
    two_serial, 4, depth(), COM, COM;
    wide, 4, depth(), WIDE;
    wide_and_narrow, 4, depth(), WIDE, ModuleType::UR20_4DI_P, COM;
}
/// an image with counter durations that can be written back
fn held(l: &Line) -> Vec<u16> {
    let mut w = valid(l, false, "output");
    for m in 0..l.types.len() {
        if l.types[m] == ModuleType::UR20_2FCNT_100 {
            for k in [0, 2] {
                w[l.at[m].1 / 2 + k] &= 0x007F;
            }
        }
    }
    w
}
/// a value that the module cannot take
fn unfit(t: &ModuleType) -> ChannelValue {
    let k: u8 = any("kind of the value");
    let analog = matches!(t, ModuleType::UR20_4AO_UI_16 | ModuleType::UR20_4AO_UI_16_DIAG);
    let counter = *t == ModuleType::UR20_2FCNT_100;
    match k {
        0 if analog || counter => Bit(any("bit")),
        1 if !analog => Decimal32(any("decimal")),
        2 => Bytes(vec![any("byte")]),
        3 => FcntOut(FcOut { duration: Duration::new(9, any::<u16>("nanos") as u32), command: any_command() }),
        4 => ComRsOut(Default::default()),
        5 => ComRsIn(Default::default()),
        6 => SilPFIn(Default::default()),
        _ => ChannelValue::None,
    }
}
/// a value that its module cannot take: the cycle fails, and only that module's values are lost
fn impossible(types: &[ModuleType], victim: usize, at: usize, cycles: usize) {
    let mut l = line(types);
    let mut k = line(types);
    let mut o = held(&l);
    for c in 0..cycles {
        if c == 0 || c == at {
            for m in 0..types.len() {
                if is_serial(&types[m]) {
                    write(&mut l, &mut k, m, &bytes(3));
                    set(&mut l, &mut k, Address { module: m, channel: 0 }, ChannelValue::Bytes(bytes(if at % 2 == 0 { 20 } else { 5 })));
                } else if m != victim {
                    let n = types[m].channel_count();
                    let v = match types[m] {
                        ModuleType::UR20_2FCNT_100 => FcntOut(FcOut {
                            duration: Duration::from_micros(any::<u16>("micros") as u64),
                            command: any_command(),
                        }),
                        _ => fitting(&types[m]),
                    };
                    set(&mut l, &mut k, Address { module: m, channel: n - 1 }, v);
                }
            }
        }
        if c == at {
            let n = types[victim].channel_count();
            // twice, at the first and at the last channel
            for channel in [n - 1, 0] {
                let a = Address { module: victim, channel };
                require(l.coupler.set_output(&a, unfit(&types[victim])).is_ok(), "an existing channel is accepted");
                let (i, w) = (valid(&l, true, "input"), held(&l));
                require(l.coupler.next(&i, &w).is_err(), "a value that the module cannot take is rejected");
            }
        }
        let i = valid(&l, true, "input");
        o = same(l.coupler.next(&i, &o), k.coupler.next(&i, &o));
        values(&l.coupler, &k.coupler);
    }
    for m in 0..types.len() {
        if is_serial(&types[m]) {
            read(&mut l, &mut k, m);
        }
    }
}
macro_rules! impossible {
    ($($name:ident, $victims:expr, $cycles:expr, $($t:expr),*;)*) => {$(
        pub fn $name() {
            let victims: &[usize] = &$victims;
            let k = part(victims.len() * $cycles);
            impossible(&[$($t),*], victims[k / $cycles], k % $cycles, $cycles);
        }
    )*};
}
impossible! {
    impossible_digital, [0, 2, 3], 2, ModuleType::UR20_4DO_P, ModuleType::UR20_8DI_P_2W, ModuleType::UR20_8DO_P, ModuleType::UR20_16DO_P;
    impossible_analog, [0, 2], 2, ModuleType::UR20_4AO_UI_16, ModuleType::UR20_4AI_UI_16, ModuleType::UR20_4AO_UI_16_DIAG;
    impossible_counter, [0, 1], 2, ModuleType::UR20_4RO_CO_255, ModuleType::UR20_2FCNT_100, ModuleType::UR20_4DO_P_2A;
    impossible_serial, [1], 4, COM, ModuleType::UR20_4DO_P, COM;
    impossible_first, [0], 4, ModuleType::UR20_2FCNT_100, WIDE, ModuleType::UR20_4DO_P;
    impossible_last, [2], 4, WIDE, ModuleType::UR20_4DO_P, ModuleType::UR20_4AO_UI_16;
}
/// 64 modules, with something pending at each of them
pub fn many_modules() {
    let k = part(4);
    history(&many_types(true), fault(k), 2, 4);
}
/// a long run with rejected cycles of all kinds in it
pub fn run() {
    let n = part(4);
    let types = match n {
        0 => vec![COM, ModuleType::UR20_4DO_P, ModuleType::UR20_4AO_UI_16, COM, ModuleType::UR20_16DO_P],
        1 => vec![ModuleType::UR20_8DO_P, WIDE, ModuleType::UR20_4DI_P, COM],
        2 => vec![COM, WIDE, ModuleType::UR20_2FCNT_100],
        _ => vec![ModuleType::UR20_4DO_P, ModuleType::UR20_4AO_UI_16_DIAG, COM],
    };
    let mut l = line(&types);
    let mut k = line(&types);
    let mut w = vec![0u16; l.outputs];
    for c in 0..if thorough() { 600 } else { 300 } {
        let i = run_input(&l, c, &w);
        let o = run_output(&l, c, &w);
        for m in 0..types.len() {
            let a = Address { module: m, channel: c % types[m].channel_count() };
            if is_serial(&types[m]) {
                if (c + m) % 3 == 0 {
                    write(&mut l, &mut k, m, &bytes(1 + c % 4));
                }
                if (c + m) % 4 == 0 {
                    set(&mut l, &mut k, a, ChannelValue::Bytes(bytes(if c % 32 == 7 { 40 } else { 1 + (c + m) % 9 })));
                }
            } else if (c + m) % 2 == 0 {
                let v = match types[m] {
                    ModuleType::UR20_4AO_UI_16 | ModuleType::UR20_4AO_UI_16_DIAG => Decimal32(0.25),
                    ModuleType::UR20_2FCNT_100 => FcntOut(FcOut::default()),
                    _ => Bit(any("bit")),
                };
                set(&mut l, &mut k, a, v);
            }
        }
        // none, one or two rejected cycles with images of their own
        for f in 0..(c + n) % 3 {
            let mut ri = run_input(&l, c + f + 1, &w);
            let mut ro = run_output(&l, c + f + 2, &w);
            let cut = |x: usize| if c % 2 == 0 { x - 1 } else { c % x };
            match (c + f) % 4 {
                0 => ri.truncate(cut(l.inputs)),
                1 => ro.truncate(cut(l.outputs)),
                q => {
                    for m in (0..types.len()).rev() {
                        if is_serial(&types[m]) {
                            let (at, w) = if q == 2 { (l.at[m].0, &mut ri) } else { (l.at[m].1, &mut ro) };
                            w[at / 2] = (w[at / 2] & 0xFF) | 0x0F00;
                            break;
                        }
                    }
                }
            }
            require(l.coupler.next(&ri, &ro).is_err(), "an incomplete image or a malformed frame is rejected");
        }
        w = same(l.coupler.next(&i, &o), k.coupler.next(&i, &o));
        values(&l.coupler, &k.coupler);
        for m in 0..types.len() {
            if is_serial(&types[m]) && (c + m) % 3 == 2 {
                read(&mut l, &mut k, m);
            }
        }
    }
}
