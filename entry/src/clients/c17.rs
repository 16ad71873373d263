//! C17: a pending write changes exactly the addressed channel, once.
use super::line::*;
use crate::rt::*;

fn plant() -> Line {
    line(&[
        ModuleType::UR20_4DO_P,
        ModuleType::UR20_4DI_P,
        ModuleType::UR20_4AO_UI_16,
        ModuleType::UR20_8DO_P,
        ModuleType::UR20_2FCNT_100,
    ])
}
/// module and channel of channel `k` of all
fn address(l: &Line, k: usize) -> Address {
    let mut k = k;
    for m in 0..l.types.len() {
        let n = l.types[m].channel_count();
        if k < n {
            return Address { module: m, channel: k };
        }
        k -= n;
    }
    stop()
}
const CHANNELS: usize = 4 + 4 + 4 + 8 + 2;

/// one cycle: the image is that of the reported values with the given ones in place
fn cycle(l: &mut Line, set: &[(Address, ChannelValue)]) {
    let i = words(l.inputs, "input image");
    let o = words(l.outputs, "output image");
    cycle_with(l, set, &i, &o)
}
fn cycle_with(l: &mut Line, set: &[(Address, ChannelValue)], i: &[u16], o: &[u16]) {
    let r = l.coupler.next(i, o);
    if l.values(true, i).is_none() {
        require(r.is_err(), "invalid input data are rejected");
        stop()
    }
    let mut v = match l.values(false, o) {
        Some(v) => v,
        None => {
            require(r.is_err(), "invalid output data are rejected");
            stop()
        }
    };
    for (a, x) in set {
        v[a.module][a.channel] = x.clone();
    }
    match (r, l.image(&v)) {
        (Ok(r), Some(w)) => require(r == w, "the output image follows the device, except for the written channels"),
        (Err(_), None) => stop(),
        (Ok(_), None) => require(false, "a value that cannot be encoded is rejected"),
        (Err(_), Some(_)) => require(false, "values that can be encoded are accepted"),
    }
}
/// exactly the addresses of existing channels are accepted
pub fn accepted() {
    let mut l = plant();
    let c: usize = any("channel");
    for m in 0..l.types.len() {
        let n = l.types[m].channel_count();
        let r = l.coupler.set_output(&Address { module: m, channel: c }, ChannelValue::Bit(true));
        require(r.is_ok() == (c < n), "a channel is accepted exactly if the module has it");
    }
    let m: usize = any("module");
    assume(m >= l.types.len());
    let r = l.coupler.set_output(&Address { module: m, channel: c }, ChannelValue::Bit(true));
    require(r.is_err(), "a missing module is rejected");
}
pub fn accepted_each() {
    let t = supported(part(SUPPORTED));
    let mut c = coupler(&[t.clone()], &[0xFFFF, 0xFFFF]);
    let a = Address { module: any("module"), channel: any("channel") };
    let r = c.set_output(&a, any_value(2));
    require(
        r.is_ok() == (a.module == 0 && a.channel < t.channel_count()),
        "exactly the channels of the module are accepted",
    );
}
fn put(l: &mut Line, a: &Address, v: &ChannelValue) {
    require(l.coupler.set_output(a, v.clone()).is_ok(), "an existing channel is accepted");
}
/// one write, then none
pub fn once() {
    let mut l = plant();
    let a = address(&l, part(CHANNELS));
    let v = fitting(&l.types[a.module]);
    put(&mut l, &a, &v);
    cycle(&mut l, &[(a, v)]);
    cycle(&mut l, &[]);
}
/// nothing written
pub fn none() {
    let mut l = plant();
    for _ in 0..2 {
        cycle(&mut l, &[]);
    }
}
/// any value at all
pub fn any_kind() {
    let mut l = plant();
    let a = address(&l, part(CHANNELS));
    let v = any_value(2);
    put(&mut l, &a, &v);
    cycle(&mut l, &[(a, v)]);
}
/// rejected addresses have no effect
pub fn rejected() {
    let mut l = plant();
    let m: u8 = any("module");
    let c: u8 = any("channel");
    for k in 0..8 {
        if (m & 7) as usize == k {
            let r = l.coupler.set_output(&Address { module: k, channel: (c & 15) as usize }, any_value(2));
            assume(r.is_err());
        }
    }
    cycle(&mut l, &[]);
}
/// two writes: the last one wins, others stand side by side
pub fn two() {
    let mut l = plant();
    // one channel of each half of each module
    let k = part(if thorough() { CHANNELS * CHANNELS } else { 81 });
    let few = [0, 3, 5, 9, 11, 13, 19, 20, 21];
    let (x, y) = if thorough() { (k / CHANNELS, k % CHANNELS) } else { (few[k / 9], few[k % 9]) };
    let (a, b) = (address(&l, x), address(&l, y));
    let v = fitting(&l.types[a.module]);
    let w = fitting(&l.types[b.module]);
    put(&mut l, &a, &v);
    put(&mut l, &b, &w);
    cycle(&mut l, &[(a, v), (b, w)]);
    cycle(&mut l, &[]);
}
/// single bits, of which the device has already reported one
const BITS: usize = 16 + 4 + 8 + 4;
fn digital() -> Line {
    line(&[
        ModuleType::UR20_16DO_P,
        ModuleType::UR20_4DO_P_2A,
        ModuleType::UR20_4DI_P,
        ModuleType::UR20_8DO_P,
        ModuleType::UR20_4RO_CO_255,
    ])
}
fn bit_address(l: &Line, k: usize) -> Address {
    // without the inputs
    address(l, if k < 20 { k } else { k + 4 })
}
fn bit_value() -> ChannelValue {
    if any("disabled") {
        return ChannelValue::Disabled;
    }
    ChannelValue::Bit(any("bit"))
}
pub fn bit_repeated() {
    let mut l = digital();
    let a = bit_address(&l, part(BITS));
    cycle(&mut l, &[]);
    let v = bit_value();
    put(&mut l, &a, &bit_value());
    put(&mut l, &a, &v);
    cycle(&mut l, &[(a, v)]);
    let v = bit_value();
    put(&mut l, &a, &v);
    cycle(&mut l, &[(a, v)]);
    cycle(&mut l, &[]);
}
pub fn bit_pair() {
    let mut l = digital();
    let few = [0, 3, 7, 8, 15, 16, 19, 20, 27, 28, 31];
    let k = part(if thorough() { BITS * BITS } else { 121 });
    let (x, y) = if thorough() { (k / BITS, k % BITS) } else { (few[k / 11], few[k % 11]) };
    let (a, b) = (bit_address(&l, x), bit_address(&l, y));
    cycle(&mut l, &[]);
    let v = bit_value();
    let w = bit_value();
    put(&mut l, &a, &v);
    put(&mut l, &b, &w);
    cycle(&mut l, &[(a, v), (b, w)]);
    let w = bit_value();
    put(&mut l, &b, &w);
    cycle(&mut l, &[(b, w)]);
    cycle(&mut l, &[]);
}
/// writes in successive cycles
pub fn successive() {
    let mut l = plant();
    let k = part(CHANNELS);
    let a = address(&l, k);
    let b = address(&l, (k + 1) % CHANNELS);
    let v = fitting(&l.types[a.module]);
    let w = fitting(&l.types[b.module]);
    let x = fitting(&l.types[a.module]);
    put(&mut l, &a, &v);
    cycle(&mut l, &[(a, v)]);
    put(&mut l, &b, &w);
    put(&mut l, &a, &x);
    cycle(&mut l, &[(b, w), (a, x)]);
    cycle(&mut l, &[]);
}
/// all outputs at once
pub fn all() {
    let mut l = plant();
    let mut set = Vec::new();
    for k in 0..CHANNELS {
        let a = address(&l, k);
        let v = fitting(&l.types[a.module]);
        put(&mut l, &a, &v);
        set.push((a, v));
    }
    cycle(&mut l, &set);
    cycle(&mut l, &[]);
}
pub fn all_bits() {
    let mut l = digital();
    let mut set = Vec::new();
    // in the order of the addresses, or the other way round
    let backwards = part(2) == 1;
    for k in 0..BITS {
        let a = bit_address(&l, if backwards { BITS - 1 - k } else { k });
        let v = bit_value();
        put(&mut l, &a, &v);
        set.push((a, v));
    }
    cycle(&mut l, &set);
    cycle(&mut l, &[]);
}
/// some of the outputs of each module
pub fn some_of_each() {
    let mut l = plant();
    let mut set = Vec::new();
    let first = part(4);
    for m in [0, 3, 2, 4] {
        let n = l.types[m].channel_count();
        let a = Address { module: m, channel: first % n };
        let v = fitting(&l.types[m]);
        put(&mut l, &a, &v);
        set.push((a, v));
    }
    let a = Address { module: 0, channel: (first + 1) % 4 };
    let v = fitting(&l.types[0]);
    put(&mut l, &a, &v);
    set.push((a, v));
    cycle(&mut l, &set);
    cycle(&mut l, &[]);
}
/// the values that are reported already, or those that are reported later
pub fn echoed() {
    let k = part(10);
    let mut l = if k < 5 { plant() } else { digital() };
    let i = words(l.inputs, "input image");
    let (a, b) = (vec![0x0025; l.outputs], vec![0x005Au16; l.outputs]);
    let (x, y) = match (l.values(false, &a), l.values(false, &b)) {
        (Some(x), Some(y)) => (x, y),
        _ => {
            require(false, "the output data are valid");
            stop()
        }
    };
    for _ in 0..if thorough() { 150 } else { 66 } {
        cycle_with(&mut l, &[], &i, &b);
        let mut set = Vec::new();
        for m in 0..l.types.len() {
            for c in 0..l.types[m].channel_count() {
                let from = match k % 5 {
                    0 => Some(&x),
                    1 => Some(&y),
                    2 if (m + c) % 2 == 0 => Some(&x),
                    2 => Some(&y),
                    3 if c % 2 == 1 => Some(&x),
                    4 if m % 2 == 0 && c == 0 => Some(&x),
                    _ => None,
                };
                if let (Some(v), true) = (from, byte_counts(&l.types[m]).1 > 0) {
                    let (a, v) = (Address { module: m, channel: c }, v[m][c].clone());
                    put(&mut l, &a, &v);
                    set.push((a, v));
                }
            }
        }
        cycle_with(&mut l, &set, &i, &a);
        cycle_with(&mut l, &[], &i, &b);
        cycle_with(&mut l, &[], &i, &a);
    }
}
/// a write to a module that has no outputs changes nothing
pub fn no_outputs() {
    let mut l = plant();
    let c = part(4);
    let a = Address { module: 1, channel: c };
    put(&mut l, &a, &any_value(2));
    cycle(&mut l, &[]);
    cycle(&mut l, &[]);
}
/// one of 64 modules
pub fn many_modules() {
    let mut l = many(false);
    let m = if thorough() { part(MANY) } else { [0, 7, 8, 15, 19, 31, 32, 34, 47, 54, 62, 63][part(12)] };
    let n = l.types[m].channel_count();
    let a = Address { module: m, channel: n - 1 };
    let v = fitting(&l.types[m]);
    put(&mut l, &a, &v);
    let set = if byte_counts(&l.types[m]).1 > 0 { vec![(a, v)] } else { vec![] };
    cycle(&mut l, &set);
    cycle(&mut l, &[]);
}
/// a channel of each of 64 modules
pub fn many_writes() {
    let mut l = many(false);
    let mut set = Vec::new();
    let c = part(4);
    for m in 0..MANY {
        if byte_counts(&l.types[m]).1 > 0 {
            let a = Address { module: m, channel: c };
            let v = ChannelValue::Bit(any("bit"));
            put(&mut l, &a, &v);
            set.push((a, v));
        }
    }
    cycle(&mut l, &set);
    cycle(&mut l, &[]);
}
/// analog outputs with any parameters of their own
pub fn own_parameters() {
    let k = part(8);
    let t = if k < 4 { ModuleType::UR20_4AO_UI_16 } else { ModuleType::UR20_4AO_UI_16_DIAG };
    let mut l = any_line(&[t.clone(), ModuleType::UR20_8DO_P, t]);
    let a = Address { module: 2 * (k % 2), channel: k % 4 };
    let v = fitting(&l.types[0]);
    put(&mut l, &a, &v);
    cycle(&mut l, &[(a, v)]);
    cycle(&mut l, &[]);
}
