//! C15: each module sees exactly its own window of the process image.
use super::line::*;
use crate::rt::*;

fn decode(input: bool, m: &dyn ProcessModbusTcpData, w: &[u16]) -> Result<Vec<ChannelValue>, Error> {
    if input { m.process_input_data(w) } else { m.process_output_data(w) }
}
fn image(
    input: bool,
    l: &[(&dyn ProcessModbusTcpData, &ModuleOffset)],
    w: &[u16],
) -> Result<Vec<Vec<ChannelValue>>, Error> {
    if input { process_input_data(l, w) } else { process_output_data(l, w) }
}
/// the words of `n` bytes from byte `at` on
fn window(w: &[u16], register: usize, high: bool, n: usize) -> Vec<u16> {
    let mut v = Vec::new();
    if !high {
        for i in 0..(if n < 2 { 1 } else { n / 2 }) {
            v.push(w[register + i]);
        }
    } else if n < 2 {
        v.push(w[register] / 256);
    } else {
        for i in 0..n / 2 {
            v.push(w[register + i] / 256 + (w[register + i + 1] % 256) * 256);
        }
    }
    v
}
fn same(own: Result<Vec<ChannelValue>, Error>, r: Result<Vec<Vec<ChannelValue>>, Error>, may_reject: bool) {
    match (own, r) {
        (Ok(x), Ok(v)) => {
            require(v.len() == 1, "one module");
            require(v[0] == x, "the module sees its own bytes");
        }
        (Ok(_), Err(_)) => require(may_reject, "a complete window is accepted"),
        (Err(_), Ok(_)) => require(false, "an invalid window is rejected"),
        (Err(_), Err(_)) => (),
    }
}
fn one(input: bool, part: usize, size: usize) {
    let t = supported(part / (size + 1));
    let m = enabled(&t);
    let (i, o) = byte_counts(&t);
    let n = if input { i } else { o };
    let base = if input { 0 } else { 0x0800 };
    let w: [u16; 16] = any("image");
    let w = prefix(&w[..size], "image length");
    let at = offset_at(part % (size + 1), base, size);
    let other: Option<u16> = any("offset of the other direction");
    let off =
        if input { ModuleOffset { input: at, output: other } } else { ModuleOffset { input: other, output: at } };
    let r = image(input, &[(&*m, &off)], w);
    match at {
        None => match r {
            Ok(v) => {
                require(v.len() == 1 && v[0].len() == t.channel_count(), "one value per channel");
                for x in &v[0] {
                    require(*x == ChannelValue::None, "a module without an offset reports empty channels");
                }
            }
            Err(_) => require(false, "a module without an offset is accepted"),
        },
        Some(a) => {
            let register = (a / 16) as usize;
            let bit = a % 16;
            let words = if n < 2 { 1 } else { n / 2 };
            if bit != 0 && bit != 8 {
                require(r.is_err(), "an offset inside a byte is rejected");
            } else if register < base {
                require(r.is_err(), "an offset before the process data is rejected");
            } else if register - base + words + (bit == 8 && n > 1) as usize > w.len() {
                require(r.is_err(), "an image that does not contain the window is rejected");
            } else if n == 0 {
                // nothing to read
                if let Ok(v) = r {
                    for x in &v[0] {
                        require(*x == ChannelValue::None, "a module without such data reports empty channels");
                    }
                }
            } else {
                if bit == 0 {
                    same(decode(input, &*m, &window(w, register - base, false, n)), r, false);
                } else {
                    same(decode(input, &*m, &window(w, register - base, true, n)), r, n > 1);
                }
            }
        }
    }
}
pub fn input() {
    let k = part(VARIANTS * 13);
    one(true, k, 12);
}
pub fn output() {
    let k = part(VARIANTS * 13);
    one(false, k, 12);
}
/// windows far behind in long images
const FAR: [usize; 7] = [0x7C, 0x80, 0xF4, 0xFF, 0x100, 0x3FF, 0x7F0];
fn far(input: bool, part: usize) {
    let high = part % 2 == 1;
    let length = part / 2 % 3;
    let register = FAR[part / 6 % FAR.len()];
    let t = supported(part / 6 / FAR.len());
    let m = enabled(&t);
    let (i, o) = byte_counts(&t);
    let n = if input { i } else { o };
    if n == 0 {
        return;
    }
    // the last word of the window
    let end = register + (if n < 2 { 1 } else { n / 2 }) + (high && n > 1) as usize;
    let mut w = [0u16; 0x810];
    let d: [u16; 12] = any("image");
    for k in 0..12 {
        w[register + k - 1] = d[k];
    }
    let w = &w[..[end - 1, end, 0x800][length]];
    let a = (if input { 0 } else { 0x8000 }) + 16 * register as u16 + if high { 8 } else { 0 };
    let off = if input {
        ModuleOffset { input: Some(a), output: None }
    } else {
        ModuleOffset { input: None, output: Some(a) }
    };
    let r = image(input, &[(&*m, &off)], w);
    if w.len() < end {
        require(r.is_err(), "an image that does not contain the window is rejected");
    } else {
        same(decode(input, &*m, &window(w, register, high, n)), r, high && n > 1);
    }
}
pub fn far_input() {
    far(true, part(VARIANTS * 6 * FAR.len()));
}
pub fn far_output() {
    far(false, part(VARIANTS * 6 * FAR.len()));
}
/// several modules: each one as if it were alone
fn list(input: bool, types: &[ModuleType], part: usize, size: usize) {
    let base = if input { 0 } else { 0x0800 };
    let w: [u16; 16] = any("image");
    let w = prefix(&w[..size], "image length");
    let mut modules = Vec::new();
    let mut offsets = Vec::new();
    let mut r = part;
    for t in types {
        modules.push(enabled(t));
        let at = offset_at(r % (size + 1), base, size);
        r /= size + 1;
        offsets.push(if input {
            ModuleOffset { input: at, output: None }
        } else {
            ModuleOffset { input: None, output: at }
        });
    }
    let mut l: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = Vec::new();
    for i in 0..types.len() {
        l.push((&*modules[i], &offsets[i]));
    }
    let r = image(input, &l, w);
    let mut bad = false;
    for i in 0..types.len() {
        match image(input, &l[i..i + 1], w) {
            Ok(x) => {
                if let Ok(v) = &r {
                    require(v.len() == types.len(), "one list of values per module");
                    require(v[i] == x[0], "the values of a module do not depend on the others");
                }
            }
            Err(_) => {
                bad = true;
                require(r.is_err(), "a list with an invalid window is rejected");
            }
        }
    }
    if !bad {
        require(r.is_ok(), "a list of valid windows is accepted");
    }
}
fn size() -> usize {
    if thorough() {
        8
    } else {
        4
    }
}
macro_rules! lists {
    ($($name:ident, $input:expr, $a:expr, $b:expr, $c:expr;)*) => {$(
        pub fn $name() {
            let n = size();
            let k = part((n + 1) * (n + 1) * (n + 1));
            list($input, &[$a, $b, $c], k, n);
        }
    )*};
}
lists! {
    list_input, true, ModuleType::UR20_4DI_P, ModuleType::UR20_4AI_UI_12, ModuleType::UR20_8DI_P_2W;
    list_input_serial, true, ModuleType::UR20_PF_O_1DI_SIL, ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_4DI_P;
    list_input_foreign, true, ModuleType::UR20_4DO_P, ModuleType::UR20_8DI_P_2W, ModuleType::UR20_PF_O_1DI_SIL;
    list_output, false, ModuleType::UR20_4DO_P, ModuleType::UR20_4AO_UI_16, ModuleType::UR20_8DO_P;
    list_output_serial, false, ModuleType::UR20_16DO_P, ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_4RO_CO_255;
    list_output_foreign, false, ModuleType::UR20_4DI_P, ModuleType::UR20_8DO_P, ModuleType::UR20_4DO_P_2A;    list_input_wide, true, ModuleType::UR20_8DI_P_2W, WIDE, ModuleType::UR20_1COM_232_485_422;
    list_output_wide, false, WIDE, ModuleType::UR20_4DO_P, WIDE;
}
/// as many modules as a coupler can have
pub fn many_modules() {
    let k = part(2);
    let input = k == 0;
    let l = many(true);
    let mut offsets = Vec::new();
    for m in 0..MANY {
        let (ni, no) = byte_counts(&l.types[m]);
        offsets.push(ModuleOffset {
            input: if ni > 0 { Some(8 * l.at[m].0 as u16) } else { None },
            output: if no > 0 { Some(0x8000 + 8 * l.at[m].1 as u16) } else { None },
        });
    }
    let mut w = words(if input { l.inputs } else { l.outputs }, "image");
    for m in 0..MANY {
        if is_serial(&l.types[m]) {
            // frames of up to 3 bytes
            let at = if input { l.at[m].0 } else { l.at[m].1 };
            w[at / 2] &= 0x03FF;
        }
    }
    let mut all: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = Vec::new();
    for m in 0..MANY {
        all.push((&*l.modules[m], &offsets[m]));
    }
    let r = image(input, &all, &w);
    match (l.values(input, &w), r) {
        (Some(x), Ok(v)) => require(v == x, "each module sees its own bytes"),
        (Some(_), Err(_)) => require(false, "a list of valid windows is accepted"),
        (None, Ok(_)) => require(false, "a list with an invalid window is rejected"),
        (None, Err(_)) => (),
    }
}
