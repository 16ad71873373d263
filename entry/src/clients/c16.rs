//! C16: the output image holds every module's words at its offset and nothing else.
use super::line::*;
use crate::rt::*;

fn any_values(t: &ModuleType) -> Vec<ChannelValue> {
    let mut v = Vec::new();
    match t {
        ModuleType::UR20_4AO_UI_16 | ModuleType::UR20_4AO_UI_16_DIAG => {
            for _ in 0..4 {
                let x: f32 = any("value");
                v.push(ChannelValue::Decimal32(x));
            }
        }
        ModuleType::UR20_1COM_232_485_422 | &WIDE => v.push(ChannelValue::ComRsOut(any_com_out(3))),
        ModuleType::UR20_2FCNT_100 => {
            for _ in 0..2 {
                let command = any_command();
                let duration = any_duration();
                v.push(ChannelValue::FcntOut(FcOut { duration, command }));
            }
        }
        _ => {
            for _ in 0..t.channel_count() {
                let (_, o) = byte_counts(t);
                if o == 0 {
                    v.push(ChannelValue::None);
                } else {
                    let b: bool = any("bit");
                    v.push(ChannelValue::Bit(b));
                }
            }
        }
    }
    v
}
fn byte(w: &[u16], k: usize) -> u16 {
    if k % 2 == 0 {
        w[k / 2] % 256
    } else {
        w[k / 2] / 256
    }
}
/// the layout the image can represent: one module behind the other, a register starting
/// with one byte may be completed by another single byte
fn layout(types: &[ModuleType], at: &[Option<u16>]) -> Option<usize> {
    let mut registers = 0;
    let mut free = false;
    for i in 0..types.len() {
        let (_, n) = byte_counts(&types[i]);
        if let Some(a) = at[i] {
            let reg = (a / 16) as usize;
            let bit = a % 16;
            if reg < 0x0800 {
                return None;
            }
            let reg = reg - 0x0800;
            if bit == 0 && reg == registers && n > 0 {
                registers = registers + (if n < 2 { 1 } else { n / 2 });
                free = n == 1;
            } else if bit == 8 && reg + 1 == registers && free && n == 1 {
                free = false;
            } else {
                return None;
            }
        }
    }
    Some(registers)
}
fn list(types: &[ModuleType], part: usize, size: usize) {
    let mut modules = Vec::new();
    let mut at = Vec::new();
    let mut values = Vec::new();
    let mut offsets = Vec::new();
    let mut r = part;
    for t in types {
        modules.push(enabled(t));
        values.push(any_values(t));
        let a = offset_at(r % (size + 1), 0x0800, size);
        r /= size + 1;
        at.push(a);
        let input: Option<u16> = any("input offset");
        offsets.push(ModuleOffset { input, output: a });
    }
    let mut l: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = Vec::new();
    for i in 0..types.len() {
        l.push((&*modules[i], &offsets[i]));
    }
    let r = process_output_values(&l, &values);
    let valid = layout(types, &at);
    let mut own = Vec::new();
    for i in 0..types.len() {
        match modules[i].process_output_values(&values[i]) {
            Ok(w) => own.push(w),
            Err(_) => {
                if at[i].is_some() {
                    require(r.is_err(), "values that cannot be encoded are rejected");
                }
                return;
            }
        }
    }
    match valid {
        None => {
            // modules without output data may be placed anywhere
            let mut foreign = false;
            for i in 0..types.len() {
                foreign = foreign || (byte_counts(&types[i]).1 == 0 && at[i].is_some());
            }
            if !foreign {
                require(r.is_err(), "a layout that cannot be represented is rejected");
            }
        }
        Some(n) => match r {
            Err(_) => require(false, "a layout without gaps and overlaps is accepted"),
            Ok(w) => {
                require(w.len() == n, "the image ends with the last module");
                let mut used = vec![false; 2 * size + 20];
                for i in 0..types.len() {
                    let (_, n) = byte_counts(&types[i]);
                    if let Some(a) = at[i] {
                        let pos = 2 * ((a / 16) as usize - 0x0800) + (a % 16) as usize / 8;
                        for k in 0..n {
                            require(
                                pos + k < 2 * w.len() && byte(&w, pos + k) == byte(&own[i], k),
                                "the bytes of a module stand at its offset",
                            );
                            used[pos + k] = true;
                        }
                    }
                }
                for k in 0..2 * w.len() {
                    require(used[k] || byte(&w, k) == 0, "bytes without a module are zero");
                }
            }
        },
    }
}
/// lists of values and modules of different lengths
pub fn list_lengths() {
    let types = [ModuleType::UR20_4DO_P, ModuleType::UR20_16DO_P];
    let a = enabled(&types[0]);
    let b = enabled(&types[1]);
    let x = ModuleOffset { input: None, output: any("offset") };
    let y = ModuleOffset { input: None, output: any("offset") };
    let l: [(&dyn ProcessModbusTcpData, &ModuleOffset); 2] = [(&*a, &x), (&*b, &y)];
    let values = [any_values(&types[0]), any_values(&types[1]), any_values(&types[0])];
    for m in 0..3 {
        for n in 0..4 {
            if m != n {
                require(
                    process_output_values(&l[..m], &values[..n]).is_err(),
                    "a list of values for other modules is rejected",
                );
            }
        }
    }
}
macro_rules! lists {
    ($($name:ident, $n:expr, $($t:expr),*;)*) => {$(
        pub fn $name() {
            let types = [$($t),*];
            let n: usize = if thorough() { $n + 2 } else { $n };
            let k = part((n + 1).pow(types.len() as u32));
            list(&types, k, n);
        }
    )*};
}
lists! {
    analog_between, 6, ModuleType::UR20_4DO_P, ModuleType::UR20_4AO_UI_16, ModuleType::UR20_8DO_P;
    analog_first, 6, ModuleType::UR20_4AO_UI_16_DIAG, ModuleType::UR20_4DO_P_2A, ModuleType::UR20_4RO_CO_255;
    bytes, 3, ModuleType::UR20_8DO_P, ModuleType::UR20_4DO_P, ModuleType::UR20_8DO_P, ModuleType::UR20_4DO_P;
    words, 4, ModuleType::UR20_8DO_P, ModuleType::UR20_16DO_P, ModuleType::UR20_4RO_CO_255;
    words_first, 4, ModuleType::UR20_16DO_P, ModuleType::UR20_8DO_P, ModuleType::UR20_16DO_P;
    serial, 6, ModuleType::UR20_4RO_CO_255, ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_8DO_P;
    counter, 8, ModuleType::UR20_8DO_P, ModuleType::UR20_2FCNT_100, ModuleType::UR20_4DO_P;
    foreign, 4, ModuleType::UR20_4DI_P, ModuleType::UR20_8DO_P, ModuleType::UR20_4AI_UI_12;
    serial_wide, 10, ModuleType::UR20_8DO_P, WIDE, ModuleType::UR20_4DO_P;
}

/// as many modules as a coupler can have
pub fn many_modules() {
    let l = many(true);
    let mut offsets = Vec::new();
    let mut values = Vec::new();
    for m in 0..MANY {
        let (_, no) = byte_counts(&l.types[m]);
        offsets.push(ModuleOffset {
            input: any("input offset"),
            output: if no > 0 { Some(0x8000 + 8 * l.at[m].1 as u16) } else { None },
        });
        values.push(if is_serial(&l.types[m]) {
            let mut o = any_com_out(2);
            o.tx_cnt &= 3;
            o.rx_cnt_ack &= 3;
            vec![ChannelValue::ComRsOut(o)]
        } else {
            any_values(&l.types[m])
        });
    }
    let mut all: Vec<(&dyn ProcessModbusTcpData, &ModuleOffset)> = Vec::new();
    for m in 0..MANY {
        all.push((&*l.modules[m], &offsets[m]));
    }
    match (l.image(&values), process_output_values(&all, &values)) {
        (Some(x), Ok(w)) => require(w == x, "the bytes of each module stand at its offset"),
        (Some(_), Err(_)) => require(false, "a layout without gaps and overlaps is accepted"),
        (None, Ok(_)) => require(false, "values that cannot be encoded are rejected"),
        (None, Err(_)) => (),
    }
}
