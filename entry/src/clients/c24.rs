//! C24: after a successful cycle the coupler reports exactly the values of its images.
use super::line::*;
use crate::rt::*;

/// what a serial module shows of a frame of the device
fn received(v: &ChannelValue) -> ChannelValue {
    match v {
        ChannelValue::ComRsIn(f) if f.data_available && f.data.len() > 0 => ChannelValue::Bytes(f.data.clone()),
        _ => ChannelValue::None,
    }
}
/// what it shows of the frame in the output image
fn sent(v: &ChannelValue, last: &mut usize) -> ChannelValue {
    match v {
        ChannelValue::ComRsOut(f) => {
            let new = f.tx_cnt != *last;
            *last = f.tx_cnt;
            if new && f.data.len() > 0 {
                ChannelValue::Bytes(f.data.clone())
            } else {
                ChannelValue::None
            }
        }
        _ => ChannelValue::None,
    }
}
fn check(l: &Line, i: &[u16], o: &[u16], ok: bool, last: &mut [usize]) {
    let (mut x, mut y) = match (l.values(true, i), l.values(false, o)) {
        (Some(x), Some(y)) => (x, y),
        _ => {
            require(!ok, "invalid images are rejected");
            stop()
        }
    };
    if !ok {
        stop()
    }
    for m in 0..l.types.len() {
        if is_serial(&l.types[m]) {
            x[m][0] = received(&x[m][0]);
            y[m][0] = sent(&y[m][0], &mut last[m]);
        }
    }
    let (vi, vo) = (l.coupler.inputs(), l.coupler.outputs());
    require(vi.len() == l.types.len() && vo.len() == l.types.len(), "one list of values per module");
    for m in 0..l.types.len() {
        require(vi[m].len() == x[m].len() && vo[m].len() == y[m].len(), "one value per channel");
        for c in 0..x[m].len() {
            require(vi[m][c] == x[m][c], "the input values are those of the input image");
            require(vo[m][c] == y[m][c], "the output values are those of the output image");
        }
    }
}
fn cycle(l: &mut Line, last: &mut [usize], short: bool) {
    let mut i = words(l.inputs, "input image");
    let mut o = words(l.outputs, "output image");
    for m in 0..l.types.len() {
        if short && is_serial(&l.types[m]) {
            // frames of up to 3 bytes
            i[l.at[m].0 / 2] &= 0x03FF;
            o[l.at[m].1 / 2] &= 0x03FF;
        }
    }
    let ok = l.coupler.next(&i, &o).is_ok();
    check(l, &i, &o, ok, last);
}
fn cycles(types: &[ModuleType], n: usize, write: bool) {
    let mut l = line(types);
    let mut last = vec![0usize; types.len()];
    for _ in 0..n {
        if write {
            for m in 0..types.len() {
                if !is_serial(&types[m]) {
                    let a = Address { module: m, channel: 0 };
                    require(l.coupler.set_output(&a, fitting(&types[m])).is_ok(), "a channel can be written");
                }
            }
        }
        cycle(&mut l, &mut last, n > 2);
    }
}
pub fn single() {
    let t = supported(part(VARIANTS));
    cycles(&[t], 2, false);
}
pub fn digital() {
    cycles(
        &[ModuleType::UR20_8DI_P_2W, ModuleType::UR20_4DO_P, ModuleType::UR20_4DI_P, ModuleType::UR20_8DO_P,
          ModuleType::UR20_4DI_P, ModuleType::UR20_16DO_P],
        2, part(2) == 1,
    );
}
pub fn analog() {
    cycles(
        &[ModuleType::UR20_4AI_UI_16, ModuleType::UR20_4AO_UI_16, ModuleType::UR20_4AI_RTD_DIAG,
          ModuleType::UR20_4AO_UI_16_DIAG, ModuleType::UR20_4DI_P],
        2, part(2) == 1,
    );
}
pub fn counter() {
    cycles(
        &[ModuleType::UR20_4RO_CO_255, ModuleType::UR20_2FCNT_100, ModuleType::UR20_PF_O_1DI_SIL],
        2, part(2) == 1,
    );
}
pub fn serial() {
    cycles(
        &[ModuleType::UR20_4DO_P, ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_4DI_P],
        if thorough() { 5 } else { 4 }, part(2) == 1,
    );
}
pub fn two_serial() {
    cycles(
        &[ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_4DI_P, ModuleType::UR20_1COM_232_485_422],
        if thorough() { 4 } else { 3 }, false,
    );
}
pub fn wide_serial() {
    cycles(
        &[WIDE, ModuleType::UR20_4DO_P, ModuleType::UR20_1COM_232_485_422],
        if thorough() { 4 } else { 3 }, part(2) == 1,
    );
}
/// as many modules as a coupler can have
pub fn many_modules() {
    let mut l = many(true);
    let mut last = vec![0usize; MANY];
    for _ in 0..2 {
        cycle(&mut l, &mut last, true);
    }
}
/// a serial module through many cycles, of which single ones bring a new frame
pub fn many_cycles() {
    let mut l = line(&[ModuleType::UR20_4DO_P, ModuleType::UR20_1COM_232_485_422]);
    let mut last = vec![0usize; 2];
    for c in 0..40usize {
        let mut i = vec![0u16; l.inputs];
        let mut o = vec![0u16; l.outputs];
        let x: u16 = any("first data");
        i[0] = 0x0201 + 8 * (c as u16 / 3 % 4);
        i[1] = x;
        o[0] = x & 0x000F;
        o[1] = 0x0200 + 8 * (c as u16 / 2 % 4);
        o[2] = x;
        let ok = l.coupler.next(&i, &o).is_ok();
        check(&l, &i, &o, ok, &mut last);
    }
}
/// modules of the same type with parameters of their own
pub fn own_parameters() {
    let k = part(7);
    let t = match k {
        0 => ModuleType::UR20_4AI_UI_16,
        1 => ModuleType::UR20_4AI_UI_16_DIAG,
        2 => ModuleType::UR20_8AI_I_16_DIAG_HD,
        3 => ModuleType::UR20_4AI_RTD_DIAG,
        4 => ModuleType::UR20_4AI_TC_DIAG,
        5 => ModuleType::UR20_4AO_UI_16,
        _ => ModuleType::UR20_4AO_UI_16_DIAG,
    };
    let mut l = any_line(&[t.clone(), ModuleType::UR20_4DO_P, t]);
    let mut last = vec![0usize; 3];
    cycle(&mut l, &mut last, false);
}
/// serial modules with frames of different lengths, in any order among modules of other types
pub fn own_frames() {
    let com = ModuleType::UR20_1COM_232_485_422;
    let k = part(3);
    let mut l = match k {
        0 => any_line(&[ModuleType::UR20_4DI_P, com.clone(), WIDE]),
        1 => any_line(&[WIDE, ModuleType::UR20_16DO_P, com]),
        _ => any_line(&[WIDE, com, WIDE]),
    };
    let mut last = vec![0usize; 3];
    for _ in 0..2 {
        cycle(&mut l, &mut last, true);
    }
}
/// long images: the data of the modules far behind, or others behind them
pub fn long_images() {
    let k = part(SUPPORTED * 4);
    let types = [supported(k / 4), ModuleType::UR20_4DI_P, ModuleType::UR20_4DO_P];
    let mut params = Vec::new();
    for t in &types {
        params.push(params_of(t));
    }
    let first = [0, 0xFF, 0x100, 0x7E0][k % 4];
    let mut l = line_from(&types, params, 2 * first);
    let mut last = vec![0usize; 3];
    for _ in 0..2 {
        let mut i = [0u16; 0x1100];
        let mut o = [0u16; 0x1100];
        let (x, y) = (words(l.inputs - first, "input image"), words(l.outputs, "output image"));
        for k in 0..x.len() {
            i[first + k] = x[k];
        }
        for k in 0..y.len() {
            o[k] = y[k];
        }
        let (a, b) = (any_length(i.len()), any_length(o.len()));
        if a < l.inputs || b < l.outputs {
            require(l.coupler.next(&i[..a], &o[..b]).is_err(), "short images are rejected");
        } else {
            let ok = l.coupler.next(&i[..a], &o[..b]).is_ok();
            check(&l, &i, &o, ok, &mut last);
        }
    }
}
/// a long run of modules of all types; some channels are written
pub fn run() {
    let k = part(3);
    let types: Vec<ModuleType> = match k {
        0 => (0..SUPPORTED).map(supported).collect(),
        1 => vec![WIDE, ModuleType::UR20_4DO_P, ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_4AO_UI_16, WIDE],
        _ => vec![ModuleType::UR20_8DO_P, ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_4RO_CO_255, ModuleType::UR20_2FCNT_100],
    };
    let mut l = line(&types);
    let mut last = vec![0usize; types.len()];
    let mut w = vec![0u16; l.outputs];
    for c in 0..if thorough() { 600 } else if k > 0 { 300 } else { 80 } {
        let i = run_input(&l, c, &w);
        let o = run_output(&l, c, &w);
        for m in 0..types.len() {
            let a = Address { module: m, channel: c % types[m].channel_count() };
            let v = match types[m] {
                _ if (c + m) % 4 > 1 => continue,
                ModuleType::UR20_1COM_232_485_422 | WIDE => ChannelValue::Bytes(vec![c as u8; 1 + c % 9]),
                ModuleType::UR20_4AO_UI_16 | ModuleType::UR20_4AO_UI_16_DIAG => ChannelValue::Decimal32(0.5),
                ModuleType::UR20_2FCNT_100 => ChannelValue::FcntOut(FcOut::default()),
                _ => ChannelValue::Bit(any("bit")),
            };
            require(l.coupler.set_output(&a, v).is_ok(), "an existing channel is accepted");
        }
        match l.coupler.next(&i, &o) {
            Ok(x) => {
                check(&l, &i, &o, true, &mut last);
                w = x;
            }
            Err(_) => require(false, "a cycle with valid images is accepted"),
        }
    }
}
