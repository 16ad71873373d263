//! Shared by C17, C20 and C24: a coupler with several modules one behind the other, and what
//! it has to report, composed of what its modules report.
pub use super::plant::*;
use crate::rt::*;

pub struct Line {
    pub types: Vec<ModuleType>,
    /// first byte in the input and in the output image
    pub at: Vec<(usize, usize)>,
    /// registers of the images
    pub inputs: usize,
    pub outputs: usize,
    pub modules: Vec<Box<dyn ProcessModbusTcpData>>,
    pub coupler: Coupler,
}
fn place(next: &mut usize, n: usize) -> usize {
    // modules of more than one byte start at a register
    if n > 1 {
        *next += *next % 2;
    }
    let at = *next;
    *next += n;
    at
}
pub fn line(types: &[ModuleType]) -> Line {
    let mut params = Vec::new();
    for t in types {
        params.push(params_of(t));
    }
    line_with(types, params)
}
/// any valid parameters for each module
pub fn any_line(types: &[ModuleType]) -> Line {
    let mut params = Vec::new();
    for t in types {
        let mut p = params_of(t);
        for k in 0..p.len() {
            p[k] = any("parameter");
        }
        if is_serial(t) {
            p[0] = params_of(t)[0];
        }
        assume(try_module_of(t, &p).is_some());
        params.push(p);
    }
    line_with(types, params)
}
/// with the given parameters, which are assumed to be valid
pub fn line_with(types: &[ModuleType], params: Vec<Vec<u16>>) -> Line {
    line_from(types, params, 0)
}
/// the input data start at byte `first`
pub fn line_from(types: &[ModuleType], params: Vec<Vec<u16>>, first: usize) -> Line {
    let mut at = Vec::new();
    let mut offsets = Vec::new();
    let mut modules = Vec::new();
    let (mut i, mut o) = (first, 0);
    let mut list = Vec::new();
    for (k, t) in types.iter().enumerate() {
        let (ni, no) = byte_counts(t);
        let p = (place(&mut i, ni), place(&mut o, no));
        at.push(p);
        offsets.push(if no > 0 { 0x8000 + 8 * p.1 as u16 } else { 0xFFFF });
        offsets.push(if ni > 0 { 8 * p.0 as u16 } else { 0xFFFF });
        modules.push(module_of(t, &params[k]));
        list.push(real(t));
    }
    let coupler = match Coupler::new(&CouplerConfig { modules: list, offsets, params }) {
        Ok(c) => c,
        Err(_) => {
            require(false, "a valid configuration is accepted");
            stop()
        }
    };
    Line {
        types: types.to_vec(),
        at,
        inputs: (i + 1) / 2,
        outputs: (o + 1) / 2,
        modules,
        coupler,
    }
}
fn own(w: &[u16], at: usize, n: usize) -> Vec<u16> {
    let mut v = Vec::new();
    if n == 1 {
        v.push(if at % 2 == 0 { w[at / 2] & 0x00FF } else { w[at / 2] / 256 });
    } else {
        for k in 0..n / 2 {
            v.push(w[at / 2 + k]);
        }
    }
    v
}
/// a byte of a module of one byte also has no own high byte
fn decoded(r: Result<Vec<ChannelValue>, Error>) -> Option<Vec<ChannelValue>> {
    match r {
        Ok(v) => Some(v),
        Err(_) => None,
    }
}
impl Line {
    /// the values in an image, if every module can read it
    pub fn values(&self, input: bool, w: &[u16]) -> Option<Vec<Vec<ChannelValue>>> {
        let mut all = Vec::new();
        for m in 0..self.types.len() {
            let (ni, no) = byte_counts(&self.types[m]);
            let (n, at) = if input { (ni, self.at[m].0) } else { (no, self.at[m].1) };
            if n == 0 {
                all.push(vec![ChannelValue::None; self.types[m].channel_count()]);
            } else {
                let x = own(w, at, n);
                let m = &self.modules[m];
                all.push(decoded(if input { m.process_input_data(&x) } else { m.process_output_data(&x) })?);
            }
        }
        Some(all)
    }
    /// the image of values, if every module can write it
    pub fn image(&self, v: &[Vec<ChannelValue>]) -> Option<Vec<u16>> {
        let mut w = vec![0u16; self.outputs];
        for m in 0..self.types.len() {
            let (_, n) = byte_counts(&self.types[m]);
            if n > 0 {
                match self.modules[m].process_output_values(&v[m]) {
                    Ok(x) => {
                        let at = self.at[m].1;
                        if n == 1 {
                            w[at / 2] += if at % 2 == 0 { x[0] } else { x[0] * 256 };
                        } else {
                            for k in 0..n / 2 {
                                w[at / 2 + k] = x[k];
                            }
                        }
                    }
                    Err(_) => return None,
                }
            }
        }
        Some(w)
    }
}
/// 64 modules, as many as a coupler can have
pub const MANY: usize = 64;
pub fn many_types(serial: bool) -> Vec<ModuleType> {
    let mut v = Vec::new();
    for k in 0..MANY {
        v.push(match k % 8 {
            0 => ModuleType::UR20_4DO_P,
            1 => ModuleType::UR20_8DI_P_2W,
            2 => ModuleType::UR20_8DO_P,
            3 => ModuleType::UR20_16DO_P,
            4 => ModuleType::UR20_4DI_P,
            5 => ModuleType::UR20_PF_O_1DI_SIL,
            6 => ModuleType::UR20_4RO_CO_255,
            _ if serial => ModuleType::UR20_1COM_232_485_422,
            _ => ModuleType::UR20_16DO_P,
        });
    }
    v
}
pub fn many(serial: bool) -> Line {
    line(&many_types(serial))
}
pub fn words(n: usize, name: &'static str) -> Vec<u16> {
    let w: [u16; 128] = any(name);
    w[..n].to_vec()
}
/// images of a long run, in which the serial modules go on at their own pace; the serial data
/// and the registers of the other modules are arbitrary in some bits
pub fn run_input(l: &Line, c: usize, o: &[u16]) -> Vec<u16> {
    let x: [u16; 4] = any("input");
    let mut w = vec![0u16; l.inputs];
    for k in 0..w.len() {
        w[k] = ((c * 7 + k * 13) % 256) as u16;
    }
    for m in 0..l.types.len() {
        let at = l.at[m].0 / 2;
        let (n, _) = byte_counts(&l.types[m]);
        if is_serial(&l.types[m]) {
            let tx = (o[l.at[m].1 / 2] / 8) % 4;
            let ack = if (c + m) % 3 == 1 { (tx + 3) % 4 } else { tx };
            let rx = (c / (1 + m % 2)) % 4;
            let data = if (c + m) % 5 == 4 { 0 } else { 1 + (c + m) % 3 };
            w[at] = 0x80 + 32 * ack + 8 * rx as u16 + (data > 0) as u16 + 2 * (c % 7 == 3) as u16 + 256 * data as u16;
            w[at + 1] = x[0];
        } else if n > 0 {
            w[at] ^= x[1 + m % 3] & 0x0003;
        }
    }
    w
}
/// the registers of the modules that are not serial; the frames are those of the last answer
pub fn run_output(l: &Line, c: usize, last: &[u16]) -> Vec<u16> {
    let x: u16 = any("output");
    let mut w = last.to_vec();
    for m in 0..l.types.len() {
        let (_, n) = byte_counts(&l.types[m]);
        let at = l.at[m].1 / 2;
        if !is_serial(&l.types[m]) && n > 1 {
            for k in 0..n / 2 {
                w[at + k] = ((c * 5 + m + k * 3) % 64) as u16;
            }
        } else if n == 1 && c % 2 == 0 {
            w[at] ^= (x & 0x0101) | 0x0402;
        }
    }
    w
}
/// a value that fits the channels of a module
pub fn fitting(t: &ModuleType) -> ChannelValue {
    if any("disabled") {
        return ChannelValue::Disabled;
    }
    match t {
        ModuleType::UR20_4AO_UI_16 | ModuleType::UR20_4AO_UI_16_DIAG => ChannelValue::Decimal32(any("decimal")),
        ModuleType::UR20_2FCNT_100 => {
            ChannelValue::FcntOut(FcOut { duration: any_duration(), command: any_command() })
        }
        _ => ChannelValue::Bit(any("bit")),
    }
}
