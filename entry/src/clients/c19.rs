//! C19: configurations and cycles report errors instead of panicking.
use super::plant::*;
use crate::rt::*;

fn word(o: Option<u16>) -> u16 {
    match o {
        Some(w) => w,
        None => 0xFFFF,
    }
}
fn any_address() -> Address {
    Address { module: any("module"), channel: any("channel") }
}
/// a cycle with any images
fn cycle(c: &mut Coupler, size: usize) {
    let i: [u16; 24] = any("input image");
    let o: [u16; 24] = any("output image");
    let _ = c.next(prefix(&i[..size], "input image length"), prefix(&o[..size], "output image length"));
}
/// the registers of input and output for part `k`: one of them varies
fn registers(k: usize, n: usize) -> (usize, usize) {
    if k <= n {
        (k, 0)
    } else if k <= 2 * n + 1 {
        (0, k - n - 1)
    } else {
        (n, n)
    }
}
/// a coupler without modules: any images and any other lists
pub fn empty() {
    let k = part(9);
    let p: [u16; 4] = any("parameters");
    let cfg = CouplerConfig {
        modules: vec![],
        offsets: vec![0x8000; k],
        params: if k < 5 { vec![] } else { vec![p[..k - 5].to_vec()] },
    };
    match Coupler::new(&cfg) {
        Ok(mut c) => {
            for _ in 0..3 {
                let _ = c.set_output(&any_address(), any_value(2));
                cycle(&mut c, 6);
            }
            let m: usize = any("module");
            require(c.reader(m).is_none() && c.writer(m).is_none(), "nothing can be read or written");
        }
        Err(_) => require(k > 0, "a configuration without modules is accepted"),
    }
}
fn single(t: ModuleType, k: usize, n: usize, cycles: usize) {
    let (ri, ro) = registers(k, n);
    let p: [u16; 40] = any("parameters");
    let count = params_of(&t).len() + 2;
    let cfg = CouplerConfig {
        modules: vec![t],
        offsets: vec![word(offset_at(ro, 0x0800, n)), word(offset_at(ri, 0, n))],
        params: vec![prefix(&p[..count], "number of parameters").to_vec()],
    };
    if let Ok(mut c) = Coupler::new(&cfg) {
        let _ = c.set_output(&any_address(), any_value(2));
        for _ in 0..cycles {
            cycle(&mut c, n);
        }
    }
}
macro_rules! single {
    ($($name:ident, $t:ident, $n:expr;)*) => {$(
        pub fn $name() {
            let k = part(2 * $n + 3);
            let serial = ModuleType::$t == ModuleType::UR20_1COM_232_485_422;
            single(ModuleType::$t, k, $n, if thorough() { 3 } else if serial { 2 } else { 1 });
        }
    )*};
}
single! {
    di4, UR20_4DI_P, 2;
    di8, UR20_8DI_P_2W, 2;
    do4, UR20_4DO_P, 2;
    do4a, UR20_4DO_P_2A, 2;
    do8, UR20_8DO_P, 2;
    do16, UR20_16DO_P, 2;
    ro4, UR20_4RO_CO_255, 2;
    ai12, UR20_4AI_UI_12, 5;
    ai16, UR20_4AI_UI_16, 5;
    aidiag, UR20_4AI_UI_16_DIAG, 5;
    ai8, UR20_8AI_I_16_DIAG_HD, 9;
    rtd, UR20_4AI_RTD_DIAG, 5;
    tc, UR20_4AI_TC_DIAG, 5;
    fcnt, UR20_2FCNT_100, 11;
    com, UR20_1COM_232_485_422, 9;
    sil, UR20_PF_O_1DI_SIL, 3;
}
/// analog outputs without an input offset: the parameters of one channel vary, or all of them
/// in cycles that are rejected
fn analog_out(t: ModuleType, k: usize, cycles: usize) {
    if k < 4 {
        let mut p = params_of(&t);
        let n = p.len() / 4;
        for i in 0..n {
            p[k * n + i] = any("parameter");
        }
        let cfg = CouplerConfig { modules: vec![t], offsets: vec![0x8000, 0xFFFF], params: vec![p] };
        if let Ok(mut c) = Coupler::new(&cfg) {
            let _ = c.set_output(&any_address(), any_value(2));
            for _ in 0..cycles {
                cycle(&mut c, 5);
            }
        }
        return;
    }
    let (ri, ro) = registers(k - 4, 5);
    let p: [u16; 40] = any("parameters");
    let count = params_of(&t).len() + 2;
    let input = offset_at(ri, 0, 5);
    if k - 4 == 5 {
        assume(word(input) != 0xFFFF);
    }
    let cfg = CouplerConfig {
        modules: vec![t],
        offsets: vec![word(offset_at(ro, 0x0800, 5)), word(input)],
        params: vec![prefix(&p[..count], "number of parameters").to_vec()],
    };
    if let Ok(mut c) = Coupler::new(&cfg) {
        let _ = c.set_output(&any_address(), any_value(2));
        for _ in 0..cycles {
            cycle(&mut c, 5);
        }
    }
}
pub fn ao() {
    let k = part(17);
    analog_out(ModuleType::UR20_4AO_UI_16, k, if thorough() { 3 } else { 1 });
}
pub fn aodiag() {
    let k = part(17);
    analog_out(ModuleType::UR20_4AO_UI_16_DIAG, k, if thorough() { 3 } else { 1 });
}
/// a pending value far outside of every range, or none at all, on an analog output
pub fn extremes() {
    let x = EXTREMES[part(EXTREMES.len())];
    let d: [u16; 12] = any("params");
    let e: [u16; 16] = any("params");
    let cfg = CouplerConfig {
        modules: vec![ModuleType::UR20_4AO_UI_16, ModuleType::UR20_4AO_UI_16_DIAG],
        offsets: vec![0x8000, 0xFFFF, 0x8040, 0xFFFF],
        params: vec![d.to_vec(), e.to_vec()],
    };
    if let Ok(mut c) = Coupler::new(&cfg) {
        for module in 0..2 {
            for channel in [0, 3] {
                let _ = c.set_output(&Address { module, channel }, ChannelValue::Decimal32(x));
            }
        }
        let image: [u16; 8] = any("image");
        let _ = c.next(&[], &image);
    }
}
/// lists of modules, parameters and offsets of different lengths
pub fn mismatch() {
    let k = part(SUPPORTED);
    let t = supported(k);
    let types = [t.clone(), ModuleType::UR20_4DO_P, t];
    for m in 0..4 {
        for p in 0..5 {
            let mut params = Vec::new();
            for i in 0..p {
                params.push(params_of(&types[i % 3]));
            }
            let o: [u16; 9] = any("offsets");
            let o = prefix(&o, "number of offset registers");
            let cfg = CouplerConfig { modules: types[..m].to_vec(), offsets: o.to_vec(), params };
            let c = Coupler::new(&cfg);
            if p != m || o.len() != 2 * m {
                require(c.is_err(), "lists of different lengths are rejected");
            } else {
                require(c.is_ok(), "lists for each module are accepted");
            }
        }
    }
}
/// several modules and writes
fn several(types: &[ModuleType], at: usize, n: usize, writes: usize, cycles: usize) {
    let mut offsets = Vec::new();
    let mut r = at;
    for t in types {
        let (i, o) = byte_counts(t);
        let k = offset_at(r % (n + 1), if o > 0 { 0x0800 } else { 0 }, n);
        r /= n + 1;
        if o > 0 {
            offsets.push(word(k));
            // a module with both directions has the same place in both images
            offsets.push(if i > 0 { word(k) & 0x7FFF } else { 0xFFFF });
        } else {
            offsets.push(0xFFFF);
            offsets.push(word(k));
        }
    }
    let mut coupler = match Coupler::new(&config(types, &offsets)) {
        Ok(c) => c,
        Err(_) => {
            require(false, "any offsets are accepted at first");
            stop()
        }
    };
    for _ in 0..writes {
        let m: u8 = any("module");
        let c: u8 = any("channel");
        let a = Address { module: (m & 3) as usize, channel: (c & 31) as usize };
        let v = any_value(2);
        // one module at a time
        for m in 0..types.len() {
            if a.module == m {
                let _ = coupler.set_output(&Address { module: m, channel: a.channel }, v.clone());
            }
        }
        if a.module >= types.len() {
            require(coupler.set_output(&a, v).is_err(), "an address without a module is rejected");
        }
    }
    for _ in 0..cycles {
        cycle(&mut coupler, n);
    }
}
pub fn mixed() {
    let n = if thorough() { 3 } else { 2 };
    let k = part((n + 1) * (n + 1) * (n + 1));
    several(
        &[ModuleType::UR20_4DO_P, ModuleType::UR20_8DI_P_2W, ModuleType::UR20_8DO_P],
        k, n, 2, 2,
    );
}
pub fn mixed_serial() {
    let n = if thorough() { 7 } else { 5 };
    let k = part((n + 1) * (n + 1));
    several(&[ModuleType::UR20_1COM_232_485_422, ModuleType::UR20_4RO_CO_255], k, n, 2, 2);
}
pub fn mixed_counter() {
    let n = if thorough() { 14 } else { 11 };
    let k = part((n + 1) * (n + 1));
    several(&[ModuleType::UR20_4DO_P, ModuleType::UR20_2FCNT_100], k, n, 1, 1);
}
/// more modules than there can be, and one parameter block or offset more or less
pub fn crowd() {
    const N: usize = 300;
    let k = part(5);
    let mut offsets = Vec::new();
    for m in 0..N {
        let (a, b): (u16, u16) = (any("offset"), any("offset"));
        offsets.push(if m < 2 { a } else { 0xFFFF });
        offsets.push(if m < 2 { b } else { 0xFFFF });
    }
    let mut params = vec![vec![0u16; 4]; N];
    match k {
        1 => offsets.push(0xFFFF),
        2 => {
            offsets.pop();
        }
        3 => params.push(vec![]),
        4 => {
            params.pop();
        }
        _ => {}
    }
    let r = Coupler::new(&CouplerConfig { modules: vec![ModuleType::UR20_4DI_P; N], offsets, params });
    if k > 0 {
        require(r.is_err(), "a configuration that does not match the module list is rejected");
    }
    if let Ok(mut c) = r {
        let _ = c.set_output(&any_address(), any_value(2));
        cycle(&mut c, 4);
    }
}
/// images longer than any process data
pub fn long_images() {
    let k = part(SUPPORTED * 3);
    let t = supported(k / 3);
    let first = [0usize, 0xFF, 0x7F0][k % 3];
    let (i, o) = byte_counts(&t);
    let offsets = [
        if o > 0 { 0x8000 } else { 0xFFFF },
        if i > 0 { 16 * first as u16 } else { 0xFFFF },
    ];
    let mut c = coupler(&[t], &offsets);
    let _ = c.set_output(&any_address(), any_value(2));
    for _ in 0..2 {
        let mut i = [0u16; 0x1100];
        let mut o = [0u16; 0x1100];
        let (x, y): ([u16; 12], [u16; 12]) = (any("input image"), any("output image"));
        for k in 0..12 {
            i[first + k] = x[k];
            o[k] = y[k];
        }
        let _ = c.next(&i[..any_length(0x1100)], &o[..any_length(0x1100)]);
    }
}
