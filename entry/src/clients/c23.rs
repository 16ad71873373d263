//! C23: the coupler's registers for modules, offsets and parameters.
use super::plant::*;
use crate::rt::*;

fn module_list(n: usize) {
    let w: [u16; 24] = any("registers");
    decoded(&w[..n]);
}
fn decoded(w: &[u16]) {
    let n = w.len();
    let r = module_list_from_registers(w);
    if n % 2 == 1 || n == 0 {
        require(r.is_err(), "an odd or empty list of registers is rejected");
        return;
    }
    let mut unknown = false;
    for i in 0..n / 2 {
        let code = w[2 * i] as u32 * 0x1_0000 + w[2 * i + 1] as u32;
        match ModuleType::try_from_u32(code) {
            Ok(t) => {
                if let Ok(l) = &r {
                    require(l.len() == n / 2, "one type per pair of registers");
                    require(l[i] == t, "the types stand in the order of the registers, high word first");
                }
            }
            Err(_) => {
                unknown = true;
                require(r.is_err(), "a list with an unknown code is rejected");
            }
        }
    }
    if !unknown {
        require(r.is_ok(), "a list of catalogued codes is accepted");
    }
}
pub fn modules() {
    let n = part(if thorough() { 25 } else { 9 });
    module_list(n);
}
pub fn offsets() {
    let w: [u16; 13] = any("registers");
    for n in 0..14 {
        let o = offsets_of_process_data(&w[..n]);
        require(o.len() == n / 2, "two registers per module");
        for i in 0..n / 2 {
            require(
                o[i].output == if w[2 * i] == 0xFFFF { None } else { Some(w[2 * i]) },
                "the first register is the output offset",
            );
            require(
                o[i].input == if w[2 * i + 1] == 0xFFFF { None } else { Some(w[2 * i + 1]) },
                "the second register is the input offset",
            );
        }
    }
}
fn registers(t: &ModuleType) -> u16 {
    match t {
        ModuleType::UR20_4DI_P | ModuleType::UR20_4DO_P | ModuleType::UR20_4DO_P_2A => 4,
        ModuleType::UR20_4RO_CO_255 => 4,
        ModuleType::UR20_8DI_P_2W | ModuleType::UR20_8DO_P => 8,
        ModuleType::UR20_4AI_UI_12 | ModuleType::UR20_4AI_UI_16 => 9,
        ModuleType::UR20_4AI_UI_16_DIAG => 21,
        ModuleType::UR20_8AI_I_16_DIAG_HD => 33,
        ModuleType::UR20_4AI_RTD_DIAG | ModuleType::UR20_4AI_TC_DIAG => 29,
        ModuleType::UR20_4AO_UI_16 => 12,
        ModuleType::UR20_4AO_UI_16_DIAG => 16,
        ModuleType::UR20_2FCNT_100 => 2,
        ModuleType::UR20_1COM_232_485_422 => 10,
        _ => 0,
    }
}
/// as many modules as a coupler can have
pub fn many_modules() {
    // one unknown code, the others are catalogued
    let mut c = [0x0009u16, 0x1F84].repeat(64);
    for m in 0..64 {
        if m % 3 == 0 {
            c[2 * m] = 0x0103;
            c[2 * m + 1] = 0xAFD0;
        } else if m % 5 == 0 {
            c[2 * m] = 0x0E41;
            c[2 * m + 1] = 0x3FED;
        }
    }
    let m = part(64);
    c[2 * m] = any("high");
    c[2 * m + 1] = any("low");
    decoded(&c);
    decoded(&c[..2 * m + 1]);
    decoded(&c[..2 * m + 2]);
    let w: [u16; 129] = any("offset registers");
    for n in [127usize, 128, 129] {
        let o = offsets_of_process_data(&w[..n]);
        require(o.len() == n / 2, "two registers per module");
        for i in 0..n / 2 {
            require(
                o[i].output == if w[2 * i] == 0xFFFF { None } else { Some(w[2 * i]) },
                "the first register is the output offset",
            );
            require(
                o[i].input == if w[2 * i + 1] == 0xFFFF { None } else { Some(w[2 * i + 1]) },
                "the second register is the input offset",
            );
        }
    }
}
/// lists that no coupler has are not cut off either
pub fn long_lists() {
    let n = [0x100, 0x101, 0x102, 0x110, 0x200, 0x202][part(6)];
    let mut c = [0x0009u16, 0x1F84].repeat(0x101);
    // one pair among the first and one among the last
    for m in [3, n / 2 - 1] {
        c[2 * m] = any("high");
        c[2 * m + 1] = any("low");
    }
    decoded(&c[..n]);
    let o = offsets_of_process_data(&c[..n]);
    require(o.len() == n / 2, "two registers per module");
    require(o[n / 2 - 1].input == if c[2 * (n / 2) - 1] == 0xFFFF { None } else { Some(c[2 * (n / 2) - 1]) },
        "the second register is the input offset");
}
/// the parameter blocks of couplers with up to 64 modules
pub fn parameters() {
    let n = if thorough() { part(65) } else { 16 * part(5) };
    let mut l = Vec::new();
    for _ in 0..n {
        let k: u8 = any("type");
        assume((k as usize) < SUPPORTED);
        l.push(supported(k as usize));
    }
    let p = param_addresses_and_register_counts(&l);
    require(p.len() == n, "one block per module");
    for i in 0..n {
        require(p[i].0 == 0xC000 + 256 * i as u16, "the block of module i starts at 0xC000 + 256 * i");
        require(p[i].1 == registers(&l[i]), "the block has the registers of the module");
    }
}
pub fn addresses() {
    let a: u16 = any("bit address");
    let (r, b) = to_register_address(a);
    require(r == a / 16 && b == (a % 16) as usize, "register and bit of an address");
    require(to_bit_address(r, b) == a, "merging register and bit gives the address back");
    let r: u16 = any("register");
    let b: usize = any("bit");
    assume(r < 0x1000 && b < 16);
    require(to_register_address(to_bit_address(r, b)) == (r, b), "splitting gives register and bit back");
}
pub fn constants() {
    require(ADDR_PACKED_PROCESS_INPUT_DATA == 0x0000, "process input data start at 0x0000");
    require(ADDR_PACKED_PROCESS_OUTPUT_DATA == 0x0800, "process output data start at 0x0800");
    require(ADDR_COUPLER_ID == 0x1000, "the coupler identification is at 0x1000");
    require(ADDR_COUPLER_STATUS == 0x100C, "the coupler status is at 0x100C");
    require(ADDR_PROCESS_OUTPUT_LEN == 0x1010, "the length of the output data is at 0x1010");
    require(ADDR_PROCESS_INPUT_LEN == 0x1011, "the length of the input data is at 0x1011");
    require(ADDR_CURRENT_MODULE_COUNT == 0x27FE, "the number of modules is at 0x27FE");
    require(ADDR_CURRENT_MODULE_LIST == 0x2A00, "the module list starts at 0x2A00");
    require(ADDR_MODULE_OFFSETS == 0x2B00, "the module offsets start at 0x2B00");
    require(ADDR_MODULE_PARAMETERS == 0xC000, "module parameters start at 0xC000");
}
