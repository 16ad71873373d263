//! Shared by the coupler clients: configurations and modules made from them.
pub use super::util::*;
use crate::rt::*;

/// parameters that enable every channel
pub fn params_of(t: &ModuleType) -> Vec<u16> {
    match t {
        ModuleType::UR20_4DI_P => vec![0; 4],
        ModuleType::UR20_8DI_P_2W => vec![0; 8],
        ModuleType::UR20_4DO_P | ModuleType::UR20_4DO_P_2A | ModuleType::UR20_4RO_CO_255 => vec![0; 4],
        ModuleType::UR20_8DO_P => vec![0; 8],
        ModuleType::UR20_4AI_UI_12 | ModuleType::UR20_4AI_UI_16 => vec![0, 1, 2, 1, 0, 1, 3, 1, 5],
        ModuleType::UR20_4AI_UI_16_DIAG => {
            vec![0, 0, 0, 0, 1, 2, 0, 0, 0, 1, 0, 0, 0, 0, 1, 3, 0, 0, 0, 1, 5]
        }
        ModuleType::UR20_8AI_I_16_DIAG_HD => {
            let mut v = vec![0];
            for i in 0..8 {
                v.extend_from_slice(&[0, 1, i % 2, 0]);
            }
            v
        }
        ModuleType::UR20_4AI_RTD_DIAG => {
            let mut v = vec![0];
            for i in 0..4 {
                v.extend_from_slice(&[i, 0, 0, 0, 0, 0, 0]);
            }
            v
        }
        ModuleType::UR20_4AI_TC_DIAG => {
            let mut v = vec![0];
            for i in 0..4 {
                v.extend_from_slice(&[i, 0, 0, 0, 0, 0, 0]);
            }
            v
        }
        ModuleType::UR20_4AO_UI_16 => vec![1, 2, 0, 1, 0, 0, 1, 3, 0, 1, 5, 0],
        ModuleType::UR20_4AO_UI_16_DIAG => vec![0, 1, 2, 0, 0, 1, 0, 0, 0, 1, 3, 0, 0, 1, 5, 0],
        ModuleType::UR20_2FCNT_100 => vec![0; 2],
        ModuleType::UR20_1COM_232_485_422 => vec![0, 1, 5, 0, 0, 0, 1, 0, 17, 19],
        &WIDE => vec![1, 2, 11, 1, 2, 1, 0, 1, 0, 255],
        _ => vec![],
    }
}
macro_rules! made {
    ($t:ty, $p:expr) => {
        match <$t>::from_modbus_parameter_data($p) {
            Ok(m) => Some(Box::new(m) as Box<dyn ProcessModbusTcpData>),
            Err(_) => None,
        }
    };
}
/// the module a coupler has to create, made without it
pub fn module_of(t: &ModuleType, p: &[u16]) -> Box<dyn ProcessModbusTcpData> {
    match try_module_of(t, p) {
        Some(m) => m,
        None => {
            require(false, "valid parameters are accepted");
            stop()
        }
    }
}
pub fn try_module_of(t: &ModuleType, p: &[u16]) -> Option<Box<dyn ProcessModbusTcpData>> {
    match t {
        ModuleType::UR20_4DI_P => made!(ur20_di_generic::Mod::<ur20_di_generic::UR20_4DI_P>, p),
        ModuleType::UR20_8DI_P_2W => made!(ur20_di_generic::Mod::<ur20_di_generic::UR20_8DI_P_2W>, p),
        ModuleType::UR20_4DO_P => made!(ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P>, p),
        ModuleType::UR20_4DO_P_2A => made!(ur20_do_generic::Mod::<ur20_do_generic::UR20_4DO_P_2A>, p),
        ModuleType::UR20_8DO_P => made!(ur20_do_generic::Mod::<ur20_do_generic::UR20_8DO_P>, p),
        ModuleType::UR20_16DO_P => made!(ur20_16do_p::Mod, p),
        ModuleType::UR20_4RO_CO_255 => made!(ur20_4ro_co_255::Mod, p),
        ModuleType::UR20_4AI_UI_12 => made!(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_12>, p),
        ModuleType::UR20_4AI_UI_16 => made!(ur20_ai_ui_generic::Mod::<ur20_ai_ui_generic::UR20_4AI_UI_16>, p),
        ModuleType::UR20_4AI_UI_16_DIAG => made!(ur20_4ai_ui_16_diag::Mod, p),
        ModuleType::UR20_8AI_I_16_DIAG_HD => made!(ur20_8ai_i_16_diag_hd::Mod, p),
        ModuleType::UR20_4AI_RTD_DIAG => made!(ur20_4ai_rtd_diag::Mod, p),
        ModuleType::UR20_4AI_TC_DIAG => made!(ur20_4ai_tc_diag::Mod, p),
        ModuleType::UR20_4AO_UI_16 => made!(ur20_4ao_ui_16::Mod, p),
        ModuleType::UR20_4AO_UI_16_DIAG => made!(ur20_4ao_ui_16_diag::Mod, p),
        ModuleType::UR20_2FCNT_100 => made!(ur20_2fcnt_100::Mod, p),
        ModuleType::UR20_1COM_232_485_422 | &WIDE => made!(Com, p),
        ModuleType::UR20_PF_O_1DI_SIL => made!(ur20_pf_o_1di_sil::Mod, p),
        _ => stop(),
    }
}
pub fn supported(k: usize) -> ModuleType {
    match k {
        0 => ModuleType::UR20_4DI_P,
        1 => ModuleType::UR20_8DI_P_2W,
        2 => ModuleType::UR20_4DO_P,
        3 => ModuleType::UR20_4DO_P_2A,
        4 => ModuleType::UR20_8DO_P,
        5 => ModuleType::UR20_16DO_P,
        6 => ModuleType::UR20_4RO_CO_255,
        7 => ModuleType::UR20_4AI_UI_12,
        8 => ModuleType::UR20_4AI_UI_16,
        9 => ModuleType::UR20_4AI_UI_16_DIAG,
        10 => ModuleType::UR20_8AI_I_16_DIAG_HD,
        11 => ModuleType::UR20_4AI_RTD_DIAG,
        12 => ModuleType::UR20_4AI_TC_DIAG,
        13 => ModuleType::UR20_4AO_UI_16,
        14 => ModuleType::UR20_4AO_UI_16_DIAG,
        15 => ModuleType::UR20_2FCNT_100,
        16 => ModuleType::UR20_1COM_232_485_422,
        18 => WIDE,
        _ => ModuleType::UR20_PF_O_1DI_SIL,
    }
}
pub const SUPPORTED: usize = 18;
/// the supported modules and the serial module with wide frames
pub const VARIANTS: usize = 19;
/// Stands for the serial module with frames of 16 bytes (its own frames have 8 bytes).
/// An unsupported type of the same number of channels serves as the name.
pub const WIDE: ModuleType = ModuleType::UR20_1COM_SAI_PRO;
pub fn real(t: &ModuleType) -> ModuleType {
    if *t == WIDE {
        ModuleType::UR20_1COM_232_485_422
    } else {
        t.clone()
    }
}
pub fn is_serial(t: &ModuleType) -> bool {
    real(t) == ModuleType::UR20_1COM_232_485_422
}
/// user data of a frame
pub fn user_data(t: &ModuleType) -> usize {
    byte_counts(t).0 - 2
}
/// module with every channel enabled
pub fn enabled(t: &ModuleType) -> Box<dyn ProcessModbusTcpData> {
    module_of(t, &params_of(t))
}
/// bytes of the process image a module owns: (inputs, outputs)
pub fn byte_counts(t: &ModuleType) -> (usize, usize) {
    match t {
        ModuleType::UR20_4DI_P | ModuleType::UR20_8DI_P_2W => (1, 0),
        ModuleType::UR20_4DO_P
        | ModuleType::UR20_4DO_P_2A
        | ModuleType::UR20_8DO_P
        | ModuleType::UR20_4RO_CO_255 => (0, 1),
        ModuleType::UR20_16DO_P => (0, 2),
        ModuleType::UR20_8AI_I_16_DIAG_HD => (16, 0),
        ModuleType::UR20_4AO_UI_16 | ModuleType::UR20_4AO_UI_16_DIAG => (0, 8),
        ModuleType::UR20_2FCNT_100 => (20, 12),
        ModuleType::UR20_1COM_232_485_422 => (8, 8),
        &WIDE => (16, 16),
        ModuleType::UR20_PF_O_1DI_SIL => (4, 0),
        _ => (8, 0),
    }
}
pub fn config(modules: &[ModuleType], offsets: &[u16]) -> CouplerConfig {
    let mut params = Vec::new();
    let mut types = Vec::new();
    for m in modules {
        params.push(params_of(m));
        types.push(real(m));
    }
    CouplerConfig { modules: types, offsets: offsets.to_vec(), params }
}
pub fn coupler(modules: &[ModuleType], offsets: &[u16]) -> Coupler {
    match Coupler::new(&config(modules, offsets)) {
        Ok(c) => c,
        Err(_) => {
            require(false, "a valid configuration is accepted");
            stop()
        }
    }
}
/// every offset of a register from `base` on below `base + n` (`r < n`: of one register) or of none of them
pub fn offset_at(r: usize, base: usize, n: usize) -> Option<u16> {
    let a: u16 = any("offset");
    if r < n {
        return Some((16 * (base + r)) as u16 + (a & 15));
    }
    let none: bool = any("no offset");
    if none {
        return None;
    }
    let reg = (a / 16) as usize;
    assume(reg < base || reg >= base + n);
    Some(a)
}
