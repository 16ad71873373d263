//! C02: the registry of supported module types is consistent.
use super::util::*;
use crate::rt::*;

fn config(t: ModuleType, params: &[u16]) -> CouplerConfig {
    CouplerConfig {
        modules: vec![t],
        offsets: vec![0xFFFF, 0xFFFF],
        params: vec![params.to_vec()],
    }
}
macro_rules! registry {
    ($($t:ident, $id:expr, $n:expr, $c:expr, $k:ident;)*) => {
        pub mod types {
            use super::*;
            $(pub fn $t() {
                let t = ModuleType::$t;
                // accepted by the coupler with at least one length of zeroed block
                let by_coupler = attempt(|| {
                    for n in 0..48 {
                        if Coupler::new(&config(ModuleType::$t, &[0; 48][..n])).is_ok() {
                            return true;
                        }
                    }
                    false
                });
                let has_count = attempt(|| {
                    let _ = t.param_register_count();
                    true
                });
                if t == ModuleType::UR20_4DI_P_3W || t == ModuleType::UR20_8DI_P_3W {
                    // documented: only a register count
                    require(has_count, "the type has a register count");
                } else {
                    require(by_coupler == has_count, "supported by the coupler and the register table or by neither");
                }
                if by_coupler && has_count {
                    let n = t.param_register_count() as usize;
                    require(n <= 48, "the register count is plausible");
                    let zero = [0u16; 49];
                    require(Coupler::new(&config(ModuleType::$t, &zero[..n])).is_ok(),
                        "a block of exactly the declared register count is accepted");
                    if n > 0 {
                        require(Coupler::new(&config(ModuleType::$t, &zero[..n - 1])).is_err(),
                            "a block one register short is rejected");
                    }
                }
            })*
        }
    };
}
catalogue!(registry);

macro_rules! identity {
    ($n:ident, $t:ty, $id:ident, $p:expr, $c:expr, $i:expr, $o:expr) => {
        pub mod $n {
            use super::*;
            type M = $t;
            pub fn identity() {
                require(ModuleType::$id.param_register_count() == $p, "the declared register count");
                let d: [u16; $p] = any("params");
                match M::from_modbus_parameter_data(&d) {
                    Ok(m) => {
                        require(m.module_type() == ModuleType::$id, "a module reports the type it was created for");
                        require(
                            Coupler::new(&config(ModuleType::$id, &d)).is_ok(),
                            "the coupler accepts what the module accepts",
                        );
                    }
                    Err(_) => {
                        require(
                            Coupler::new(&config(ModuleType::$id, &d)).is_err(),
                            "the coupler rejects what the module rejects",
                        );
                    }
                }
                if $p > 0 {
                    require(M::from_modbus_parameter_data(&d[..$p - 1]).is_err(), "one register short is rejected");
                }
            }
            pub fn default_identity() {
                require(
                    M::default().module_type() == ModuleType::$id,
                    "a default module reports its type",
                );
            }
        }
    };
}
all_modules!(identity);
identity! { com, Com, UR20_1COM_232_485_422, 10, 1, 8, 8 }
