//! C03: identification codes, names, categories and channel counts.
use super::util::*;
use crate::rt::*;
use std::str::FromStr;

pub fn same_name(s: &[u8], name: &str) -> bool {
    let n = name.as_bytes();
    if s.len() != n.len() {
        return false;
    }
    let mut i = 0;
    while i < n.len() {
        let c = if s[i] >= b'a' && s[i] <= b'z' {
            s[i] - 32
        } else if s[i] == b'-' {
            b'_'
        } else {
            s[i]
        };
        if c != n[i] {
            return false;
        }
        i += 1;
    }
    true
}

macro_rules! tables {
    ($($t:ident, $id:expr, $n:expr, $c:expr, $k:ident;)*) => {
        /// every 32-bit code
        pub fn codes() {
            let id: u32 = any("id");
            let want = match id {
                $($id => Some(ModuleType::$t),)*
                _ => None,
            };
            let r = ModuleType::try_from_u32(id);
            if id == 0 {
                require(r.is_err(), "code zero is rejected");
                return;
            }
            match want {
                Some(t) => require(r == Ok(t), "a catalogued code identifies exactly its type"),
                None => require(r == Err(Error::UnknownModule), "an uncatalogued code is rejected"),
            }
        }
        /// every ASCII text of up to 26 characters
        pub fn names() {
            let n = part(27);
            let b: [u8; 26] = any("name");
            let b = &b[..n];
            for c in b.iter() {
                assume(*c < 128);
            }
            let s: &str = unsafe { std::str::from_utf8_unchecked(b) };
            let r = ModuleType::from_str(s);
            let mut known = false;
            $(if $n.len() == n && same_name(b, $n) {
                known = true;
                require(r == Ok(ModuleType::$t), "a catalogued name identifies exactly its type");
            })*
            if !known {
                require(r == Err(Error::UnknownModule), "an uncatalogued name is rejected");
            }
        }
        pub fn types() {
            $(
                require(ModuleType::$t.channel_count() == $c, concat!("channel count of ", $n));
                require(ModuleCategory::from(ModuleType::$t) == ModuleCategory::$k, concat!("category of ", $n));
                let c: ModuleCategory = ModuleType::$t.into();
                require(c == ModuleCategory::$k, concat!("category of ", $n));
            )*
        }
    };
}
catalogue!(tables);

pub fn categories() {
    let n = part(6);
    let b: [u8; 5] = any("category");
    let b = &b[..n];
    for c in b.iter() {
        assume(*c < 128 && *c != b'-');
    }
    let s: &str = unsafe { std::str::from_utf8_unchecked(b) };
    let r = ModuleCategory::from_str(s);
    use ModuleCategory::*;
    let mut known = false;
    let names: [(&str, ModuleCategory); 11] = [
        ("DI", DI),
        ("DO", DO),
        ("AI", AI),
        ("AO", AO),
        ("CNT", CNT),
        ("PWM", PWM),
        ("RTD", RTD),
        ("TC", TC),
        ("COM", COM),
        ("RO", RO),
        ("PF", PF),
    ];
    for (t, c) in names {
        if t.len() == n && same_name(b, t) {
            known = true;
            require(r == Ok(c), "a category name identifies its category");
        }
    }
    if !known {
        require(r == Err(Error::UnknownCategory), "an unknown category name is rejected");
    }
}
