//! Minimal JSON output.
pub enum J {
    S(String),
    N(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    pub fn s(x: &str) -> J {
        J::S(x.to_string())
    }
    pub fn text(&self) -> String {
        match self {
            J::N(n) => format!("{n}"),
            J::B(b) => format!("{b}"),
            J::A(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            J::O(v) => {
                format!("{{{}}}", v.iter().map(|(k, x)| format!("\"{k}\":{}", x.text())).collect::<Vec<_>>().join(","))
            }
            J::S(s) => {
                let mut o = String::from("\"");
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
                o
            }
        }
    }
}
