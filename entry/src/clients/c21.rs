//! C21: repeating a call repeats its result, whatever was called in between.
//! (The effect rule over all functions is `engine/src/effects.rs`.)
use super::line::*;
use crate::rt::*;

type Words = Result<Vec<u16>, Error>;
type Values = Result<Vec<ChannelValue>, Error>;

fn same<T: PartialEq>(a: Result<T, Error>, b: Result<T, Error>) {
    match (a, b) {
        (Ok(a), Ok(b)) => require(a == b, "a repeated call gives an equal result"),
        (Err(_), Err(_)) => {}
        _ => require(false, "a repeated call is accepted or rejected as before"),
    }
}
fn input(m: &dyn ProcessModbusTcpData, t: &ModuleType) {
    let n = (byte_counts(t).0 + 1) / 2;
    let w = words(n, "window");
    let x = words(n, "another window");
    let a: Values = m.process_input_data(&w);
    let _ = m.process_input_data(&x);
    let _ = m.process_output_values(&[]);
    same(a, m.process_input_data(&w));
}
fn output(m: &dyn ProcessModbusTcpData, t: &ModuleType) {
    let n = (byte_counts(t).1 + 1) / 2;
    let w = words(n, "window");
    let x = words(n, "another window");
    let a: Values = m.process_output_data(&w);
    let _ = m.process_output_data(&x);
    let _ = m.process_input_data(&[]);
    same(a, m.process_output_data(&w));
}
fn encoded(m: &dyn ProcessModbusTcpData, t: &ModuleType) {
    if byte_counts(t).1 > 0 && !is_serial(t) {
        let mut v = Vec::new();
        let mut x = Vec::new();
        for _ in 0..t.channel_count() {
            v.push(fitting(t));
            x.push(fitting(t));
        }
        let a: Words = m.process_output_values(&v);
        let _ = m.process_output_values(&x);
        let _ = m.process_output_values(&[]);
        same(a, m.process_output_values(&v));
    }
}
pub fn modules() {
    let t = supported(part(VARIANTS));
    let m = enabled(&t);
    let k: u8 = any("call");
    match k {
        0 => input(&*m, &t),
        1 => output(&*m, &t),
        _ => encoded(&*m, &t),
    }
}
/// creating a module again from the same registers, with others created in between
pub fn created_twice() {
    let k = part(SUPPORTED);
    let t = supported(k);
    let p = params_of(&t);
    let a = module_of(&t, &p);
    let _ = enabled(&supported((7 * k + 5) % SUPPORTED));
    let b = module_of(&t, &p);
    let n = (byte_counts(&t).0 + 1) / 2;
    let w = words(n, "window");
    same(a.process_input_data(&w), b.process_input_data(&w));
}
