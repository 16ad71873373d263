//! Primitives interpreted by the analyser.
/// an arbitrary value of the type
#[inline(never)]
pub fn any<T>(_name: &'static str) -> T {
    loop {}
}
/// restrict the analysed states
#[inline(never)]
pub fn assume(_c: bool) {}
/// the rule to decide
#[inline(never)]
pub fn require(_c: bool, _rule: &'static str) {}
/// `|a - b| <= tol * max(|a|, |b|, scale)`
#[inline(never)]
pub fn require_close(_a: f32, _b: f32, _tol: f64, _scale: f64, _rule: &'static str) {}
/// an arbitrary length from 0 to `max`; where the analysis of all lengths at
/// once is not conclusive it is repeated for each length separately
#[inline(never)]
pub fn length(_max: usize, _name: &'static str) -> usize {
    loop {}
}
/// the analysis of a client is split into `n` independent parts
#[inline(never)]
pub fn part(_n: usize) -> usize {
    loop {}
}
#[inline(never)]
pub fn thorough() -> bool {
    loop {}
}
#[inline(never)]
pub fn cast<A, B>(_a: A) -> B {
    loop {}
}
#[inline(never)]
pub fn take_range<T>(_v: &mut Vec<T>, _s: usize, _e: usize) -> Vec<T> {
    loop {}
}
/// a slice of the elements that never changes
#[inline(never)]
pub fn frozen<'a, T>(_v: Vec<T>) -> &'a [T] {
    loop {}
}
#[inline(never)]
pub fn trace<T>(_v: &T) {}
#[inline(never)]
pub fn unsupported(_what: &'static str) {}
/// end of an analysed path
#[inline(never)]
pub fn stop() -> ! {
    loop {}
}
/// whether the closure returns normally with `true`; its own panics are no
/// obligations and its effects are dropped
#[inline(never)]
pub fn attempt<F: FnOnce() -> bool>(_f: F) -> bool {
    loop {}
}
/// an upper bound of the number of elements in all containers within the value
#[inline(never)]
pub fn footprint<T>(_v: &T) -> usize {
    loop {}
}
