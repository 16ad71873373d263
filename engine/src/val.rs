//! Abstract values: everything is a tree of BDD-guarded leaves.
use crate::bdd::{self, Bdd, F, FxMap, T};
use rustc_public::ty::Ty;
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- integers

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum IntV {
    C(u128),
    /// least significant bit first
    B(Rc<Vec<Bdd>>),
    /// lazily expanded product `x * c` that is known not to overflow
    Mul(Rc<Int>, u128),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Int {
    pub w: u32,
    pub v: IntV,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

#[derive(Default)]
struct Prov {
    /// bits (without leading zeros) of quotient/remainder -> (dividend, divisor)
    quot: FxMap<Vec<Bdd>, (Int, u128)>,
    rem: FxMap<Vec<Bdd>, (Int, u128)>,
    divrem: FxMap<(Int, u128), (Int, Int)>,
    fresh: FxMap<String, Rc<Vec<Bdd>>>,
    atoms: FxMap<String, Bdd>,
    pub global: Option<Bdd>,
}
thread_local! {
    static PROV: RefCell<Prov> = RefCell::new(Prov::default());
}
pub fn reset() {
    bdd::reset();
    PROV.with(|p| *p.borrow_mut() = Prov::default());
    FTAB.with(|p| *p.borrow_mut() = FTabs::default());
}
/// Constraints on over-approximated atoms that always hold.
pub fn global() -> Bdd {
    PROV.with(|p| p.borrow().global.unwrap_or(T))
}
pub fn add_global(b: Bdd) {
    PROV.with(|p| {
        let mut p = p.borrow_mut();
        let g = p.global.unwrap_or(T);
        p.global = Some(bdd::and(g, b));
    })
}
/// An opaque predicate, identified by its description.
pub fn atom(key: String) -> Bdd {
    if let Some(b) = PROV.with(|p| p.borrow().atoms.get(&key).copied()) {
        return b;
    }
    let b = bdd::new_var(key.clone(), true);
    PROV.with(|p| p.borrow_mut().atoms.insert(key, b));
    b
}
/// Opaque bits, identified by their description.
pub fn fresh_bits(key: String, n: u32) -> Rc<Vec<Bdd>> {
    let k = format!("{key}/{n}");
    if let Some(b) = PROV.with(|p| p.borrow().fresh.get(&k).cloned()) {
        return b;
    }
    let b: Rc<Vec<Bdd>> =
        Rc::new((0..n).map(|i| bdd::new_var(format!("{key}[{i}]"), true)).collect());
    PROV.with(|p| p.borrow_mut().fresh.insert(k, b.clone()));
    b
}

fn strip(b: &[Bdd]) -> Vec<Bdd> {
    let mut v = b.to_vec();
    while v.last() == Some(&F) {
        v.pop();
    }
    v
}

impl Int {
    pub fn c(w: u32, v: u128) -> Int {
        Int { w, v: IntV::C(v & mask(w)) }
    }
    pub fn usize(v: usize) -> Int {
        Int::c(64, v as u128)
    }
    pub fn bool(b: Bdd) -> Int {
        Int::bits(vec![b])
    }
    pub fn bits(b: Vec<Bdd>) -> Int {
        let w = b.len() as u32;
        if b.iter().all(|x| bdd::is_const(*x)) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                if *x == T {
                    v |= 1 << i;
                }
            }
            return Int { w, v: IntV::C(v) };
        }
        Int { w, v: IntV::B(Rc::new(b)) }
    }
    pub fn konst(&self) -> Option<u128> {
        match self.v {
            IntV::C(c) => Some(c),
            _ => None,
        }
    }
    pub fn to_bits(&self) -> Rc<Vec<Bdd>> {
        match &self.v {
            IntV::C(c) => Rc::new(
                (0..self.w).map(|i| if (c >> i) & 1 == 1 { T } else { F }).collect(),
            ),
            IntV::B(b) => b.clone(),
            IntV::Mul(x, c) => {
                let r = mul_const(&x.to_bits(), *c, self.w);
                Rc::new(r)
            }
        }
    }
    pub fn bit(&self, i: u32) -> Bdd {
        match &self.v {
            IntV::C(c) => {
                if (c >> i) & 1 == 1 {
                    T
                } else {
                    F
                }
            }
            IntV::B(b) => b[i as usize],
            _ => self.to_bits()[i as usize],
        }
    }
    pub fn as_bool(&self) -> Bdd {
        self.bit(0)
    }
    pub fn max(&self) -> u128 {
        match &self.v {
            IntV::C(c) => *c,
            IntV::B(b) => {
                let mut v = 0;
                for (i, x) in b.iter().enumerate() {
                    if *x != F {
                        v |= 1u128 << i;
                    }
                }
                v
            }
            IntV::Mul(x, c) => x.max() * c,
        }
    }
    pub fn zext(&self, w: u32) -> Int {
        match &self.v {
            IntV::C(c) => Int::c(w, *c),
            IntV::Mul(x, c) => {
                if w >= self.w || self.max() <= mask(w) {
                    Int { w, v: IntV::Mul(x.clone(), *c) }
                } else {
                    Int::bits(self.to_bits()[..w as usize].to_vec())
                }
            }
            IntV::B(b) => {
                let mut v = b.to_vec();
                v.resize(w as usize, F);
                Int::bits(v)
            }
        }
    }
    pub fn sext(&self, w: u32) -> Int {
        if w <= self.w {
            return self.zext(w);
        }
        match &self.v {
            IntV::C(c) => {
                let s = (*c >> (self.w - 1)) & 1 == 1;
                let v = if s { c | !mask(self.w) } else { *c };
                Int::c(w, v)
            }
            _ => {
                let b = self.to_bits();
                let s = b[self.w as usize - 1];
                let mut v = b.to_vec();
                v.resize(w as usize, s);
                Int::bits(v)
            }
        }
    }
    pub fn ext(&self, w: u32, signed: bool) -> Int {
        if signed { self.sext(w) } else { self.zext(w) }
    }
    pub fn add(&self, o: &Int) -> Int {
        if let (Some(a), Some(b)) = (self.konst(), o.konst()) {
            return Int::c(self.w, a.wrapping_add(b));
        }
        if o.konst() == Some(0) {
            return self.clone();
        }
        if self.konst() == Some(0) {
            return o.clone();
        }
        if let Some(r) = recombine(self, o).or_else(|| recombine(o, self)) {
            if r.max() <= mask(self.w) {
                return r.zext(self.w);
            }
        }
        Int::bits(add_bits(&self.to_bits(), &o.to_bits(), F))
    }
    pub fn sub(&self, o: &Int) -> Int {
        if let (Some(a), Some(b)) = (self.konst(), o.konst()) {
            return Int::c(self.w, a.wrapping_sub(b));
        }
        if o.konst() == Some(0) {
            return self.clone();
        }
        if self == o {
            return Int::c(self.w, 0);
        }
        let nb: Vec<Bdd> = o.to_bits().iter().map(|b| bdd::not(*b)).collect();
        Int::bits(add_bits(&self.to_bits(), &nb, T))
    }
    pub fn neg(&self) -> Int {
        Int::c(self.w, 0).sub(self)
    }
    pub fn mul(&self, o: &Int) -> Int {
        match (self.konst(), o.konst()) {
            (Some(a), Some(b)) => Int::c(self.w, a.wrapping_mul(b)),
            (Some(a), None) => o.mul_c(a),
            (None, Some(b)) => self.mul_c(b),
            (None, None) => {
                let a = self.to_bits();
                let b = o.to_bits();
                let mut acc = vec![F; self.w as usize];
                for i in 0..self.w as usize {
                    if b[i] == F {
                        continue;
                    }
                    let mut t = vec![F; self.w as usize];
                    for j in 0..(self.w as usize - i) {
                        t[i + j] = bdd::and(a[j], b[i]);
                    }
                    acc = add_bits(&acc, &t, F);
                }
                Int::bits(acc)
            }
        }
    }
    fn mul_c(&self, c: u128) -> Int {
        if c == 0 {
            return Int::c(self.w, 0);
        }
        if c == 1 {
            return self.clone();
        }
        if !c.is_power_of_two() && self.max().checked_mul(c).is_some_and(|m| m <= mask(self.w)) {
            if let IntV::Mul(x, d) = &self.v {
                return Int { w: self.w, v: IntV::Mul(x.clone(), d * c) };
            }
            return Int { w: self.w, v: IntV::Mul(Rc::new(self.zext(128)), c) };
        }
        Int::bits(mul_const(&self.to_bits(), c, self.w))
    }
    /// unsigned division and remainder by a constant
    pub fn divrem_c(&self, c: u128) -> Option<(Int, Int)> {
        if c == 0 {
            return None;
        }
        let w = self.w;
        if let Some(a) = self.konst() {
            return Some((Int::c(w, a / c), Int::c(w, a % c)));
        }
        if self.max() < c {
            return Some((Int::c(w, 0), self.clone()));
        }
        // the remainder of a smaller divisor
        if let IntV::B(b) = &self.v {
            if PROV.with(|p| p.borrow().rem.get(&strip(b)).is_some_and(|(_, d)| *d <= c)) {
                return Some((Int::c(w, 0), self.clone()));
            }
        }
        if c.is_power_of_two() {
            let k = c.trailing_zeros();
            let b = self.to_bits();
            let mut q = b[k as usize..].to_vec();
            q.resize(w as usize, F);
            let mut r = b[..k as usize].to_vec();
            r.resize(w as usize, F);
            return Some((Int::bits(q), Int::bits(r)));
        }
        if let IntV::Mul(x, m) = &self.v {
            if m % c == 0 {
                return Some((x.mul_c(m / c).zext(w), Int::c(w, 0)));
            }
            if c % m == 0 {
                // (x*m) / (m*d) = x/d ; (x*m) % (m*d) = (x%d)*m
                let (q, r) = x.divrem_c(c / m)?;
                return Some((q.zext(w), r.mul_c(*m).zext(w)));
            }
        }
        let key = (self.zext(128), c);
        if let Some((q, r)) = PROV.with(|p| p.borrow().divrem.get(&key).cloned()) {
            return Some((q.zext(w), r.zext(w)));
        }
        // exact expansion when the dividend has few bits
        let sup: Vec<u32> = match &self.v {
            IntV::B(b) => {
                let mut s = std::collections::BTreeSet::new();
                for x in b.iter() {
                    s.extend(bdd::support(*x));
                }
                s.into_iter().collect()
            }
            _ => vec![0; 99],
        };
        let (q, r);
        let plain = matches!(&self.v, IntV::B(b) if b.iter().all(|x| bdd::is_const(*x) || bdd::support(*x).len() == 1));
        if (sup.len() <= 16 && self.max() < (1 << 20)) || (sup.len() <= 14 && self.max() < (1 << 40)) || (plain && self.max() / c <= 32 && self.max() < (1 << 31)) {
            // restoring division, most significant bit first
            let b = self.to_bits();
            let n = 128 - self.max().leading_zeros();
            let mut rem = Int::c(32, 0);
            let mut qb = vec![F; 128];
            for i in (0..n).rev() {
                let mut rb = vec![b[i as usize]];
                rb.extend_from_slice(&rem.to_bits()[..31]);
                let sh = Int::bits(rb);
                let ge = bdd::not(sh.ult(&Int::c(32, c)));
                let sb = sh.sub(&Int::c(32, c));
                rem = ite_int(ge, &sb, &sh);
                qb[i as usize] = ge;
            }
            q = Int::bits(qb);
            r = rem.zext(128);
        } else {
            let qmax = self.max() / c;
            let nq = 128 - qmax.leading_zeros();
            let nr = 128 - (c - 1).leading_zeros();
            let id = PROV.with(|p| p.borrow().divrem.len());
            let mut qb = fresh_bits(format!("quotient#{id}(/{c})"), nq).to_vec();
            let mut rb = fresh_bits(format!("remainder#{id}(%{c})"), nr).to_vec();
            qb.resize(128, F);
            rb.resize(128, F);
            q = Int::bits(qb);
            r = Int::bits(rb);
            add_global(bdd::not(Int::c(128, qmax).ult(&q)));
            add_global(r.ult(&Int::c(128, c)));
        }
        PROV.with(|p| {
            let mut p = p.borrow_mut();
            p.quot.insert(strip(&q.to_bits()), (key.0.clone(), c));
            p.rem.insert(strip(&r.to_bits()), (key.0.clone(), c));
            p.divrem.insert(key, (q.clone(), r.clone()));
        });
        Some((q.zext(w), r.zext(w)))
    }
    pub fn and(&self, o: &Int) -> Int {
        self.bw(o, |a, b| a & b, bdd::and)
    }
    pub fn or(&self, o: &Int) -> Int {
        self.bw(o, |a, b| a | b, bdd::or)
    }
    pub fn xor(&self, o: &Int) -> Int {
        self.bw(o, |a, b| a ^ b, bdd::xor)
    }
    fn bw(&self, o: &Int, f: fn(u128, u128) -> u128, g: fn(Bdd, Bdd) -> Bdd) -> Int {
        if let (Some(a), Some(b)) = (self.konst(), o.konst()) {
            return Int::c(self.w, f(a, b));
        }
        let (a, b) = (self.to_bits(), o.to_bits());
        Int::bits(a.iter().zip(b.iter()).map(|(x, y)| g(*x, *y)).collect())
    }
    pub fn not(&self) -> Int {
        match self.konst() {
            Some(a) => Int::c(self.w, !a),
            None => Int::bits(self.to_bits().iter().map(|b| bdd::not(*b)).collect()),
        }
    }
    pub fn shl_c(&self, k: u32) -> Int {
        if let Some(a) = self.konst() {
            return Int::c(self.w, if k >= 128 { 0 } else { a << k });
        }
        let b = self.to_bits();
        let w = self.w as usize;
        let k = (k as usize).min(w);
        let mut v = vec![F; k];
        v.extend_from_slice(&b[..w - k]);
        Int::bits(v)
    }
    pub fn shr_c(&self, k: u32, signed: bool) -> Int {
        let b = self.to_bits();
        let w = self.w as usize;
        let k = (k as usize).min(w);
        let fill = if signed { b[w - 1] } else { F };
        let mut v = b[k..].to_vec();
        v.resize(w, fill);
        Int::bits(v)
    }
    pub fn eq(&self, o: &Int) -> Bdd {
        if self == o {
            return T;
        }
        if let (Some(a), Some(b)) = (self.konst(), o.konst()) {
            return if a == b { T } else { F };
        }
        if let (IntV::Mul(x, c), IntV::Mul(y, d)) = (&self.v, &o.v) {
            if c == d {
                return Int::eq(x, y);
            }
        }
        for (p, q) in [(self, o), (o, self)] {
            if let (IntV::Mul(x, c), IntV::C(k)) = (&p.v, &q.v) {
                return if k % c == 0 { Int::eq(x, &Int::c(x.w, k / c)) } else { F };
            }
        }
        let (a, b) = (self.to_bits(), o.to_bits());
        let mut r = T;
        for i in (0..self.w as usize).rev() {
            r = bdd::and(r, bdd::iff(a[i], b[i]));
            if r == F {
                break;
            }
        }
        r
    }
    pub fn ult(&self, o: &Int) -> Bdd {
        if let (Some(a), Some(b)) = (self.konst(), o.konst()) {
            return if a < b { T } else { F };
        }
        if let Some(b) = o.konst() {
            if self.max() < b {
                return T;
            }
        }
        if let (IntV::Mul(x, c), IntV::Mul(y, d)) = (&self.v, &o.v) {
            if c == d {
                return x.ult(y);
            }
        }
        // x*c < k  <=>  x < ceil(k/c);  k < x*c  <=>  floor(k/c) < x
        if let (IntV::Mul(x, c), IntV::C(k)) = (&self.v, &o.v) {
            return x.ult(&Int::c(x.w, k.div_ceil(*c)));
        }
        if let (IntV::C(k), IntV::Mul(x, c)) = (&self.v, &o.v) {
            return Int::c(x.w, k / c).ult(x);
        }
        let (a, b) = (self.to_bits(), o.to_bits());
        let mut lt = F;
        for i in 0..self.w as usize {
            // higher bits dominate
            let d = bdd::xor(a[i], b[i]);
            lt = bdd::ite(d, b[i], lt);
        }
        if (self.konst().is_some() || o.konst().is_some()) && !bdd::is_const(lt) {
            // the bounds of opaque quotients and remainders may settle it
            let g = global();
            if g != T {
                if bdd::and(g, lt) == F {
                    return F;
                }
                if bdd::diff(g, lt) == F {
                    return T;
                }
            }
        }
        lt
    }
    pub fn slt(&self, o: &Int) -> Bdd {
        let flip = Int::c(self.w, 1u128 << (self.w - 1));
        self.xor(&flip).ult(&o.xor(&flip))
    }
    /// Feasible concrete values under `pc`, with their guards.
    /// the same value for all states in `pc`
    pub fn simplify(&self, pc: Bdd) -> Int {
        match &self.v {
            IntV::C(_) | IntV::Mul(..) => self.clone(),
            IntV::B(b) => Int::bits(
                b.iter()
                    .map(|x| {
                        let g = bdd::and(*x, pc);
                        if g == F {
                            F
                        } else if g == pc {
                            T
                        } else {
                            // recognisable as part of a quotient or remainder
                            *x
                        }
                    })
                    .collect(),
            ),
        }
    }
    /// product for all states in `pc`
    pub fn mul_pc(&self, o: &Int, pc: Bdd) -> Int {
        if self.konst().is_some() && o.konst().is_some() {
            return self.mul(o);
        }
        let (a, b) = (self.simplify(pc), o.simplify(pc));
        let (x, c) = if a.konst().is_some() { (b, a) } else { (a, b) };
        let few = x.to_bits().iter().filter(|b| !bdd::is_const(**b)).count() <= 6;
        let quotient = || {
            let k = strip(&x.to_bits());
            PROV.with(|p| p.borrow().quot.contains_key(&k) || p.borrow().rem.contains_key(&k))
        };
        if few && c.konst().is_some() && !quotient() {
            if let Some(vs) = x.values(pc, 64) {
                let mut acc: Option<Int> = None;
                for (v, g) in vs {
                    let r = Int::c(x.w, v.wrapping_mul(c.konst().unwrap()));
                    acc = Some(match acc {
                        None => r,
                        Some(a) => ite_int(bdd::restrict(g, pc), &r, &a),
                    });
                }
                if let Some(r) = acc {
                    return r;
                }
            }
        }
        x.mul(&c)
    }
    pub fn values(&self, pc: Bdd, limit: usize) -> Option<Vec<(u128, Bdd)>> {
        if let Some(c) = self.konst() {
            return Some(vec![(c, T)]);
        }
        let b = self.to_bits();
        let mut cur: Vec<(u128, Bdd)> = vec![(0, pc)];
        for i in (0..self.w as usize).rev() {
            let mut nxt = vec![];
            for (v, g) in cur {
                if b[i] == F {
                    nxt.push((v, g));
                    continue;
                }
                if b[i] == T {
                    nxt.push((v | (1 << i), g));
                    continue;
                }
                let g0 = bdd::diff(g, b[i]);
                let g1 = bdd::and(g, b[i]);
                if g0 != F {
                    nxt.push((v, g0));
                }
                if g1 != F {
                    nxt.push((v | (1 << i), g1));
                }
            }
            if nxt.len() > limit {
                return None;
            }
            cur = nxt;
        }
        Some(cur)
    }
}

fn add_bits(a: &[Bdd], b: &[Bdd], mut c: Bdd) -> Vec<Bdd> {
    let mut r = Vec::with_capacity(a.len());
    for i in 0..a.len() {
        let x = bdd::xor(a[i], b[i]);
        r.push(bdd::xor(x, c));
        c = bdd::ite(x, c, a[i]);
    }
    r
}
fn mul_const(a: &[Bdd], c: u128, w: u32) -> Vec<Bdd> {
    let w = w as usize;
    let mut a = a.to_vec();
    a.resize(w, F);
    let mut acc = vec![F; w];
    for i in 0..w.min(128) {
        if (c >> i) & 1 == 1 {
            let mut t = vec![F; i];
            t.extend_from_slice(&a[..w - i]);
            acc = add_bits(&acc, &t, F);
        }
    }
    acc
}
/// `(n/c)*c + n%c = n`, also `(n/(c))*k + ((n%c)/d)` with `c = k*d` = `n/d`.
fn recombine(a: &Int, b: &Int) -> Option<Int> {
    let IntV::Mul(x, k) = &a.v else { return None };
    let xb = strip(&x.to_bits());
    PROV.with(|p| {
        let p = p.borrow();
        let (n, c) = p.quot.get(&xb)?;
        if *c == *k {
            let (n2, c2) = p.rem.get(&strip(&b.to_bits()))?;
            if n2 == n && c2 == c {
                return Some(n.clone());
            }
        } else if k % c == 0 {
            // (n/c)*(c*m) + (n%c)*m = n*m
            let IntV::Mul(y, m) = &b.v else { return None };
            let (n2, c2) = p.rem.get(&strip(&y.to_bits()))?;
            if *m == k / c && n2 == n && c2 == c {
                return Some(n.mul_c(*m));
            }
        }
        None
    })
}

pub fn ite_int(g: Bdd, a: &Int, b: &Int) -> Int {
    if g == T || a == b {
        return a.clone();
    }
    if g == F {
        return b.clone();
    }
    let (x, y) = (a.to_bits(), b.to_bits());
    Int::bits(x.iter().zip(y.iter()).map(|(x, y)| bdd::ite(g, *x, *y)).collect())
}

// ------------------------------------------------------------------ floats

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct TabId(pub u32);
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FLeaf {
    /// bits of the f64 holding the value
    C(u64),
    /// exact value table over the listed bits (first = least significant)
    Tab(Rc<Vec<Bdd>>, TabId),
    /// any other expression (identified structurally)
    Op(u32),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct FloatV {
    /// 32 or 64
    pub k: u32,
    pub l: Vec<(Bdd, FLeaf)>,
}
#[derive(Default)]
struct FTabs {
    tabs: Vec<Rc<Vec<f64>>>,
    by_hash: FxMap<u64, Vec<u32>>,
    opmemo: FxMap<(u8, u32, u64, u32), TabId>,
    cmpmemo: FxMap<(Vec<Bdd>, u32, u64, u8), Bdd>,
    intmemo: FxMap<(Vec<Bdd>, u32, u32, bool), Int>,
    ops: FxMap<(u8, FLeaf, FLeaf, u32), u32>,
    nops: u32,
}
thread_local! {
    static FTAB: RefCell<FTabs> = RefCell::new(FTabs::default());
}
fn intern(t: Vec<f64>) -> TabId {
    use std::hash::Hasher;
    let mut h = bdd::Fx::default();
    for x in &t {
        h.write_u64(x.to_bits());
    }
    let h = h.finish();
    FTAB.with(|f| {
        let mut f = f.borrow_mut();
        if let Some(c) = f.by_hash.get(&h) {
            for i in c {
                let o = &f.tabs[*i as usize];
                if o.len() == t.len() && o.iter().zip(&t).all(|(a, b)| a.to_bits() == b.to_bits()) {
                    return TabId(*i);
                }
            }
        }
        let i = f.tabs.len() as u32;
        f.tabs.push(Rc::new(t));
        f.by_hash.entry(h).or_default().push(i);
        TabId(i)
    })
}
fn tab(t: TabId) -> Rc<Vec<f64>> {
    FTAB.with(|f| f.borrow().tabs[t.0 as usize].clone())
}
fn rnd(k: u32, v: f64) -> f64 {
    if k == 32 { v as f32 as f64 } else { v }
}
/// operation codes: 0 add 1 sub 2 mul 3 div 4 rem | unary 10 neg 11 abs
/// 12 round 13 floor 14 ceil 15 trunc 16 to f32 17 to f64 18 sqrt 19 round-ties-even
/// 20 min 21 max 30 variable 40 int-to-float
pub fn apply(op: u8, k: u32, a: f64, b: f64) -> f64 {
    if k == 32 {
        let (x, y) = (a as f32, b as f32);
        (match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => x / y,
            4 => x % y,
            10 => -x,
            11 => x.abs(),
            12 => x.round(),
            13 => x.floor(),
            14 => x.ceil(),
            15 => x.trunc(),
            16 => x,
            17 => return a,
            18 => x.sqrt(),
            19 => x.round_ties_even(),
            20 => x.min(y),
            21 => x.max(y),
            _ => unreachable!(),
        }) as f64
    } else {
        match op {
            0 => a + b,
            1 => a - b,
            2 => a * b,
            3 => a / b,
            4 => a % b,
            10 => -a,
            11 => a.abs(),
            12 => a.round(),
            13 => a.floor(),
            14 => a.ceil(),
            15 => a.trunc(),
            16 => return a as f32 as f64,
            17 => a,
            18 => a.sqrt(),
            19 => a.round_ties_even(),
            20 => a.min(b),
            21 => a.max(b),
            _ => unreachable!(),
        }
    }
}
fn leaf_op(op: u8, k: u32, a: &FLeaf, b: &FLeaf) -> FLeaf {
    let unary = op >= 10 && op < 20;
    match (a, b) {
        (FLeaf::C(x), FLeaf::C(y)) => {
            FLeaf::C(apply(op, k, f64::from_bits(*x), f64::from_bits(*y)).to_bits())
        }
        (FLeaf::Tab(arg, t), _) if unary => FLeaf::Tab(arg.clone(), tab_map(op, k, *t, 0, 0)),
        (FLeaf::Tab(arg, t), FLeaf::C(c)) => FLeaf::Tab(arg.clone(), tab_map(op, k, *t, *c, 1)),
        (FLeaf::C(c), FLeaf::Tab(arg, t)) => FLeaf::Tab(arg.clone(), tab_map(op, k, *t, *c, 2)),
        (FLeaf::Tab(a1, t1), FLeaf::Tab(a2, t2)) if a1 == a2 => {
            let (x, y) = (tab(*t1), tab(*t2));
            let r = x.iter().zip(y.iter()).map(|(a, b)| apply(op, k, *a, *b)).collect();
            FLeaf::Tab(a1.clone(), intern(r))
        }
        (FLeaf::Tab(a1, t1), FLeaf::Tab(a2, t2)) if let Some((arg, x, y)) = tab_join(a1, *t1, a2, *t2) => {
            let r = x.iter().zip(y.iter()).map(|(a, b)| apply(op, k, *a, *b)).collect();
            FLeaf::Tab(arg, intern(r))
        }
        _ => FTAB.with(|f| {
            let mut f = f.borrow_mut();
            let bb = if unary { FLeaf::C(0) } else { b.clone() };
            let key = (op, a.clone(), bb, k);
            if let Some(i) = f.ops.get(&key) {
                return FLeaf::Op(*i);
            }
            f.nops += 1;
            let i = f.nops;
            f.ops.insert(key, i);
            FLeaf::Op(i)
        }),
    }
}
fn tab_map(op: u8, k: u32, t: TabId, c: u64, mode: u8) -> TabId {
    let key = (op | (mode << 6), t.0, c, k);
    if let Some(r) = FTAB.with(|f| f.borrow().opmemo.get(&key).copied()) {
        return r;
    }
    let x = tab(t);
    let cv = f64::from_bits(c);
    let r: Vec<f64> = x
        .iter()
        .map(|a| if mode == 2 { apply(op, k, cv, *a) } else { apply(op, k, *a, cv) })
        .collect();
    let r = intern(r);
    FTAB.with(|f| f.borrow_mut().opmemo.insert(key, r));
    r
}

/// the variables all these bits depend on, when there are at most 16
fn few_vars(args: &[&[Bdd]]) -> Option<Vec<u32>> {
    let mut vs = std::collections::BTreeSet::new();
    for b in args.iter().flat_map(|a| a.iter()) {
        vs.extend(bdd::support(*b));
        if vs.len() > 16 {
            return None;
        }
    }
    Some(vs.into_iter().collect())
}
/// the value of the bits `arg` for every assignment of the variables
fn over_vars(arg: &[Bdd], vars: &[u32]) -> Vec<u128> {
    let mut r = vec![0u128; 1 << vars.len()];
    for (k, b) in arg.iter().enumerate() {
        for (n, x) in r.iter_mut().enumerate() {
            if bdd::eval(*b, &|v| vars.binary_search(&v).is_ok_and(|p| (n >> p) & 1 == 1)) {
                *x |= 1 << k;
            }
        }
    }
    r
}
/// two tables over different bits as tables over their common variables
fn tab_join(a1: &[Bdd], t1: TabId, a2: &[Bdd], t2: TabId) -> Option<(Rc<Vec<Bdd>>, Vec<f64>, Vec<f64>)> {
    let vars = few_vars(&[a1, a2])?;
    let (x, y) = (tab(t1), tab(t2));
    let x = over_vars(a1, &vars).into_iter().map(|i| x[i as usize]).collect();
    let y = over_vars(a2, &vars).into_iter().map(|i| y[i as usize]).collect();
    Some((Rc::new(vars.into_iter().map(bdd::var_bdd).collect()), x, y))
}

/// The function of `arg` bits given by a truth table (index = bits value).
pub fn bdd_table(arg: &[Bdd], f: &dyn Fn(usize) -> bool) -> Bdd {
    // bottom-up on the most significant bit last
    let n = arg.len();
    let mut cur: Vec<Bdd> = (0..1usize << n).map(|i| if f(i) { T } else { F }).collect();
    for k in 0..n {
        // bit k is the least significant remaining bit
        let mut memo: FxMap<(Bdd, Bdd), Bdd> = FxMap::default();
        let mut nxt = Vec::with_capacity(cur.len() / 2);
        for c in cur.chunks(2) {
            let r = if c[0] == c[1] {
                c[0]
            } else {
                *memo.entry((c[0], c[1])).or_insert_with(|| bdd::ite(arg[k], c[1], c[0]))
            };
            nxt.push(r);
        }
        cur = nxt;
    }
    cur[0]
}

impl FloatV {
    pub fn c(k: u32, v: f64) -> FloatV {
        FloatV { k, l: vec![(T, FLeaf::C(rnd(k, v).to_bits()))] }
    }
    pub fn var(k: u32, name: &str) -> FloatV {
        let l = FTAB.with(|f| {
            let mut f = f.borrow_mut();
            let _ = name;
            f.nops += 1;
            FLeaf::Op(f.nops)
        });
        FloatV { k, l: vec![(T, l)] }
    }
    pub fn from_int(k: u32, i: &Int, signed: bool) -> FloatV {
        let conv = |v: u128| -> f64 {
            if signed {
                let s = if i.w < 128 && (v >> (i.w - 1)) & 1 == 1 { v | !mask(i.w) } else { v } as i128;
                if k == 32 { s as f32 as f64 } else { s as f64 }
            } else if k == 32 {
                v as f32 as f64
            } else {
                v as f64
            }
        };
        if let Some(c) = i.konst() {
            return FloatV { k, l: vec![(T, FLeaf::C(conv(c).to_bits()))] };
        }
        // a few values only: one guarded constant each
        if let Some(l) = i.values(T, 24) {
            let l = l.into_iter().map(|(v, g)| (g, FLeaf::C(conv(v).to_bits()))).collect();
            return FloatV::norm(l, k);
        }
        let b = i.to_bits();
        let mut arg: Vec<Bdd> = vec![];
        let mut src: Vec<Option<usize>> = vec![];
        for x in b.iter() {
            if bdd::is_const(*x) {
                src.push(None);
            } else if let Some(p) = arg.iter().position(|y| y == x) {
                src.push(Some(p));
            } else {
                src.push(Some(arg.len()));
                arg.push(*x);
            }
        }
        if arg.len() > 16 {
            if let Some(vars) = few_vars(&[&b]) {
                let t = over_vars(&b, &vars).into_iter().map(conv).collect();
                let arg = vars.into_iter().map(bdd::var_bdd).collect();
                return FloatV { k, l: vec![(T, FLeaf::Tab(Rc::new(arg), intern(t)))] };
            }
            let l = FTAB.with(|f| {
                let mut f = f.borrow_mut();
                // identified by the bits themselves
                let key = (40 + signed as u8, FLeaf::Tab(b.clone(), TabId(u32::MAX)), FLeaf::C(0), k);
                if let Some(i) = f.ops.get(&key) {
                    return FLeaf::Op(*i);
                }
                f.nops += 1;
                let i = f.nops;
                f.ops.insert(key, i);
                FLeaf::Op(i)
            });
            return FloatV { k, l: vec![(T, l)] };
        }
        let t: Vec<f64> = (0..1usize << arg.len())
            .map(|n| {
                let mut v = 0u128;
                for (j, s) in src.iter().enumerate() {
                    let bit = match s {
                        Some(p) => (n >> p) & 1 == 1,
                        None => b[j] == T,
                    };
                    if bit {
                        v |= 1 << j;
                    }
                }
                conv(v)
            })
            .collect();
        FloatV { k, l: vec![(T, FLeaf::Tab(Rc::new(arg), intern(t)))] }
    }
    /// reinterpretation of raw bits
    pub fn from_raw(k: u32, i: &Int) -> FloatV {
        let conv = |v: u128| -> f64 {
            if k == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }
        };
        if let Some(c) = i.konst() {
            return FloatV { k, l: vec![(T, FLeaf::C(conv(c).to_bits()))] };
        }
        let b = i.to_bits();
        let mut arg: Vec<Bdd> = b.iter().copied().filter(|x| !bdd::is_const(*x)).collect();
        arg.sort();
        arg.dedup();
        if arg.len() > 16 {
            if let Some(vars) = few_vars(&[&b]) {
                let t = over_vars(&b, &vars).into_iter().map(conv).collect();
                let arg = vars.into_iter().map(bdd::var_bdd).collect();
                return FloatV { k, l: vec![(T, FLeaf::Tab(Rc::new(arg), intern(t)))] };
            }
            return FloatV::var(k, "bits");
        }
        let t: Vec<f64> = (0..1usize << arg.len())
            .map(|n| {
                let mut v = 0u128;
                for (j, x) in b.iter().enumerate() {
                    let bit = match arg.iter().position(|y| y == x) {
                        Some(p) => (n >> p) & 1 == 1,
                        None => *x == T,
                    };
                    if bit {
                        v |= 1 << j;
                    }
                }
                conv(v)
            })
            .collect();
        FloatV { k, l: vec![(T, FLeaf::Tab(Rc::new(arg), intern(t)))] }
    }
    fn norm(mut l: Vec<(Bdd, FLeaf)>, k: u32) -> FloatV {
        let mut r: Vec<(Bdd, FLeaf)> = vec![];
        for (g, x) in l.drain(..) {
            if g == F {
                continue;
            }
            if let Some(e) = r.iter_mut().find(|e| e.1 == x) {
                e.0 = bdd::or(e.0, g);
            } else {
                r.push((g, x));
            }
        }
        FloatV { k, l: r }
    }
    pub fn bin(&self, op: u8, o: &FloatV, pc: Bdd) -> FloatV {
        let mut r = vec![];
        for (g, a) in &self.l {
            for (h, b) in &o.l {
                let gh = bdd::and(*g, *h);
                if bdd::and(gh, pc) == F {
                    continue;
                }
                r.push((gh, leaf_op(op, self.k, a, b)));
            }
        }
        Self::norm(r, self.k)
    }
    pub fn un(&self, op: u8) -> FloatV {
        let k = match op {
            16 => 32,
            17 => 64,
            _ => self.k,
        };
        let r = self.l.iter().map(|(g, a)| (*g, leaf_op(op, self.k, a, &FLeaf::C(0)))).collect();
        Self::norm(r, k)
    }
    /// comparison; code: 0 eq 1 lt 2 le
    pub fn cmp(&self, code: u8, o: &FloatV, pc: Bdd) -> Bdd {
        let mut r = F;
        for (g, a) in &self.l {
            for (h, b) in &o.l {
                let gh = bdd::and(*g, *h);
                if bdd::and(gh, pc) == F {
                    continue;
                }
                r = bdd::or(r, bdd::and(gh, leaf_cmp(code, a, b)));
            }
        }
        r
    }
    /// saturating conversion to an integer
    pub fn to_int(&self, w: u32, signed: bool) -> Int {
        let conv = |v: f64| -> u128 {
            let r: u128 = if signed {
                let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                let x = v as i128;
                x.clamp(lo, hi) as u128
            } else {
                (v as u128).min(mask(w))
            };
            r & mask(w)
        };
        let mut acc: Option<Int> = None;
        for (g, a) in &self.l {
            let i = match a {
                FLeaf::C(c) => Int::c(w, conv(f64::from_bits(*c))),
                FLeaf::Tab(arg, t) => {
                    let key = (arg.to_vec(), t.0, w, signed);
                    match FTAB.with(|f| f.borrow().intmemo.get(&key).cloned()) {
                        Some(i) => i,
                        None => {
                            let tv: Vec<u128> = tab(*t).iter().map(|v| conv(*v)).collect();
                            let b =
                                (0..w).map(|k| bdd_table(arg, &|i| (tv[i] >> k) & 1 == 1)).collect();
                            let i = Int::bits(b);
                            FTAB.with(|f| f.borrow_mut().intmemo.insert(key, i.clone()));
                            i
                        }
                    }
                }
                FLeaf::Op(n) => {
                    Int::bits(fresh_bits(format!("float-to-int({n},{signed})"), w).to_vec())
                }
            };
            acc = Some(match acc {
                None => i,
                Some(x) => ite_int(*g, &i, &x),
            });
        }
        acc.unwrap_or(Int::c(w, 0))
    }
    /// raw bits
    pub fn to_raw(&self) -> Int {
        let k = self.k;
        let conv = |v: f64| -> u128 {
            if k == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
        };
        let mut acc: Option<Int> = None;
        for (g, a) in &self.l {
            let i = match a {
                FLeaf::C(c) => Int::c(k, conv(f64::from_bits(*c))),
                FLeaf::Tab(arg, t) => {
                    let tv: Vec<u128> = tab(*t).iter().map(|v| conv(*v)).collect();
                    Int::bits((0..k).map(|b| bdd_table(arg, &|i| (tv[i] >> b) & 1 == 1)).collect())
                }
                FLeaf::Op(n) => Int::bits(fresh_bits(format!("float-bits({n})"), k).to_vec()),
            };
            acc = Some(match acc {
                None => i,
                Some(x) => ite_int(*g, &i, &x),
            });
        }
        acc.unwrap_or(Int::c(k, 0))
    }
    /// guard under which the two differ by more than `tol` relative to
    /// `max(|a|,|b|,scale)`; None when the difference cannot be bounded
    pub fn far(&self, o: &FloatV, pc: Bdd, tol: f64, scale: f64) -> (Bdd, bool) {
        let mut bad = F;
        let mut opaque = false;
        let far = |a: f64, b: f64| -> bool {
            if a.is_nan() || b.is_nan() {
                return !(a.is_nan() && b.is_nan());
            }
            if a == b {
                return false;
            }
            let m = a.abs().max(b.abs()).max(scale);
            !((a - b).abs() <= tol * m)
        };
        for (g, a) in &self.l {
            for (h, b) in &o.l {
                let gh = bdd::and(bdd::and(*g, *h), pc);
                if gh == F || a == b {
                    continue;
                }
                let c = match (a, b) {
                    (FLeaf::C(x), FLeaf::C(y)) => {
                        if far(f64::from_bits(*x), f64::from_bits(*y)) { T } else { F }
                    }
                    (FLeaf::Tab(arg, t), FLeaf::C(y)) | (FLeaf::C(y), FLeaf::Tab(arg, t)) => {
                        let t = tab(*t);
                        bdd_table(arg, &|i| far(t[i], f64::from_bits(*y)))
                    }
                    (FLeaf::Tab(a1, t1), FLeaf::Tab(a2, t2)) if a1 == a2 => {
                        let (x, y) = (tab(*t1), tab(*t2));
                        bdd_table(a1, &|i| far(x[i], y[i]))
                    }
                    (FLeaf::Tab(a1, t1), FLeaf::Tab(a2, t2))
                        if let Some((arg, x, y)) = tab_join(a1, *t1, a2, *t2) =>
                    {
                        bdd_table(&arg, &|i| far(x[i], y[i]))
                    }
                    (FLeaf::Tab(a1, t1), FLeaf::Tab(a2, t2)) => {
                        // different arguments: exact when one of them is injective in value
                        // groups; here decided by value classes
                        match tab_tab(a1, &tab(*t1), a2, &tab(*t2), &far) {
                            Some(b) => b,
                            None => {
                                opaque = true;
                                T
                            }
                        }
                    }
                    _ => {
                        if std::env::var("UR20_FAR").is_ok() {
                            let sh = |x: &FLeaf| match x {
                                FLeaf::C(c) => format!("C {}", f64::from_bits(*c)),
                                FLeaf::Tab(a, t) => format!("Tab {:?} {:?} {:?}", a, t.0, &tab(*t)[..4.min(tab(*t).len())]),
                                FLeaf::Op(n) => format!("Op {n}"),
                            };
                            eprintln!("opaque pair {} / {}", sh(a), sh(b));
                        }
                        opaque = true;
                        T
                    }
                };
                bad = bdd::or(bad, bdd::and(gh, c));
            }
        }
        (bad, opaque)
    }
    pub fn is_opaque(&self) -> bool {
        self.l.iter().any(|x| matches!(x.1, FLeaf::Op(_)))
    }
}
/// Two tables over different registers: they differ unless equal everywhere;
/// a single far pair is a definite difference only if both arguments are free.
fn tab_tab(
    a1: &[Bdd],
    t1: &[f64],
    a2: &[Bdd],
    t2: &[f64],
    far: &dyn Fn(f64, f64) -> bool,
) -> Option<Bdd> {
    // sample a few points: a sound witness set (subset of the far pairs)
    let mut bad = F;
    let pick = |n: usize| [0usize, 1, n / 2, n - 1, n / 3];
    for i in pick(t1.len()) {
        for j in pick(t2.len()) {
            if far(t1[i], t2[j]) {
                let c1 = bdd_table(a1, &|x| x == i);
                let c2 = bdd_table(a2, &|x| x == j);
                bad = bdd::or(bad, bdd::and(c1, c2));
            }
        }
    }
    if bad == F { None } else { Some(bad) }
}
fn leaf_cmp(code: u8, a: &FLeaf, b: &FLeaf) -> Bdd {
    let f = |x: f64, y: f64| match code {
        0 => x == y,
        1 => x < y,
        _ => x <= y,
    };
    match (a, b) {
        (FLeaf::C(x), FLeaf::C(y)) => {
            if f(f64::from_bits(*x), f64::from_bits(*y)) { T } else { F }
        }
        (FLeaf::Tab(arg, t), FLeaf::C(y)) => tab_cmp(arg, *t, *y, code),
        (FLeaf::C(x), FLeaf::Tab(arg, t)) => tab_cmp(arg, *t, *x, code + 4),
        (FLeaf::Tab(a1, t1), FLeaf::Tab(a2, t2)) if a1 == a2 => {
            let (x, y) = (tab(*t1), tab(*t2));
            bdd_table(a1, &|i| f(x[i], y[i]))
        }
        (FLeaf::Tab(a1, t1), FLeaf::Tab(a2, t2)) if let Some((arg, x, y)) = tab_join(a1, *t1, a2, *t2) => {
            bdd_table(&arg, &|i| f(x[i], y[i]))
        }
        _ => atom(format!("float-cmp({code},{a:?},{b:?})")),
    }
}
fn tab_cmp(arg: &Rc<Vec<Bdd>>, t: TabId, c: u64, code: u8) -> Bdd {
    let key = (arg.to_vec(), t.0, c, code);
    if let Some(b) = FTAB.with(|f| f.borrow().cmpmemo.get(&key).copied()) {
        return b;
    }
    let x = tab(t);
    let y = f64::from_bits(c);
    let r = bdd_table(arg, &|i| match code {
        0 | 4 => x[i] == y,
        1 => x[i] < y,
        2 => x[i] <= y,
        5 => y < x[i],
        _ => y <= x[i],
    });
    FTAB.with(|f| f.borrow_mut().cmpmemo.insert(key, r));
    r
}

// ------------------------------------------------------------------ values

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Elem {
    Field(u32),
    VField(u32, u32),
    Index(usize),
    /// a sub-array (start, length) of an array or vector
    Sub(usize, usize),
    BoxDeref,
}
#[derive(Clone, Debug)]
pub enum Root {
    Local(u32, u32),
    Static(usize),
    Const(Rc<Value>),
}
impl PartialEq for Root {
    fn eq(&self, o: &Root) -> bool {
        match (self, o) {
            (Root::Local(a, b), Root::Local(c, d)) => a == c && b == d,
            (Root::Static(a), Root::Static(b)) => a == b,
            (Root::Const(a), Root::Const(b)) => Rc::ptr_eq(a, b) || a == b,
            _ => false,
        }
    }
}
#[derive(Clone, PartialEq, Debug)]
pub enum Meta {
    None,
    Len(Int),
    Vt(Ty),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Target {
    pub root: Root,
    pub path: Vec<Elem>,
    pub meta: Meta,
}
#[derive(Clone, PartialEq, Debug)]
pub struct EnumV {
    pub discr: Int,
    pub vars: Vec<Option<Rc<Vec<Value>>>>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct VecV {
    pub elems: Vec<Value>,
    pub len: Int,
}
#[derive(Clone, PartialEq, Debug)]
pub struct BoxV {
    pub inner: Value,
    pub meta: Meta,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Value {
    Uninit,
    Bad(Rc<str>),
    Int(Int),
    Float(Rc<FloatV>),
    Agg(Rc<Vec<Value>>),
    Enum(Rc<EnumV>),
    Ptr(Rc<Vec<(Bdd, Target)>>),
    Vec(Rc<VecV>),
    Boxed(Rc<BoxV>),
    FnPtr(Ty),
    /// an arbitrary string: (identity, transformation applied)
    OStr(u32, Rc<str>),
}

pub fn bad(s: impl Into<String>) -> Value {
    Value::Bad(s.into().into())
}
impl Value {
    pub fn unit() -> Value {
        Value::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<Value>) -> Value {
        Value::Agg(Rc::new(v))
    }
    pub fn bool(b: Bdd) -> Value {
        Value::Int(Int::bool(b))
    }
    pub fn usize(n: usize) -> Value {
        Value::Int(Int::usize(n))
    }
    pub fn ptr(t: Target) -> Value {
        Value::Ptr(Rc::new(vec![(T, t)]))
    }
    pub fn vec(elems: Vec<Value>) -> Value {
        let len = Int::usize(elems.len());
        Value::Vec(Rc::new(VecV { elems, len }))
    }
    fn same(&self, o: &Value) -> bool {
        match (self, o) {
            (Value::Agg(a), Value::Agg(b)) => Rc::ptr_eq(a, b),
            (Value::Enum(a), Value::Enum(b)) => Rc::ptr_eq(a, b),
            (Value::Ptr(a), Value::Ptr(b)) => Rc::ptr_eq(a, b),
            (Value::Vec(a), Value::Vec(b)) => Rc::ptr_eq(a, b),
            (Value::Boxed(a), Value::Boxed(b)) => Rc::ptr_eq(a, b),
            (Value::Int(a), Value::Int(b)) => a == b,
            _ => false,
        }
    }
}

fn ite_meta(g: Bdd, a: &Meta, b: &Meta) -> Option<Meta> {
    match (a, b) {
        (Meta::None, Meta::None) => Some(Meta::None),
        (Meta::Len(x), Meta::Len(y)) => Some(Meta::Len(ite_int(g, x, y))),
        (Meta::Vt(x), Meta::Vt(y)) if x == y => Some(Meta::Vt(*x)),
        _ => None,
    }
}
pub fn ptr_push(v: &mut Vec<(Bdd, Target)>, g: Bdd, t: &Target) {
    if g == F {
        return;
    }
    for (h, u) in v.iter_mut() {
        if u.root == t.root && u.path == t.path {
            if let Some(m) = ite_meta(g, &t.meta, &u.meta) {
                u.meta = m;
                *h = bdd::or(*h, g);
                return;
            }
        }
    }
    v.push((g, t.clone()));
}

/// `if g then a else b`
pub fn ite(g: Bdd, a: &Value, b: &Value) -> Value {
    if g == T || a.same(b) {
        return a.clone();
    }
    if g == F {
        return b.clone();
    }
    match (a, b) {
        (Value::Uninit, x) | (x, Value::Uninit) => x.clone(),
        (Value::Bad(_), _) => a.clone(),
        (_, Value::Bad(_)) => b.clone(),
        (Value::Int(x), Value::Int(y)) if x.w == y.w => Value::Int(ite_int(g, x, y)),
        (Value::Float(x), Value::Float(y)) if x.k == y.k => {
            if x == y {
                return a.clone();
            }
            let ng = bdd::not(g);
            let mut l: Vec<_> = x.l.iter().map(|(h, t)| (bdd::and(g, *h), t.clone())).collect();
            l.extend(y.l.iter().map(|(h, t)| (bdd::and(ng, *h), t.clone())));
            Value::Float(Rc::new(FloatV::norm(l, x.k)))
        }
        (Value::Agg(x), Value::Agg(y)) => {
            if x.len() != y.len() {
                if x.is_empty() || y.is_empty() {
                    return bad("merge of aggregates of different shape");
                }
                return bad("merge of aggregates of different size");
            }
            Value::agg(x.iter().zip(y.iter()).map(|(p, q)| ite(g, p, q)).collect())
        }
        (Value::Enum(x), Value::Enum(y)) => {
            let n = x.vars.len().max(y.vars.len());
            let mut vars = Vec::with_capacity(n);
            for i in 0..n {
                let p = x.vars.get(i).cloned().flatten();
                let q = y.vars.get(i).cloned().flatten();
                vars.push(match (p, q) {
                    (None, q) => q,
                    (p, None) => p,
                    (Some(p), Some(q)) => {
                        if Rc::ptr_eq(&p, &q) {
                            Some(p)
                        } else {
                            // payloads only matter where the discriminant selects them
                            Some(Rc::new(
                                p.iter().zip(q.iter()).map(|(u, v)| ite(g, u, v)).collect(),
                            ))
                        }
                    }
                });
            }
            Value::Enum(Rc::new(EnumV { discr: ite_int(g, &x.discr, &y.discr), vars }))
        }
        (Value::Ptr(x), Value::Ptr(y)) => {
            let ng = bdd::not(g);
            let mut v: Vec<(Bdd, Target)> =
                y.iter().map(|(h, t)| (bdd::and(ng, *h), t.clone())).collect();
            v.retain(|x| x.0 != F);
            for (h, t) in x.iter() {
                ptr_push(&mut v, bdd::and(g, *h), t);
            }
            if v.len() == 1 {
                v[0].0 = T;
            }
            Value::Ptr(Rc::new(v))
        }
        (Value::Vec(x), Value::Vec(y)) => {
            let n = x.elems.len().max(y.elems.len());
            let mut e = Vec::with_capacity(n);
            for i in 0..n {
                e.push(match (x.elems.get(i), y.elems.get(i)) {
                    (Some(p), Some(q)) => ite(g, p, q),
                    (Some(p), None) | (None, Some(p)) => p.clone(),
                    _ => unreachable!(),
                });
            }
            Value::Vec(Rc::new(VecV { elems: e, len: ite_int(g, &x.len, &y.len) }))
        }
        (Value::Boxed(x), Value::Boxed(y)) => match ite_meta(g, &x.meta, &y.meta) {
            Some(meta) => {
                Value::Boxed(Rc::new(BoxV { inner: ite(g, &x.inner, &y.inner), meta }))
            }
            None => bad("merge of boxes of different dynamic type"),
        },
        (Value::FnPtr(x), Value::FnPtr(y)) if x == y => a.clone(),
        (Value::OStr(x, s), Value::OStr(y, t)) if x == y && s == t => a.clone(),
        _ => bad("merge of values of different kind"),
    }
}
