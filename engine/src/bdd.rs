//! Reduced ordered binary decision diagrams (the relational part of the
//! abstract domain).  One manager per analysed client partition.
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Bdd(pub u32);
pub const F: Bdd = Bdd(0);
pub const T: Bdd = Bdd(1);

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy)]
struct Node {
    var: u32,
    lo: Bdd,
    hi: Bdd,
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    /// an over-approximated atom (not a bit of an unknown input)
    pub opaque: bool,
}

pub struct Mgr {
    nodes: Vec<Node>,
    unique: FxMap<(u32, u32, u32), u32>,
    ite: FxMap<(u32, u32, u32), u32>,
    restr: FxMap<(u32, u32), u32>,
    pub vars: Vec<VarInfo>,
    pub total_nodes: usize,
    deadline: Option<std::time::Instant>,
    ops: u64,
}

struct G(UnsafeCell<Option<Mgr>>);
unsafe impl Sync for G {}
static MGR: G = G(UnsafeCell::new(None));

fn m() -> &'static mut Mgr {
    unsafe { (*MGR.0.get()).get_or_insert_with(Mgr::new) }
}

/// Number of nodes above which an analysis gives up (reported as undecided).
pub const NODE_LIMIT: usize = 25_000_000;
/// Entries of the operation memos before they are dropped.
const MEMO_LIMIT: usize = 25_000_000;

/// Unwinds out of an analysis that became too large.
pub struct GiveUp(pub &'static str);

pub fn set_deadline(t: std::time::Instant) {
    m().deadline = Some(t);
}

pub fn reset() {
    unsafe {
        *MGR.0.get() = Some(Mgr::new());
    }
}
pub fn node_count() -> usize {
    m().nodes.len()
}
pub fn over_limit() -> bool {
    m().nodes.len() > NODE_LIMIT
}
pub fn vars() -> &'static Vec<VarInfo> {
    &m().vars
}

impl Mgr {
    fn new() -> Self {
        let n = Node { var: u32::MAX, lo: F, hi: F };
        Mgr {
            nodes: vec![n, n],
            unique: FxMap::default(),
            ite: FxMap::default(),
            restr: FxMap::default(),
            vars: vec![],
            total_nodes: 0,
            deadline: None,
            ops: 0,
        }
    }
    fn mk(&mut self, var: u32, lo: Bdd, hi: Bdd) -> Bdd {
        if lo == hi {
            return lo;
        }
        let k = (var, lo.0, hi.0);
        if let Some(i) = self.unique.get(&k) {
            return Bdd(*i);
        }
        let i = self.nodes.len() as u32;
        if self.nodes.len() > NODE_LIMIT {
            std::panic::panic_any(GiveUp("BDD size limit"));
        }
        self.nodes.push(Node { var, lo, hi });
        self.unique.insert(k, i);
        Bdd(i)
    }
    fn var(&self, b: Bdd) -> u32 {
        self.nodes[b.0 as usize].var
    }
    fn cof(&self, b: Bdd, v: u32) -> (Bdd, Bdd) {
        let n = self.nodes[b.0 as usize];
        if n.var == v { (n.lo, n.hi) } else { (b, b) }
    }
    fn ite(&mut self, f: Bdd, g: Bdd, h: Bdd) -> Bdd {
        if f == T {
            return g;
        }
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        let (mut g, mut h) = (g, h);
        if g == f {
            g = T;
        }
        if h == f {
            h = F;
        }
        if g == T && h == F {
            return f;
        }
        if g == h {
            return g;
        }
        let k = (f.0, g.0, h.0);
        if let Some(r) = self.ite.get(&k) {
            return Bdd(*r);
        }
        self.ops += 1;
        if self.ops & 0xffff == 0 {
            if self.ite.len() > MEMO_LIMIT {
                self.ite = FxMap::default();
            }
            if self.restr.len() > MEMO_LIMIT {
                self.restr = FxMap::default();
            }
            if self.deadline.is_some_and(|t| std::time::Instant::now() > t) {
                std::panic::panic_any(GiveUp("time limit"));
            }
        }
        let v = self.var(f).min(self.var(g)).min(self.var(h));
        let (f0, f1) = self.cof(f, v);
        let (g0, g1) = self.cof(g, v);
        let (h0, h1) = self.cof(h, v);
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        self.ite.insert(k, r.0);
        r
    }
    fn restrict(&mut self, f: Bdd, c: Bdd) -> Bdd {
        if c == T || f == T || f == F {
            return f;
        }
        if c == F {
            return f;
        }
        if f == c {
            return T;
        }
        let k = (f.0, c.0);
        if let Some(r) = self.restr.get(&k) {
            return Bdd(*r);
        }
        let vf = self.var(f);
        let vc = self.var(c);
        let r = if vc < vf {
            let (c0, c1) = self.cof(c, vc);
            let c01 = self.ite(c0, T, c1);
            self.restrict(f, c01)
        } else {
            let (f0, f1) = self.cof(f, vf);
            let (c0, c1) = self.cof(c, vf);
            if c0 == F {
                self.restrict(f1, c1)
            } else if c1 == F {
                self.restrict(f0, c0)
            } else {
                let lo = self.restrict(f0, c0);
                let hi = self.restrict(f1, c1);
                self.mk(vf, lo, hi)
            }
        };
        self.restr.insert(k, r.0);
        r
    }
}

pub fn new_var(name: String, opaque: bool) -> Bdd {
    let mg = m();
    let v = mg.vars.len() as u32;
    mg.vars.push(VarInfo { name, opaque });
    mg.mk(v, F, T)
}
pub fn ite(f: Bdd, g: Bdd, h: Bdd) -> Bdd {
    m().ite(f, g, h)
}
pub fn not(f: Bdd) -> Bdd {
    ite(f, F, T)
}
pub fn and(f: Bdd, g: Bdd) -> Bdd {
    if f.0 <= g.0 { ite(f, g, F) } else { ite(g, f, F) }
}
pub fn or(f: Bdd, g: Bdd) -> Bdd {
    if f.0 <= g.0 { ite(f, T, g) } else { ite(g, T, f) }
}
pub fn xor(f: Bdd, g: Bdd) -> Bdd {
    if f == g {
        return F;
    }
    let (f, g) = if f.0 <= g.0 { (f, g) } else { (g, f) };
    if f == F {
        return g;
    }
    let ng = not(g);
    ite(f, ng, g)
}
pub fn iff(f: Bdd, g: Bdd) -> Bdd {
    not(xor(f, g))
}
pub fn diff(f: Bdd, g: Bdd) -> Bdd {
    ite(g, F, f)
}
/// Simplify `f` knowing that only points of `c` matter.
pub fn restrict(f: Bdd, c: Bdd) -> Bdd {
    m().restrict(f, c)
}
pub fn is_const(b: Bdd) -> bool {
    b.0 < 2
}
/// One satisfying assignment, as (var, value) pairs.
pub fn sat_one(mut b: Bdd) -> Vec<(u32, bool)> {
    let mg = m();
    let mut r = vec![];
    while b.0 > 1 {
        let n = mg.nodes[b.0 as usize];
        if n.lo != F {
            r.push((n.var, false));
            b = n.lo;
        } else {
            r.push((n.var, true));
            b = n.hi;
        }
    }
    r
}
/// Universally quantify all opaque variables.
pub fn forall_opaque(b: Bdd) -> Bdd {
    fn go(b: Bdd, memo: &mut FxMap<u32, Bdd>) -> Bdd {
        if b.0 < 2 {
            return b;
        }
        if let Some(r) = memo.get(&b.0) {
            return *r;
        }
        let n = m().nodes[b.0 as usize];
        let lo = go(n.lo, memo);
        let hi = go(n.hi, memo);
        let r = if m().vars[n.var as usize].opaque { and(lo, hi) } else { m().mk(n.var, lo, hi) };
        memo.insert(b.0, r);
        r
    }
    go(b, &mut FxMap::default())
}
/// the function that is true exactly when variable `v` is
pub fn var_bdd(v: u32) -> Bdd {
    m().mk(v, F, T)
}
pub fn eval(mut b: Bdd, f: &dyn Fn(u32) -> bool) -> bool {
    let mg = m();
    while b.0 > 1 {
        let n = mg.nodes[b.0 as usize];
        b = if f(n.var) { n.hi } else { n.lo };
    }
    b == T
}
pub fn support(b: Bdd) -> Vec<u32> {
    let mut seen = FxMap::default();
    let mut vs = std::collections::BTreeSet::new();
    let mut st = vec![b];
    while let Some(b) = st.pop() {
        if b.0 < 2 || seen.insert(b.0, ()).is_some() {
            continue;
        }
        let n = m().nodes[b.0 as usize];
        vs.insert(n.var);
        st.push(n.lo);
        st.push(n.hi);
    }
    vs.into_iter().collect()
}
