//! Forward abstract interpretation of monomorphic MIR.
//!
//! One abstract state per program point: states are joined at every merge
//! point, blocks are processed in weak topological order.
use crate::bdd::{self, Bdd, F, T};
use crate::types::*;
use crate::val::*;
use rustc_public::CrateDef;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::{ConstantKind, FnDef, GenericArgKind, GenericArgs, RigidTy, Span, Ty, TyKind};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub enum Stop {
    Und(String),
    Dead,
}
pub type R<T> = Result<T, Stop>;
pub fn und<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Und(s.into()))
}
impl From<String> for Stop {
    fn from(s: String) -> Stop {
        Stop::Und(s)
    }
}

#[derive(Clone)]
pub struct State {
    pub pc: Bdd,
    pub frames: Vec<Rc<Vec<Value>>>,
    pub statics: Vec<(usize, Value)>,
}

pub struct BodyInfo {
    pub body: Body,
    pub pos: Vec<u32>,
    pub name: Rc<str>,
    pub krate: Rc<str>,
    pub closure: bool,
    pub tys: Vec<Ty>,
    /// initial locals: zero-sized ones are never written in optimised MIR
    pub init: Vec<Value>,
}

#[derive(Clone, Default)]
pub struct Oblig {
    pub checks: u64,
    pub violated: bool,
    pub undecided: bool,
}
#[derive(Clone)]
pub struct Report {
    pub key: String,
    pub text: String,
}
#[derive(Default)]
pub struct Stats {
    pub functions: BTreeSet<String>,
    pub blocks: u64,
    pub statements: u64,
    pub calls: u64,
    pub joins: u64,
    pub call_sites: BTreeSet<(String, usize)>,
    pub models: BTreeSet<String>,
}

pub struct Interp {
    bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    resolved: HashMap<(FnDef, GenericArgs), Option<Instance>>,
    names: HashMap<FnDef, Rc<str>>,
    statics: Vec<(StaticDef, Option<Value>)>,
    pub stack: Vec<(Rc<BodyInfo>, Span)>,
    pub obligs: BTreeMap<String, Oblig>,
    pub violations: Vec<Report>,
    pub undecided: Vec<Report>,
    pub stats: Stats,
    pub model_fns: HashMap<String, FnDef>,
    /// types of the analysed crate that implement `Drop`
    pub drop_types: Vec<String>,
    drop_memo: HashMap<Ty, Option<String>>,
    pub part: usize,
    pub parts: usize,
    /// case split: the values of the first calls of `length`
    pub path: Vec<usize>,
    /// the number of values of each call of `length` seen so far
    pub choices: Vec<usize>,
    pub thorough: bool,
    pub inputs: Vec<(String, Value)>,
    pub trace: bool,
    pub quiet: u32,
    /// how often states were given up as unsupported
    pub lost: u64,
    pub deadline: std::time::Instant,
}

impl Statics for Interp {
    fn static_root(&mut self, d: StaticDef) -> Result<usize, String> {
        if let Some(i) = self.statics.iter().position(|x| x.0 == d) {
            return Ok(i);
        }
        let i = self.statics.len();
        self.statics.push((d, None));
        let init = d.eval_initializer().map_err(|e| format!("static initializer: {e:?}"))?;
        let v = decode_alloc(self, d_ty(d), &init)?;
        self.statics[i].1 = Some(v);
        Ok(i)
    }
}
fn d_ty(d: StaticDef) -> Ty {
    d.ty()
}

pub fn merge(a: State, b: State) -> State {
    let pc = bdd::or(a.pc, b.pc);
    let g = bdd::restrict(a.pc, pc);
    let mut frames = Vec::with_capacity(a.frames.len());
    for (x, y) in a.frames.iter().zip(b.frames.iter()) {
        if Rc::ptr_eq(x, y) {
            frames.push(x.clone());
        } else {
            frames.push(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| ite(g, p, q)).collect()));
        }
    }
    let mut statics = vec![];
    let mut keys: Vec<usize> = a.statics.iter().chain(b.statics.iter()).map(|x| x.0).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        let p = a.statics.iter().find(|x| x.0 == k);
        let q = b.statics.iter().find(|x| x.0 == k);
        // a static only written on one side is a lazily initialised constant
        let v = match (p, q) {
            (Some(p), Some(q)) => ite(g, &p.1, &q.1),
            (Some(p), None) | (None, Some(p)) => p.1.clone(),
            _ => unreachable!(),
        };
        statics.push((k, v));
    }
    State { pc, frames, statics }
}

/// Bourdoncle's weak topological order; returns the position of each block.
fn wto(body: &Body) -> Vec<u32> {
    let n = body.blocks.len();
    let succ: Vec<Vec<usize>> = body
        .blocks
        .iter()
        .map(|b| match &b.terminator.kind {
            TerminatorKind::Goto { target } => vec![*target],
            TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
            TerminatorKind::Drop { target, .. } => vec![*target],
            TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
            TerminatorKind::Assert { target, .. } => vec![*target],
            _ => vec![],
        })
        .collect();
    struct W<'a> {
        succ: &'a [Vec<usize>],
        dfn: Vec<u32>,
        num: u32,
        stack: Vec<usize>,
    }
    impl W<'_> {
        fn component(&mut self, v: usize, out: &mut Vec<usize>) {
            let mut part = vec![];
            for s in self.succ[v].to_vec() {
                if self.dfn[s] == 0 {
                    self.visit(s, &mut part);
                }
            }
            // out is in reverse order
            out.extend(part);
            out.push(v);
        }
        fn visit(&mut self, v: usize, out: &mut Vec<usize>) -> u32 {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v] = self.num;
            let mut head = self.num;
            let mut lp = false;
            for s in self.succ[v].to_vec() {
                let m = if self.dfn[s] == 0 { self.visit(s, out) } else { self.dfn[s] };
                if m <= head {
                    head = m;
                    lp = true;
                }
            }
            if head == self.dfn[v] {
                self.dfn[v] = u32::MAX;
                let mut e = self.stack.pop().unwrap();
                if lp {
                    while e != v {
                        self.dfn[e] = 0;
                        e = self.stack.pop().unwrap();
                    }
                    self.component(v, out);
                } else {
                    out.push(v);
                }
            }
            head
        }
    }
    let mut w = W { succ: &succ, dfn: vec![0; n], num: 0, stack: vec![] };
    let mut out = vec![];
    w.visit(0, &mut out);
    let mut pos = vec![u32::MAX; n];
    for (i, b) in out.iter().rev().enumerate() {
        pos[*b] = i as u32;
    }
    pos
}

/// name without generic arguments nested deeper than one level
pub fn brief(s: &str) -> String {
    let mut out = String::new();
    let mut d = 0;
    let mut prev = ' ';
    for c in s.chars() {
        if c == '<' || c == '{' {
            d += 1;
        }
        if d <= 1 {
            out.push(c);
        }
        if c == '}' || (c == '>' && prev != '-') {
            d -= 1;
        }
        prev = c;
    }
    out
}
pub fn loc(s: &Span) -> String {
    format!("{}:{}", s.get_filename(), s.get_lines().start_line)
}

impl Interp {
    pub fn new() -> Interp {
        Interp {
            bodies: HashMap::new(),
            resolved: HashMap::new(),
            names: HashMap::new(),
            statics: vec![],
            stack: vec![],
            obligs: BTreeMap::new(),
            violations: vec![],
            undecided: vec![],
            stats: Stats::default(),
            model_fns: HashMap::new(),
            drop_types: vec![],
            drop_memo: HashMap::new(),
            part: 0,
            parts: 1,
            path: vec![],
            choices: vec![],
            thorough: false,
            inputs: vec![],
            quiet: 0,
            lost: 0,
            trace: std::env::var("UR20_TRACE").is_ok(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
        }
    }
    pub fn fn_name(&mut self, d: FnDef) -> Rc<str> {
        self.names.entry(d).or_insert_with(|| canon(&d.name()).into()).clone()
    }
    pub fn body_of(&mut self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let b = i.body().map(|body| {
            let pos = wto(&body);
            let closure = matches!(
                &*kind(i.ty()),
                TyKind::RigidTy(RigidTy::Closure(..)) | TyKind::RigidTy(RigidTy::CoroutineClosure(..))
            );
            let tys: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
            let init = tys.iter().map(|t| if is_zst(*t) { zst(*t) } else { Value::Uninit }).collect();
            Rc::new(BodyInfo {
                pos,
                name: canon(&i.name()).into(),
                krate: i.def.krate().name.into(),
                closure,
                body,
                tys,
                init,
            })
        });
        self.bodies.insert(i, b.clone());
        b
    }
    pub fn resolve_inst(&mut self, d: FnDef, a: &GenericArgs) -> Option<Instance> {
        let k = (d, a.clone());
        if let Some(i) = self.resolved.get(&k) {
            return *i;
        }
        let i = Instance::resolve(d, a).ok();
        self.resolved.insert(k, i);
        i
    }

    // ------------------------------------------------------------ reporting

    pub fn where_(&self) -> (String, String) {
        // innermost frame of the analysed library, else innermost frame
        let fr = self.stack.iter().rev().find(|f| &*f.0.krate == "ur20").or(self.stack.last());
        match fr {
            Some((b, s)) => (b.name.to_string(), loc(s)),
            None => ("?".into(), "?".into()),
        }
    }
    pub fn stack_text(&self) -> String {
        let mut s = String::new();
        let mut n = 0;
        for (b, sp) in self.stack.iter().rev() {
            n += 1;
            if n > 14 {
                s.push_str("\n      ...");
                break;
            }
            s.push_str(&format!("\n      at {} ({})", brief(&b.name), loc(sp)));
        }
        s
    }
    pub fn model_text(&self, b: Bdd) -> String {
        let a: HashMap<u32, bool> = bdd::sat_one(b).into_iter().collect();
        let mut out = vec![];
        let mut names: BTreeMap<String, (u128, bool)> = BTreeMap::new();
        let mut order = vec![];
        for (i, v) in bdd::vars().iter().enumerate() {
            if v.opaque {
                continue;
            }
            let (n, k) = match v.name.rfind('#') {
                Some(p) => (v.name[..p].to_string(), v.name[p + 1..].parse::<u32>().unwrap_or(0)),
                None => (v.name.clone(), 0),
            };
            if !names.contains_key(&n) {
                order.push(n.clone());
            }
            let e = names.entry(n).or_insert((0, false));
            if let Some(x) = a.get(&(i as u32)) {
                e.1 = true;
                if *x {
                    e.0 |= 1 << k;
                }
            }
        }
        for n in order {
            let (v, used) = names[&n];
            if used {
                out.push(format!("{n} = {v} ({v:#x})"));
            }
        }
        if out.is_empty() { "any input".into() } else { out.join(", ") }
    }
    /// An obligation: `bad` must be unsatisfiable.
    pub fn oblige(&mut self, kind: &str, rule: &str, bad: Bdd, opaque: bool) {
        if self.quiet > 0 && kind == "panic" {
            return;
        }
        let (f, l) = self.where_();
        let key = format!("{kind}: {rule} in {f}");
        let e = self.obligs.entry(key.clone()).or_default();
        e.checks += 1;
        if bad == F {
            return;
        }
        let g = global();
        let b = bdd::and(bad, g);
        if b == F {
            return;
        }
        let definite =
            if opaque { F } else { bdd::forall_opaque(bdd::or(bdd::not(g), bad)) };
        if definite != F {
            let first = !e.violated;
            e.violated = true;
            if first {
                let inp = self.model_text(definite);
                let text = format!(
                    "{kind}: {rule}\n    in {f} ({l})\n    reachable with: {inp}\n    call path:{}",
                    self.stack_text()
                );
                self.violations.push(Report { key, text });
            }
        } else {
            let first = !e.undecided;
            e.undecided = true;
            if first {
                let inp = self.model_text(b);
                let text = format!(
                    "{kind}: {rule}\n    in {f} ({l})\n    not excluded for: {inp}\n    call path:{}",
                    self.stack_text()
                );
                self.undecided.push(Report { key, text });
            }
        }
    }
    pub fn undecide(&mut self, st: &State, msg: &str) {
        if st.pc == F {
            return;
        }
        self.lost += 1;
        let (f, l) = self.where_();
        let key = format!("unsupported: {msg} in {f}");
        let e = self.obligs.entry(key.clone()).or_default();
        e.checks += 1;
        if !e.undecided {
            e.undecided = true;
            let text = format!("unsupported: {msg}\n    in {f} ({l}){}", self.stack_text());
            if self.trace {
                eprintln!("UNSUPPORTED {text}");
            }
            self.undecided.push(Report { key, text });
        }
    }

    // --------------------------------------------------------------- memory

    pub fn top(&self, st: &State) -> u32 {
        st.frames.len() as u32 - 1
    }
    fn root_val<'a>(&'a self, st: &'a State, r: &'a Root) -> R<&'a Value> {
        Ok(match r {
            Root::Local(f, l) => match st.frames.get(*f as usize) {
                Some(fr) => &fr[*l as usize],
                None => return und("dangling pointer to a popped frame"),
            },
            Root::Static(i) => match st.statics.iter().find(|x| x.0 == *i) {
                Some(x) => &x.1,
                None => match &self.statics[*i].1 {
                    Some(v) => v,
                    None => return und("static used in its own initializer"),
                },
            },
            Root::Const(v) => v,
        })
    }
    pub fn load1(&self, st: &State, t: &Target) -> R<Value> {
        let root = self.root_val(st, &t.root)?;
        let owned: Value;
        let mut cur: &Value = root;
        for (i, e) in t.path.iter().enumerate() {
            let nxt: Option<&Value> = match (e, cur) {
                (Elem::Field(f), Value::Agg(a)) => a.get(*f as usize),
                (Elem::VField(v, f), Value::Enum(en)) => {
                    en.vars.get(*v as usize).and_then(|x| x.as_ref()).and_then(|x| x.get(*f as usize))
                }
                (Elem::Index(k), Value::Agg(a)) => a.get(*k),
                (Elem::Index(k), Value::Vec(a)) => match a.elems.get(*k) {
                    Some(x) => Some(x),
                    None => Some(&Value::Uninit),
                },
                (Elem::Sub(s, n), Value::Agg(a)) if s + n <= a.len() => {
                    owned = Value::agg(a[*s..s + n].to_vec());
                    return self.load_rest(owned, &t.path[i + 1..]);
                }
                (Elem::Sub(s, n), Value::Vec(a)) => {
                    owned = Value::agg(
                        (*s..s + n).map(|k| a.elems.get(k).cloned().unwrap_or(Value::Uninit)).collect(),
                    );
                    return self.load_rest(owned, &t.path[i + 1..]);
                }
                (Elem::BoxDeref, Value::Boxed(b)) => Some(&b.inner),
                (Elem::Field(0), Value::Boxed(b)) => {
                    let mut path = t.path[..i].to_vec();
                    path.push(Elem::BoxDeref);
                    if let Meta::Len(_) = b.meta {
                        path.push(Elem::Index(0));
                    }
                    let v = Value::ptr(Target { root: t.root.clone(), path, meta: b.meta.clone() });
                    return self.load_rest(v, &t.path[i + 1..]);
                }
                (Elem::Field(_), Value::Boxed(_)) => Some(UNIT.with(|u| unsafe { &*(u as *const Value) })),
                (Elem::Field(0), Value::Ptr(_) | Value::Int(_) | Value::FnPtr(_)) => Some(cur),
                (Elem::Field(_), Value::Ptr(_)) => Some(UNIT.with(|u| unsafe { &*(u as *const Value) })),
                (_, Value::Bad(_)) => return Ok(cur.clone()),
                (_, Value::Uninit) => return Ok(Value::Uninit),
                _ => None,
            };
            match nxt {
                Some(v) => cur = v,
                None => {
                    // a payload that exists on no path into this point
                    if let (Elem::VField(..), Value::Enum(_)) = (e, cur) {
                        return Ok(Value::Uninit);
                    }
                    return und(format!("cannot project {e:?} out of {}", short(cur)));
                }
            }
        }
        Ok(cur.clone())
    }
    fn load_rest(&self, v: Value, rest: &[Elem]) -> R<Value> {
        if rest.is_empty() {
            return Ok(v);
        }
        if let Value::Ptr(_) = v {
            if rest.iter().all(|e| *e == Elem::Field(0)) {
                return Ok(v);
            }
            return Ok(Value::unit());
        }
        let st = State { pc: T, frames: vec![], statics: vec![] };
        self.load1(
            &st,
            &Target { root: Root::Const(Rc::new(v)), path: rest.to_vec(), meta: Meta::None },
        )
    }
    pub fn load(&self, st: &State, ts: &[(Bdd, Target)]) -> R<Value> {
        if ts.len() == 1 {
            return self.load1(st, &ts[0].1);
        }
        let mut acc: Option<Value> = None;
        for (g, t) in ts {
            if bdd::and(*g, st.pc) == F {
                continue;
            }
            let v = self.load1(st, t)?;
            acc = Some(match acc {
                None => v,
                Some(a) => ite(*g, &v, &a),
            });
        }
        match acc {
            Some(v) => Ok(v),
            None => Err(Stop::Dead),
        }
    }
    pub fn store(&self, st: &mut State, ts: &[(Bdd, Target)], v: Value) -> R<()> {
        if ts.len() == 1 {
            return self.store1(st, &ts[0].1, v);
        }
        for (g, t) in ts {
            if bdd::and(*g, st.pc) == F {
                continue;
            }
            let old = self.load1(st, t)?;
            let n = ite(*g, &v, &old);
            self.store1(st, t, n)?;
        }
        Ok(())
    }
    pub fn store1(&self, st: &mut State, t: &Target, v: Value) -> R<()> {
        let root: &mut Value = match &t.root {
            Root::Local(f, l) => match st.frames.get_mut(*f as usize) {
                Some(fr) => &mut Rc::make_mut(fr)[*l as usize],
                None => return und("store through a dangling pointer"),
            },
            Root::Static(i) => {
                if !st.statics.iter().any(|x| x.0 == *i) {
                    let init = self.statics[*i].1.clone().ok_or(Stop::Und("static".into()))?;
                    st.statics.push((*i, init));
                }
                &mut st.statics.iter_mut().find(|x| x.0 == *i).unwrap().1
            }
            Root::Const(_) => return und("store to constant memory"),
        };
        put(root, &t.path, v)
    }

    /// Resolve a place to guarded targets.
    pub fn place(&self, st: &State, bi: &BodyInfo, p: &Place) -> R<Vec<(Bdd, Target)>> {
        let mut ts = vec![(
            T,
            Target { root: Root::Local(self.top(st), p.local as u32), path: vec![], meta: Meta::None },
        )];
        let mut ty = bi.tys[p.local];
        let mut variant: Option<u32> = None;
        for e in &p.projection {
            let base = ty;
            ty = proj_ty(e, base)?;
            match e {
                ProjectionElem::Deref => {
                    let v = self.load(st, &ts)?;
                    match v {
                        Value::Ptr(l) => {
                            ts = l
                                .iter()
                                .filter(|(g, _)| *g == T || bdd::and(*g, st.pc) != F)
                                .cloned()
                                .collect();
                            if ts.is_empty() {
                                return Err(Stop::Dead);
                            }
                        }
                        Value::Boxed(b) => {
                            for (_, t) in ts.iter_mut() {
                                t.path.push(Elem::BoxDeref);
                                if let Meta::Len(_) = b.meta {
                                    t.path.push(Elem::Index(0));
                                }
                                t.meta = b.meta.clone();
                            }
                        }
                        Value::Bad(s) => return und(format!("dereference of unknown pointer: {s}")),
                        o => return und(format!("dereference of {}", short(&o))),
                    }
                }
                ProjectionElem::Field(i, _) => {
                    if is_union(base) {
                        continue;
                    }
                    for (_, t) in ts.iter_mut() {
                        t.meta = Meta::None;
                        match variant {
                            Some(v) => t.path.push(Elem::VField(v, *i as u32)),
                            None => t.path.push(Elem::Field(*i as u32)),
                        }
                    }
                }
                ProjectionElem::Downcast(v) => {
                    let d = matches!(&*kind(base), TyKind::RigidTy(RigidTy::Adt(d,_)) if d.kind()==rustc_public::ty::AdtKind::Enum);
                    if !d {
                        return und("downcast of a non-enum");
                    }
                    variant = Some(var_idx(*v) as u32);
                    continue;
                }
                ProjectionElem::Index(l) => {
                    let iv = st.frames[self.top(st) as usize][*l].clone();
                    let Value::Int(iv) = iv else { return und("index") };
                    self.index(st, &mut ts, &iv, is_slice_like(base))?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let slice = is_slice_like(base);
                    let iv = if *from_end {
                        if slice {
                            let l = meta_len(&ts)?;
                            l.sub(&Int::usize(*offset as usize))
                        } else {
                            Int::usize(array_len(base).unwrap() - *offset as usize)
                        }
                    } else {
                        Int::usize(*offset as usize)
                    };
                    self.index(st, &mut ts, &iv, slice)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let slice = is_slice_like(base);
                    for (_, t) in ts.iter_mut() {
                        if slice {
                            let Meta::Len(l) = &t.meta else { return und("subslice") };
                            let nl = l.sub(&Int::usize((*from + *to) as usize));
                            bump(&mut t.path, *from as usize)?;
                            t.meta = Meta::Len(nl);
                        } else {
                            let n = array_len(base).unwrap();
                            let e = if *from_end { n - *to as usize } else { *to as usize };
                            push_sub(&mut t.path, *from as usize, e - *from as usize);
                        }
                    }
                }
                ProjectionElem::OpaqueCast(_) => {}
            }
            variant = None;
        }
        Ok(ts)
    }
    pub fn index(&self, st: &State, ts: &mut Vec<(Bdd, Target)>, iv: &Int, slice: bool) -> R<()> {
        let vs = match iv.values(st.pc, 5000) {
            Some(v) => v,
            None => return und("index with too many values"),
        };
        if vs.is_empty() {
            return Err(Stop::Dead);
        }
        let mut out: Vec<(Bdd, Target)> = vec![];
        for (g, t) in ts.iter() {
            for (k, h) in &vs {
                let gh = if *h == T { *g } else { bdd::restrict(bdd::and(*g, *h), st.pc) };
                if gh == F {
                    continue;
                }
                let mut t = t.clone();
                if slice {
                    bump(&mut t.path, *k as usize)?;
                } else {
                    match t.path.last() {
                        Some(Elem::Sub(s, _)) => {
                            let s = *s;
                            t.path.pop();
                            t.path.push(Elem::Index(s + *k as usize));
                        }
                        _ => t.path.push(Elem::Index(*k as usize)),
                    }
                }
                t.meta = Meta::None;
                ptr_push(&mut out, gh, &t);
            }
        }
        if out.is_empty() {
            return Err(Stop::Dead);
        }
        if out.len() == 1 {
            out[0].0 = T;
        }
        *ts = out;
        Ok(())
    }
    pub fn ptr_offset(&self, st: &State, p: &Value, d: &Int, signed: bool) -> R<Value> {
        let Value::Ptr(l) = p else { return und("offset of a non-pointer") };
        let vs = match d.values(st.pc, 5000) {
            Some(v) => v,
            None => return und("pointer offset with too many values"),
        };
        let mut out = vec![];
        for (g, t) in l.iter() {
            for (k, h) in &vs {
                let gh = if *h == T { *g } else { bdd::restrict(bdd::and(*g, *h), st.pc) };
                if gh == F {
                    continue;
                }
                let mut t = t.clone();
                let k = if signed { *k as u64 as i64 } else { *k as i64 };
                if k != 0 {
                    match t.path.last_mut() {
                        Some(Elem::Index(i)) if *i as i64 + k >= 0 => *i = (*i as i64 + k) as usize,
                        _ => return und("pointer arithmetic outside an array"),
                    }
                }
                ptr_push(&mut out, gh, &t);
            }
        }
        if out.is_empty() {
            return Err(Stop::Dead);
        }
        if out.len() == 1 {
            out[0].0 = T;
        }
        Ok(Value::Ptr(Rc::new(out)))
    }

    // ------------------------------------------------------------- operands

    pub fn operand(&mut self, st: &State, bi: &BodyInfo, o: &Operand) -> R<Value> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    return Ok(st.frames[self.top(st) as usize][p.local].clone());
                }
                let ts = self.place(st, bi, p)?;
                let v = self.load(st, &ts)?;
                if matches!(o, Operand::Copy(_)) && matches!(v, Value::Boxed(_)) {
                    return Ok(borrow_box(&ts, &v));
                }
                Ok(v)
            }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(k) => {
                Ok(Value::bool(if *k == RuntimeChecks::OverflowChecks { T } else { F }))
            }
        }
    }
    pub fn constant(&mut self, c: &rustc_public::ty::MirConst) -> R<Value> {
        let t = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => Ok(zst(t)),
            ConstantKind::Allocated(a) => decode_alloc(self, t, a).map_err(Stop::Und),
            ConstantKind::Ty(tc) => {
                if let Ok(n) = tc.eval_target_usize() {
                    if let Some((w, _)) = int_info(t) {
                        return Ok(Value::Int(Int::c(w, n as u128)));
                    }
                }
                use rustc_public::ty::TyConstKind;
                match tc.kind() {
                    TyConstKind::Value(t, a) => decode_alloc(self, *t, a).map_err(Stop::Und),
                    TyConstKind::ZSTValue(t) => Ok(zst(*t)),
                    _ => und("type-level constant"),
                }
            }
            k => und(format!("constant {k:?}")),
        }
    }
    fn opty(&self, bi: &BodyInfo, o: &Operand) -> R<Ty> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => place_ty(bi, p),
            Operand::Constant(c) => Ok(c.const_.ty()),
            Operand::RuntimeChecks(_) => Ok(Ty::bool_ty()),
        }
    }

    fn rvalue(&mut self, st: &mut State, bi: &BodyInfo, rv: &Rvalue) -> R<Value> {
        match rv {
            Rvalue::Use(o, _) => self.operand(st, bi, o),
            Rvalue::CopyForDeref(p) => {
                let ts = self.place(st, bi, p)?;
                let v = self.load(st, &ts)?;
                Ok(borrow_box(&ts, &v))
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                if let Rvalue::Reborrow(..) = rv {
                    return und("reborrow");
                }
                let ts = self.place(st, bi, p)?;
                Ok(Value::Ptr(Rc::new(ts)))
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, bi, o)?;
                let n = n.eval_target_usize().map_err(|_| Stop::Und("repeat count".into()))?;
                Ok(Value::agg(vec![v; n as usize]))
            }
            Rvalue::Len(p) => {
                let t = place_ty(bi, p)?;
                if let Some(n) = array_len(t) {
                    return Ok(Value::usize(n));
                }
                let ts = self.place(st, bi, p)?;
                Ok(Value::Int(meta_len(&ts)?))
            }
            Rvalue::Discriminant(p) => {
                let t = place_ty(bi, p)?;
                let ts = self.place(st, bi, p)?;
                let v = self.load(st, &ts)?;
                match v {
                    Value::Enum(e) => Ok(Value::Int(e.discr.clone())),
                    Value::Bad(s) => und(format!("discriminant of unknown value: {s}")),
                    Value::Uninit => und(format!("discriminant of uninitialised value of type {t}")),
                    _ => und(format!("discriminant of {t}")),
                }
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vs = vec![];
                for o in ops {
                    vs.push(self.operand(st, bi, o)?);
                }
                match k {
                    AggregateKind::Array(_) | AggregateKind::Tuple | AggregateKind::Closure(..) => {
                        Ok(Value::agg(vs))
                    }
                    AggregateKind::Adt(d, v, a, _, uf) => {
                        use rustc_public::ty::AdtKind;
                        match d.kind() {
                            // `new` of the library, inlined
                            AdtKind::Struct if container(d.ty_with_args(a)) => match vs.last() {
                                Some(Value::Int(n)) if n.konst() == Some(0) => Ok(Value::vec(vec![])),
                                _ => und("container built from its parts"),
                            },
                            AdtKind::Struct => Ok(Value::agg(vs)),
                            AdtKind::Union => {
                                let _ = uf;
                                Ok(vs.pop().unwrap_or(Value::Uninit))
                            }
                            AdtKind::Enum => {
                                let t = d.ty_with_args(a);
                                let i = var_idx(*v);
                                Ok(mk_enum(discr_ty_width(t), discr_of(d, i), d.num_variants(), i, vs))
                            }
                        }
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let meta = vs.pop().unwrap();
                        let p = vs.pop().unwrap();
                        let Value::Ptr(l) = &p else { return und("raw pointer parts") };
                        let m = match (&meta, is_slice_like(*t)) {
                            (Value::Int(n), true) => Meta::Len(n.clone()),
                            (Value::Agg(_), false) => Meta::None,
                            _ => return und("raw pointer metadata"),
                        };
                        let mut out = vec![];
                        for (g, t) in l.iter() {
                            let mut t = t.clone();
                            t.meta = m.clone();
                            if let Meta::Len(_) = m {
                                fix_slice_path(&mut t)?;
                            }
                            out.push((*g, t));
                        }
                        Ok(Value::Ptr(Rc::new(out)))
                    }
                    _ => und("aggregate kind"),
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let t = self.opty(bi, o)?;
                let v = self.operand(st, bi, o)?;
                match (op, &v) {
                    (UnOp::Not, Value::Int(i)) => Ok(Value::Int(i.not())),
                    (UnOp::Neg, Value::Int(i)) => Ok(Value::Int(i.neg())),
                    (UnOp::Neg, Value::Float(f)) => Ok(Value::Float(Rc::new(f.un(10)))),
                    (UnOp::PtrMetadata, Value::Ptr(l)) => {
                        let p = pointee(t).ok_or(Stop::Und("metadata".into()))?;
                        if is_slice_like(p) {
                            Ok(Value::Int(meta_len_pc(l, st.pc)?))
                        } else if is_dyn(p) {
                            und("vtable metadata")
                        } else {
                            Ok(Value::unit())
                        }
                    }
                    (_, Value::Bad(s)) => Ok(bad(format!("operand: {s}"))),
                    _ => und(format!("unary {op:?} on {}", short(&v))),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = self.opty(bi, a)?;
                let tb = self.opty(bi, b)?;
                let x = self.operand(st, bi, a)?;
                let y = self.operand(st, bi, b)?;
                self.binop(st, *op, &x, &y, t, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = self.opty(bi, a)?;
                let tb = self.opty(bi, b)?;
                let x = self.operand(st, bi, a)?;
                let y = self.operand(st, bi, b)?;
                let (Value::Int(i), Value::Int(j)) = (&x, &y) else {
                    return und(format!("checked {op:?} on {} and {}", short(&x), short(&y)));
                };
                let (_, s) = int_info(t).ok_or(Stop::Und("checked op type".into()))?;
                let _ = tb;
                let (r, o) = self.overflowing(*op, i, j, s, st.pc)?;
                Ok(Value::agg(vec![Value::Int(r), Value::bool(o)]))
            }
            Rvalue::Cast(k, o, to) => {
                let from = self.opty(bi, o)?;
                let v = self.operand(st, bi, o)?;
                self.cast(st, k, v, from, *to)
            }
            Rvalue::ThreadLocalRef(_) => und("thread local"),
        }
    }

    pub fn overflowing(&self, op: BinOp, a: &Int, b: &Int, signed: bool, pc: Bdd) -> R<(Int, Bdd)> {
        let w = a.w;
        match op {
            BinOp::Add | BinOp::Sub | BinOp::AddUnchecked | BinOp::SubUnchecked => {
                let add = matches!(op, BinOp::Add | BinOp::AddUnchecked);
                if let (true, false, Some(m)) = (add, signed, a.max().checked_add(b.max())) {
                    if m <= mask(w) {
                        return Ok((a.add(b), F));
                    }
                }
                if let (false, false) = (add, signed) {
                    let r = a.sub(b);
                    return Ok((r, a.ult(b)));
                }
                let (x, y) = (a.ext(w + 1, signed), b.ext(w + 1, signed));
                let r = if add { x.add(&y) } else { x.sub(&y) };
                let bits = r.to_bits();
                let o = if signed {
                    bdd::xor(bits[w as usize], bits[w as usize - 1])
                } else {
                    bits[w as usize]
                };
                Ok((r.zext(w), o))
            }
            BinOp::Mul | BinOp::MulUnchecked => {
                let (a, b) = (&a.simplify(pc), &b.simplify(pc));
                if let (false, Some(m)) = (signed, a.max().checked_mul(b.max())) {
                    if m <= mask(w) {
                        return Ok((a.mul_pc(b, pc), F));
                    }
                }
                if w > 64 {
                    return und("wide multiplication with overflow check");
                }
                let (x, y) = (a.ext(2 * w, signed), b.ext(2 * w, signed));
                let r = x.mul_pc(&y, pc);
                let bits = r.to_bits();
                let mut o = F;
                let w = w as usize;
                for i in w..2 * w {
                    let d = if signed { bdd::xor(bits[i], bits[w - 1]) } else { bits[i] };
                    o = bdd::or(o, d);
                }
                Ok((r.zext(w as u32), o))
            }
            BinOp::Shl | BinOp::Shr => {
                let over = bdd::not(b.ult(&Int::c(b.w, w as u128)));
                let r = self.shift(matches!(op, BinOp::Shl), a, b, signed, pc)?;
                Ok((r, over))
            }
            _ => und("checked operator"),
        }
    }
    pub fn shift(&self, left: bool, a: &Int, b: &Int, signed: bool, pc: Bdd) -> R<Int> {
        let m = Int::c(b.w, a.w as u128 - 1);
        let k = b.and(&m);
        let vs = k.values(pc, 200).ok_or(Stop::Und("shift".into()))?;
        let mut acc: Option<Int> = None;
        for (v, g) in vs {
            let r = if left { a.shl_c(v as u32) } else { a.shr_c(v as u32, signed) };
            acc = Some(match acc {
                None => r,
                Some(x) => ite_int(bdd::restrict(g, pc), &r, &x),
            });
        }
        acc.ok_or(Stop::Dead)
    }
    pub fn divrem(&self, a: &Int, b: &Int, signed: bool, pc: Bdd) -> R<(Int, Int)> {
        let w = a.w;
        if signed {
            let sa = a.bit(w - 1);
            let sb = b.bit(w - 1);
            if sa == F && sb == F {
                return self.divrem(a, b, false, pc);
            }
            let ua = ite_int(sa, &a.neg(), a);
            let ub = ite_int(sb, &b.neg(), b);
            let (q, r) = self.divrem(&ua, &ub, false, pc)?;
            let q = ite_int(bdd::xor(sa, sb), &q.neg(), &q);
            let r = ite_int(sa, &r.neg(), &r);
            return Ok((q, r));
        }
        let s = a.simplify(pc);
        let a = if s.max() < 1 << 20 { &s } else { a };
        if let Some(c) = b.konst() {
            return a.divrem_c(c).ok_or(Stop::Dead);
        }
        let vs = b.values(pc, 300).ok_or(Stop::Und("division by an unbounded value".into()))?;
        let mut acc: Option<(Int, Int)> = None;
        for (v, g) in vs {
            let Some((q, r)) = a.divrem_c(v) else { continue };
            let g = bdd::restrict(g, pc);
            acc = Some(match acc {
                None => (q, r),
                Some((q0, r0)) => (ite_int(g, &q, &q0), ite_int(g, &r, &r0)),
            });
        }
        acc.ok_or(Stop::Dead)
    }

    pub fn binop(&mut self, st: &State, op: BinOp, x: &Value, y: &Value, t: Ty, tb: Ty) -> R<Value> {
        use BinOp::*;
        match (x, y) {
            (Value::Int(a), Value::Int(b)) => {
                let (_, s) = int_info(t).unwrap_or((a.w, false));
                Ok(match op {
                    Add | AddUnchecked => Value::Int(a.add(b)),
                    Sub | SubUnchecked => Value::Int(a.sub(b)),
                    Mul | MulUnchecked => {
                        let (a, b) = (&a.simplify(st.pc), &b.simplify(st.pc));
                        if a.konst().is_none() && b.konst().is_none() && a.w > 16 && a.max() > 0xffff && b.max() > 0xffff {
                            return Ok(bad("product of two unknown values"));
                        }
                        Value::Int(a.mul_pc(b, st.pc))
                    }
                    Div => Value::Int(self.divrem(a, b, s, st.pc)?.0),
                    Rem => Value::Int(self.divrem(a, b, s, st.pc)?.1),
                    BitXor => Value::Int(a.xor(b)),
                    BitAnd => Value::Int(a.and(b)),
                    BitOr => Value::Int(a.or(b)),
                    Shl | ShlUnchecked => Value::Int(self.shift(true, a, b, s, st.pc)?),
                    Shr | ShrUnchecked => Value::Int(self.shift(false, a, b, s, st.pc)?),
                    Eq => Value::bool(a.eq(b)),
                    Ne => Value::bool(bdd::not(a.eq(b))),
                    Lt => Value::bool(lt(a, b, s)),
                    Ge => Value::bool(bdd::not(lt(a, b, s))),
                    Gt => Value::bool(lt(b, a, s)),
                    Le => Value::bool(bdd::not(lt(b, a, s))),
                    Cmp => {
                        let l = lt(a, b, s);
                        let e = a.eq(b);
                        ordering(l, e)
                    }
                    Offset => return und("offset on integers"),
                })
            }
            (Value::Float(a), Value::Float(b)) => {
                let pc = st.pc;
                Ok(match op {
                    Add => Value::Float(Rc::new(a.bin(0, b, pc))),
                    Sub => Value::Float(Rc::new(a.bin(1, b, pc))),
                    Mul => Value::Float(Rc::new(a.bin(2, b, pc))),
                    Div => Value::Float(Rc::new(a.bin(3, b, pc))),
                    Rem => Value::Float(Rc::new(a.bin(4, b, pc))),
                    Eq => Value::bool(a.cmp(0, b, pc)),
                    Ne => Value::bool(bdd::not(a.cmp(0, b, pc))),
                    Lt => Value::bool(a.cmp(1, b, pc)),
                    Le => Value::bool(a.cmp(2, b, pc)),
                    Gt => Value::bool(b.cmp(1, a, pc)),
                    Ge => Value::bool(b.cmp(2, a, pc)),
                    _ => return und("float operator"),
                })
            }
            (Value::Ptr(a), Value::Ptr(b)) if matches!(op, Eq | Ne) => {
                let mut r = F;
                for (g, p) in a.iter() {
                    for (h, q) in b.iter() {
                        if p.root == q.root && p.path == q.path {
                            r = bdd::or(r, bdd::and(*g, *h));
                        }
                    }
                }
                Ok(Value::bool(if op == Eq { r } else { bdd::not(r) }))
            }
            (Value::Ptr(_), Value::Int(d)) if op == Offset => {
                let s = int_info(tb).map(|x| x.1).unwrap_or(false);
                self.ptr_offset(st, x, d, s)
            }
            (Value::Agg(a), Value::Agg(b)) if a.is_empty() && b.is_empty() => match op {
                Eq | Le | Ge => Ok(Value::bool(T)),
                Ne | Lt | Gt => Ok(Value::bool(F)),
                _ => und("unit operator"),
            },
            (Value::Bad(s), _) | (_, Value::Bad(s)) => Ok(bad(format!("operand: {s}"))),
            _ => und(format!("{op:?} on {} and {}", short(x), short(y))),
        }
    }

    pub fn cast(&mut self, st: &State, k: &CastKind, v: Value, from: Ty, to: Ty) -> R<Value> {
        if let Value::Bad(_) = v {
            return Ok(v);
        }
        match k {
            CastKind::IntToInt => {
                let i = match &v {
                    Value::Int(i) => i.clone(),
                    Value::Enum(e) => e.discr.clone(),
                    _ => return und("int cast"),
                };
                let (w, _) = int_info(to).ok_or(Stop::Und("cast".into()))?;
                let s = int_info(from).map(|x| x.1).unwrap_or(false);
                Ok(Value::Int(i.ext(w, s)))
            }
            CastKind::FloatToInt => {
                let Value::Float(f) = &v else { return und("float cast") };
                let (w, s) = int_info(to).unwrap();
                Ok(Value::Int(f.to_int(w, s)))
            }
            CastKind::IntToFloat => {
                let Value::Int(i) = &v else { return und("float cast") };
                let s = int_info(from).map(|x| x.1).unwrap_or(false);
                Ok(Value::Float(Rc::new(FloatV::from_int(float_info(to).unwrap(), i, s))))
            }
            CastKind::FloatToFloat => {
                let Value::Float(f) = &v else { return und("float cast") };
                let k = float_info(to).unwrap();
                Ok(if k == f.k {
                    v
                } else {
                    Value::Float(Rc::new(f.un(if k == 32 { 16 } else { 17 })))
                })
            }
            CastKind::PtrToPtr => self.ptr_cast(v, from, to),
            CastKind::PointerCoercion(c) => match c {
                PointerCoercion::MutToConstPointer | PointerCoercion::UnsafeFnPointer => Ok(v),
                PointerCoercion::ArrayToPointer => self.ptr_cast(v, from, to),
                PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_) => {
                    Ok(Value::FnPtr(from))
                }
                PointerCoercion::Unsize => self.unsize(v, from, to),
            },
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(v, from, to),
            CastKind::Subtype => Ok(v),
            CastKind::FnPtrToPtr | CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => {
                let _ = st;
                Ok(bad("pointer/integer cast"))
            }
        }
    }
    fn ptr_cast(&mut self, v: Value, from: Ty, to: Ty) -> R<Value> {
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return und("pointer cast types") };
        if f == t {
            return Ok(v);
        }
        let Value::Ptr(l) = &v else { return und(format!("pointer cast of {}", short(&v))) };
        let mut out = vec![];
        for (g, x) in l.iter() {
            let mut x = x.clone();
            if !retarget(&mut x.path, f, t) {
                return Ok(bad(format!("pointer cast from {f} to {t}")));
            }
            if !is_slice_like(t) && !is_dyn(t) {
                x.meta = Meta::None;
            }
            out.push((*g, x));
        }
        Ok(Value::Ptr(Rc::new(out)))
    }
    fn unsize(&mut self, v: Value, from: Ty, to: Ty) -> R<Value> {
        if let (Some(f), Some(t)) = (pointee(from), pointee(to)) {
            let Value::Ptr(l) = &v else { return und("unsize of non-pointer") };
            let mut out = vec![];
            for (g, x) in l.iter() {
                let mut x = x.clone();
                if is_slice_like(t) {
                    let n = array_len(f).ok_or(Stop::Und("unsize".into()))?;
                    to_index0(&mut x.path);
                    x.meta = Meta::Len(Int::usize(n));
                } else if is_dyn(t) {
                    if !is_dyn(f) {
                        x.meta = Meta::Vt(f);
                    }
                } else {
                    return und(format!("unsize {from} to {to}"));
                }
                out.push((*g, x));
            }
            return Ok(Value::Ptr(Rc::new(out)));
        }
        if is_box(from) && is_box(to) {
            let f = ty_args(&adt(from).unwrap().1)[0];
            let t = ty_args(&adt(to).unwrap().1)[0];
            let Value::Boxed(b) = &v else { return und("unsize of a box") };
            let meta = if is_slice_like(t) {
                Meta::Len(Int::usize(array_len(f).ok_or(Stop::Und("unsize".into()))?))
            } else if is_dyn(f) {
                b.meta.clone()
            } else {
                Meta::Vt(f)
            };
            return Ok(Value::Boxed(Rc::new(BoxV { inner: b.inner.clone(), meta })));
        }
        und(format!("unsize {from} to {to}"))
    }
    pub fn transmute(&mut self, v: Value, from: Ty, to: Ty) -> R<Value> {
        if from == to {
            return Ok(v);
        }
        if let (Some(_), Some(_)) = (pointee(from), pointee(to)) {
            return self.ptr_cast(v, from, to);
        }
        // peel wrappers
        if is_union(from) {
            if let Some(f) = union_field(from) {
                return self.transmute(v, f, to);
            }
        }
        if is_union(to) {
            if let Some(t) = union_field(to) {
                return self.transmute(v, from, t);
            }
        }
        if let (Some(a), Some(b)) = (array_len(from), array_len(to)) {
            if a == b && size_of(elem_ty(from).unwrap()) == size_of(elem_ty(to).unwrap()) {
                if let Value::Agg(e) = &v {
                    let (f, t) = (elem_ty(from).unwrap(), elem_ty(to).unwrap());
                    let mut r = vec![];
                    for x in e.iter() {
                        r.push(self.transmute(x.clone(), f, t)?);
                    }
                    return Ok(Value::agg(r));
                }
            }
        }
        let fi = int_info(from).is_some() || float_info(from).is_some() || array_len(from).is_some();
        let ti = int_info(to).is_some() || float_info(to).is_some() || array_len(to).is_some();
        if !(fi && ti) {
            if let Some((i, f)) = sole_field(from) {
                if let Value::Agg(a) = &v {
                    return self.transmute(a[i].clone(), f, to);
                }
                if let Value::Ptr(_) = &v {
                    return self.transmute(v, f, to);
                }
            }
            if let Some((i, t)) = sole_field(to) {
                let fs = variant_fields(to, 0);
                let inner = self.transmute(v, from, t)?;
                let mut r: Vec<Value> = fs.iter().map(|f| zst(*f)).collect_safe(i);
                r[i] = inner;
                return Ok(Value::agg(r));
            }
        }
        // Option<NonZero<_>>
        if let (Value::Int(i), true) = (&v, adt_is(to, "std::option::Option")) {
            let inner = adt(to).and_then(|(_, a)| ty_args(&a).first().copied());
            if let Some(t) = inner.filter(|t| adt_is(*t, "std::num::NonZero")) {
                let x = self.transmute(v.clone(), from, t)?;
                let w = discr_ty_width(to);
                return Ok(crate::natives::option(w, bdd::not(i.eq(&Int::c(i.w, 0))), x));
            }
        }
        if let (Value::Int(i), Some((w, _)), true) = (&v, int_info(to), float_info(to).is_none()) {
            if i.w == w {
                return Ok(v);
            }
        }
        if let Some(b) = to_bits(&v, from) {
            if let Some(r) = from_bits(&b, to) {
                return Ok(r);
            }
        }
        Ok(bad(format!("transmute from {from} to {to}")))
    }

    // ------------------------------------------------------------ execution

    pub fn call_body(&mut self, st: &mut State, bi: &Rc<BodyInfo>, args: Vec<Value>) -> R<Value> {
        if self.stack.len() > 150 {
            return und("call depth limit");
        }
        self.stats.calls += 1;
        if !self.stats.functions.contains(&*bi.name) {
            self.stats.functions.insert(bi.name.to_string());
        }
        let n = bi.tys.len();
        let mut fr = bi.init.clone();
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 >= n {
                return und("argument count");
            }
            fr[i + 1] = a;
        }
        let mut s0 = State {
            pc: st.pc,
            frames: std::mem::take(&mut st.frames),
            statics: std::mem::take(&mut st.statics),
        };
        s0.frames.push(Rc::new(fr));
        self.stack.push((bi.clone(), bi.body.span));
        let mut pending: BTreeMap<u32, (usize, State)> = BTreeMap::new();
        pending.insert(bi.pos[0], (0, s0));
        let mut ret: Option<State> = None;
        let mut visits: HashMap<usize, u32> = HashMap::new();
        let mut seen: HashMap<usize, (u32, State, BTreeMap<u32, (usize, State)>)> = HashMap::new();
        let mut fail: Option<Stop> = None;
        while let Some((_, (bb, s))) = pending.pop_first() {
            let v = visits.entry(bb).or_insert(0);
            *v += 1;
            if *v >= 32 {
                let n = *v;
                if v.is_power_of_two() {
                    seen.insert(bb, (n, s.clone(), pending.clone()));
                } else if seen.get(&bb).is_some_and(|(k, o, p)| {
                    n <= *k + 32
                        && p.len() == pending.len()
                        && same_state(o, &s)
                        && p.iter().zip(&pending).all(|(x, y)| x.0 == y.0 && same_state(&x.1.1, &y.1.1))
                }) {
                    // the same states again: whatever leads here never leaves the loop
                    if self.stack.iter().any(|(b, _)| b.name.contains("ur20::")) {
                        self.oblige("termination", "a loop comes to an end", s.pc, false);
                    } else {
                        self.undecide(&s, "endless loop");
                    }
                    continue;
                }
            }
            let v = &visits[&bb];
            if *v > 20000 {
                self.undecide(&s, "loop iteration limit");
                continue;
            }
            if bdd::over_limit() {
                fail = Some(Stop::Und("BDD size limit".into()));
                break;
            }
            if std::time::Instant::now() > self.deadline {
                fail = Some(Stop::Und("time limit".into()));
                break;
            }
            let mut out = vec![];
            self.block(s, bi, bb, &mut out, &mut ret);
            for (t, s) in out {
                let k = bi.pos[t];
                match pending.remove(&k) {
                    None => {
                        pending.insert(k, (t, s));
                    }
                    Some((_, o)) => {
                        self.stats.joins += 1;
                        pending.insert(k, (t, merge(o, s)));
                    }
                }
            }
        }
        if fail.is_none() && bi.name.contains("ur20::") && visits.values().any(|v| *v > 1) {
            self.oblige("termination", "a loop comes to an end", F, false);
        }
        self.stack.pop();
        if let Some(f) = fail {
            return Err(f);
        }
        match ret {
            None => Err(Stop::Dead),
            Some(mut s) => {
                let fr = s.frames.pop().unwrap();
                *st = s;
                Ok(fr[0].clone())
            }
        }
    }

    fn block(
        &mut self,
        mut st: State,
        bi: &Rc<BodyInfo>,
        bb: usize,
        out: &mut Vec<(usize, State)>,
        ret: &mut Option<State>,
    ) {
        self.stats.blocks += 1;
        let blk = &bi.body.blocks[bb];
        for s in &blk.statements {
            self.stats.statements += 1;
            self.stack.last_mut().unwrap().1 = s.source_info.span;
            if let Err(e) = self.statement(&mut st, bi, s) {
                if let Stop::Und(m) = e {
                    self.undecide(&st, &m);
                }
                return;
            }
        }
        self.stack.last_mut().unwrap().1 = blk.terminator.source_info.span;
        // the state is consumed by the terminator; keep a guard for reporting
        let pc = st.pc;
        if let Err(Stop::Und(m)) = self.terminator(st, bi, bb, out, ret) {
            let s = State { pc, frames: vec![], statics: vec![] };
            self.undecide(&s, &m);
        }
    }
    fn statement(&mut self, st: &mut State, bi: &Rc<BodyInfo>, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, rv) => {
                let v = self.rvalue(st, bi, rv)?;
                self.assign(st, bi, p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let t = place_ty(bi, place)?;
                let ts = self.place(st, bi, place)?;
                let old = self.load(st, &ts)?;
                let (d, _) = adt(t).ok_or(Stop::Und("set discriminant".into()))?;
                let i = var_idx(*variant_index);
                let dv = Int::c(discr_ty_width(t), discr_of(&d, i));
                let n = match old {
                    Value::Enum(e) => {
                        Value::Enum(Rc::new(EnumV { discr: dv, vars: e.vars.clone() }))
                    }
                    _ => Value::Enum(Rc::new(EnumV { discr: dv, vars: vec![None; d.num_variants()] })),
                };
                self.store(st, &ts, n)
            }
            StatementKind::StorageDead(l) => {
                let top = self.top(st) as usize;
                if !matches!(st.frames[top][*l], Value::Uninit) {
                    Rc::make_mut(&mut st.frames[top])[*l] = bi.init[*l].clone();
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => Ok(()),
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let src = self.operand(st, bi, &c.src)?;
                let dst = self.operand(st, bi, &c.dst)?;
                let n = self.operand(st, bi, &c.count)?;
                self.copy_mem(st, &src, &dst, &n)
            }
            _ => Ok(()),
        }
    }
    pub fn copy_mem(&mut self, st: &mut State, src: &Value, dst: &Value, n: &Value) -> R<()> {
        let Value::Int(n) = n else { return und("copy count") };
        if n.konst() == Some(0) {
            return Ok(());
        }
        let vs = n.values(st.pc, 5000).ok_or(Stop::Und("copy count".into()))?;
        let max = vs.iter().map(|v| v.0).max().unwrap_or(0) as usize;
        // read everything first (also correct for overlapping regions)
        let mut vals = vec![];
        let (Value::Ptr(sp), Value::Ptr(dp)) = (src, dst) else { return und("copy pointers") };
        for i in 0..max {
            let g = bdd::not(n.ult(&Int::usize(i + 1)));
            let mut s = st.clone();
            s.pc = bdd::and(st.pc, g);
            let ts = adv(sp, i)?;
            vals.push((bdd::restrict(g, st.pc), self.load(&s, &ts)?));
        }
        for (i, (g, v)) in vals.into_iter().enumerate() {
            let ts: Vec<(Bdd, Target)> =
                adv(dp, i)?.into_iter().map(|(h, t)| (bdd::and(h, g), t)).collect();
            if ts.len() == 1 && ts[0].0 == T {
                self.store(st, &ts, v)?;
            } else {
                for (h, t) in ts {
                    if bdd::and(h, st.pc) == F {
                        continue;
                    }
                    let old = self.load1(st, &t)?;
                    let nv = ite(h, &v, &old);
                    self.store1(st, &t, nv)?;
                }
            }
        }
        Ok(())
    }
    pub fn assign(&mut self, st: &mut State, bi: &BodyInfo, p: &Place, v: Value) -> R<()> {
        if p.projection.is_empty() {
            let top = self.top(st) as usize;
            Rc::make_mut(&mut st.frames[top])[p.local] = v;
            return Ok(());
        }
        let ts = self.place(st, bi, p)?;
        self.store(st, &ts, v)
    }

    fn terminator(
        &mut self,
        mut st: State,
        bi: &Rc<BodyInfo>,
        bb: usize,
        out: &mut Vec<(usize, State)>,
        ret: &mut Option<State>,
    ) -> R<()> {
        match &bi.body.blocks[bb].terminator.kind {
            TerminatorKind::Goto { target } => {
                out.push((*target, st));
                Ok(())
            }
            TerminatorKind::Drop { target, place, .. } => {
                let t = place_ty(bi, place)?;
                if let Some(n) = self.destructor(t) {
                    let ts = self.place(&st, bi, place)?;
                    match self.run_destructor(&mut st, t, n, Value::Ptr(Rc::new(ts))) {
                        Ok(()) if st.pc == F => return Ok(()),
                        Ok(()) => (),
                        Err(Stop::Dead) => return Ok(()),
                        Err(e) => return Err(e),
                    }
                }
                out.push((*target, st));
                Ok(())
            }
            TerminatorKind::Return => {
                *ret = Some(match ret.take() {
                    None => st,
                    Some(o) => {
                        self.stats.joins += 1;
                        merge(o, st)
                    }
                });
                Ok(())
            }
            TerminatorKind::Unreachable => Ok(()),
            TerminatorKind::Resume | TerminatorKind::Abort => Ok(()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(&st, bi, discr)?;
                let i = match v {
                    Value::Int(i) => i,
                    Value::Bad(s) => return und(format!("branch on unknown value: {s}")),
                    o => return und(format!("branch on {}", short(&o))),
                };
                let mut rest = st.pc;
                let mut todo: Vec<(usize, Bdd)> = vec![];
                for (c, t) in targets.branches() {
                    if rest == F {
                        break;
                    }
                    let e = i.eq(&Int::c(i.w, c));
                    let g = bdd::and(rest, e);
                    rest = bdd::diff(rest, e);
                    if g != F {
                        match todo.iter_mut().find(|x| x.0 == t) {
                            Some(x) => x.1 = bdd::or(x.1, g),
                            None => todo.push((t, g)),
                        }
                    }
                }
                if rest != F {
                    let t = targets.otherwise();
                    match todo.iter_mut().find(|x| x.0 == t) {
                        Some(x) => x.1 = bdd::or(x.1, rest),
                        None => todo.push((t, rest)),
                    }
                }
                let n = todo.len();
                let mut st = Some(st);
                for (k, (t, g)) in todo.into_iter().enumerate() {
                    let mut s = if k + 1 == n { st.take().unwrap() } else { st.clone().unwrap() };
                    s.pc = g;
                    if matches!(bi.body.blocks[t].terminator.kind, TerminatorKind::Unreachable)
                        && bi.body.blocks[t].statements.is_empty()
                    {
                        continue;
                    }
                    out.push((t, s));
                }
                Ok(())
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let what = match msg {
                    AssertMessage::MisalignedPointerDereference { .. }
                    | AssertMessage::NullPointerDereference
                    | AssertMessage::NullReferenceConstructed
                    | AssertMessage::InvalidEnumConstruction(_) => None,
                    m => Some(m.description().unwrap_or("assertion")),
                };
                let v = self.operand(&st, bi, cond)?;
                let c = match (v, what) {
                    (_, None) => {
                        // pointer validity is a matter of the type system
                        out.push((*target, st));
                        return Ok(());
                    }
                    (Value::Int(c), _) => c.as_bool(),
                    _ => return und("assert on unknown value"),
                };
                let ok = if *expected { c } else { bdd::not(c) };
                let badg = bdd::diff(st.pc, ok);
                if let Some(w) = what {
                    self.oblige("panic", w, badg, false);
                }
                st.pc = bdd::and(st.pc, ok);
                if st.pc != F {
                    out.push((*target, st));
                }
                Ok(())
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut vs = Vec::with_capacity(args.len());
                for a in args {
                    vs.push(self.operand(&st, bi, a)?);
                }
                let mut tys = Vec::with_capacity(args.len());
                for a in args {
                    tys.push(self.opty(bi, a)?);
                }
                let fty = self.opty(bi, func)?;
                let fv = match &*kind(fty) {
                    TyKind::RigidTy(RigidTy::FnDef(..)) => None,
                    _ => Some(self.operand(&st, bi, func)?),
                };
                self.stats.call_sites.insert((bi.name.to_string(), bb));
                let dty = place_ty(bi, destination)?;
                let callee = match fv {
                    None => fty,
                    Some(Value::FnPtr(t)) => t,
                    Some(o) => return und(format!("call through {}", short(&o))),
                };
                let r = self.call_ty(&mut st, callee, vs, &tys, dty);
                match r {
                    Ok(v) => {
                        if st.pc == F {
                            return Ok(());
                        }
                        if let Some(t) = target {
                            self.assign(&mut st, bi, destination, v)?;
                            out.push((*t, st));
                        }
                        Ok(())
                    }
                    Err(Stop::Dead) => Ok(()),
                    Err(e) => Err(e),
                }
            }
            TerminatorKind::InlineAsm { .. } => und("inline assembly"),
        }
    }

    /// Call a function item, closure or function pointer type.
    pub fn call_ty(&mut self, st: &mut State, callee: Ty, args: Vec<Value>, tys: &[Ty], ret: Ty) -> R<Value> {
        match &*kind(callee) {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => self.call_def(st, *d, a, args, tys, ret),
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                use rustc_public::ty::ClosureKind as K;
                let i = Instance::resolve_closure(*d, a, K::Fn)
                    .or_else(|_| Instance::resolve_closure(*d, a, K::FnMut))
                    .or_else(|_| Instance::resolve_closure(*d, a, K::FnOnce))
                    .map_err(|_| Stop::Und("closure".into()))?;
                // a non-capturing closure used as a function pointer
                let bi = self.body_of(i).ok_or(Stop::Und("closure body".into()))?;
                let mut v = vec![Value::unit()];
                v.extend(args);
                self.call_body(st, &bi, v)
            }
            _ => und(format!("call of {callee}")),
        }
    }
    pub fn call_def(
        &mut self,
        st: &mut State,
        d: FnDef,
        a: &GenericArgs,
        args: Vec<Value>,
        tys: &[Ty],
        ret: Ty,
    ) -> R<Value> {
        let name = self.fn_name(d);
        let targs = ty_args(a);
        if let Some(v) = self.native(st, &name, d, a, &targs, &args, tys, ret, true)? {
            return Ok(v);
        }
        let Some(inst) = self.resolve_inst(d, a) else {
            return und(format!("cannot resolve {name}"));
        };
        match inst.kind {
            InstanceKind::Virtual { .. } => self.call_virtual(st, d, a, args, tys, ret),
            InstanceKind::Intrinsic => {
                let n = inst.intrinsic_name().unwrap();
                match self.intrinsic(st, &n, &targs, a, &args, tys, ret)? {
                    Some(v) => Ok(v),
                    None => {
                        // fall back to the body of the intrinsic, if any
                        match self.body_of(inst) {
                            Some(bi) => self.call_body(st, &bi, args),
                            None => und(format!("intrinsic {n}")),
                        }
                    }
                }
            }
            _ => self.call_inst(st, inst, &name, args, tys, ret),
        }
    }
    fn call_inst(
        &mut self,
        st: &mut State,
        inst: Instance,
        via: &str,
        mut args: Vec<Value>,
        tys: &[Ty],
        ret: Ty,
    ) -> R<Value> {
        let ity = inst.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(d2, a2)) = &*kind(ity) {
            let n2 = self.fn_name(*d2);
            if &*n2 != via {
                let ta = ty_args(a2);
                if let Some(v) = self.native(st, &n2, *d2, a2, &ta, &args, tys, ret, false)? {
                    return Ok(v);
                }
            }
            if inst.kind == InstanceKind::Shim && n2.starts_with("std::ptr::drop") {
                return Ok(Value::unit());
            }
        }
        let Some(bi) = self.body_of(inst) else {
            return match construct(via, ret, args) {
                Some(v) => Ok(v),
                None => und(format!("no MIR for {}", inst.name())),
            };
        };
        if self.trace {
            eprintln!("{}call {}", " ".repeat(self.stack.len()), bi.name);
        }
        if bi.closure && via.starts_with("std::ops::Fn") || (via.starts_with("std::ops::function::Fn") && bi.closure) {
            // rust-call ABI: the arguments arrive as a tuple
            if bi.body.spread_arg().is_none() && args.len() == 2 {
                let t = args.pop().unwrap();
                let n = bi.body.arg_locals().len() - 1;
                match t {
                    Value::Agg(x) if x.len() == n => args.extend(x.iter().cloned()),
                    _ => return und("closure arguments"),
                }
                // FnOnce call of a Fn/FnMut closure goes through a shim; the
                // resolved body may expect the environment by reference
                let env_ty = bi.tys[1];
                if pointee(env_ty).is_some() && !matches!(args[0], Value::Ptr(_)) {
                    return und("closure environment");
                }
            }
        } else if inst.kind == InstanceKind::Shim && via.starts_with("std::ops::Fn") {
            return self.call_fn_shim(st, inst, via, args, tys, ret);
        }
        self.call_body(st, &bi, args)
    }
    /// the destructors of a value and its parts
    pub fn run_destructor(&mut self, st: &mut State, t: Ty, name: String, p: Value) -> R<()> {
        if let TyKind::RigidTy(RigidTy::Dynamic(..)) = &*kind(t) {
            return und(format!("destructor of {name}"));
        }
        match self.body_of(Instance::resolve_drop_in_place(t)) {
            Some(bi) => self.call_body(st, &bi, vec![p]).map(|_| ()),
            None => und(format!("destructor of {name}")),
        }
    }
    /// a destructor with an observable effect that dropping a value would run
    pub fn destructor(&mut self, t: Ty) -> Option<String> {
        if let Some(r) = self.drop_memo.get(&t) {
            return r.clone();
        }
        self.drop_memo.insert(t, None);
        let mut r = None;
        match &*kind(t) {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                let n = adt_name(d).to_string();
                if self.drop_types.contains(&n) || observable_drop(&n) {
                    r = Some(n);
                } else {
                    for x in ty_args(a) {
                        r = r.or_else(|| self.destructor(x));
                    }
                    if !n.starts_with("std::") {
                        for v in 0..d.num_variants() {
                            for f in variant_fields(t, v).to_vec() {
                                r = r.or_else(|| self.destructor(f));
                            }
                        }
                    }
                }
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                for x in ts {
                    r = r.or_else(|| self.destructor(*x));
                }
            }
            TyKind::RigidTy(RigidTy::Array(e, _) | RigidTy::Slice(e)) => r = self.destructor(*e),
            TyKind::RigidTy(RigidTy::Closure(_, a)) => {
                for x in ty_args(a) {
                    r = r.or_else(|| self.destructor(x));
                }
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => r = self.drop_types.first().cloned(),
            _ => {}
        }
        self.drop_memo.insert(t, r.clone());
        r
    }
    /// `Fn*` traits on function items and by-value calls of `Fn` closures.
    fn call_fn_shim(
        &mut self,
        st: &mut State,
        inst: Instance,
        via: &str,
        args: Vec<Value>,
        tys: &[Ty],
        ret: Ty,
    ) -> R<Value> {
        let mut self_ty = tys[0];
        let mut env = args[0].clone();
        while let Some(p) = pointee(self_ty) {
            if let Value::Ptr(l) = &env {
                self_ty = p;
                env = self.load(st, l)?;
            } else {
                break;
            }
        }
        let Some(Value::Agg(tup)) = args.get(1) else { return und("call arguments") };
        let atys: Vec<Ty> = match &*kind(tys[1]) {
            TyKind::RigidTy(RigidTy::Tuple(t)) => t.clone(),
            _ => vec![],
        };
        match &*kind(self_ty) {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                self.call_def(st, *d, a, tup.to_vec(), &atys, ret)
            }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => match env {
                Value::FnPtr(t) => self.call_ty(st, t, tup.to_vec(), &atys, ret),
                _ => und("function pointer"),
            },
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                let k = if via.contains("FnOnce") {
                    rustc_public::ty::ClosureKind::FnOnce
                } else if via.contains("FnMut") {
                    rustc_public::ty::ClosureKind::FnMut
                } else {
                    rustc_public::ty::ClosureKind::Fn
                };
                // the body of the closure itself
                let i = Instance::resolve_closure(*d, a, rustc_public::ty::ClosureKind::Fn)
                    .or_else(|_| Instance::resolve_closure(*d, a, rustc_public::ty::ClosureKind::FnMut))
                    .or_else(|_| Instance::resolve_closure(*d, a, k))
                    .map_err(|_| Stop::Und("closure".into()))?;
                let bi = self.body_of(i).ok_or(Stop::Und("closure body".into()))?;
                let by_ref = pointee(bi.tys[1]).is_some();
                let mut v = vec![];
                if by_ref {
                    if let Value::Ptr(_) = &args[0] {
                        if pointee(tys[0]).is_some() {
                            v.push(args[0].clone());
                        }
                    }
                    if v.is_empty() {
                        // spill the environment into a temporary frame
                        let f = st.frames.len() as u32;
                        st.frames.push(Rc::new(vec![env]));
                        v.push(Value::ptr(Target {
                            root: Root::Local(f, 0),
                            path: vec![],
                            meta: Meta::None,
                        }));
                        v.extend(tup.iter().cloned());
                        let r = self.call_body(st, &bi, v)?;
                        st.frames.pop();
                        return Ok(r);
                    }
                } else {
                    v.push(env);
                }
                v.extend(tup.iter().cloned());
                self.call_body(st, &bi, v)
            }
            _ => {
                let _ = inst;
                und(format!("call of {self_ty} via {via}"))
            }
        }
    }
    fn call_virtual(
        &mut self,
        st: &mut State,
        d: FnDef,
        a: &GenericArgs,
        args: Vec<Value>,
        tys: &[Ty],
        ret: Ty,
    ) -> R<Value> {
        let Value::Ptr(l) = &args[0] else { return und("virtual call on a non-pointer") };
        let mut groups: Vec<(Ty, Vec<(Bdd, Target)>)> = vec![];
        for (g, t) in l.iter() {
            if bdd::and(*g, st.pc) == F {
                continue;
            }
            let Meta::Vt(ty) = &t.meta else { return und("virtual call without a dynamic type") };
            let mut t2 = t.clone();
            t2.meta = Meta::None;
            match groups.iter_mut().find(|x| x.0 == *ty) {
                Some(x) => x.1.push((*g, t2)),
                None => groups.push((*ty, vec![(*g, t2)])),
            }
        }
        let mut acc: Option<(State, Value)> = None;
        let n = groups.len();
        if n == 0 {
            return Err(Stop::Dead);
        }
        let base = st.clone();
        for (ty, ts) in groups {
            let mut g = F;
            for (h, _) in &ts {
                g = bdd::or(g, *h);
            }
            let mut s = base.clone();
            s.pc = bdd::and(base.pc, g);
            let mut a2 = a.clone();
            for x in a2.0.iter_mut() {
                if let GenericArgKind::Type(t) = x {
                    *t = ty;
                    break;
                }
            }
            let mut av = args.clone();
            let mut ts = ts;
            if ts.len() == 1 {
                ts[0].0 = T;
            }
            av[0] = Value::Ptr(Rc::new(ts));
            let mut tt = tys.to_vec();
            if let Some(m) = match &*kind(tys[0]) {
                TyKind::RigidTy(RigidTy::Ref(r, _, m)) => Some(Ty::new_ref(r.clone(), ty, *m)),
                TyKind::RigidTy(RigidTy::RawPtr(_, m)) => Some(Ty::new_ptr(ty, *m)),
                _ => None,
            } {
                tt[0] = m;
            }
            match self.call_def(&mut s, d, &a2, av, &tt, ret) {
                Ok(v) => {
                    if s.pc == F {
                        continue;
                    }
                    acc = Some(match acc {
                        None => (s, v),
                        Some((s0, v0)) => self.merge_ret(s0, v0, s, v),
                    });
                }
                Err(Stop::Dead) => {}
                Err(e) => return Err(e),
            }
        }
        match acc {
            None => Err(Stop::Dead),
            Some((s, v)) => {
                *st = s;
                Ok(v)
            }
        }
    }
    pub fn merge_ret(&mut self, s0: State, v0: Value, s1: State, v1: Value) -> (State, Value) {
        let pc = bdd::or(s0.pc, s1.pc);
        let g = bdd::restrict(s0.pc, pc);
        let v = ite(g, &v0, &v1);
        (merge(s0, s1), v)
    }
}

thread_local! {
    static UNIT: Value = Value::unit();
}

trait CollectSafe {
    fn collect_safe(self, skip: usize) -> Vec<Value>;
}
impl<I: Iterator<Item = Value>> CollectSafe for I {
    fn collect_safe(self, _skip: usize) -> Vec<Value> {
        self.collect()
    }
}

// ------------------------------------------------------------------ helpers

pub fn short(v: &Value) -> String {
    match v {
        Value::Uninit => "uninitialised".into(),
        Value::Bad(s) => format!("unknown({s})"),
        Value::Int(i) => format!("int{}", i.w),
        Value::Float(_) => "float".into(),
        Value::Agg(a) => format!("aggregate of {}", a.len()),
        Value::Enum(_) => "enum".into(),
        Value::Ptr(_) => "pointer".into(),
        Value::Vec(_) => "vector".into(),
        Value::Boxed(_) => "box".into(),
        Value::FnPtr(_) => "function".into(),
        Value::OStr(..) => "string".into(),
    }
}
/// tuple struct and tuple variant constructors used as functions
fn construct(name: &str, ret: Ty, args: Vec<Value>) -> Option<Value> {
    use rustc_public::ty::AdtKind;
    let (d, _) = adt(ret)?;
    let last = name.rsplit("::").next()?;
    match d.kind() {
        AdtKind::Struct => (variant_fields(ret, 0).len() == args.len()).then(|| Value::agg(args)),
        AdtKind::Enum => {
            let i = d.variants().iter().position(|v| v.name() == last)?;
            if variant_fields(ret, i).len() != args.len() {
                return None;
            }
            Some(mk_enum(discr_ty_width(ret), discr_of(&d, i), d.num_variants(), i, args))
        }
        _ => None,
    }
}
pub fn lt(a: &Int, b: &Int, s: bool) -> Bdd {
    if s { a.slt(b) } else { a.ult(b) }
}
pub fn ordering(l: Bdd, e: Bdd) -> Value {
    let d = ite_int(l, &Int::c(8, 255), &ite_int(e, &Int::c(8, 0), &Int::c(8, 1)));
    let u = || Some(Rc::new(vec![]));
    Value::Enum(Rc::new(EnumV { discr: d, vars: vec![u(), u(), u()] }))
}
/// types of the standard library whose destructors matter to the remaining program
fn observable_drop(n: &str) -> bool {
    let Some(last) = n.rsplit("::").next() else { return false };
    n.starts_with("std::cell::") && matches!(last, "Ref" | "RefMut" | "BorrowRef" | "BorrowRefMut")
        || n.starts_with("std::sync::") && (last.ends_with("Guard") || last == "Sender" || last == "SyncSender")
        || n.starts_with("std::io::") && matches!(last, "BufWriter" | "LineWriter")
        || n.starts_with("std::rc::") && last == "Weak"
}
pub fn place_ty(bi: &BodyInfo, p: &Place) -> R<Ty> {
    let mut t = bi.tys[p.local];
    for e in &p.projection {
        t = proj_ty(e, t)?;
    }
    Ok(t)
}
fn proj_ty(e: &ProjectionElem, t: Ty) -> R<Ty> {
    match e {
        ProjectionElem::Field(_, f) => Ok(*f),
        ProjectionElem::Downcast(_) => Ok(t),
        ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => {
            elem_ty(t).ok_or(Stop::Und("index type".into()))
        }
        ProjectionElem::Deref => match pointee(t) {
            Some(p) => Ok(p),
            None if is_box(t) => Ok(ty_args(&adt(t).unwrap().1)[0]),
            None => und("deref type"),
        },
        ProjectionElem::OpaqueCast(t) => Ok(*t),
        ProjectionElem::Subslice { from, to, from_end } => match array_len(t) {
            None => Ok(t),
            Some(n) => {
                let e = elem_ty(t).unwrap();
                let m = if *from_end { n as u64 - to - from } else { to - from };
                Ty::try_new_array(e, m).map_err(|_| Stop::Und("array".into()))
            }
        },
    }
}
pub fn meta_len(ts: &[(Bdd, Target)]) -> R<Int> {
    meta_len_pc(ts, T)
}
pub fn meta_len_pc(ts: &[(Bdd, Target)], pc: Bdd) -> R<Int> {
    let mut acc: Option<Int> = None;
    for (g, t) in ts {
        if ts.len() > 1 && bdd::and(*g, pc) == F {
            continue;
        }
        let Meta::Len(l) = &t.meta else { return und("length of a thin pointer") };
        acc = Some(match acc {
            None => l.clone(),
            Some(a) => ite_int(*g, l, &a),
        });
    }
    acc.ok_or(Stop::Dead)
}
/// A box that is copied to be dereferenced: a pointer to its content.
fn borrow_box(ts: &[(Bdd, Target)], v: &Value) -> Value {
    let Value::Boxed(b) = v else { return v.clone() };
    let mut l = vec![];
    for (g, t) in ts {
        let mut t = t.clone();
        t.path.push(Elem::BoxDeref);
        if let Meta::Len(_) = b.meta {
            t.path.push(Elem::Index(0));
        }
        t.meta = b.meta.clone();
        l.push((*g, t));
    }
    Value::Ptr(Rc::new(l))
}
fn bump(path: &mut [Elem], k: usize) -> R<()> {
    match path.last_mut() {
        Some(Elem::Index(i)) => {
            *i += k;
            Ok(())
        }
        _ => und("slice pointer without a start index"),
    }
}
fn push_sub(path: &mut Vec<Elem>, s: usize, n: usize) {
    if let Some(Elem::Sub(b, _)) = path.last() {
        let b = *b;
        path.pop();
        path.push(Elem::Sub(b + s, n));
    } else {
        path.push(Elem::Sub(s, n));
    }
}
/// array pointer -> pointer to its first element
fn to_index0(path: &mut Vec<Elem>) {
    if let Some(Elem::Sub(b, _)) = path.last() {
        let b = *b;
        path.pop();
        path.push(Elem::Index(b));
    } else {
        path.push(Elem::Index(0));
    }
}
/// an element pointer that becomes a slice pointer must end in an index
fn fix_slice_path(t: &mut Target) -> R<()> {
    match t.path.last() {
        Some(Elem::Index(_)) => Ok(()),
        _ => {
            if let Meta::Len(l) = &t.meta {
                if l.konst() == Some(0) {
                    t.root = Root::Const(Rc::new(Value::unit()));
                    t.path = vec![Elem::Index(0)];
                    return Ok(());
                }
            }
            und("slice from a pointer outside an array")
        }
    }
}
pub fn adv(l: &[(Bdd, Target)], k: usize) -> R<Vec<(Bdd, Target)>> {
    let mut r = vec![];
    for (g, t) in l {
        let mut t = t.clone();
        if k != 0 {
            bump(&mut t.path, k)?;
        }
        r.push((*g, t));
    }
    Ok(r)
}
/// Adjust a pointer path from pointee type `f` to pointee type `t`.
pub fn retarget(path: &mut Vec<Elem>, f: Ty, t: Ty) -> bool {
    if f == t {
        return true;
    }
    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = &*kind(t) {
        if ts.is_empty() {
            return true;
        }
    }
    if let (Some(a), Some(b)) = (int_info(f), int_info(t)) {
        return a.0 == b.0;
    }
    if is_slice_like(f) && is_slice_like(t) {
        return compatible(elem_ty(f).unwrap(), elem_ty(t).unwrap());
    }
    if is_dyn(f) {
        return true;
    }
    if is_slice_like(f) {
        return retarget(path, elem_ty(f).unwrap(), t);
    }
    if let (Some(a), Some(b)) = (array_len(f), array_len(t)) {
        if a == b && compatible(elem_ty(f).unwrap(), elem_ty(t).unwrap()) {
            return true;
        }
    }
    if is_union(f) {
        if let Some(u) = union_field(f) {
            return retarget(path, u, t);
        }
    }
    if is_union(t) {
        if let Some(u) = union_field(t) {
            return retarget(path, f, u);
        }
    }
    if let Some(n) = array_len(t) {
        if compatible(f, elem_ty(t).unwrap()) {
            if let Some(Elem::Index(i)) = path.last() {
                let i = *i;
                path.pop();
                path.push(Elem::Sub(i, n));
                return true;
            }
        }
    }
    if array_len(f).is_some() {
        let mut p = path.clone();
        to_index0(&mut p);
        if retarget(&mut p, elem_ty(f).unwrap(), t) {
            *path = p;
            return true;
        }
        return false;
    }
    if let Some((i, x)) = sole_field(f) {
        let mut p = path.clone();
        p.push(Elem::Field(i as u32));
        if retarget(&mut p, x, t) {
            *path = p;
            return true;
        }
    }
    if let Some((i, x)) = sole_field(t) {
        if path.last() == Some(&Elem::Field(i as u32)) {
            let mut p = path.clone();
            p.pop();
            if x == f {
                *path = p;
                return true;
            }
        }
    }
    same_shape(f, t)
}
/// both states are equal for every input that reaches them
fn same_state(a: &State, b: &State) -> bool {
    a.pc == b.pc
        && a.frames.len() == b.frames.len()
        && a.statics.len() == b.statics.len()
        && a.statics.iter().zip(&b.statics).all(|(x, y)| x.0 == y.0 && same_under(b.pc, &x.1, &y.1))
        && a.frames.iter().zip(&b.frames).all(|(x, y)| {
            Rc::ptr_eq(x, y) || x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same_under(b.pc, x, y))
        })
}
fn same_int(pc: Bdd, a: &Int, b: &Int) -> bool {
    a.w == b.w && bdd::diff(pc, a.eq(b)) == F
}
fn same_under(pc: Bdd, a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Int(x), Value::Int(y)) => x == y || same_int(pc, x, y),
        (Value::Agg(x), Value::Agg(y)) => {
            Rc::ptr_eq(x, y) || x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same_under(pc, x, y))
        }
        (Value::Enum(x), Value::Enum(y)) => {
            Rc::ptr_eq(x, y)
                || same_int(pc, &x.discr, &y.discr)
                    && x.vars.len() == y.vars.len()
                    && x.vars.iter().zip(&y.vars).all(|(x, y)| match (x, y) {
                        (Some(x), Some(y)) => {
                            Rc::ptr_eq(x, y)
                                || x.len() == y.len() && x.iter().zip(y.iter()).all(|(x, y)| same_under(pc, x, y))
                        }
                        (None, None) => true,
                        _ => false,
                    })
        }
        (Value::Vec(x), Value::Vec(y)) => {
            Rc::ptr_eq(x, y)
                || same_int(pc, &x.len, &y.len)
                    && x.elems.len() == y.elems.len()
                    && x.elems.iter().zip(&y.elems).all(|(x, y)| same_under(pc, x, y))
        }
        (Value::Boxed(x), Value::Boxed(y)) => Rc::ptr_eq(x, y) || x.meta == y.meta && same_under(pc, &x.inner, &y.inner),
        _ => a == b,
    }
}
fn same_shape(f: Ty, t: Ty) -> bool {
    match (&*kind(f), &*kind(t)) {
        (TyKind::RigidTy(RigidTy::Adt(a, x)), TyKind::RigidTy(RigidTy::Adt(b, y))) if a == b => {
            let (x, y) = (ty_args(x), ty_args(y));
            x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| compatible(*p, *q))
        }
        _ => false,
    }
}
fn compatible(f: Ty, t: Ty) -> bool {
    if f == t {
        return true;
    }
    if let (Some(a), Some(b)) = (int_info(f), int_info(t)) {
        return a.0 == b.0;
    }
    if is_union(f) {
        return union_field(f).is_some_and(|u| compatible(u, t));
    }
    if is_union(t) {
        return union_field(t).is_some_and(|u| compatible(f, u));
    }
    same_shape(f, t) || f.to_string() == t.to_string()
}
fn put(cur: &mut Value, path: &[Elem], v: Value) -> R<()> {
    let Some(e) = path.first() else {
        *cur = v;
        return Ok(());
    };
    let rest = &path[1..];
    match (e, &mut *cur) {
        (Elem::Field(f), Value::Agg(a)) => {
            let a = Rc::make_mut(a);
            // a value that is initialised field by field
            if a.len() <= *f as usize {
                a.resize(*f as usize + 1, Value::Uninit);
            }
            match a.get_mut(*f as usize) {
                Some(x) => put(x, rest, v),
                None => und("store to a missing field"),
            }
        }
        (Elem::VField(k, f), Value::Enum(en)) => {
            let en = Rc::make_mut(en);
            let (k, f) = (*k as usize, *f as usize);
            if en.vars.len() <= k {
                en.vars.resize(k + 1, None);
            }
            let p = en.vars[k].get_or_insert_with(|| Rc::new(vec![]));
            let p = Rc::make_mut(p);
            if p.len() <= f {
                p.resize(f + 1, Value::Uninit);
            }
            put(&mut p[f], rest, v)
        }
        (Elem::Index(k), Value::Agg(a)) => {
            let a = Rc::make_mut(a);
            match a.get_mut(*k) {
                Some(x) => put(x, rest, v),
                None => und("store outside an array"),
            }
        }
        (Elem::Index(k), Value::Vec(a)) => {
            let a = Rc::make_mut(a);
            if a.elems.len() <= *k {
                a.elems.resize(*k + 1, Value::Uninit);
            }
            put(&mut a.elems[*k], rest, v)
        }
        (Elem::Sub(s, n), Value::Agg(_) | Value::Vec(_)) => {
            if !rest.is_empty() {
                if let Elem::Index(k) = rest[0] {
                    let mut p = vec![Elem::Index(s + k)];
                    p.extend_from_slice(&rest[1..]);
                    return put(cur, &p, v);
                }
                return und("store into a sub-array");
            }
            let Value::Agg(src) = &v else { return und("store of a sub-array") };
            if src.len() != *n {
                return und("sub-array size");
            }
            for (i, x) in src.iter().enumerate() {
                put(cur, &[Elem::Index(s + i)], x.clone())?;
            }
            Ok(())
        }
        (Elem::BoxDeref, Value::Boxed(b)) => {
            let b = Rc::make_mut(b);
            put(&mut b.inner, rest, v)
        }
        (Elem::Field(0), Value::Ptr(_) | Value::Int(_)) => put(cur, rest, v),
        (Elem::Field(0), Value::Uninit) if rest.is_empty() => {
            *cur = Value::agg(vec![v]);
            Ok(())
        }
        (Elem::Field(f), Value::Uninit) => {
            let mut a = vec![Value::Uninit; *f as usize + 1];
            put(&mut a[*f as usize], rest, v)?;
            *cur = Value::agg(a);
            Ok(())
        }
        (Elem::Index(k), Value::Uninit) => {
            let mut a = vec![Value::Uninit; *k + 1];
            put(&mut a[*k], rest, v)?;
            *cur = Value::agg(a);
            Ok(())
        }
        (_, Value::Bad(s)) => und(format!("store into an unknown value: {s}")),
        (e, c) => und(format!("store to {e:?} of {}", short(c))),
    }
}

pub fn to_bits(v: &Value, t: Ty) -> Option<Vec<Bdd>> {
    if let Some((w, _)) = int_info(t) {
        if let Value::Int(i) = v {
            let mut b = i.to_bits().to_vec();
            if w == 1 {
                b.resize(8, F);
            }
            return Some(b);
        }
        return None;
    }
    if float_info(t).is_some() {
        if let Value::Float(f) = v {
            return Some(f.to_raw().to_bits().to_vec());
        }
        return None;
    }
    if let (Some(e), Value::Agg(a)) = (elem_ty(t), v) {
        let mut r = vec![];
        for x in a.iter() {
            r.extend(to_bits(x, e)?);
        }
        return Some(r);
    }
    if is_zst(t) {
        return Some(vec![]);
    }
    if let (Some((i, f)), Value::Agg(a)) = (sole_field(t), v) {
        return to_bits(&a[i], f);
    }
    if let Value::Enum(e) = v {
        let n = size_of(t)? as u32 * 8;
        if n <= 64 && e.vars.iter().flatten().all(|x| x.is_empty()) {
            return Some(e.discr.zext(n).to_bits().to_vec());
        }
    }
    None
}
pub fn from_bits(b: &[Bdd], t: Ty) -> Option<Value> {
    if let Some((w, _)) = int_info(t) {
        if b.len() < w as usize {
            return None;
        }
        return Some(Value::Int(Int::bits(b[..w as usize].to_vec())));
    }
    if let Some(k) = float_info(t) {
        return Some(Value::Float(Rc::new(FloatV::from_raw(k, &Int::bits(b.to_vec())))));
    }
    if let Some(n) = array_len(t) {
        let e = elem_ty(t)?;
        let sz = size_of(e)? * 8;
        let mut r = vec![];
        for i in 0..n {
            r.push(from_bits(b.get(i * sz..(i + 1) * sz)?, e)?);
        }
        return Some(Value::agg(r));
    }
    if is_zst(t) {
        return Some(zst(t));
    }
    if let Some((i, f)) = sole_field(t) {
        let inner = from_bits(b, f)?;
        let fs = variant_fields(t, 0);
        let mut r: Vec<Value> =
            fs.iter().enumerate().map(|(k, f)| if k == i { Value::Uninit } else { zst(*f) }).collect();
        r[i] = inner;
        return Some(Value::agg(r));
    }
    if let Some((d, _)) = adt(t) {
        if d.kind() == rustc_public::ty::AdtKind::Enum {
            let nv = d.num_variants();
            if (0..nv).all(|i| variant_fields(t, i).is_empty()) {
                let i = Int::bits(b.to_vec()).zext(discr_ty_width(t));
                return Some(Value::Enum(Rc::new(EnumV {
                    discr: i,
                    vars: vec![Some(Rc::new(vec![])); nv],
                })));
            }
        }
    }
    None
}
