//! The effect rule: no function of the library reads or writes state outside
//! its arguments.  Every MIR body of the crate is scanned, called or not.
use crate::json::J;
use crate::types::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::StaticDef;
use rustc_public::mir::visit::{statement_location, Location, MirVisitor};
use rustc_public::mir::{
    AggregateKind, Body, CastKind, ConstOperand, Mutability, Operand, Rvalue, Terminator, TerminatorKind,
};
use rustc_public::ty::{ClosureDef, ConstantKind, GenericArgs, RigidTy, Ty, TyKind};
use rustc_public::{CrateDef, CrateItem};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

/// functions whose result depends on something else than their arguments, or
/// that have an effect outside of the program
const DENIED: &[(&str, &str)] = &[
    ("std::time::Instant::now", "reads a clock"),
    ("std::time::Instant::elapsed", "reads a clock"),
    ("std::time::SystemTime::now", "reads a clock"),
    ("std::time::SystemTime::elapsed", "reads a clock"),
    ("std::env::", "reads the environment"),
    ("std::fs::", "uses the file system"),
    ("std::net::", "uses the network"),
    ("std::os::", "uses the operating system"),
    ("std::process::", "acts on processes"),
    ("std::thread::", "uses threads or thread local state"),
    ("std::io::_print", "writes to the standard output"),
    ("std::io::_eprint", "writes to the standard error"),
    ("std::io::stdio::", "uses the standard streams"),
    ("std::io::stdin", "reads the standard input"),
    ("std::io::stdout", "writes to the standard output"),
    ("std::io::stderr", "writes to the standard error"),
    ("std::hash::RandomState::new", "draws random keys"),
    ("std::collections::hash_map::RandomState::new", "draws random keys"),
    ("std::panic::set_hook", "changes a global hook"),
    ("std::panic::take_hook", "changes a global hook"),
    ("std::ptr::write_volatile", "volatile access"),
    ("std::ptr::read_volatile", "volatile access"),
];
const SET_ONCE: &[&str] = &[
    "std::sync::OnceLock::<T>::set",
    "std::sync::OnceLock::<T>::take",
    "std::sync::OnceLock::<T>::try_insert",
    "std::sync::OnceLock::<T>::get_mut",
];

/// why a type has state that changes through a shared reference
fn cells(t: Ty, seen: &mut HashSet<Ty>) -> Option<String> {
    if !seen.insert(t) {
        return None;
    }
    match &*kind(t) {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(d, a) => {
                let n = adt_name(d);
                let last = n.rsplit("::").next().unwrap_or("");
                match last {
                    "UnsafeCell" | "Cell" | "RefCell" | "Mutex" | "RwLock" | "Condvar" => return Some(n.to_string()),
                    // the values are shared but not changed; initialised once from constants
                    "Rc" | "Arc" | "Weak" | "Lazy" | "LazyLock" | "LazyCell" | "OnceLock" | "OnceCell"
                        if !n.starts_with("ur20::") =>
                    {
                        return ty_args(a).first().and_then(|t| cells(*t, seen));
                    }
                    "PhantomData" => return None,
                    _ if last.starts_with("Atomic") => return Some(n.to_string()),
                    _ => {}
                }
                for v in 0..d.variants().len() {
                    for f in variant_fields(t, v).iter() {
                        if let Some(c) = cells(*f, seen) {
                            return Some(c);
                        }
                    }
                }
                None
            }
            RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => cells(*t, seen),
            RigidTy::Tuple(ts) => ts.iter().find_map(|t| cells(*t, seen)),
            _ => None,
        },
        _ => None,
    }
}
fn captures(a: &GenericArgs) -> bool {
    match ty_args(a).last().map(|t| kind(*t)) {
        Some(k) => match &*k {
            TyKind::RigidTy(RigidTy::Tuple(t)) => !t.is_empty(),
            _ => true,
        },
        None => true,
    }
}

struct Scan<'a> {
    body: &'a Body,
    name: String,
    closures: Vec<ClosureDef>,
    found: Vec<(bool, String, String)>,
    sites: usize,
    calls: usize,
    statics: BTreeSet<String>,
}
impl Scan<'_> {
    fn report(&mut self, sure: bool, what: String, at: rustc_public::ty::Span) {
        let l = at.get_lines();
        let file = at.get_filename().to_string();
        let file = file.split("/repo/").last().unwrap_or("").to_string();
        self.found.push((
            sure,
            format!("{}: {what}", self.name),
            format!("{}: {what}\n    at {file}:{}:{}", self.name, l.start_line, l.start_col),
        ));
    }
    fn static_use(&mut self, d: StaticDef, at: rustc_public::ty::Span) {
        let n = canon(&d.name());
        self.statics.insert(n.clone());
        if let Some(c) = cells(d.ty(), &mut HashSet::new()) {
            self.report(true, format!("uses the static `{n}`, which has mutable state ({c})"), at);
        }
    }
    fn is_shared(&self, o: &Operand) -> bool {
        match o.ty(self.body.locals()) {
            Ok(t) => matches!(
                &*kind(t),
                TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Not) | RigidTy::RawPtr(_, Mutability::Not))
            ),
            Err(_) => false,
        }
    }
}
fn is_mut_ptr(t: Ty) -> bool {
    matches!(
        &*kind(t),
        TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Mut) | RigidTy::RawPtr(_, Mutability::Mut))
    )
}
impl MirVisitor for Scan<'_> {
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        self.sites += 1;
        let at = c.span;
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Static(d) = GlobalAlloc::from(p.0) {
                    if is_mut_ptr(c.const_.ty()) {
                        let n = canon(&d.name());
                        self.report(true, format!("uses the mutable static `{n}`"), at);
                    } else {
                        self.static_use(d, at);
                    }
                }
            }
        }
        self.super_const_operand(c, l);
    }
    fn visit_ty(&mut self, t: &Ty, l: Location) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = &*kind(*t) {
            let n = canon(&d.name());
            for (p, why) in DENIED {
                if n == *p || (p.ends_with("::") && n.starts_with(p)) {
                    self.report(true, format!("mentions `{n}`, which {why}"), l.span());
                }
            }
            if SET_ONCE.contains(&&*n) {
                self.report(true, format!("mentions `{n}`: the content of a global cell depends on the calls"), l.span());
            }
            if n.starts_with("std::sync::OnceLock::<T>::get_or") {
                for t in ty_args(a) {
                    if let TyKind::RigidTy(RigidTy::Closure(_, ca)) = &*kind(t) {
                        if captures(ca) {
                            let what = "initialises a global cell from the arguments of a call".to_string();
                            self.report(true, what, l.span());
                        }
                    }
                }
            }
            if n.contains("fmt::Pointer") || n.contains("::new_pointer") {
                self.report(false, "formats an address".into(), l.span());
            }
            if matches!(&*n, "std::intrinsics::transmute" | "std::mem::transmute") {
                let ts = ty_args(a);
                let shared = |t: Ty| matches!(&*kind(t), TyKind::RigidTy(RigidTy::Ref(_, _, Mutability::Not)));
                if ts.len() == 2 && shared(ts[0]) && is_mut_ptr(ts[1]) {
                    self.report(true, "makes a shared reference mutable".into(), l.span());
                }
            }
            if CrateItem(d.def_id()).is_foreign_item() {
                self.report(true, format!("calls the foreign function `{n}`"), l.span());
            }
        }
        self.super_ty(t);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        self.sites += 1;
        match r {
            Rvalue::ThreadLocalRef(d) => {
                let n = canon(&d.name());
                self.report(true, format!("uses the thread local `{n}`"), l.span());
            }
            Rvalue::Aggregate(AggregateKind::Closure(d, _), _) => self.closures.push(*d),
            Rvalue::Cast(CastKind::PtrToPtr | CastKind::Transmute | CastKind::PointerCoercion(_), o, t)
                if self.is_shared(o) && is_mut_ptr(*t) =>
            {
                self.report(true, "makes a shared reference mutable".into(), l.span());
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        match &t.kind {
            TerminatorKind::InlineAsm { .. } => self.report(true, "contains assembly code".into(), l.span()),
            TerminatorKind::Call { .. } => self.calls += 1,
            _ => {}
        }
        self.super_terminator(t, l);
    }
}

fn is_raw(t: Ty) -> bool {
    matches!(&*kind(t), TyKind::RigidTy(RigidTy::RawPtr(..)))
}
fn is_pointer(t: Ty) -> bool {
    matches!(&*kind(t), TyKind::RigidTy(RigidTy::RawPtr(..) | RigidTy::Ref(..)))
}
/// functions that turn an address into a number
fn address_fn(n: &str) -> bool {
    let last = n.rsplit("::").next().unwrap_or("");
    (n.starts_with("std::ptr::") || n.starts_with("std::intrinsics::"))
        && matches!(
            last,
            "addr" | "expose_provenance" | "align_offset" | "is_aligned" | "is_aligned_to" | "addr_eq" | "guaranteed_eq"
        )
        && last != "addr_eq"
}
impl Scan<'_> {
    /// values of this body that depend on where something lies in memory, and where they take effect
    fn addresses(&mut self) {
        use rustc_public::mir::{BinOp, Place, ProjectionElem, StatementKind};
        let locals = self.body.locals();
        let mut t: HashSet<usize> = HashSet::new();
        let mut first = None;
        struct Uses<'b>(&'b HashSet<usize>, bool);
        impl MirVisitor for Uses<'_> {
            fn visit_local(&mut self, l: &usize, _: rustc_public::mir::visit::PlaceContext, _: Location) {
                self.1 |= self.0.contains(l);
            }
        }
        let uses = |o: &Operand, t: &HashSet<usize>| match o {
            Operand::Copy(p) | Operand::Move(p) => t.contains(&p.local),
            _ => false,
        };
        let ty = |o: &Operand| o.ty(locals).ok();
        loop {
            let n = t.len();
            for (bb, b) in self.body.blocks.iter().enumerate() {
                for (k, s) in b.statements.iter().enumerate() {
                    let StatementKind::Assign(d, r) = &s.kind else { continue };
                    let source = match r {
                        Rvalue::Cast(CastKind::PointerExposeAddress, ..) => true,
                        Rvalue::Cast(CastKind::Transmute, o, to) => {
                            ty(o).is_some_and(is_pointer)
                                && matches!(&*kind(*to), TyKind::RigidTy(RigidTy::Uint(_) | RigidTy::Int(_)))
                        }
                        Rvalue::BinaryOp(BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp, a, _) => {
                            ty(a).is_some_and(is_raw)
                        }
                        _ => false,
                    };
                    let mut u = Uses(&t, false);
                    u.visit_rvalue(r, statement_location(self.body, &bb, k));
                    if (source || u.1) && t.insert(d.local) && first.is_none() {
                        first = Some(s.source_info.span);
                    }
                }
                if let TerminatorKind::Call { func, args, destination, .. } = &b.terminator.kind {
                    let source = match ty(func).map(|f| (*kind(f)).clone()) {
                        Some(TyKind::RigidTy(RigidTy::FnDef(d, _))) => address_fn(&canon(&d.name())),
                        _ => false,
                    };
                    if (source || args.iter().any(|a| uses(a, &t))) && t.insert(destination.local) && first.is_none() {
                        first = Some(b.terminator.source_info.span);
                    }
                }
            }
            if t.len() == n {
                break;
            }
        }
        let Some(at) = first else { return };
        let through = |p: &Place| p.local == 0 || p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref));
        let effect = self.body.blocks.iter().any(|b| match &b.terminator.kind {
            TerminatorKind::SwitchInt { discr, .. } => uses(discr, &t),
            TerminatorKind::Call { args, .. } => args.iter().any(|a| uses(a, &t)),
            _ => false,
        }) || t.contains(&0)
            || self.body.blocks.iter().flat_map(|b| &b.statements).any(|s| match &s.kind {
                StatementKind::Assign(d, _) => t.contains(&d.local) && through(d),
                _ => false,
            });
        if effect {
            self.report(true, "depends on where something lies in memory".into(), at);
        }
    }
}

pub fn run() -> J {
    let mut und = BTreeMap::new();
    let mut viol = BTreeMap::new();
    let mut obl = vec![];
    let mut fns = BTreeSet::new();
    let (mut sites, mut calls, mut blocks, mut stmts) = (0, 0, 0, 0);
    let mut statics = BTreeSet::new();
    for k in rustc_public::find_crates("ur20") {
        let mut queue: VecDeque<(String, Option<Body>)> =
            k.fn_defs().into_iter().map(|f| (canon(&f.name()), f.body())).collect();
        let mut closures = HashSet::new();
        while let Some((name, body)) = queue.pop_front() {
            let Some(body) = body else {
                // a method of a trait without a default
                continue;
            };
            let mut s = Scan {
                body: &body,
                name: name.clone(),
                closures: vec![],
                found: vec![],
                sites: 0,
                calls: 0,
                statics: BTreeSet::new(),
            };
            s.visit_body(&body);
            s.addresses();
            blocks += body.blocks.len();
            stmts += body.blocks.iter().map(|b| b.statements.len()).sum::<usize>();
            for c in s.closures.clone() {
                if closures.insert(c) {
                    queue.push_back((canon(&c.name()), c.body()));
                }
            }
            obl.push(("no effect outside of the arguments", s.sites, s.found.is_empty()));
            sites += s.sites;
            calls += s.calls;
            statics.extend(s.statics);
            fns.insert(name);
            for (sure, k, t) in s.found {
                if sure { viol.insert(k, t) } else { und.insert(k, t) };
            }
        }
        for d in k.adts() {
            let n = canon(&d.name());
            // the type as declared, its parameters left open
            let c = cells(d.ty(), &mut HashSet::new());
            obl.push(("no field changes through a shared reference", d.variants().len(), c.is_none()));
            if let Some(c) = c {
                // the type behind a `lazy_static!` or a static of its own is judged where it is used
                let what = format!("the type `{n}` has state that changes through a shared reference ({c})");
                viol.insert(what.clone(), what);
            }
            fns.insert(format!("type {n}"));
        }
        for m in k.foreign_modules() {
            let what = format!("foreign functions are declared in `{}`", canon(&m.name()));
            und.insert(what.clone(), what);
        }
    }
    let rep = |r: &BTreeMap<String, String>| {
        J::A(r.iter().map(|(k, t)| J::O(vec![("key", J::s(k)), ("text", J::s(t))])).collect())
    };
    J::O(vec![
        ("client", J::s("c21.effects")),
        ("part", J::N(0.0)),
        ("parts", J::N(1.0)),
        ("status", J::s(if sites > 0 { "returns" } else { "no body" })),
        ("seconds", J::N(0.0)),
        ("violations", rep(&viol)),
        ("undecided", rep(&und)),
        (
            "obligations",
            J::A(
                obl.iter()
                    .map(|(k, n, ok)| {
                        J::O(vec![("rule", J::s(k)), ("checks", J::N(*n as f64)), ("ok", J::B(*ok))])
                    })
                    .collect(),
            ),
        ),
        ("functions", J::A(fns.iter().map(|f| J::s(f)).collect())),
        ("models", J::A(statics.iter().map(|f| J::s(&format!("static {f}"))).collect())),
        ("blocks", J::N(blocks as f64)),
        ("statements", J::N(stmts as f64)),
        ("calls", J::N(calls as f64)),
        ("call_sites", J::N(calls as f64)),
        ("joins", J::N(0.0)),
        ("nodes", J::N(0.0)),
    ])
}

/// C22: no hand-written claim that a type can be sent or shared
pub fn auto_traits() -> J {
    let mut und = vec![];
    let mut viol = vec![];
    let mut obl = vec![];
    let mut fns = BTreeSet::new();
    for k in rustc_public::find_crates("ur20") {
        let mut claims = vec![];
        for i in k.trait_impls() {
            let t = i.trait_impl();
            let t = t.value;
            let n = canon(&t.def_id.name());
            let auto = n == "std::marker::Send" || n == "std::marker::Sync";
            if auto {
                claims.push((n.clone(), t.self_ty()));
            }
            obl.push(J::O(vec![
                ("rule", J::s("an implementation of a trait makes no unchecked claim about threads")),
                ("checks", J::N(1.0)),
                ("ok", J::B(!auto)),
            ]));
        }
        for d in k.adts() {
            fns.insert(canon(&d.name()));
        }
        for (n, t) in claims {
            let what = format!("`{n}` is claimed for `{t:?}` by an implementation");
            let what = match adt(t) {
                Some((d, _)) => format!("`{n}` is claimed by hand for `{}`", canon(&d.name())),
                None => what,
            };
            let j = |x: String| J::O(vec![("key", J::s(&x)), ("text", J::s(&x))]);
            match counted(t, &mut HashSet::new()).or_else(|| cells(t, &mut HashSet::new())) {
                Some(c) => viol.push(j(format!("{what}, which contains {c}"))),
                None => und.push(j(what)),
            }
        }
    }
    J::O(vec![
        ("client", J::s("c22.auto_traits")),
        ("part", J::N(0.0)),
        ("parts", J::N(1.0)),
        ("status", J::s(if fns.is_empty() { "no body" } else { "returns" })),
        ("seconds", J::N(0.0)),
        ("violations", J::A(viol)),
        ("undecided", J::A(und)),
        ("obligations", J::A(obl)),
        ("functions", J::A(fns.iter().map(|f| J::s(f)).collect())),
        ("models", J::A(vec![])),
    ])
}
/// a field that must not be used from two threads
fn counted(t: Ty, seen: &mut HashSet<Ty>) -> Option<String> {
    if !seen.insert(t) {
        return None;
    }
    match &*kind(t) {
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(d, a) => {
                let n = adt_name(d);
                if &*n == "std::rc::Rc" || &*n == "std::rc::Weak" {
                    return Some(n.to_string());
                }
                if !n.starts_with("ur20::") {
                    return ty_args(a).iter().find_map(|t| counted(*t, seen));
                }
                (0..d.variants().len()).find_map(|v| variant_fields(t, v).iter().find_map(|f| counted(*f, seen)))
            }
            RigidTy::Array(t, _) | RigidTy::Slice(t) | RigidTy::Ref(_, t, _) => counted(*t, seen),
            RigidTy::RawPtr(..) => Some("a raw pointer".into()),
            RigidTy::Tuple(ts) => ts.iter().find_map(|t| counted(*t, seen)),
            _ => None,
        },
        _ => None,
    }
}
