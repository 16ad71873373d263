#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
mod bdd;
mod effects;
mod interp;
mod json;
mod natives;
mod types;
mod val;
use interp::Stop;
use json::J;
use rustc_public::CrateDef;
use rustc_public::ty::{FnDef, GenericArgs, RigidTy, TyKind};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ops::ControlFlow;
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn kill(pid: i32, signal: i32) -> i32;
}

fn env(n: &str) -> String {
    std::env::var(n).unwrap_or_default()
}

/// client, part, case split
type Job = (String, usize, Vec<usize>);

/// types of the analysed crate that implement `Drop`
fn drop_types() -> Vec<String> {
    let mut r = vec![];
    for k in rustc_public::find_crates("ur20") {
        for i in k.trait_impls() {
            let t = i.trait_impl().value;
            if types::canon(&t.def_id.name()) == "std::ops::Drop" {
                if let Some((d, _)) = types::adt(t.self_ty()) {
                    r.push(types::adt_name(&d).to_string());
                }
            }
        }
    }
    r
}

/// Analyse one part of one client; everything found goes to `out`.
fn analyse(models: &HashMap<String, FnDef>, c: FnDef, part: usize, path: &[usize], limit: u64, thorough: bool) -> J {
    let t = Instant::now();
    val::reset();
    let mut it = interp::Interp::new();
    it.model_fns = models.clone();
    it.drop_types = drop_types();
    it.part = part;
    it.path = path.to_vec();
    it.thorough = thorough;
    it.deadline = t + Duration::from_secs(limit.min(if thorough { 600 } else { 240 }));
    bdd::set_deadline(it.deadline);
    let mut st = interp::State { pc: bdd::T, frames: vec![], statics: vec![] };
    let name = types::canon(&c.name());
    let mut status = "returns";
    match it.resolve_inst(c, &GenericArgs(vec![])).and_then(|i| it.body_of(i)) {
        None => {
            status = "no body";
            it.undecided.push(interp::Report { key: "client without body".into(), text: "client without body".into() });
        }
        Some(bi) => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.call_body(&mut st, &bi, vec![])));
            match r {
                Ok(Ok(_)) => {}
                Ok(Err(Stop::Dead)) => status = "no state reaches the end",
                Ok(Err(Stop::Und(m))) => {
                    status = "undecided";
                    it.undecide(&st, &m);
                }
                Err(e) => {
                    let m = match e.downcast_ref::<bdd::GiveUp>() {
                        Some(g) => format!("analysis given up: {}", g.0),
                        None => "analysis failed: internal error of the analyser".to_string(),
                    };
                    status = "undecided";
                    it.undecided.push(interp::Report { key: m.clone(), text: m });
                }
            }
        }
    }
    let rep = |r: &Vec<interp::Report>| {
        J::A(r.iter().map(|r| J::O(vec![("key", J::s(&r.key)), ("text", J::s(&r.text))])).collect())
    };
    let fns: BTreeSet<&String> = it.stats.functions.iter().collect();
    J::O(vec![
        ("client", J::s(&name.replace("clients::", "").replace("::", "."))),
        ("part", J::N(part as f64)),
        ("parts", J::N(it.parts as f64)),
        ("path", J::s(&path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."))),
        ("next_choice", J::N(it.choices.get(path.len()).copied().unwrap_or(0) as f64)),
        ("status", J::s(status)),
        ("seconds", J::N(t.elapsed().as_millis() as f64 / 1000.0)),
        ("violations", rep(&it.violations)),
        ("undecided", rep(&it.undecided)),
        (
            "obligations",
            J::A(
                it.obligs
                    .iter()
                    .map(|(k, o)| {
                        J::O(vec![
                            ("rule", J::s(k)),
                            ("checks", J::N(o.checks as f64)),
                            ("ok", J::B(!o.violated && !o.undecided)),
                        ])
                    })
                    .collect(),
            ),
        ),
        ("functions", J::A(fns.iter().map(|f| J::s(f)).collect())),
        ("models", J::A(it.stats.models.iter().map(|f| J::s(f)).collect())),
        ("blocks", J::N(it.stats.blocks as f64)),
        ("statements", J::N(it.stats.statements as f64)),
        ("calls", J::N(it.stats.calls as f64)),
        ("call_sites", J::N(it.stats.call_sites.len() as f64)),
        ("joins", J::N(it.stats.joins as f64)),
        ("nodes", J::N(bdd::node_count() as f64)),
    ])
}

fn run_all() -> ControlFlow<(), ()> {
    let want = env("UR20_CLIENT");
    let thorough = env("UR20_TIER") == "thorough";
    let out = env("UR20_OUT");
    let jobs: usize = env("UR20_JOBS").parse().unwrap_or(8);
    let limit: u64 = env("UR20_LIMIT").parse().unwrap_or(600);
    let mut models = HashMap::new();
    let mut clients: BTreeMap<String, FnDef> = BTreeMap::new();
    for f in rustc_public::local_crate().fn_defs() {
        let n = types::canon(&f.name());
        if let Some(m) = n.strip_prefix("models::") {
            models.insert(m.to_string(), f);
        } else if let Some(m) = n.strip_prefix("clients::") {
            let sig = f.fn_sig().skip_binder();
            let unit = matches!(&*types::kind(sig.output()), TyKind::RigidTy(RigidTy::Tuple(t)) if t.is_empty());
            if (m.starts_with("selftest")
                || m.starts_with('c') && m.as_bytes().get(1).is_some_and(|b| b.is_ascii_digit()))
                && m.starts_with(&want)
                && sig.inputs().is_empty()
                && unit
                && !m.contains('{')
            {
                clients.insert(m.replace("::", "."), f);
            }
        }
    }
    let start = Instant::now();
    let mut queue: Vec<Job> = clients.keys().rev().map(|k| (k.clone(), 0, vec![])).collect();
    if let Ok(p) = std::env::var("UR20_PART") {
        queue = queue.into_iter().map(|(k, ..)| (k, p.parse().unwrap(), vec![])).collect();
    }
    let one_part = std::env::var("UR20_PART").is_ok();
    let mut running: HashMap<i32, (Job, String)> = HashMap::new();
    let mut results: Vec<String> = vec![];
    let mut lost = 0;
    // once something is found, the other analyses get this long to add to it
    let grace: Option<u64> = env("UR20_GRACE").parse().ok();
    let mut found: Option<Instant> = None;
    if "c21::effects".starts_with(&want) {
        results.push(effects::run().text());
    }
    if "c22::auto_traits".starts_with(&want) {
        results.push(effects::auto_traits().text());
    }
    loop {
        while running.len() < jobs {
            let Some(job) = queue.pop() else { break };
            let (c, p, path) = &job;
            let mut file = format!("{out}.{c}.{p}");
            for x in path {
                file += &format!("_{x}");
            }
            let _ = std::fs::remove_file(&file);
            if jobs == 1 {
                let j = analyse(&models, clients[c], *p, path, limit, thorough).text();
                std::fs::write(&file, j).unwrap();
                finish(&file, &job, &mut queue, &mut results, &mut lost, one_part);
                continue;
            }
            let pid = unsafe { fork() };
            if pid == 0 {
                let j = std::panic::catch_unwind(|| {
                    let left = limit.saturating_sub(start.elapsed().as_secs()).max(1);
                    analyse(&models, clients[c], *p, path, left, thorough).text()
                });
                if let Ok(j) = j {
                    let _ = std::fs::write(format!("{file}.tmp"), j);
                    let _ = std::fs::rename(format!("{file}.tmp"), &file);
                }
                unsafe { _exit(0) };
            }
            running.insert(pid, (job, file));
        }
        if running.is_empty() {
            if queue.is_empty() {
                break;
            }
            continue;
        }
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, i32::from(found.is_some())) };
        if let Some((job, file)) = running.remove(&pid) {
            let n = results.len();
            finish(&file, &job, &mut queue, &mut results, &mut lost, one_part);
            if found.is_none() && grace.is_some() && results[n..].iter().any(|r| r.contains("\"violations\":[{")) {
                found = Some(Instant::now());
            }
        } else if found.is_some() {
            std::thread::sleep(std::time::Duration::from_millis(5));
        }
        if let (Some(t), Some(g)) = (found, grace) {
            if t.elapsed().as_secs() >= g {
                queue.clear();
                for (pid, (_, file)) in running.drain() {
                    unsafe {
                        kill(pid, 9);
                        waitpid(pid, &mut st, 0);
                    }
                    let _ = std::fs::remove_file(&file);
                }
            }
        }
    }
    let text = format!(
        "{{\"clients\":{},\"lost\":{},\"seconds\":{},\"results\":[\n{}\n]}}\n",
        clients.len(),
        lost,
        start.elapsed().as_secs_f64(),
        results.join(",\n")
    );
    if out.is_empty() {
        println!("{text}");
    } else {
        std::fs::write(&out, text).unwrap();
    }
    ControlFlow::Continue(())
}

/// a number in the text of a result
fn number(s: &str, field: &str) -> usize {
    s.split(&format!("\"{field}\":"))
        .nth(1)
        .and_then(|x| x.split([',', '}']).next())
        .and_then(|x| x.trim().parse().ok())
        .unwrap_or(0)
}

fn finish(file: &str, job: &Job, queue: &mut Vec<Job>, results: &mut Vec<String>, lost: &mut usize, one_part: bool) {
    let (c, p, path) = job;
    match std::fs::read_to_string(file) {
        Ok(s) => {
            let _ = std::fs::remove_file(file);
            if *p == 0 && path.is_empty() && !one_part {
                for k in (1..number(&s, "parts")).rev() {
                    queue.push((c.to_string(), k, vec![]));
                }
            }
            // not conclusive for all lengths at once: one analysis per length
            let n = number(&s, "next_choice");
            if n > 0 && path.len() < 2 && s.contains("\"violations\":[]") && !s.contains("\"undecided\":[]") {
                for k in 0..n {
                    let mut q = path.clone();
                    q.push(k);
                    queue.push((c.to_string(), *p, q));
                }
                return;
            }
            results.push(s);
        }
        Err(_) => {
            *lost += 1;
            results.push(format!("{{\"client\":\"{c}\",\"part\":{p},\"status\":\"analysis ended without result\"}}"));
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if i.payload().downcast_ref::<bdd::GiveUp>().is_none() || std::env::var("UR20_BT").is_ok() {
            hook(i)
        }
    }));
    let r = run!(&args, || run_all());
    if r.is_err() {
        eprintln!("{r:?}");
        std::process::exit(3);
    }
}
