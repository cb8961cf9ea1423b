//! Case runner: seeded generation over 8 threads, panic capture, shrinking, replay files,
//! known findings and evidence.
use crate::rng::*;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Fail { pub sig: String, pub msg: String }
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> { Err(Fail { sig: sig.to_string(), msg }) }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return $crate::engine::fail($sig, format!($($a)*)); } };
}

static OUT: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);
/// The library prints to stdout and stderr; from here on that goes nowhere and only `say!` is seen.
fn quiet() {
    unsafe {
        let out = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
        if out < 0 || null < 0 { return; }
        libc::fcntl(out, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::dup2(null, 1);
        libc::dup2(null, 2);
        OUT.store(out, Ordering::SeqCst);
    }
}
pub fn say_line(mut s: String) {
    s.push('\n');
    let b = s.as_bytes();
    let mut at = 0;
    while at < b.len() {
        let n = unsafe { libc::write(OUT.load(Ordering::SeqCst), b[at..].as_ptr() as *const _, b.len() - at) };
        if n > 0 { at += n as usize } else if std::io::Error::last_os_error().kind() != std::io::ErrorKind::Interrupted { break }
    }
}
macro_rules! say { ($($a:tt)*) => { crate::engine::say_line(format!($($a)*)) }; }

/// What one case exercised.
#[derive(Default)]
pub struct Obs { pub nontrivial: bool, pub labels: Vec<&'static str>, pub sub: u64 }
impl Obs {
    pub fn label(&mut self, l: &'static str) { if !self.labels.contains(&l) { self.labels.push(l); } }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

/// One generated check; a property is decided by one or more of them.
pub trait Suite: Sync {
    type Case: Serialize + DeserializeOwned + Clone;
    fn name(&self) -> &'static str;
    fn cases(&self, t: Tier) -> u64;
    fn gen(&self, r: &mut Rng) -> Self::Case;
    fn check(&self, c: &Self::Case, o: &mut Obs) -> Res;
    fn shrink(&self, _c: &Self::Case) -> Vec<Self::Case> { vec![] }
}
pub trait DynSuite: Sync {
    fn name(&self) -> &'static str;
    fn cases(&self, t: Tier) -> u64;
    fn run_seed(&self, seed: u64, o: &mut Obs, hash: &mut u64) -> Option<Fail>;
    fn case_json(&self, seed: u64) -> Value;
    fn check_json(&self, v: &Value, o: &mut Obs) -> Result<Option<Fail>, String>;
    fn shrink_json(&self, v: &Value) -> Vec<Value>;
}
thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {m}"));
    }));
}
pub fn last_panic() -> String { LAST_PANIC.with(|p| p.borrow().clone()) }
fn guarded<F: FnOnce() -> Res>(f: F) -> Option<Fail> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => { let m = last_panic(); Some(Fail { sig: "panic".into(), msg: format!("panicked at {m}") }) }
    }
}
impl<T: Suite> DynSuite for T {
    fn name(&self) -> &'static str { Suite::name(self) }
    fn cases(&self, t: Tier) -> u64 { Suite::cases(self, t) }
    fn run_seed(&self, seed: u64, o: &mut Obs, hash: &mut u64) -> Option<Fail> {
        let c = self.gen(&mut Rng::new(seed));
        *hash = hash_bytes(&serde_json::to_vec(&c).unwrap());
        guarded(|| self.check(&c, o))
    }
    fn case_json(&self, seed: u64) -> Value { serde_json::to_value(self.gen(&mut Rng::new(seed))).unwrap() }
    fn check_json(&self, v: &Value, o: &mut Obs) -> Result<Option<Fail>, String> {
        let c: T::Case = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(|| self.check(&c, o)))
    }
    fn shrink_json(&self, v: &Value) -> Vec<Value> {
        let c: T::Case = match serde_json::from_value(v.clone()) { Ok(c) => c, Err(_) => return vec![] };
        self.shrink(&c).into_iter().map(|c| serde_json::to_value(c).unwrap()).collect()
    }
}

pub struct Property { pub id: &'static str, pub rule: &'static str, pub suites: Vec<Box<dyn DynSuite>>, pub assumptions: &'static [&'static str] }

pub struct Known { pub suite: String, pub sig: String, pub what: String, pub case: Value, pub pattern: String }
pub fn load_known(root: &str, id: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.jsonl")) else { return out };
    for l in t.lines().filter(|l| l.trim_start().starts_with('{')) {
        let v: Value = serde_json::from_str(l).expect("known_findings.jsonl");
        if v["status"] == "open" && v["property"] == id {
            out.push(Known { suite: v["suite"].as_str().unwrap_or("").into(), sig: v["sig"].as_str().unwrap_or("").into(), what: v["what"].as_str().unwrap_or("").into(),
                case: v["case"].clone(), pattern: v["pattern"].as_str().unwrap_or("").into() });
        }
    }
    out
}

pub fn seed_for(seed: u64, id: &str, suite: &str, i: u64) -> u64 {
    let mut x = seed ^ hash_str(id).rotate_left(17) ^ hash_str(suite).rotate_left(41) ^ i.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut x)
}

pub struct Failure { pub suite: usize, pub idx: u64, pub fail: Fail, pub case: Value }

pub fn write_replay(root: &str, p: &Property, s: &str, f: &Fail, case: &Value) -> String {
    let dir = format!("{root}/evidence/replays");
    std::fs::create_dir_all(&dir).ok();
    let body = json!({"property": p.id, "suite": s, "sig": f.sig, "message": f.msg, "case": case});
    let path = format!("{dir}/{}-{}-{:016x}.json", p.id, s, hash_bytes(case.to_string().as_bytes()));
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
    path
}

/// Greedy shrink: keep the first smaller case that still fails with the same signature.
pub fn shrink(s: &dyn DynSuite, case: Value, fail: Fail, budget: u64) -> (Value, Fail) {
    let (mut c, mut f, mut left) = (case, fail, budget);
    let t0 = std::time::Instant::now();
    'outer: loop {
        for n in s.shrink_json(&c) {
            if left == 0 || t0.elapsed().as_secs() > 45 { break 'outer; }
            left -= 1;
            if let Ok(Some(nf)) = s.check_json(&n, &mut Obs::default()) {
                if nf.sig == f.sig { c = n; f = nf; continue 'outer; }
            }
        }
        break;
    }
    (c, f)
}

#[derive(Default)]
struct Acc { evals: u64, subs: u64, nontrivial: HashSet<u64>, labels: BTreeMap<String, u64>, samples: BTreeMap<u64, (String, Value)>, known: BTreeMap<String, u64> }

/// Which case each thread is working on, kept in a file so that the parent process can find the
/// case that killed or stalled this one.
pub struct Slots { f: std::fs::File, since: Vec<AtomicU64>, t0: std::time::Instant, limit: u64 }
pub const REGRESS: u64 = 1 << 32;
pub const STALL_EXIT: i32 = 77;
impl Slots {
    pub fn open(path: &str, limit_s: u64) -> std::sync::Arc<Slots> {
        let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(path).expect("slots file");
        let s = std::sync::Arc::new(Slots { f, since: (0..16).map(|_| AtomicU64::new(0)).collect(), t0: std::time::Instant::now(), limit: limit_s * 1000 });
        let w = s.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = w.t0.elapsed().as_millis() as u64 + 1;
            for (t, s) in w.since.iter().enumerate() {
                let b = s.load(Ordering::SeqCst);
                if b != 0 && now > b + w.limit { say!("case in slot {t} has not finished after {} s", w.limit / 1000); std::process::exit(STALL_EXIT); }
            }
        });
        s
    }
    fn set(&self, t: usize, suite: u64, idx: u64) {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(suite + 1).to_le_bytes());
        b[8..].copy_from_slice(&idx.to_le_bytes());
        let _ = self.f.write_all_at(&b, (t * 16) as u64);
        self.since[t].store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
    }
    fn clear(&self, t: usize) { let _ = self.f.write_all_at(&[0u8; 16], (t * 16) as u64); self.since[t].store(0, Ordering::SeqCst); }
}
pub fn read_slots(path: &str) -> Vec<(u64, u64)> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(16).filter_map(|c| { let s = u64::from_le_bytes(c[..8].try_into().unwrap()); if s == 0 { None } else { Some((s - 1, u64::from_le_bytes(c[8..].try_into().unwrap()))) } }).collect()
}
pub fn regress_files(root: &str, id: &str) -> Vec<std::path::PathBuf> {
    let mut files: Vec<_> = std::fs::read_dir(format!("{root}/regress/{id}")).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|f| f.extension().map_or(false, |e| e == "json")).collect()).unwrap_or_default();
    files.sort();
    files
}

pub fn run(root: &str, p: &Property, tier: Tier, seed: u64, slots: Option<std::sync::Arc<Slots>>) -> i32 {
    let t0 = std::time::Instant::now();
    let known = load_known(root, p.id);
    // 1. known findings: replay each listed input
    for k in &known {
        if let Some(s) = p.suites.iter().find(|s| s.name() == k.suite) {
            match s.check_json(&k.case, &mut Obs::default()) {
                Ok(Some(_)) => say!("KNOWN-FINDING: property={} {}", p.id, k.what),
                Ok(None) => say!("note: known finding no longer reproduces: property={} {}", p.id, k.what),
                Err(e) => { say!("bad known finding case: {e}"); return 2; }
            }
        }
    }
    // a listed finding covers exactly its input, or, where it names a call site, failures reported at that site
    let is_known = |suite: &str, f: &Fail, c: &dyn Fn() -> Value| known.iter().position(|k| k.suite == suite && k.sig == f.sig && ((!k.pattern.is_empty() && f.msg.contains(&k.pattern)) || (k.pattern.is_empty() && k.case == c())));
    let mut failure: Option<Failure> = None;
    let mut total = Acc::default();
    let mut suite_ev: Vec<Value> = vec![];
    // 2. saved regression inputs
    let files = regress_files(root, p.id);
    let mut regress = 0u64;
    for (fi, f) in files.iter().enumerate() {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).expect("regress json");
        let Some(si) = p.suites.iter().position(|s| s.name() == v["suite"].as_str().unwrap_or("")) else { continue };
        regress += 1;
        if let Some(sl) = &slots { sl.set(0, REGRESS, fi as u64); }
        match p.suites[si].check_json(&v["case"], &mut Obs::default()) {
            Ok(Some(fl)) if is_known(p.suites[si].name(), &fl, &|| v["case"].clone()).is_none() && failure.is_none() => failure = Some(Failure { suite: si, idx: 0, fail: fl, case: v["case"].clone() }),
            Ok(_) => {}
            Err(e) => { say!("bad regression case {f:?}: {e}"); return 2; }
        }
    }
    if let Some(sl) = &slots { sl.clear(0); }
    // 3. generated search
    if failure.is_none() {
        for (si, s) in p.suites.iter().enumerate() {
            let n = s.cases(tier);
            let next = AtomicU64::new(0);
            let stop = AtomicU64::new(u64::MAX);
            let best: Mutex<Option<Failure>> = Mutex::new(None);
            let acc: Mutex<Acc> = Mutex::new(Acc::default());
            let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(1, 8);
            let chunk = (n / (threads as u64 * 16)).clamp(1, 64);
            let ts = std::time::Instant::now();
            std::thread::scope(|sc| {
                for t in 0..threads {
                    let (next, stop, best, acc, slots, is_known) = (&next, &stop, &best, &acc, &slots, &is_known);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        let mut a = Acc::default();
                        loop {
                            let lo = next.fetch_add(chunk, Ordering::SeqCst);
                            if lo >= n { break; }
                            for i in lo..(lo + chunk).min(n) {
                                if i > stop.load(Ordering::SeqCst) { break; }
                                if let Some(sl) = slots { sl.set(t, si as u64, i); }
                                let sd = seed_for(seed, p.id, s.name(), i);
                                let (mut o, mut h) = (Obs::default(), 0);
                                let r = s.run_seed(sd, &mut o, &mut h);
                                a.evals += 1;
                                a.subs += o.sub;
                                for l in &o.labels { *a.labels.entry(format!("{}/{}", s.name(), l)).or_default() += 1; }
                                if o.nontrivial {
                                    if a.nontrivial.insert(h) && i < 3 { a.samples.insert(i, (s.name().into(), s.case_json(sd))); }
                                }
                                if let Some(f) = r {
                                    if let Some(k) = is_known(s.name(), &f, &|| s.case_json(sd)) { *a.known.entry(known_name(k)).or_default() += 1; continue; }
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |b| i < b.idx) {
                                        stop.fetch_min(i, Ordering::SeqCst);
                                        *b = Some(Failure { suite: si, idx: i, fail: f, case: s.case_json(sd) });
                                    }
                                }
                            }
                        }
                        if let Some(sl) = slots { sl.clear(t); }
                        let mut g = acc.lock().unwrap();
                        g.evals += a.evals; g.subs += a.subs;
                        g.nontrivial.extend(a.nontrivial);
                        for (k, v) in a.labels { *g.labels.entry(k).or_default() += v; }
                        for (k, v) in a.known { *g.known.entry(k).or_default() += v; }
                        g.samples.extend(a.samples);
                    }).unwrap();
                }
            });
            let a = acc.into_inner().unwrap();
            say!("suite {}/{}: {} cases, {} sub-checks, {} distinct non-trivial, {:.1}s", p.id, s.name(), a.evals, a.subs, a.nontrivial.len(), ts.elapsed().as_secs_f64());
            suite_ev.push(json!({"suite": s.name(), "cases": a.evals, "distinct_nontrivial": a.nontrivial.len(), "sub_checks": a.subs}));
            total.evals += a.evals; total.subs += a.subs;
            total.nontrivial.extend(a.nontrivial.iter().map(|h| h ^ hash_str(s.name())));
            for (k, v) in a.labels { *total.labels.entry(k).or_default() += v; }
            for (k, v) in a.known { *total.known.entry(k).or_default() += v; }
            for (k, v) in a.samples { total.samples.insert(k + si as u64 * 1000, v); }
            if let Some(f) = best.into_inner().unwrap() { failure = Some(f); break; }
        }
    }
    for (k, v) in &total.labels { say!("  label {k}: {v}"); }
    let mut rc = 0;
    let mut viol = 0;
    if let Some(f) = failure {
        viol = 1;
        rc = 1;
        let s = &p.suites[f.suite];
        say!("failing case found in suite {} (index {}): [{}] {}", s.name(), f.idx, f.fail.sig, f.fail.msg);
        let path0 = write_replay(root, p, s.name(), &f.fail, &f.case);
        std::fs::write(format!("{root}/evidence/{}.pending", p.id), &path0).ok();
        let (c, fl) = shrink(s.as_ref(), f.case, f.fail, 4000);
        say!("shrunk: [{}] {}\n  case: {}", fl.sig, fl.msg, c);
        let path = write_replay(root, p, s.name(), &fl, &c);
        if path != path0 { std::fs::remove_file(&path0).ok(); }
        say!("VIOLATION property={} replay={}", p.id, path);
        std::fs::remove_file(format!("{root}/evidence/{}.pending", p.id)).ok();
    }
    let samples: Vec<Value> = total.samples.iter().take(8).map(|(_, (s, c))| { let mut t = c.to_string(); if t.len() > 600 { t.truncate(600); t.push_str("..."); } json!({"suite": s, "case": t}) }).collect();
    let ev = json!({
        "property": p.id, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": total.evals + regress, "distinct_nontrivial": total.nontrivial.len(), "rule": p.rule, "samples": samples, "sub_checks": total.subs, "labels": total.labels, "regression_inputs": regress, "known_finding_inputs": known.len(), "suites": suite_ev},
        "wall_s": t0.elapsed().as_secs_f64(), "violations": viol, "assumptions": p.assumptions,
    });
    std::fs::create_dir_all(format!("{root}/evidence")).ok();
    std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    for (k, v) in &total.known { say!("  suppressed as known finding {k}: {v}"); }
    say!("{}: {} evaluations, {} sub-checks, {} distinct non-trivial, {} regression inputs, {:.1}s, {}", p.id, total.evals, total.subs, total.nontrivial.len(), regress, t0.elapsed().as_secs_f64(), if rc == 0 { "held" } else { "VIOLATED" });
    rc
}
fn known_name(k: usize) -> String { format!("#{k}") }

// ---- closures as suites -------------------------------------------------------------------
pub struct Fs<C> { pub name: &'static str, pub quick: u64, pub thorough: u64, pub gen: Box<dyn Fn(&mut Rng) -> C + Send + Sync>, pub check: Box<dyn Fn(&C, &mut Obs) -> Res + Send + Sync>, pub shrink: Box<dyn Fn(&C) -> Vec<C> + Send + Sync> }
impl<C: Serialize + DeserializeOwned + Clone> Suite for Fs<C> {
    type Case = C;
    fn name(&self) -> &'static str { self.name }
    fn cases(&self, t: Tier) -> u64 { if t == Tier::Quick { self.quick } else { self.thorough } }
    fn gen(&self, r: &mut Rng) -> C { (self.gen)(r) }
    fn check(&self, c: &C, o: &mut Obs) -> Res { (self.check)(c, o) }
    fn shrink(&self, c: &C) -> Vec<C> { (self.shrink)(c) }
}
/// cases: number of cases in the quick and in the thorough tier
pub fn suite<C: Serialize + DeserializeOwned + Clone + 'static>(name: &'static str, cases: (u64, u64), gen: impl Fn(&mut Rng) -> C + Send + Sync + 'static, check: impl Fn(&C, &mut Obs) -> Res + Send + Sync + 'static, shrink: impl Fn(&C) -> Vec<C> + Send + Sync + 'static) -> Box<dyn DynSuite> {
    Box::new(Fs { name, quick: cases.0, thorough: cases.1, gen: Box::new(gen), check: Box::new(check), shrink: Box::new(shrink) })
}
pub fn no_shrink<C>(_: &C) -> Vec<C> { vec![] }

// ---- command line -------------------------------------------------------------------------
fn usage() -> i32 { say!("usage: vf check ID quick|thorough | replay FILE | list"); 2 }
/// The check itself runs in a child process, so that a case which overflows the stack, exhausts
/// memory or never returns can be found, confirmed on its own and reported.
pub fn cli(props: Vec<Property>) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let root = std::env::var("VF_ROOT").unwrap_or_else(|_| "/verif".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| props.iter().find(|p| p.id == id);
    match arg(1) {
        "list" => { for p in &props { say!("{} {}", p.id, p.suites.iter().map(|s| s.name()).collect::<Vec<_>>().join(" ")); } 0 }
        "replay" => {
            install_hook();
            quiet();
            let v: Value = match std::fs::read_to_string(arg(2)).ok().and_then(|t| serde_json::from_str(&t).ok()) { Some(v) => v, None => { say!("cannot read {}", arg(2)); return 2; } };
            let Some(p) = find(v["property"].as_str().unwrap_or("")) else { say!("unknown property"); return 2 };
            let Some(s) = p.suites.iter().find(|s| s.name() == v["suite"].as_str().unwrap_or("")) else { say!("unknown suite"); return 2 };
            let r = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || s.check_json(&v["case"], &mut Obs::default())).unwrap().join().unwrap());
            match r {
                Ok(None) => { say!("{} {}: held", p.id, s.name()); 0 }
                Ok(Some(f)) => { say!("[{}] {}", f.sig, f.msg); say!("VIOLATION property={} replay={}", p.id, arg(2)); 1 }
                Err(e) => { say!("bad case: {e}"); 2 }
            }
        }
        "check" => {
            let Some(p) = find(arg(2)) else { return usage() };
            if !matches!(arg(3), "quick" | "thorough") { return usage(); }
            supervise(&root, p, arg(3), seed)
        }
        "child" => {
            install_hook();
            quiet();
            let Some(p) = find(arg(2)) else { return usage() };
            let tier = if arg(3) == "thorough" { Tier::Thorough } else { Tier::Quick };
            let slots = Slots::open(arg(4), 60);
            let f = std::thread::scope(|sc| std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || run(&root, p, tier, seed, Some(slots))).unwrap().join());
            f.unwrap_or(2)
        }
        _ => usage(),
    }
}
fn limits(c: &mut std::process::Command, as_gb: u64, cpu_s: Option<u64>) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(move || {
            let set = |r, v: u64| { let l = libc::rlimit { rlim_cur: v, rlim_max: v }; libc::setrlimit(r, &l) };
            set(libc::RLIMIT_AS, as_gb << 30);
            set(libc::RLIMIT_CORE, 0);
            if let Some(s) = cpu_s { set(libc::RLIMIT_CPU, s); }
            Ok(())
        });
    }
}
fn supervise(root: &str, p: &Property, tier: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    std::fs::create_dir_all(format!("{root}/evidence/replays")).ok();
    let slots = format!("{root}/evidence/{}.slots", p.id);
    let pending = format!("{root}/evidence/{}.pending", p.id);
    std::fs::remove_file(&pending).ok();
    let t0 = std::time::Instant::now();
    let mut c = std::process::Command::new(&exe);
    c.args(["child", p.id, tier, &slots]);
    limits(&mut c, 24, None);
    let st = c.status().expect("start child");
    let cand = read_slots(&slots);
    std::fs::remove_file(&slots).ok();
    let stalled = st.code() == Some(STALL_EXIT);
    if let (Some(rc), false) = (st.code(), stalled) { std::fs::remove_file(&pending).ok(); return rc; }
    say!("the checking process {}", if stalled { "reported a case that does not finish".to_string() } else { format!("was ended by signal {}", st.signal().unwrap_or(0)) });
    let evidence = |n: u64| {
        let ev = json!({"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": {"evaluations": n, "distinct_nontrivial": 0, "rule": p.rule, "samples": ["the run ended early: the library crashed or did not return"]}, "wall_s": t0.elapsed().as_secs_f64(), "violations": 1, "assumptions": p.assumptions});
        std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).ok();
    };
    if let Ok(path) = std::fs::read_to_string(&pending) {
        // a violation had been found and was being shrunk
        std::fs::remove_file(&pending).ok();
        say!("VIOLATION property={} replay={}", p.id, path);
        evidence(1);
        return 1;
    }
    for (si, idx) in cand {
        let (name, case) = if si == REGRESS {
            let f = &regress_files(root, p.id)[idx as usize];
            let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            (v["suite"].as_str().unwrap_or("").to_string(), v["case"].clone())
        } else {
            let s = &p.suites[si as usize];
            (s.name().to_string(), s.case_json(seed_for(seed, p.id, s.name(), idx)))
        };
        let s = p.suites.iter().find(|s| s.name() == name).unwrap();
        let dies = |case: &Value, cpu: u64| -> Option<Fail> {
            let path = format!("{root}/evidence/{}.single.json", p.id);
            std::fs::write(&path, json!({"property": p.id, "suite": name, "case": case}).to_string()).ok();
            let mut c = std::process::Command::new(&exe);
            c.args(["replay", &path]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
            limits(&mut c, 8, Some(cpu));
            let st = c.status().expect("start single");
            std::fs::remove_file(&path).ok();
            match st.signal() {
                Some(libc::SIGXCPU) | Some(libc::SIGKILL) => Some(Fail { sig: "stall".into(), msg: format!("the case did not finish within {cpu} s of CPU time") }),
                Some(n) => Some(Fail { sig: "crash".into(), msg: format!("the process was ended by signal {n} (stack overflow, abort or exhausted memory)") }),
                None if st.code() == Some(1) => Some(Fail { sig: "fails".into(), msg: "the case fails".into() }),
                None => None,
            }
        };
        let Some(f) = dies(&case, 90) else { continue };
        // shrink in subprocesses; a stall is only shrunk a little, each attempt costs seconds
        let (mut c, mut f, mut left) = (case, f.clone(), if f.sig == "stall" { 24 } else { 300 });
        let ts = std::time::Instant::now();
        'o: loop {
            for n in s.shrink_json(&c) {
                if left == 0 || ts.elapsed().as_secs() > 90 { break 'o; }
                left -= 1;
                if let Some(nf) = dies(&n, 10) { if nf.sig == f.sig { c = n; f = nf; continue 'o; } }
            }
            break;
        }
        say!("[{}] {}\n  case: {}", f.sig, f.msg, c);
        let path = write_replay(root, p, &name, &f, &c);
        say!("VIOLATION property={} replay={}", p.id, path);
        evidence(1);
        return 1;
    }
    say!("error: the checking process died but no single case reproduces it");
    3
}
