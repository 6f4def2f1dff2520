//! Runner: systematic cases, then generated cases through proptest's runner and RNG, on all
//! cores; shrinking, replay files, known findings, evidence.
use crate::case::{Case, shrink};
use crate::env::Env;
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg: msg.into() })
}
/// Compare observed with expected.
pub fn same<T: PartialEq + std::fmt::Debug>(sig: &str, what: impl FnOnce() -> String, got: &T, want: &T) -> Res {
    if got == want { Ok(()) } else { fail(sig, format!("{}: got {:?}, expected {:?}", what(), got, want)) }
}

/// Per-thread statistics of one run.
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    flag: bool,
}
impl Stats {
    pub fn class(&mut self, c: &str) {
        if let Some(x) = self.classes.get_mut(c) {
            *x += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    pub fn is_hit(&self) -> bool {
        self.flag
    }
    /// Mark the current case non-trivial.
    pub fn hit(&mut self) {
        self.flag = true;
    }
}

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// generated cases: quick, thorough
    pub quick: u64,
    pub thorough: u64,
    /// cases tried first, the same on every run of a tier
    pub systematic: fn(&Env, bool) -> Vec<Case>,
    /// the systematic part enumerates the whole space of the property
    pub exhaustive: bool,
    pub generate: Option<fn(&Env, &mut TestRng) -> Case>,
    pub check: fn(&Env, &Case, &mut Stats) -> Res,
    pub threads: usize,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
static QUIET: AtomicBool = AtomicBool::new(false);
pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or(i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc, m)));
        if !QUIET.load(Ordering::Relaxed) {
            old(i);
        }
    }));
    QUIET.store(true, Ordering::Relaxed);
}
pub fn harness_error(msg: &str) -> ! {
    println!("HARNESS-ERROR {msg}");
    let _ = std::io::stdout().flush();
    std::process::exit(3);
}
/// Run one check; a panic in the library is a failure, a panic in the harness an error exit.
pub fn guarded(p: &Prop, env: &Env, c: &Case, st: &mut Stats) -> Res {
    st.flag = false;
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| (p.check)(env, c, st)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, m) = PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("harness/src/") {
                harness_error(&format!("{} panic in harness at {loc}: {m} on {}", p.id, serde_json::to_string(c).unwrap()));
            }
            fail(&format!("panic@{}", loc.split(':').next().unwrap_or("")), format!("panicked at {loc}: {m}"))
        }
    }
}

#[derive(Clone)]
struct Gen<'a> {
    env: &'a Env,
    f: fn(&Env, &mut TestRng) -> Case,
}
impl std::fmt::Debug for Gen<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Gen")
    }
}
struct Tree {
    best: Case,
    cur: Case,
    todo: Option<std::vec::IntoIter<Case>>,
}
impl ValueTree for Tree {
    type Value = Case;
    fn current(&self) -> Case {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        self.best = self.cur.clone();
        self.todo = Some(shrink(&self.best).into_iter());
        self.next()
    }
    fn complicate(&mut self) -> bool {
        if self.todo.is_none() {
            return false;
        }
        self.next()
    }
}
impl Tree {
    fn next(&mut self) -> bool {
        match self.todo.as_mut().and_then(|t| t.next()) {
            Some(c) => {
                self.cur = c;
                true
            }
            None => {
                self.cur = self.best.clone();
                false
            }
        }
    }
}
impl Strategy for Gen<'_> {
    type Tree = Tree;
    type Value = Case;
    fn new_tree(&self, r: &mut TestRunner) -> NewTree<Self> {
        let c = (self.f)(self.env, r.rng());
        Ok(Tree { best: c.clone(), cur: c, todo: None })
    }
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub case: Case,
    pub desc: String,
}
/// known_findings.txt: `finding: <json {property,signature,case,what}>` lines; `fixed:` lines are notes.
pub fn load_known(path: &str, id: &str) -> Vec<Known> {
    let mut out = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(j) = l.strip_prefix("finding: ") {
            let v: serde_json::Value = serde_json::from_str(j).expect("known finding line");
            if v["property"] == id {
                out.push(Known {
                    prop: id.into(),
                    sig: v["signature"].as_str().unwrap().into(),
                    case: serde_json::from_value(v["case"].clone()).unwrap(),
                    desc: v["what"].as_str().unwrap().into(),
                });
            }
        }
    }
    out
}

fn hash_case(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    serde_json::to_string(c).unwrap().hash(&mut h);
    h.finish()
}

struct Shared {
    stop: AtomicBool,
    first: Mutex<Option<(u64, Case, Fail)>>,
    /// per worker: what it is running, since when
    now: Vec<Mutex<Option<(Instant, Case)>>>,
    /// per worker: its thread
    tid: Vec<Mutex<String>>,
    /// RLPN_TRACE: directory in which every worker leaves the case it is about to run
    trace: Option<String>,
}
impl Shared {
    fn enter(&self, ti: usize, c: &Case) {
        *self.now[ti].lock().unwrap() = Some((Instant::now(), c.clone()));
        if let Some(d) = &self.trace {
            std::fs::write(format!("{d}/{ti}.json"), serde_json::json!({"case": c}).to_string()).expect("trace");
        }
    }
    fn leave(&self, ti: usize) {
        *self.now[ti].lock().unwrap() = None;
    }
}
const HANG_TICKS: u32 = 45;
const IDLE_TICKS: u32 = 20;
/// Processor time (in clock ticks) of each thread of this process but those in `but`, and its child
/// processes (none given).
fn at_work(but: &[String]) -> BTreeMap<String, Option<u64>> {
    let me = std::process::id().to_string();
    // the fields after the name: state, parent, ...; 11 and 12 further on user and system time
    let stat = |p: std::path::PathBuf| -> Option<Vec<String>> {
        let s = std::fs::read_to_string(p).ok()?;
        Some(s[s.rfind(')')? + 1..].split_whitespace().map(str::to_string).collect())
    };
    let list = |d: &str| -> Vec<(String, std::path::PathBuf)> {
        std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| (e.file_name().to_string_lossy().to_string(), e.path().join("stat"))).collect()
    };
    let mut v = BTreeMap::new();
    for (n, p) in list("/proc") {
        if n.bytes().all(|b| b.is_ascii_digit()) && stat(p).is_some_and(|f| f.get(1) == Some(&me)) {
            v.insert(n, None);
        }
    }
    for (n, p) in list("/proc/self/task").into_iter().filter(|(n, _)| !but.contains(n)) {
        if let Some(f) = stat(p) {
            let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            v.insert(n, Some(t(11) + t(12)));
        }
    }
    v
}
/// Whatever was there at both times has not run in between; what came and went belongs to other cases.
fn stands_still(a: &BTreeMap<String, Option<u64>>, b: &BTreeMap<String, Option<u64>>, worker: &str) -> bool {
    b.contains_key(worker) && a.contains_key(worker) && b.iter().all(|(k, t)| a.get(k).is_none_or(|x| x == t && t.is_some()))
}
fn this_thread() -> String {
    let p = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    p.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default()
}
fn never_returns(id: &str, out: &str, c: &Case) -> bool {
    let path = format!("{out}/replay-{id}-{}.json", std::process::id());
    std::fs::create_dir_all(out).ok();
    std::fs::write(&path, serde_json::json!({"case": c}).to_string()).expect("write case");
    let child = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args([id, "--replay", &path])
        .env("RLPN_CHILD", "1")
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn();
    let mut child = child.expect("child");
    let mut back = false;
    for _ in 0..60 {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if child.try_wait().expect("wait").is_some() {
            back = true;
            break;
        }
    }
    child.kill().ok();
    child.wait().ok();
    std::fs::remove_file(&path).ok();
    !back
}
/// Write the replay file and the verdict line.
pub fn announce(id: &str, out: &str, c: &Case, f: &Fail) {
    let dir = format!("{out}/replay");
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{id}.json");
    let v = serde_json::json!({"property": id, "signature": f.sig, "message": f.msg, "case": c});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("write replay");
    println!("failing case: {}", serde_json::to_string(c).unwrap());
    println!("  {} [{}]", f.msg, f.sig);
    println!("VIOLATION property={id} replay={path}");
    let _ = std::io::stdout().flush();
}

fn account(st: &mut Stats, c: &Case, want_sample: bool) {
    st.evals += 1;
    if st.flag {
        st.nontrivial.insert(hash_case(c));
        if want_sample && st.samples.len() < 4 {
            st.samples.push(serde_json::to_string(c).unwrap());
        }
    }
}

pub fn greedy(p: &Prop, env: &Env, mut c: Case, mut f: Fail, budget: usize) -> (Case, Fail) {
    let mut left = budget;
    let t0 = Instant::now();
    let mut tmp = Stats::default();
    'outer: loop {
        for d in shrink(&c) {
            if left == 0 || t0.elapsed().as_secs() > 60 {
                break 'outer;
            }
            left -= 1;
            if let Err(g) = guarded(p, env, &d, &mut tmp) {
                if g.sig == f.sig {
                    c = d;
                    f = g;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (c, f)
}

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub out: String,
    pub known: String,
}

pub fn run(p: &Prop, env: &Env, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let known = Arc::new(load_known(&o.known, p.id));
    // Listed findings: report those that still fail.
    let mut st0 = Stats::default();
    for k in known.iter() {
        if let Err(f) = guarded(p, env, &k.case, &mut st0) {
            if f.sig == k.sig {
                println!("KNOWN-FINDING: property={} {}", p.id, k.desc);
            }
        }
    }
    let shared = Shared {
        stop: AtomicBool::new(false),
        first: Mutex::new(None),
        now: (0..p.threads).map(|_| Mutex::new(None)).collect(),
        tid: (0..p.threads).map(|_| Mutex::new(String::new())).collect(),
        trace: std::env::var("RLPN_TRACE").ok(),
    };
    let sys = (p.systematic)(env, o.thorough);
    let nsys = sys.len();
    let is_known = |f: &Fail| known.iter().any(|k| k.sig == f.sig);
    let threads = p.threads;
    let total = if p.generate.is_some() {
        (((if o.thorough { p.thorough } else { p.quick }) as f64) * o.scale) as u64
    } else {
        0
    };
    // A call that does not come back breaks the property whatever it would have answered.
    let done = Arc::new(AtomicBool::new(false));
    let shared = Arc::new(shared);
    {
        let (d, s, id, out) = (done.clone(), shared.clone(), p.id, o.out.clone());
        std::thread::spawn(move || {
            // seen[w]: how many ticks in a row worker w has been in the same call
            let mut seen: Vec<(Option<Instant>, u32)> = vec![(None, 0); s.now.len()];
            let mut used = vec![BTreeMap::new(); s.now.len()];
            let watcher = this_thread();
            while !d.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_secs(2));
                for (i, (w, x)) in s.now.iter().zip(&mut seen).enumerate() {
                    let g = w.lock().unwrap();
                    let t = g.as_ref().map(|v| v.0);
                    *x = if t.is_some() && t == x.0 { (t, x.1 + 1) } else { (t, 0) };
                    // the other workers and this thread have nothing to do with the case
                    let others = || -> Vec<String> {
                        let all = s.tid.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, t)| t.lock().unwrap().clone());
                        all.chain([watcher.clone()]).collect()
                    };
                    if x.1 == HANG_TICKS - IDLE_TICKS {
                        used[i] = at_work(&others());
                    }
                    if let (Some((_, c)), true) = (&*g, x.1 >= HANG_TICKS) {
                        // waiting, with nobody at work on it: threads that wait for each other, by chance perhaps
                        let worker = s.tid[i].lock().unwrap().clone();
                        if stands_still(&used[i], &at_work(&others()), &worker) {
                            announce(id, &out, c, &Fail { sig: "deadlock".into(), msg: "the call waits for ever".into() });
                            std::process::exit(1);
                        }
                        // believed only if a process of its own does not come back either
                        if never_returns(id, &out, c) {
                            announce(id, &out, c, &Fail { sig: "hang".into(), msg: "the call does not return".into() });
                            std::process::exit(1);
                        }
                        harness_error(&format!("{id}: a case took over {} s but not again", 2 * HANG_TICKS));
                    }
                }
            }
        });
    }
    let mut all = vec![];
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for ti in 0..threads {
            let (shared, sys, is_known) = (&shared, &sys, &is_known);
            let b = std::thread::Builder::new().stack_size(64 << 20);
            hs.push(
                b.spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    *shared.tid[ti].lock().unwrap() = this_thread();
                    let report = |c: Case, f: Fail, rank: u64| {
                        shared.stop.store(true, Ordering::Relaxed);
                        let mut g = shared.first.lock().unwrap();
                        if g.as_ref().is_none_or(|x| rank < x.0) {
                            *g = Some((rank, c, f));
                        }
                    };
                    let mut i = ti;
                    while i < sys.len() && !shared.stop.load(Ordering::Relaxed) {
                        shared.enter(ti, &sys[i]);
                        let r = guarded(p, env, &sys[i], &mut st);
                        shared.leave(ti);
                        account(&mut st, &sys[i], i % 37 == 0);
                        if let Err(f) = r {
                            if is_known(&f) {
                                st.class("known-finding");
                            } else {
                                let (c, f) = greedy(p, env, sys[i].clone(), f, 4000);
                                report(c, f, i as u64);
                                return st;
                            }
                        }
                        i += threads;
                    }
                    let Some(g) = p.generate else { return st };
                    let mine = total / threads as u64 + (ti < (total % threads as u64) as usize) as u64;
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&o.seed.to_le_bytes());
                    seed[8..16].copy_from_slice(&(ti as u64 + 1).to_le_bytes());
                    for (k, b) in p.id.bytes().enumerate() {
                        seed[16 + k] = b;
                    }
                    let cell = Rc::new(RefCell::new(std::mem::take(&mut st)));
                    let failing: Rc<RefCell<Option<String>>> = Rc::new(RefCell::new(None));
                    // chunks, so that another thread's failure stops this one soon
                    let mut left = mine;
                    let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                    while left > 0 && !shared.stop.load(Ordering::Relaxed) {
                        let n = left.min(256);
                        left -= n;
                        let cfg = Config {
                            cases: n as u32,
                            failure_persistence: None,
                            max_shrink_iters: 6000,
                            max_shrink_time: 60_000,
                            verbose: 0,
                            ..Config::default()
                        };
                        let sub = TestRng::from_seed(RngAlgorithm::ChaCha, &{
                            let mut s = [0u8; 32];
                            proptest::prelude::Rng::fill_bytes(&mut rng, &mut s);
                            s
                        });
                        let mut r = TestRunner::new_with_rng(cfg, sub);
                        let (c2, f2) = (cell.clone(), failing.clone());
                        let res = r.run(&Gen { env, f: g }, move |c| {
                            shared.enter(ti, &c);
                            let mut st = c2.borrow_mut();
                            let r = guarded(p, env, &c, &mut st);
                            shared.leave(ti);
                            let shrinking = f2.borrow().is_some();
                            if !shrinking {
                                account(&mut st, &c, true);
                            }
                            match r {
                                Ok(()) => Ok(()),
                                Err(f) if is_known(&f) => {
                                    st.class("known-finding");
                                    Ok(())
                                }
                                Err(f) => {
                                    let mut w = f2.borrow_mut();
                                    match &*w {
                                        None => *w = Some(f.sig.clone()),
                                        Some(s) if *s != f.sig => return Ok(()),
                                        _ => {}
                                    }
                                    Err(TestCaseError::fail(f.msg))
                                }
                            }
                        });
                        if let Err(TestError::Fail(_, c)) = res {
                            let mut tmp = Stats::default();
                            match guarded(p, env, &c, &mut tmp) {
                                Err(f) => report(c, f, 1 << 40 | ti as u64),
                                Ok(()) => harness_error(&format!("{}: shrunk failure does not reproduce: {}", p.id, serde_json::to_string(&c).unwrap())),
                            }
                            break;
                        } else if let Err(e) = res {
                            harness_error(&format!("{}: {e}", p.id));
                        }
                    }
                    Rc::try_unwrap(cell).ok().unwrap().into_inner()
                })
                .unwrap(),
            );
        }
        for h in hs {
            match h.join() {
                Ok(s) => all.push(s),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    harness_error(&format!("worker thread died: {}", m.unwrap_or_default()))
                }
            }
        }
    });
    done.store(true, Ordering::Relaxed);
    // merge
    let mut evals = 0;
    let mut non: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    for s in all {
        evals += s.evals;
        non.extend(s.nontrivial);
        for (k, v) in s.classes {
            *classes.entry(k).or_default() += v;
        }
        samples.extend(s.samples);
    }
    let nv = {
        let g = shared.first.lock().unwrap();
        match &*g {
            None => 0,
            Some((_, c, f)) => {
                announce(p.id, &o.out, c, f);
                1
            }
        }
    };
    samples.truncate(16);
    let samples: Vec<serde_json::Value> = samples.iter().map(|s| serde_json::from_str(s).unwrap()).collect();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": non.len(),
            "rule": p.rule,
            "samples": samples,
            "systematic_cases": nsys,
            "classes": classes,
            "exhaustive": p.exhaustive,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": nv,
    });
    std::fs::create_dir_all(&o.out).ok();
    std::fs::write(format!("{}/{}.json", o.out, p.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("write evidence");
    println!(
        "{}: {} cases ({} systematic), {} distinct non-trivial, {:.1} s",
        p.id,
        evals,
        nsys,
        non.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &classes {
        println!("    {k}: {v}");
    }
    if nv > 0 { 1 } else { 0 }
}
