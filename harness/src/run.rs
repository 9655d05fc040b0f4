//! Runner: parallel search, crash and hang supervision, shrinking, evidence.
use crate::engine::*;
use crate::gen::load_dict;
use crate::props;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Out {
    Pass,
    /// outside the property's domain
    Discard(&'static str),
    /// in the domain, but the oracle cannot decide this one
    Unknown(&'static str),
    Fail(String),
}

pub struct Case<'a> {
    pub s: &'a mut Src,
    pub text: String,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    armed: bool,
}

impl<'a> Case<'a> {
    pub fn new(s: &'a mut Src) -> Self {
        Case { s, text: String::new(), nontrivial: false, classes: vec![], armed: false }
    }
    /// Generation is over: from here on the code under test runs, and a panic
    /// is the code's.
    pub fn begin(&mut self, text: String, nontrivial: bool) {
        self.text = text;
        self.nontrivial = nontrivial;
        self.armed = true;
        if let Some(p) = trace_path() {
            let _ = std::fs::write(p, format!("{}\n{}\n", join(&self.s.taken), self.text));
        }
    }
    pub fn class(&mut self, k: &'static str) {
        if !self.classes.contains(&k) {
            self.classes.push(k);
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> Out,
    pub rule: &'static str,
}

pub struct Prop {
    pub id: &'static str,
    pub subs: Vec<Sub>,
}

fn trace_path() -> Option<PathBuf> {
    static P: std::sync::OnceLock<Option<PathBuf>> = std::sync::OnceLock::new();
    P.get_or_init(|| std::env::var("NCASV_TRACE").ok().map(PathBuf::from)).clone()
}

pub fn join(v: &[u64]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn unjoin(s: &str) -> Vec<u64> {
    s.trim().split(',').filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub struct Ran {
    pub out: Out,
    pub text: String,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub taken: Vec<u64>,
    pub internal: Option<String>,
}

pub fn run_case(f: fn(&mut Case) -> Out, mut src: Src) -> Ran {
    let mut case = Case::new(&mut src);
    let r = panic::catch_unwind(AssertUnwindSafe(|| f(&mut case)));
    let armed = case.armed;
    let (text, nontrivial, classes) = (case.text.clone(), case.nontrivial, case.classes.clone());
    let mut internal = None;
    let out = match r {
        Ok(o) => o,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if armed {
                Out::Fail(format!("the library panicked: {}", m))
            } else {
                internal = Some(m);
                Out::Discard("internal")
            }
        }
    };
    Ran { out, text, nontrivial, classes, taken: src.taken, internal }
}

// ----------------------------------------------------------------- worker

#[derive(Default)]
struct Stats {
    slowest: f64,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    discards: BTreeMap<String, u64>,
    unknown: BTreeMap<String, u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
}

pub struct Failure {
    pub sub: usize,
    pub idx: u64,
    pub msg: String,
    pub text: String,
    pub choices: Vec<u64>,
}

fn case_seed(seed: u64, prop: &str, sub: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_str(&format!("{}/{}", prop, sub))), idx)
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub dir: PathBuf,
    pub hang_s: u64,
    pub deadline_s: u64,
}

impl Env {
    pub fn from_env() -> Env {
        let thorough = std::env::var("VERIF_TIER").map(|x| x == "thorough").unwrap_or(false);
        Env {
            seed: std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1),
            thorough,
            scale: std::env::var("NCASV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0),
            dir: PathBuf::from(std::env::var("NCASV_DIR").unwrap_or_else(|_| "/verif".into())),
            hang_s: if thorough { 120 } else { 45 },
            deadline_s: std::env::var("NCASV_DEADLINE")
                .ok()
                .and_then(|x| x.parse().ok())
                .unwrap_or(if thorough { 3000 } else { 300 }),
        }
    }
}

const THREADS: usize = 8;
const STACK: usize = 192 << 20;

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

fn limit_memory(gib: u64) {
    let l = [gib << 30, gib << 30];
    unsafe {
        setrlimit(9, &l);
        let c = [0u64, 0u64];
        setrlimit(4, &c);
    }
}

/// Exit status: 0 nothing found, 1 failure reported in OUT, 2 internal error,
/// 7 a case exceeded the time limit.
pub fn worker(prop: &str, out_file: &str) -> i32 {
    limit_memory(24);
    install_hook();
    let env = Env::from_env();
    load_dict(&repo_src());
    let p = props::find(prop).expect("unknown property");
    let t0 = Instant::now();
    let slots = Arc::new(std::fs::File::create(format!("{}.slots", out_file)).unwrap());
    let beat: Arc<Vec<(AtomicU64, AtomicU64, AtomicU64)>> =
        Arc::new((0..THREADS).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect());
    let done = Arc::new(AtomicBool::new(false));
    {
        let (beat, done, env_h) = (beat.clone(), done.clone(), env.hang_s);
        let out_file = out_file.to_string();
        std::thread::spawn(move || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(500));
                let now = t0.elapsed().as_millis() as u64;
                for b in beat.iter() {
                    let st = b.0.load(Ordering::SeqCst);
                    if st != 0 && now > st + env_h * 1000 {
                        let _ = std::fs::write(
                            format!("{}.hang", out_file),
                            format!("{} {}", b.1.load(Ordering::SeqCst), b.2.load(Ordering::SeqCst)),
                        );
                        std::process::exit(7);
                    }
                }
            }
        });
    }
    let mut report = String::new();
    let mut code = 0;
    let mut total = Stats::default();
    let mut per_sub: Vec<serde_lite::Obj> = vec![];
    let mut stopped_early = false;
    for (si, sub) in p.subs.iter().enumerate() {
        let n = ((if env.thorough { sub.thorough } else { sub.quick }) as f64 * env.scale).max(1.0) as u64;
        let next = Arc::new(AtomicU64::new(0));
        let min_fail = Arc::new(AtomicU64::new(u64::MAX));
        let fails: Arc<Mutex<Vec<Failure>>> = Arc::new(Mutex::new(vec![]));
        let internal: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
        let merged: Arc<Mutex<Stats>> = Arc::new(Mutex::new(Stats::default()));
        let ts = Instant::now();
        let mut hs = vec![];
        for t in 0..THREADS {
            let (next, min_fail, fails, internal, merged, beat, slots) = (
                next.clone(),
                min_fail.clone(),
                fails.clone(),
                internal.clone(),
                merged.clone(),
                beat.clone(),
                slots.clone(),
            );
            let (f, name, id, seed, deadline) = (sub.f, sub.name, p.id, env.seed, env.deadline_s);
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > min_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed().as_secs() > deadline {
                            break;
                        }
                        beat[t].1.store(si as u64, Ordering::SeqCst);
                        beat[t].2.store(i, Ordering::SeqCst);
                        beat[t].0.store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        {
                            use std::os::unix::fs::FileExt;
                            let mut b = [0u8; 24];
                            b[..8].copy_from_slice(&1u64.to_le_bytes());
                            b[8..16].copy_from_slice(&(si as u64).to_le_bytes());
                            b[16..].copy_from_slice(&i.to_le_bytes());
                            let _ = slots.write_at(&b, 24 * t as u64);
                        }
                        let tc = Instant::now();
                        let r = run_case(f, Src::random(case_seed(seed, id, name, i)));
                        st.slowest = st.slowest.max(tc.elapsed().as_secs_f64());
                        if tc.elapsed().as_secs_f64() > 2.0 && std::env::var("NCASV_SLOW").is_ok() {
                            eprintln!("slow: {} {} #{} {:?} {}", id, name, i, tc.elapsed(), one_line(&r.text).chars().take(300).collect::<String>());
                        }
                        beat[t].0.store(0, Ordering::SeqCst);
                        if let Some(m) = r.internal {
                            *internal.lock().unwrap() = Some(format!("case {}: {}", i, m));
                            break;
                        }
                        st.evaluations += 1;
                        match r.out {
                            Out::Pass | Out::Unknown(_) => {
                                if let Out::Unknown(k) = r.out {
                                    *st.unknown.entry(k.into()).or_insert(0) += 1;
                                } else {
                                    for c in &r.classes {
                                        *st.classes.entry(c.to_string()).or_insert(0) += 1;
                                    }
                                    if r.nontrivial {
                                        st.nontrivial.insert(mix(si as u64, hash_str(&r.text)));
                                        if i % 97 == 3 && st.samples.len() < 2 {
                                            st.samples.push((i, r.text.chars().take(400).collect()));
                                        }
                                    }
                                }
                            }
                            Out::Discard(k) => *st.discards.entry(k.into()).or_insert(0) += 1,
                            Out::Fail(m) => {
                                min_fail.fetch_min(i, Ordering::SeqCst);
                                fails.lock().unwrap().push(Failure {
                                    sub: si,
                                    idx: i,
                                    msg: m,
                                    text: r.text,
                                    choices: r.taken,
                                });
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.evaluations += st.evaluations;
                    m.slowest = m.slowest.max(st.slowest);
                    m.nontrivial.extend(st.nontrivial);
                    for (k, v) in st.discards {
                        *m.discards.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.unknown {
                        *m.unknown.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in st.classes {
                        *m.classes.entry(k).or_insert(0) += v;
                    }
                    m.samples.extend(st.samples);
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            let _ = h.join();
        }
        if let Some(m) = internal.lock().unwrap().take() {
            eprintln!("internal error in {}/{}: {}", p.id, sub.name, m);
            return 2;
        }
        let m = std::mem::take(&mut *merged.lock().unwrap());
        if m.evaluations < n && fails.lock().unwrap().is_empty() {
            stopped_early = true;
        }
        let mut o = serde_lite::Obj::new();
        o.str("check", sub.name);
        o.str("rule", sub.rule);
        o.num("evaluations", m.evaluations);
        o.num("distinct_nontrivial", m.nontrivial.len() as u64);
        o.map("classes", &m.classes);
        o.map("outside_domain", &m.discards);
        o.map("undecided", &m.unknown);
        let mut samples = m.samples.clone();
        samples.sort();
        let texts: Vec<String> = samples.iter().map(|x| x.1.clone()).take(3).collect();
        o.strs("samples", &texts);
        o.float("wall_s", ts.elapsed().as_secs_f64());
        o.float("slowest_case_s", m.slowest);
        per_sub.push(o);
        total.evaluations += m.evaluations;
        total.nontrivial.extend(m.nontrivial);
        for t in texts.into_iter().take(2) {
            total.samples.push((0, format!("[{}] {}", sub.name, t)));
        }
        let mut fs = std::mem::take(&mut *fails.lock().unwrap());
        fs.sort_by_key(|f| f.idx);
        if let Some(f) = fs.into_iter().next() {
            code = 1;
            report = format!("{}\n{}\n{}\n{}\n{}\n", f.sub, f.idx, join(&f.choices), one_line(&f.text), one_line(&f.msg));
            break;
        }
    }
    done.store(true, Ordering::SeqCst);
    let mut cov = serde_lite::Obj::new();
    cov.num("evaluations", total.evaluations);
    cov.num("distinct_nontrivial", total.nontrivial.len() as u64);
    cov.str(
        "rule",
        "Each case is decoded from a random choice sequence by the generator of its check (listed per check below). \
         It counts when the library was run on it, the oracle decided it, and the check's own non-triviality rule held; \
         duplicates by printed case are counted once.",
    );
    cov.strs("samples", &total.samples.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
    cov.objs("checks", &per_sub);
    cov.boolean("stopped_by_time_limit", stopped_early);
    std::fs::write(format!("{}.cov", out_file), cov.render()).unwrap();
    if code == 1 {
        std::fs::write(out_file, report).unwrap();
    }
    code
}

/// text on one line, with nothing in it a terminal or a line reader acts on
fn one_line(s: &str) -> String {
    let mut t = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '\n' => t.push(' '),
            '\u{2028}' | '\u{2029}' => t.extend(c.escape_unicode()),
            c if c.is_control() => t.extend(c.escape_unicode()),
            c => t.push(c),
        }
    }
    t
}

/// The sources of the crate under test (only used as a literal dictionary).
pub fn repo_src() -> String {
    std::env::var("NCASV_REPO").unwrap_or_else(|_| "/repo".into()) + "/src"
}

// ------------------------------------------------------- single-case modes

fn on_big_stack<A: Send + 'static>(f: impl FnOnce() -> A + Send + 'static) -> A {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

/// run one case (by index or by choices); exit 0 pass, 1 fail, 4 other
pub fn single(prop: &str, sub: &str, what: &str, tries: u32) -> i32 {
    limit_memory(24);
    install_hook();
    let env = Env::from_env();
    load_dict(&repo_src());
    let p = props::find(prop).expect("unknown property");
    let s = p.subs.iter().find(|s| s.name == sub).expect("unknown check");
    let (f, name, id, seed) = (s.f, s.name, p.id, env.seed);
    let what = what.to_string();
    on_big_stack(move || {
        let mut last = 0;
        for _ in 0..tries {
            let src = if let Some(i) = what.strip_prefix('#') {
                Src::random(case_seed(seed, id, name, i.parse().unwrap()))
            } else {
                Src::replay(&unjoin(&what))
            };
            let r = run_case(f, src);
            match r.out {
                Out::Fail(m) => {
                    println!("case: {}", one_line(&r.text));
                    println!("fails: {}", one_line(&m));
                    println!("choices: {}", join(&r.taken));
                    return 1;
                }
                Out::Pass => {
                    last = 0;
                    if tries == 1 || std::env::var("NCASV_SHOW").is_ok() {
                        println!("case: {}", one_line(&r.text));
                    }
                }
                Out::Discard(k) => {
                    println!("discarded: {} ({})", k, r.internal.unwrap_or_default());
                    return 4;
                }
                Out::Unknown(k) => {
                    println!("case: {}", one_line(&r.text));
                    println!("undecided: {}", k);
                    last = 4;
                }
            }
        }
        last
    })
}

/// in-process shrink; writes "choices\ntext\nmsg"
pub fn shrink_mode(prop: &str, sub: &str, choices: &str, out: &str) -> i32 {
    limit_memory(24);
    install_hook();
    load_dict(&repo_src());
    let p = props::find(prop).expect("unknown property");
    let s = p.subs.iter().find(|s| s.name == sub).expect("unknown check");
    let f = s.f;
    let start = unjoin(choices);
    let out = out.to_string();
    on_big_stack(move || {
        let best: RefCell<Option<(Vec<u64>, String, String)>> = RefCell::new(None);
        let end = Instant::now() + Duration::from_secs(40);
        let write = |b: &(Vec<u64>, String, String)| {
            let _ = std::fs::write(&out, format!("{}\n{}\n{}\n", join(&b.0), one_line(&b.1), one_line(&b.2)));
        };
        let fails = |c: &[u64]| -> Option<Vec<u64>> {
            if Instant::now() > end {
                return None;
            }
            for _ in 0..3 {
                let r = run_case(f, Src::replay(c));
                if let Out::Fail(m) = r.out {
                    let b = (r.taken.clone(), r.text, m);
                    let mut cur = best.borrow_mut();
                    let better = match &*cur {
                        None => true,
                        Some(x) => b.0.len() < x.0.len() || (b.0.len() == x.0.len() && b.0 < x.0),
                    };
                    if better {
                        write(&b);
                        *cur = Some(b);
                    }
                    return Some(r.taken);
                }
            }
            None
        };
        if fails(&start).is_none() {
            return 1;
        }
        shrink(start, 6000, fails);
        0
    })
}

// -------------------------------------------------------------- supervisor

enum Ended {
    Code(i32),
    Signal,
    Timeout,
}

fn spawn(args: &[&str], envs: &[(&str, &str)], limit: Duration, quiet: bool) -> (Ended, String) {
    let exe = std::env::current_exe().unwrap();
    let mut c = std::process::Command::new(exe);
    c.args(args);
    for (k, v) in envs {
        c.env(k, v);
    }
    c.stdout(std::process::Stdio::piped());
    if quiet {
        c.stderr(std::process::Stdio::null());
    }
    let mut ch = c.spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut b = String::new();
        let _ = so.read_to_string(&mut b);
        b
    });
    let end = Instant::now() + limit;
    let r = loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                break match st.code() {
                    Some(c) => Ended::Code(c),
                    None => Ended::Signal,
                }
            }
            None => {
                if Instant::now() > end {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    break Ended::Timeout;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    };
    (r, h.join().unwrap_or_default())
}

/// Does this case end the process (crash) or exceed the limit when run alone?
fn dies(prop: &str, sub: &str, what: &str, trace: Option<&Path>, limit: Duration) -> Option<&'static str> {
    let tp = trace.map(|p| p.to_string_lossy().to_string());
    let envs: Vec<(&str, &str)> = match &tp {
        Some(t) => vec![("NCASV_TRACE", t.as_str())],
        None => vec![],
    };
    match spawn(&["single", prop, sub, what, "1"], &envs, limit, true).0 {
        Ended::Signal => Some("the process was killed by a fatal signal (stack overflow, abort or memory limit)"),
        Ended::Timeout => Some("the operation did not terminate within the time limit"),
        Ended::Code(_) => None,
    }
}

pub fn check(prop: &str) -> i32 {
    let env = Env::from_env();
    let p = match props::find(prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", prop);
            return 2;
        }
    };
    let t0 = Instant::now();
    let work = env.dir.join("work").join(format!("{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let out = work.join("out");
    let outs = out.to_string_lossy().to_string();
    let (ended, _) = spawn(
        &["worker", prop, &outs],
        &[],
        Duration::from_secs(env.deadline_s + env.hang_s + 120),
        false,
    );
    // (sub, choices, text, msg, kind)
    let mut viol: Option<(usize, Vec<u64>, String, String)> = None;
    let mut internal: Option<String> = None;
    let long = Duration::from_secs(env.hang_s);
    match ended {
        Ended::Code(0) => {}
        Ended::Code(1) => {
            let r = std::fs::read_to_string(&out).unwrap_or_default();
            let l: Vec<&str> = r.lines().collect();
            if l.len() >= 5 {
                let si: usize = l[0].parse().unwrap();
                let shr = work.join("shrunk");
                let shrs = shr.to_string_lossy().to_string();
                let _ = spawn(
                    &["shrink", prop, p.subs[si].name, l[2], &shrs],
                    &[],
                    Duration::from_secs(60),
                    true,
                );
                let s = std::fs::read_to_string(&shr).unwrap_or_default();
                let sl: Vec<&str> = s.lines().collect();
                if sl.len() >= 3 {
                    viol = Some((si, unjoin(sl[0]), sl[1].into(), sl[2].into()));
                } else {
                    viol = Some((si, unjoin(l[2]), l[3].into(), l[4].into()));
                }
            } else {
                internal = Some("worker reported a failure it did not record".into());
            }
        }
        Ended::Code(c) if c == 7 => {
            let r = std::fs::read_to_string(format!("{}.hang", outs)).unwrap_or_default();
            let v: Vec<u64> = r.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            if v.len() == 2 {
                viol = confirm(&p, v[0] as usize, v[1], &work, long);
            }
            if viol.is_none() {
                internal = Some(format!("a case exceeded the time limit but not when run again: {}", r));
            }
        }
        Ended::Signal => {
            let b = std::fs::read(format!("{}.slots", outs)).unwrap_or_default();
            let mut cand: Vec<(u64, u64)> = b
                .chunks(24)
                .filter(|c| c.len() == 24 && u64::from_le_bytes(c[..8].try_into().unwrap()) == 1)
                .map(|c| {
                    (u64::from_le_bytes(c[8..16].try_into().unwrap()), u64::from_le_bytes(c[16..].try_into().unwrap()))
                })
                .collect();
            cand.sort();
            for (si, i) in cand {
                viol = confirm(&p, si as usize, i, &work, long);
                if viol.is_some() {
                    break;
                }
            }
            if viol.is_none() {
                internal = Some("the worker was killed and no single case reproduces it".into());
            }
        }
        Ended::Code(c) => internal = Some(format!("worker exit status {}", c)),
        Ended::Timeout => internal = Some("worker time limit".into()),
    }

    // evidence
    let cov = std::fs::read_to_string(format!("{}.cov", outs)).unwrap_or_else(|_| {
        let mut o = serde_lite::Obj::new();
        o.num("evaluations", 0);
        o.num("distinct_nontrivial", 0);
        o.str("rule", "the search process ended abnormally before it could count");
        o.strs("samples", &viol.iter().map(|v| v.2.clone()).collect::<Vec<_>>());
        o.render()
    });
    let mut ev = serde_lite::Obj::new();
    ev.str("property", prop);
    ev.str("tier", if env.thorough { "thorough" } else { "quick" });
    ev.num("seed", env.seed);
    ev.str("level", "exploration");
    ev.raw("coverage", &cov);
    ev.strs(
        "assumptions",
        &[
            "The evaluator, reference polynomials and reference arithmetic in /verif/harness/src (built on num's BigRational) are right".to_string(),
            "Inputs are bounded: see the generators' size limits in DESIGN.md".to_string(),
        ],
    );
    ev.float("wall_s", t0.elapsed().as_secs_f64());
    ev.num("violations", viol.is_some() as u64);
    let evd = env.dir.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", prop)), ev.render() + "\n").unwrap();

    let code = if let Some((si, choices, text, msg)) = viol {
        let sub = p.subs[si].name;
        let rd = env.dir.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let name = format!("{}-{}-{:016x}.replay", prop, sub, hash_str(&join(&choices)));
        let path = rd.join(&name);
        let mut f = std::fs::File::create(&path).unwrap();
        let _ = writeln!(f, "property {}\ncheck {}\nchoices {}\ncase {}\nmessage {}", prop, sub, join(&choices), one_line(&text), one_line(&msg));
        println!("{}: check {} fails", prop, sub);
        println!("  case: {}", clip(&text));
        println!("  {}", clip(&msg));
        println!("  replay with: ./replay.sh {}", path.display());
        println!("VIOLATION property={} replay={}", prop, path.display());
        1
    } else if let Some(m) = internal {
        eprintln!("ERROR {}: {}", prop, m);
        2
    } else {
        println!("{}: held on everything explored ({:.1}s)", prop, t0.elapsed().as_secs_f64());
        0
    };
    let _ = std::fs::remove_dir_all(&work);
    code
}

fn clip(s: &str) -> String {
    let s = &one_line(s);
    if s.len() > 1500 {
        s.chars().take(1500).collect::<String>() + " ..."
    } else {
        s.to_string()
    }
}

/// Confirm a process-ending case on its own and shrink it in subprocesses.
fn confirm(p: &Prop, si: usize, idx: u64, work: &Path, limit: Duration) -> Option<(usize, Vec<u64>, String, String)> {
    let sub = p.subs[si].name;
    let trace = work.join("trace");
    let _ = std::fs::remove_file(&trace);
    let why = dies(p.id, sub, &format!("#{}", idx), Some(&trace), limit)?;
    let read = |t: &Path| -> Option<(Vec<u64>, String)> {
        let r = std::fs::read_to_string(t).ok()?;
        let l: Vec<&str> = r.lines().collect();
        Some((unjoin(l.first()?), l.get(1).unwrap_or(&"").to_string()))
    };
    let (choices, text) = read(&trace)?;
    let hang = why.contains("terminate");
    let (budget, small) = if hang { (25usize, Duration::from_secs(8)) } else { (400, Duration::from_secs(8)) };
    let end = Instant::now() + Duration::from_secs(if hang { 150 } else { 40 });
    let mut best = (choices.clone(), text);
    let cell = RefCell::new(&mut best);
    shrink(choices, budget, |c| {
        if Instant::now() > end {
            return None;
        }
        let _ = std::fs::remove_file(&trace);
        dies(p.id, sub, &join(c), Some(&trace), small)?;
        let (t, x) = read(&trace)?;
        let mut b = cell.borrow_mut();
        if t.len() < b.0.len() || (t.len() == b.0.len() && t < b.0) {
            **b = (t.clone(), x);
        }
        Some(t)
    });
    Some((si, best.0.clone(), best.1.clone(), why.to_string()))
}

pub fn replay(file: &str) -> i32 {
    let r = match std::fs::read_to_string(file) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| -> String {
        r.lines().find_map(|l| l.strip_prefix(&format!("{} ", k)).map(|x| x.to_string())).unwrap_or_default()
    };
    let (prop, sub, choices, case) = (get("property"), get("check"), get("choices"), get("case"));
    let (e, so) = spawn(&["single", &prop, &sub, &choices, "40"], &[], Duration::from_secs(120), false);
    print!("{}", so);
    if !so.contains(&case) {
        println!("(the recorded case was: {})", clip(&case));
    }
    match e {
        Ended::Code(0) => {
            println!("does not fail");
            0
        }
        Ended::Code(1) => {
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        Ended::Code(_) => 2,
        Ended::Signal => {
            println!("killed by a fatal signal");
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        Ended::Timeout => {
            println!("did not terminate in time");
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
    }
}

// ------------------------------------------------------------ tiny JSON

pub mod serde_lite {
    use std::collections::BTreeMap;
    pub struct Obj(Vec<(String, String)>);
    pub fn quote(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    impl Obj {
        pub fn new() -> Self {
            Obj(vec![])
        }
        pub fn raw(&mut self, k: &str, v: &str) {
            self.0.push((k.into(), v.into()));
        }
        pub fn str(&mut self, k: &str, v: &str) {
            self.raw(k, &quote(v));
        }
        pub fn num(&mut self, k: &str, v: u64) {
            self.raw(k, &v.to_string());
        }
        pub fn float(&mut self, k: &str, v: f64) {
            self.raw(k, &format!("{:.3}", v));
        }
        pub fn boolean(&mut self, k: &str, v: bool) {
            self.raw(k, if v { "true" } else { "false" });
        }
        pub fn strs(&mut self, k: &str, v: &[String]) {
            self.raw(k, &format!("[{}]", v.iter().map(|x| quote(x)).collect::<Vec<_>>().join(", ")));
        }
        pub fn map(&mut self, k: &str, v: &BTreeMap<String, u64>) {
            self.raw(
                k,
                &format!("{{{}}}", v.iter().map(|(a, b)| format!("{}: {}", quote(a), b)).collect::<Vec<_>>().join(", ")),
            );
        }
        pub fn objs(&mut self, k: &str, v: &[Obj]) {
            self.raw(k, &format!("[{}]", v.iter().map(|x| x.render()).collect::<Vec<_>>().join(", ")));
        }
        pub fn render(&self) -> String {
            format!("{{{}}}", self.0.iter().map(|(k, v)| format!("{}: {}", quote(k), v)).collect::<Vec<_>>().join(", "))
        }
    }
}
