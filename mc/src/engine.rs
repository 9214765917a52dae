//! The explorer: walks *every* index of a finite case space, in parallel, running a monitor on
//! each case. No sampling: a space is either walked completely, or the run says where the wall
//! clock stopped it.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::case::Case;

/// What one monitored execution saw.
#[derive(Default, Clone, Debug)]
pub struct Seen {
    /// Model/implementation states visited.
    pub states: u64,
    /// Transitions (calls into the implementation, events, steps).
    pub transitions: u64,
    /// Comparisons of an implementation trace/result with the reference model.
    pub validated: u64,
    /// Whether something non-trivial happened.
    pub nontrivial: bool,
    /// A fingerprint of the outcome (to count distinct outcomes).
    pub outcome: u64,
}

pub type CheckFn = fn(&Case, &mut Seen) -> Result<(), String>;

/// A finite family of cases.
pub struct Family {
    pub name: String,
    pub n: u64,
    pub gen: Box<dyn Fn(u64) -> Option<Case> + Sync + Send>,
    /// Which monitor to run.
    pub check: CheckFn,
    /// May an input-rejecting `None` happen (symmetry reduction).
    pub rule: String,
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub note: String,
}

pub struct Runner {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub technique_rule: String,
    pub known: Vec<Known>,
    pub wall: Duration,
    pub outdir: String,
    pub max_viol: usize,
}

#[derive(Default)]
struct Totals {
    cases: u64,
    skipped: u64,
    nontrivial: u64,
    states: u64,
    transitions: u64,
    validated: u64,
    outcomes: HashSet<u64>,
}

/// A case may not have more than this much memory live at once.
const ALLOC_CAP: isize = 1 << 30;

/// An allocator that makes a runaway case fail instead of taking the machine down.
pub struct CapAlloc;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static CAPPED: Cell<bool> = const { Cell::new(false) };
}
unsafe impl std::alloc::GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let over = LIVE
            .try_with(|x| {
                let n = x.get() + l.size() as isize;
                if n > ALLOC_CAP && CAPPED.with(|c| c.get()) {
                    return true;
                }
                x.set(n);
                false
            })
            .unwrap_or(false);
        if over {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        let _ = LIVE.try_with(|x| x.set(x.get() - l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let over = LIVE
            .try_with(|x| {
                let m = x.get() + n as isize - l.size() as isize;
                if m > ALLOC_CAP && CAPPED.with(|c| c.get()) {
                    return true;
                }
                x.set(m);
                false
            })
            .unwrap_or(false);
        if over {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: CapAlloc = CapAlloc;

/// Which thread's case died (slot + 1), and of which signal.
static DEAD: AtomicUsize = AtomicUsize::new(0);
static DEAD_SIG: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_fatal(sig: i32) {
    let slot = THREAD_SLOT.try_with(|x| x.get()).unwrap_or(usize::MAX);
    DEAD_SIG.store(sig as usize, SeqCst);
    DEAD.store(if slot == usize::MAX { MAX_THREADS + 1 } else { slot + 1 }, SeqCst);
    // The watchdog thread reports it, in an ordinary context, and ends the process.
    loop {
        unsafe { pause() };
    }
}

extern "C" {
    fn signal(sig: i32, h: extern "C" fn(i32)) -> usize;
    fn pause() -> i32;
}

thread_local! {
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static THREAD_SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

const MAX_THREADS: usize = 64;
/// Per-thread (family index + 1, case index, start in ms).
static CUR_FAM: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static CUR_IDX: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static CUR_START: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];

pub fn install_hooks() {
    // SIGABRT: Rust's stack overflow and out-of-memory handling both end in abort().
    for sig in [6, 4, 8] {
        unsafe { signal(sig, on_fatal) };
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if THREAD_SLOT.with(|x| x.get()) == usize::MAX {
            eprintln!("the explorer panicked at {loc}: {msg}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panicked at {loc}: {msg}")));
    }));
}

/// Runs `f`, turning a panic into an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())),
    }
}

pub fn run_check(check: CheckFn, case: &Case, seen: &mut Seen) -> Result<(), String> {
    match guarded(|| check(case, seen)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

pub fn case_key(c: &Case) -> String {
    serde_json::to_string(c).unwrap()
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// A single case is given this long before we call it a failure to terminate.
static HANG_MS: AtomicU64 = AtomicU64::new(20_000);

/// For cases that are whole explorations.
pub fn set_hang_ms(ms: u64) {
    HANG_MS.store(ms, SeqCst);
}

impl Runner {
    pub fn run(&self, families: Vec<Family>) -> i32 {
        let t0 = Instant::now();
        let nthreads = std::thread::available_parallelism()
            .map(|n| n.get())
            .unwrap_or(4)
            .min(MAX_THREADS);
        let totals = Mutex::new(Totals::default());
        let samples: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
        let violations: Mutex<Vec<(u64, u64, Case, String)>> = Mutex::new(vec![]);
        let known_seen: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let capped: Mutex<Vec<String>> = Mutex::new(vec![]);
        let mut fam_report = vec![];
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let nviol = AtomicUsize::new(0);
        let families = &families;

        let write_replay = |family: &str, case: &Case, msg: &str| -> String {
            let key = case_key(case);
            let path = format!("{}/replay/{}-{:016x}.json", self.outdir, self.prop, fnv(&key));
            let v = serde_json::json!({"property": self.prop, "family": family, "case": case, "message": msg});
            let _ = std::fs::create_dir_all(format!("{}/replay", self.outdir));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
            path
        };

        std::thread::scope(|s| {
            // The watchdog: a case that does not come back is itself a violation.
            s.spawn(|| {
                while !done.load(Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    let now = t0.elapsed().as_millis() as u64;
                    let dead = DEAD.load(SeqCst);
                    if dead == MAX_THREADS + 1 {
                        println!("the explorer itself died of signal {}", DEAD_SIG.load(SeqCst));
                        unsafe { libc_exit(2) }
                    }
                    for t in 0..nthreads {
                        let fam = CUR_FAM[t].load(SeqCst);
                        let idx = CUR_IDX[t].load(SeqCst);
                        let start = CUR_START[t].load(SeqCst);
                        let died = dead == t + 1 && fam != 0;
                        let hung = fam != 0 && now > start + HANG_MS.load(SeqCst) && CUR_FAM[t].load(SeqCst) == fam && CUR_IDX[t].load(SeqCst) == idx && CUR_START[t].load(SeqCst) == start;
                        if died || hung {
                            if let Some(case) = (families[fam as usize - 1].gen)(idx) {
                                let msg = if died {
                                    format!("the process died of signal {} (stack overflow, out of memory or abort)", DEAD_SIG.load(SeqCst))
                                } else {
                                    format!("no result after {} s", HANG_MS.load(SeqCst) / 1000)
                                };
                                let key = case_key(&case);
                                let known = self.known.iter().any(|k| k.property == self.prop && k.key == key);
                                if died && known {
                                    println!("a known finding ended the process: {key}");
                                    unsafe { libc_exit(2) }
                                }
                                if !known {
                                    let path = write_replay(&families[fam as usize - 1].name, &case, &msg);
                                    println!("VIOLATION property={} replay={}", self.prop, path);
                                    println!("  {msg}: {key}");
                                    if let Ok(v) = violations.try_lock() {
                                        for (fi, _, case, msg) in v.iter().take(shown()) {
                                            let path = write_replay(&families[*fi as usize].name, case, msg);
                                            println!("VIOLATION property={} replay={}", self.prop, path);
                                            println!("  {}: {}", msg, case_key(case));
                                        }
                                    }
                                    let _ = std::io::stdout().flush();
                                    let mut ev = self.evidence(&totals.lock().unwrap(), &samples.lock().unwrap(), vec![], vec!["stopped at a non-terminating case".into()], t0.elapsed(), 1);
                                    ev["coverage"]["exhaustive"] = false.into();
                                    self.write_evidence(&ev);
                                    unsafe { libc_exit(1) }
                                }
                            }
                        }
                    }
                }
            });

            for (fi, fam) in families.iter().enumerate() {
                let next = AtomicU64::new(0);
                let fam_t0 = Instant::now();
                let fam_cases = AtomicU64::new(0);
                let fam_nontriv = AtomicU64::new(0);
                let fam_skipped = AtomicU64::new(0);
                let chunk = (fam.n / (nthreads as u64 * 64)).clamp(1, 256);
                std::thread::scope(|s2| {
                    for t in 0..nthreads {
                        let (next, stop, totals, violations, nviol, known_seen, samples) =
                            (&next, &stop, &totals, &violations, &nviol, &known_seen, &samples);
                        let (fam_cases, fam_nontriv, fam_skipped) = (&fam_cases, &fam_nontriv, &fam_skipped);
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s2, move || {
                                THREAD_SLOT.with(|x| x.set(t));
                                CAPPED.with(|c| c.set(true));
                                let mut local = Totals::default();
                                loop {
                                    if stop.load(Relaxed) {
                                        break;
                                    }
                                    let lo = next.fetch_add(chunk, Relaxed);
                                    if lo >= fam.n {
                                        break;
                                    }
                                    if t0.elapsed() > self.wall {
                                        stop.store(true, Relaxed);
                                        break;
                                    }
                                    for i in lo..(lo + chunk).min(fam.n) {
                                        let Some(case) = (fam.gen)(i) else {
                                            local.skipped += 1;
                                            continue;
                                        };
                                        CUR_IDX[t].store(i, SeqCst);
                                        CUR_START[t].store(t0.elapsed().as_millis() as u64, SeqCst);
                                        CUR_FAM[t].store(fi as u64 + 1, SeqCst);
                                        LIVE.with(|x| x.set(0));
                                        let mut seen = Seen::default();
                                        let r = run_check(fam.check, &case, &mut seen);
                                        CUR_FAM[t].store(0, SeqCst);
                                        local.cases += 1;
                                        local.states += seen.states;
                                        local.transitions += seen.transitions;
                                        local.validated += seen.validated;
                                        local.nontrivial += seen.nontrivial as u64;
                                        if local.outcomes.len() < 200_000 {
                                            local.outcomes.insert(seen.outcome);
                                        }
                                        if seen.nontrivial && (i == lo) {
                                            let mut sm = samples.lock().unwrap();
                                            if sm.len() < 3 * (fi + 1) && sm.len() < 12 {
                                                sm.push(serde_json::json!({"family": fam.name, "index": i, "case": case}));
                                            }
                                        }
                                        if let Err(msg) = r {
                                            let key = case_key(&case);
                                            if let Some(k) = self.known.iter().find(|k| k.property == self.prop && k.key == key) {
                                                known_seen.lock().unwrap().insert(key, format!("{} [{}]", k.note, msg));
                                            } else {
                                                violations.lock().unwrap().push((fi as u64, i, case, msg));
                                                if nviol.fetch_add(1, Relaxed) + 1 >= self.max_viol {
                                                    stop.store(true, Relaxed);
                                                }
                                            }
                                        }
                                    }
                                }
                                fam_cases.fetch_add(local.cases, Relaxed);
                                fam_nontriv.fetch_add(local.nontrivial, Relaxed);
                                fam_skipped.fetch_add(local.skipped, Relaxed);
                                let mut tot = totals.lock().unwrap();
                                tot.cases += local.cases;
                                tot.skipped += local.skipped;
                                tot.nontrivial += local.nontrivial;
                                tot.states += local.states;
                                tot.transitions += local.transitions;
                                tot.validated += local.validated;
                                tot.outcomes.extend(local.outcomes);
                            })
                            .unwrap();
                    }
                });
                let finished = fam_cases.load(Relaxed) + fam_skipped.load(Relaxed) >= fam.n;
                if !finished {
                    capped.lock().unwrap().push(format!(
                        "{}: {} of {} indices",
                        fam.name,
                        fam_cases.load(Relaxed) + fam_skipped.load(Relaxed),
                        fam.n
                    ));
                }
                fam_report.push(serde_json::json!({
                    "family": fam.name, "space": fam.n, "executed": fam_cases.load(Relaxed),
                    "skipped_as_symmetric_or_out_of_scope": fam_skipped.load(Relaxed), "nontrivial": fam_nontriv.load(Relaxed),
                    "complete": finished, "wall_s": fam_t0.elapsed().as_secs_f64(), "rule": fam.rule,
                }));
                eprintln!(
                    "[{}] {}: {}/{} cases, {} skipped, {} nontrivial, {:.1}s",
                    self.prop, fam.name, fam_cases.load(Relaxed), fam.n, fam_skipped.load(Relaxed),
                    fam_nontriv.load(Relaxed), fam_t0.elapsed().as_secs_f64()
                );
            }
            done.store(true, Relaxed);
        });

        let known_seen = known_seen.into_inner().unwrap();
        for (key, note) in &known_seen {
            println!("KNOWN-FINDING: property={} {} case={}", self.prop, note, key);
        }
        let mut v = violations.into_inner().unwrap();
        // The simplest first: families and indices are ordered simplest-first.
        v.sort_by_key(|x| (x.0, x.1));
        let mut by_msg: BTreeMap<String, u64> = BTreeMap::new();
        for (_, _, _, m) in &v {
            let m: String = m.chars().take_while(|c| *c != '|').collect();
            *by_msg.entry(m).or_default() += 1;
        }
        for (fi, _, case, msg) in v.iter().take(shown()) {
            let path = write_replay(&families[*fi as usize].name, case, msg);
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  {}: {}", msg, case_key(case));
        }
        if !v.is_empty() {
            println!("  {} violating cases in all; by message:", v.len());
            for (m, n) in by_msg.iter().take(20) {
                println!("    {n:8} {m}");
            }
        }
        let tot = totals.into_inner().unwrap();
        let ev = self.evidence(
            &tot,
            &samples.into_inner().unwrap(),
            fam_report,
            capped.into_inner().unwrap(),
            t0.elapsed(),
            v.len(),
        );
        self.write_evidence(&ev);
        println!(
            "{} {}: cases={} nontrivial={} states={} transitions={} validated={} outcomes={} violations={} known={} wall={:.1}s",
            self.prop, self.tier, tot.cases, tot.nontrivial, tot.states, tot.transitions, tot.validated,
            tot.outcomes.len(), v.len(), known_seen.len(), t0.elapsed().as_secs_f64()
        );
        if v.is_empty() {
            0
        } else {
            1
        }
    }

    fn evidence(
        &self,
        tot: &Totals,
        samples: &[serde_json::Value],
        fams: Vec<serde_json::Value>,
        capped: Vec<String>,
        wall: Duration,
        nviol: usize,
    ) -> serde_json::Value {
        serde_json::json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": tot.states,
                "transitions": tot.transitions,
                "traces_validated_against_impl": tot.validated,
                "evaluations": tot.cases,
                "distinct_nontrivial": tot.nontrivial,
                "distinct_outcomes": tot.outcomes.len(),
                "rule": self.technique_rule,
                "samples": samples,
                "families": fams,
                "capped": capped,
                "exhaustive": capped.is_empty() && nviol == 0,
            },
            "assumptions": [
                "the bounds (alphabet, number of edges/curves/operations) are those of each family; nothing is claimed outside them",
                "every case runs the real code of /repo, compiled in release mode with debug assertions and overflow checks on",
            ],
            "wall_s": wall.as_secs_f64(),
            "violations": nviol,
        })
    }

    fn write_evidence(&self, ev: &serde_json::Value) {
        let _ = std::fs::create_dir_all(&self.outdir);
        let p = format!("{}/{}.json", self.outdir, self.prop);
        std::fs::write(p, serde_json::to_string_pretty(ev).unwrap()).unwrap();
    }
}

extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}

/// One property: how to explore it, per tier.
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: fn(tier: &str) -> Vec<Family>,
}

fn load_known(file: &str) -> Vec<Known> {
    let mut ret = vec![];
    let Ok(s) = std::fs::read_to_string(file) else { return ret };
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("finding: property=") else { continue };
        let Some((prop, rest)) = rest.split_once(" case=") else { continue };
        let Some((case, note)) = rest.split_once(" what=") else { continue };
        // Through the parser, so that the key is in canonical form.
        let c: Case = serde_json::from_str(case).expect("bad case in the known-findings file");
        ret.push(Known { property: prop.into(), key: case_key(&c), note: note.into() });
    }
    ret
}

/// `check <prop> <quick|thorough>`, `replay <file>`, `family <prop> <substring>`, `list`.
pub fn cli(props: Vec<Prop>) -> ! {
    install_hooks();
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let env_secs = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let runner = |p: &Prop, tier: &str, outdir: String| Runner {
        prop: p.id.into(),
        tier: tier.into(),
        seed: env_secs("VERIF_SEED", 1),
        technique_rule: p.rule.into(),
        known: load_known(&format!("{root}/known-findings.txt")),
        wall: Duration::from_secs(env_secs("MC_WALL", if tier == "quick" { 420 } else { 36000 })),
        outdir,
        max_viol: env_secs("MC_MAXVIOL", 500) as usize,
    };
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id} here"));
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&args[2]);
            let tier = args[3].as_str();
            runner(p, tier, format!("{root}/evidence")).run((p.families)(tier))
        }
        // Debugging aid: the families whose name contains a string.
        Some("family") => {
            let p = find(&args[2]);
            let mut f: Vec<Family> = vec![];
            for t in ["quick", "thorough"] {
                for x in (p.families)(t) {
                    if x.name.contains(&args[3]) && !f.iter().any(|y| y.name == x.name) {
                        f.push(x);
                    }
                }
            }
            runner(p, "quick", "/tmp/mc-ev".into()).run(f)
        }
        Some("replay") => {
            let s = std::fs::read_to_string(&args[2]).expect("cannot read the replay file");
            let v: serde_json::Value = serde_json::from_str(&s).unwrap();
            let p = find(v["property"].as_str().unwrap());
            let fname = v["family"].as_str().unwrap();
            let case: Case = serde_json::from_value(v["case"].clone()).unwrap();
            let fam = (p.families)("quick")
                .into_iter()
                .chain((p.families)("thorough"))
                .find(|f| f.name == fname)
                .expect("no such family");
            let f = Family { name: fname.into(), n: 1, gen: Box::new(move |_| Some(case.clone())), check: fam.check, rule: String::new() };
            let mut r = runner(p, "quick", "/tmp/mc-ev".into());
            r.known.clear();
            r.run(vec![f])
        }
        Some("list") => {
            for p in &props {
                for t in ["quick", "thorough"] {
                    for f in (p.families)(t) {
                        println!("{} {} {} {}", p.id, t, f.name, f.n);
                    }
                }
            }
            0
        }
        _ => {
            eprintln!("usage: check <prop> <quick|thorough> | replay <file> | family <prop> <substring> | list");
            2
        }
    };
    std::process::exit(code)
}

/// How many violations to print.
fn shown() -> usize {
    std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5)
}
