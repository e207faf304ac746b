//! Exhaustive-enumeration engine: families of cases, parallel driver, supervisor, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

/// Per-case context: counts what was actually explored.
pub struct Ctx {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub nontrivial: u64,
    pub extra: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    known: Arc<HashSet<String>>,
    pub known_hits: Vec<(String, String)>,
    fam: String,
    pub thorough: bool,
}
impl Ctx {
    #[inline]
    pub fn state(&mut self, n: u64) {
        self.states += n;
    }
    #[inline]
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    #[inline]
    pub fn trace(&mut self, n: u64) {
        self.traces += n;
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.extra.entry(k).or_insert(0) += n;
    }
    /// Reports a failure unless this exact case is a listed known finding.
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) -> Res {
        let key = key.into();
        let msg = msg.into();
        if self.known.contains(&format!("{}\u{1}{}", self.fam, key)) || self.known.contains(&format!("*\u{1}{}", key)) {
            self.known_hits.push((key, msg));
            return Ok(());
        }
        Err(Fail { key, msg })
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 1 {
            let s = f();
            self.samples.push(s);
        }
    }
}

pub struct Family {
    pub name: String,
    pub bound: String,
    pub size: u64,
    pub timeout_s: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>,
}
impl Family {
    pub fn new(
        name: impl Into<String>,
        bound: impl Into<String>,
        size: u64,
        run: impl Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static,
    ) -> Self {
        Family {
            name: name.into(),
            bound: bound.into(),
            size,
            timeout_s: 60,
            run: Box::new(run),
        }
    }
}

pub struct Check {
    pub id: &'static str,
    pub families: Vec<Family>,
    pub assumptions: Vec<String>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|m| m.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

/// Runs implementation code; a panic becomes an error message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

// ---------------------------------------------------------------- journal (survives a crash)
const SLOTS: usize = 16;
#[repr(C)]
struct Slot {
    active: AtomicU64,
    fam: AtomicU64,
    idx: AtomicU64,
    start_ms: AtomicU64,
}
struct Journal {
    ptr: *mut Slot,
}
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}
impl Journal {
    fn open(path: &str) -> Journal {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("journal");
        let len = SLOTS * std::mem::size_of::<Slot>();
        f.set_len(len as u64).unwrap();
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Journal { ptr: p as *mut Slot }
    }
    fn slot(&self, i: usize) -> &Slot {
        unsafe { &*self.ptr.add(i) }
    }
}

fn known_findings(id: &str) -> Vec<(String, String, String)> {
    // lines: KNOWN-FINDING property=<id> family=<f> key=<k> :: text
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(format!("{VERIF}/known-findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("KNOWN-FINDING property={id} family=")) {
                let (head, text) = r.split_once(" :: ").unwrap_or((r, ""));
                if let Some((fam, key)) = head.split_once(" key=") {
                    v.push((fam.to_string(), key.to_string(), text.to_string()));
                }
            }
        }
    }
    v
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(id: &str, tier: &str, fam: &str, idx: u64, key: &str, msg: &str) -> String {
    let dir = format!("{VERIF}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let safe: String = fam
        .chars()
        .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' })
        .collect();
    let path = format!("{dir}/{id}-{safe}-{idx}.txt");
    let _ = std::fs::write(
        &path,
        format!("property={id}\ntier={tier}\nfamily={fam}\nindex={idx}\nkey={key}\nreplay=/verif/check.sh builds; then: gpfmc replay {path}\n\n{msg}\n"),
    );
    path
}

fn n_threads() -> usize {
    std::env::var("GPFMC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
        .clamp(1, SLOTS)
}

pub struct Totals {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}

fn run_one(f: &Family, idx: u64, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (f.run)(idx, ctx))) {
        Ok(r) => r,
        Err(_) => ctx.fail(format!("{idx}"), last_panic()),
    }
}

const STACK: usize = 8 << 20;

/// The child process: enumerates every family completely. Exit 0/1, or 42 for a hang.
pub fn child_main(check: Check, tier: &str, journal: &str, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let known: Vec<_> = known_findings(check.id);
    let known_set = Arc::new(
        known
            .iter()
            .map(|(f, k, _)| format!("{f}\u{1}{k}"))
            .collect::<HashSet<_>>(),
    );
    let max_viol: usize = std::env::var("GPFMC_KEEP").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verbose = std::env::var("GPFMC_V").is_ok();
    let j = Arc::new(Journal::open(journal));
    let mut tot = Totals { states: 0, transitions: 0, traces: 0 };
    let mut nontrivial = 0u64;
    let mut extra: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut fam_json: Vec<String> = Vec::new();
    let mut violations = 0usize;
    let mut known_hits: BTreeMap<(String, String), u64> = BTreeMap::new();
    let nt = n_threads();
    let done = Arc::new(AtomicBool::new(false));
    // watchdog
    {
        let j = j.clone();
        let done = done.clone();
        let touts: Vec<u64> = check.families.iter().map(|f| f.timeout_s).collect();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if done.load(Relaxed) {
                return;
            }
            let now = t0.elapsed().as_millis() as u64;
            for i in 0..SLOTS {
                let s = j.slot(i);
                if s.active.load(Acquire) == 1 {
                    let st = s.start_ms.load(Relaxed);
                    let to = touts[s.fam.load(Relaxed) as usize];
                    if now > st && now - st > to * 1000 {
                        s.active.store(2, Release); // marked as hanging
                        unsafe { libc::_exit(42) };
                    }
                }
            }
        });
    }
    let mut exhaustive = true;
    for (fi, fam) in check.families.iter().enumerate() {
        if let Some(o) = only {
            if !fam.name.contains(o) {
                continue;
            }
        }
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let chunk = (fam.size / (nt as u64 * 64)).clamp(1, 4096);
        let results: Mutex<Vec<(u64, Fail)>> = Mutex::new(Vec::new());
        let merged: Mutex<(u64, u64, u64, u64, BTreeMap<&'static str, u64>, Vec<String>, Vec<(String, String)>, u64)> =
            Mutex::new((0, 0, 0, 0, BTreeMap::new(), Vec::new(), Vec::new(), 0));
        let tf = Instant::now();
        std::thread::scope(|sc| {
            for t in 0..nt {
                let (next, stop, results, merged, j, known_set) =
                    (&next, &stop, &results, &merged, &j, &known_set);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        crate::seed::set_thread_seed(1);
                        let mut ctx = Ctx {
                            states: 0,
                            transitions: 0,
                            traces: 0,
                            nontrivial: 0,
                            extra: BTreeMap::new(),
                            samples: Vec::new(),
                            known: known_set.clone(),
                            known_hits: Vec::new(),
                            fam: fam.name.clone(),
                            thorough: tier == "thorough",
                        };
                        let slot = j.slot(t);
                        slot.fam.store(fi as u64, Relaxed);
                        let mut ran = 0u64;
                        'o: loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= fam.size {
                                break;
                            }
                            for idx in a..(a + chunk).min(fam.size) {
                                if stop.load(Relaxed) {
                                    break 'o;
                                }
                                slot.idx.store(idx, Relaxed);
                                slot.start_ms.store(t0.elapsed().as_millis() as u64, Relaxed);
                                slot.active.store(1, Release);
                                let r = run_one(fam, idx, &mut ctx);
                                slot.active.store(0, Release);
                                ran += 1;
                                if let Err(f) = r {
                                    let mut g = results.lock().unwrap();
                                    g.push((idx, f));
                                    if g.len() >= max_viol {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                        }
                        let mut m = merged.lock().unwrap();
                        m.0 += ctx.states;
                        m.1 += ctx.transitions;
                        m.2 += ctx.traces;
                        m.3 += ctx.nontrivial;
                        for (k, v) in ctx.extra {
                            *m.4.entry(k).or_insert(0) += v;
                        }
                        m.5.extend(ctx.samples);
                        m.6.extend(ctx.known_hits);
                        m.7 += ran;
                    })
                    .unwrap();
            }
        });
        let m = merged.into_inner().unwrap();
        tot.states += m.0;
        tot.transitions += m.1;
        tot.traces += m.2;
        nontrivial += m.3;
        for (k, v) in &m.4 {
            *extra.entry(k.to_string()).or_insert(0) += v;
        }
        if let Some(s) = m.5.iter().min() {
            samples.push(format!("{}: {}", fam.name, s));
        }
        for (k, msg) in m.6 {
            let _ = msg;
            *known_hits.entry((fam.name.clone(), k)).or_insert(0) += 1;
        }
        exhaustive &= m.7 == fam.size;
        fam_json.push(format!(
            "{{\"family\":{},\"bound\":{},\"indices\":{},\"indices_run\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"wall_s\":{:.3}}}",
            json_str(&fam.name), json_str(&fam.bound), fam.size, m.7, m.0, m.1, m.2, tf.elapsed().as_secs_f64()
        ));
        if verbose {
            eprintln!(
                "  {:<40} size={} states={} steps={} traces={} {:.2}s {:?}",
                fam.name, fam.size, m.0, m.1, m.2, tf.elapsed().as_secs_f64(), m.4
            );
        }
        let mut res = results.into_inner().unwrap();
        res.sort_by_key(|r| r.0);
        for (idx, f) in res.iter().take(max_viol) {
            let path = write_replay(check.id, tier, &fam.name, *idx, &f.key, &f.msg);
            println!("VIOLATION property={} replay={}", check.id, path);
            println!("  family={} index={} key={}", fam.name, idx, f.key);
            for l in f.msg.lines().take(30) {
                println!("  {l}");
            }
            violations += 1;
        }
        if violations >= max_viol {
            exhaustive = false;
            break;
        }
    }
    done.store(true, Relaxed);
    for (f, k, text) in &known {
        if known_hits.keys().any(|(hf, hk)| hk == k && (f == "*" || hf == f)) {
            println!("KNOWN-FINDING: property={} family={} key={} {}", check.id, f, k, text);
        }
    }
    let evid = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"nontrivial_cases\": {},\n  \"known_findings_seen\": {},\n  \"counters\": {{{}}},\n  \"families\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ],\n  \"explanation\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(check.id),
        json_str(tier),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        tot.states,
        tot.transitions,
        tot.traces,
        exhaustive && only.is_none(),
        nontrivial,
        known_hits.len(),
        extra.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
        fam_json.join(",\n   "),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "),
        json_str("states: distinct model states / inputs enumerated; transitions: operations of the real implementation executed; traces: complete executions of the real implementation compared with the independent oracle. Every family's index range is enumerated completely (indices_run == indices)."),
        check.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        violations
    );
    if only.is_none() {
        let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
        std::fs::write(format!("{VERIF}/evidence/{}.json", check.id), evid).unwrap();
    }
    if verbose {
        eprintln!("states={} transitions={} traces={} wall={:.1}s", tot.states, tot.transitions, tot.traces, t0.elapsed().as_secs_f64());
    }
    let _ = std::io::stdout().flush();
    if violations > 0 {
        1
    } else {
        println!("OK property={} tier={} states={} traces={}", check.id, tier, tot.states, tot.traces);
        0
    }
}

/// Runs exactly one case (used to confirm crashes and by replay).
pub fn one_main(check: Check, tier: &str, fam: &str, idx: u64) -> i32 {
    let known_set = Arc::new(
        known_findings(check.id).iter().map(|(f, k, _)| format!("{f}\u{1}{k}")).collect::<HashSet<_>>(),
    );
    let f = match check.families.into_iter().find(|f| f.name == fam) {
        Some(f) => f,
        None => {
            println!("no such family {fam}");
            return 2;
        }
    };
    let tier = tier.to_string();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            crate::seed::set_thread_seed(1);
            let mut ctx = Ctx {
                states: 0,
                transitions: 0,
                traces: 0,
                nontrivial: 0,
                extra: BTreeMap::new(),
                samples: Vec::new(),
                known: known_set,
                known_hits: Vec::new(),
                fam: f.name.clone(),
                thorough: tier == "thorough",
            };
            match run_one(&f, idx, &mut ctx) {
                Ok(()) => {
                    println!("OK family={} index={} {:?}", f.name, idx, ctx.samples);
                    0
                }
                Err(e) => {
                    println!("FAIL family={} index={} key={}\n{}", f.name, idx, e.key, e.msg);
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap_or(3)
}

/// Parent: runs the child; if the child dies or hangs, confirms the journalled cases one by one.
pub fn supervise(id: &str, tier: &str, fams: &[String], only: Option<&str>) -> i32 {
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let journal = format!("/tmp/gpfmc-{}-{}.journal", id, std::process::id());
    let mut rc = 2;
    for attempt in 0..2 {
        let _ = std::fs::remove_file(&journal);
        let mut c = Command::new(&exe);
        c.arg("child").arg(id).arg(tier).arg(&journal);
        if let Some(o) = only {
            c.arg(o);
        }
        limit(&mut c);
        let st = c.status().expect("spawn child");
        match st.code() {
            Some(0) => {
                rc = 0;
                break;
            }
            Some(1) => {
                rc = 1;
                break;
            }
            other => {
                eprintln!("child ended abnormally: {other:?} {st:?} (attempt {attempt}); confirming journalled cases");
                let j = Journal::open(&journal);
                let mut cases = Vec::new();
                for i in 0..SLOTS {
                    let s = j.slot(i);
                    let a = s.active.load(Acquire);
                    if a != 0 {
                        cases.push((if a == 2 { 0 } else { 1 }, s.fam.load(Relaxed) as usize, s.idx.load(Relaxed)));
                    }
                }
                cases.sort();
                let mut found = false;
                for (_, f, idx) in cases {
                    let fam = &fams[f];
                    let mut c = Command::new(&exe);
                    c.arg("one").arg(id).arg(tier).arg(fam).arg(idx.to_string());
                    limit(&mut c);
                    c.stdout(std::process::Stdio::null());
                    let mut ch = c.spawn().unwrap();
                    let t = Instant::now();
                    let mut verdict: Option<String> = None;
                    loop {
                        if let Some(st) = ch.try_wait().unwrap() {
                            match st.code() {
                                Some(0) => {}
                                Some(1) => verdict = Some("case fails".into()),
                                c => verdict = Some(format!("process died: {c:?} {st:?} (stack overflow, abort or out of memory)")),
                            }
                            break;
                        }
                        if t.elapsed() > Duration::from_secs(90) {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            verdict = Some("does not terminate (90 s alone, normally milliseconds)".into());
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(20));
                    }
                    if let Some(v) = verdict {
                        let path = write_replay(id, tier, fam, idx, &idx.to_string(), &v);
                        println!("VIOLATION property={id} replay={path}");
                        println!("  family={fam} index={idx}: {v}");
                        evidence_stub(id, tier, fam, idx, &v);
                        found = true;
                        break;
                    }
                }
                if found {
                    rc = 1;
                    break;
                }
                rc = 2;
            }
        }
    }
    let _ = std::fs::remove_file(&journal);
    rc
}

fn evidence_stub(id: &str, tier: &str, fam: &str, idx: u64, v: &str) {
    let s = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": 1, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": 1, \"exhaustive\": false, \"samples\": [{}]}}, \"wall_s\": 0.0, \"violations\": 1}}\n",
        json_str(id), json_str(tier), idx + 1, idx + 1, json_str(&format!("{fam} index {idx}: {v}"))
    );
    let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
    let _ = std::fs::write(format!("{VERIF}/evidence/{id}.json"), s);
}

fn limit(c: &mut std::process::Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            let lim = libc::rlimit {
                rlim_cur: 20 << 30,
                rlim_max: 20 << 30,
            };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            // fixed addresses: hash seeds derived from addresses become reproducible
            libc::personality(0x0040000);
            // the child must not outlive the parent
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}
