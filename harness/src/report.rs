//! Case runner, violation reporting, watchdog and evidence.
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// What a worker observed; merged into the context at the end of a regime.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<Value>,
    pub max_samples: usize,
    /// executions beyond one per case
    pub more: u64,
}
impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    /// Records the signature of a non-trivial case (distinct ones are counted).
    pub fn sig(&mut self, h: u64) {
        self.sigs.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < self.max_samples {
            self.samples.push(f());
        }
    }
}

pub type CaseResult = Result<(), String>;

pub struct Ctx {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub threads: usize,
    pub verif: String,
    pub level: String,
    pub rule: String,
    pub assumptions: Vec<String>,
    evaluations: AtomicU64,
    obs: Mutex<Obs>,
    mins: Mutex<Vec<(String, u64)>>,
    violations: AtomicU64,
    truncated: AtomicBool,
    broken: AtomicBool,
    replay: Option<(String, u64)>,
    known: Mutex<Vec<String>>,
    known_file: Value,
}

impl Ctx {
    pub fn new(id: &str, verif: &str, replay: Option<&str>) -> Self {
        let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let replay = replay.map(|p| {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(p).expect("read replay")).expect("parse replay");
            tier = v["tier"].as_str().unwrap_or("quick").to_string();
            seed = v["seed"].as_u64().unwrap();
            (v["regime"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap())
        });
        if tier != "thorough" {
            tier = "quick".into();
        }
        let default_budget = if tier == "thorough" { 600 } else { 200 };
        let budget = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(default_budget);
        let known_file = std::fs::read_to_string(format!("{verif}/known-findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or(json!({"findings": []}));
        std::panic::set_hook(Box::new(|info| {
            let msg = info
                .payload()
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        }));
        Self {
            id: id.into(),
            tier,
            seed,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            threads: std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
            verif: verif.into(),
            level: "exploration".into(),
            rule: String::new(),
            assumptions: vec![],
            evaluations: AtomicU64::new(0),
            obs: Mutex::new(Obs { max_samples: 6, ..Default::default() }),
            mins: Mutex::new(vec![]),
            violations: AtomicU64::new(0),
            truncated: AtomicBool::new(false),
            broken: AtomicBool::new(false),
            replay,
            known: Mutex::new(vec![]),
            known_file,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// q cases in the quick tier, t in the thorough one.
    pub fn n(&self, q: u64, t: u64) -> u64 {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    /// The run is inconclusive unless counter `k` reached `min` (not applied to replays).
    pub fn require(&self, k: &str, min: u64) {
        self.mins.lock().unwrap().push((k.into(), min));
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() > self.budget
    }
    pub fn count(&self, k: &str, n: u64) {
        self.obs.lock().unwrap().count(k, n);
    }
    pub fn violated(&self) -> bool {
        self.violations.load(Ordering::SeqCst) > 0
    }
    pub fn violation(&self, regime: &str, case: u64, msg: &str) {
        if msg.contains("HARNESS:") {
            // the machinery failed, which says nothing about the code under test
            println!("{regime}#{case}: {msg}");
            self.broken.store(true, Ordering::SeqCst);
            return;
        }
        let n = self.violations.fetch_add(1, Ordering::SeqCst);
        if n >= 5 {
            return;
        }
        let dir = format!("{}/evidence/replay", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{n}.json", self.id);
        let mut m = msg.to_string();
        if m.len() > 20000 {
            let mut e = 20000;
            while !m.is_char_boundary(e) {
                e -= 1;
            }
            m.truncate(e);
        }
        let v = json!({"property": self.id, "tier": self.tier, "seed": self.seed, "regime": regime, "case": case, "message": m});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        let short: String = m.chars().take(1500).collect();
        println!("violation in {regime}#{case}: {short}");
        println!("VIOLATION property={} replay={path}", self.id);
    }
    /// Known finding probe: `still` says whether the listed failure is still there.
    /// Returns Err if the behaviour is wrong and not listed.
    pub fn known_finding(&self, key: &str, fails: bool, what: &str) -> CaseResult {
        let listed = self.known_file["findings"].as_array().map_or(false, |a| {
            a.iter().any(|f| f["property"] == self.id.as_str() && f["key"] == key)
        });
        if !fails {
            return Ok(());
        }
        if listed {
            let mut k = self.known.lock().unwrap();
            let line = format!("KNOWN-FINDING: property={} {what}", self.id);
            if !k.contains(&line) {
                println!("{line}");
                k.push(line);
            }
            Ok(())
        } else {
            Err(format!("{what} (not a listed known finding)"))
        }
    }

    /// Runs `n` cases of a regime on all threads.
    pub fn run<F>(&self, regime: &str, n: u64, f: F)
    where
        F: Fn(&mut Rng, u64, &mut Obs) -> CaseResult + Sync,
    {
        self.run_t(regime, n, self.threads, f)
    }
    pub fn run_t<F>(&self, regime: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Rng, u64, &mut Obs) -> CaseResult + Sync,
    {
        if let Some((r, c)) = &self.replay {
            if r != regime {
                return;
            }
            let mut obs = Obs::default();
            self.one(regime, *c, &f, &mut obs);
            self.merge(obs);
            return;
        }
        if self.violated() {
            return;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let states: Vec<WorkerState> = (0..threads).map(|_| WorkerState::default()).collect();
        let live = AtomicU64::new(threads as u64);
        std::thread::scope(|s| {
            for w in 0..threads {
                let (next, f, states, live, done) = (&next, &f, &states, &live, &done);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let st = &states[w];
                        st.tid.store(own_tid(), Ordering::SeqCst);
                        let mut obs = Obs { max_samples: 2, ..Default::default() };
                        let infl = std::env::var("VERIF_INFLIGHT").ok().and_then(|d| std::fs::File::create(format!("{d}/{w}")).ok());
                        loop {
                            if self.violations.load(Ordering::SeqCst) >= 3 {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            // every regime gets its share even if an earlier one used the time up
                            if i > self.n(n / 4, n / 50) && self.out_of_time() {
                                self.truncated.store(true, Ordering::SeqCst);
                                break;
                            }
                            st.case.store(i, Ordering::SeqCst);
                            st.seq.fetch_add(1, Ordering::SeqCst);
                            self.inflight(&infl, regime, i);
                            self.one(regime, i, f, &mut obs);
                            done.fetch_add(1, Ordering::SeqCst);
                        }
                        self.inflight(&infl, "", 0);
                        st.tid.store(0, Ordering::SeqCst);
                        self.merge(obs);
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // Watchdog: a case that burns far more CPU than any case needs does not terminate.
            let limit: f64 = std::env::var("VERIF_CASE_CPU").ok().and_then(|s| s.parse().ok()).unwrap_or(100.0);
            let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); threads];
            let mut tick = 0u64;
            while live.load(Ordering::SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(if tick < 200 { 5 } else { 200 }));
                tick += 1;
                if tick % 50 != 0 {
                    continue;
                }
                for w in 0..threads {
                    let tid = states[w].tid.load(Ordering::SeqCst);
                    if tid == 0 {
                        continue;
                    }
                    let seq = states[w].seq.load(Ordering::SeqCst);
                    let cpu = thread_cpu(tid);
                    if seen[w].0 != seq {
                        seen[w] = (seq, cpu);
                    } else if cpu - seen[w].1 > limit {
                        let case = states[w].case.load(Ordering::SeqCst);
                        self.violation(regime, case, &format!("no result after {limit} CPU seconds (non-termination)"));
                        self.finish();
                        std::process::exit(1);
                    }
                }
            }
        });
        let d = done.load(Ordering::SeqCst);
        self.count(&format!("cases:{regime}"), d);
    }

    /// Only used to explain an abort of the whole process: one fixed-size record per worker, overwritten in place.
    fn inflight(&self, f: &Option<std::fs::File>, regime: &str, case: u64) {
        if let Some(f) = f {
            use std::os::unix::fs::FileExt;
            let r = format!("{{\"regime\":\"{regime}\",\"case\":{case},\"seed\":{},\"tier\":\"{}\"}}", self.seed, self.tier);
            let _ = f.write_all_at(format!("{r:<200}").as_bytes(), 0);
        }
    }

    fn one<F>(&self, regime: &str, i: u64, f: &F, obs: &mut Obs)
    where
        F: Fn(&mut Rng, u64, &mut Obs) -> CaseResult + Sync,
    {
        let mut rng = Rng::new(mix(self.seed).wrapping_add(hash_str(regime)).wrapping_add(mix(i)));
        self.evaluations.fetch_add(1, Ordering::Relaxed);
        match catch_unwind(AssertUnwindSafe(|| f(&mut rng, i, obs))) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.violation(regime, i, &m),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                self.violation(regime, i, &format!("panic: {m}"));
            }
        }
    }
    fn merge(&self, o: Obs) {
        let mut g = self.obs.lock().unwrap();
        for (k, v) in o.counts {
            *g.counts.entry(k).or_default() += v;
        }
        g.sigs.extend(o.sigs);
        self.evaluations.fetch_add(o.more, Ordering::Relaxed);
        for s in o.samples {
            if g.samples.len() < g.max_samples {
                g.samples.push(s);
            }
        }
    }

    /// Writes the evidence and returns the exit code.
    pub fn finish(&self) -> i32 {
        let g = self.obs.lock().unwrap();
        let viol = self.violations.load(Ordering::SeqCst);
        let mut inconclusive = vec![];
        if self.broken.load(Ordering::SeqCst) {
            inconclusive.push("the harness failed".to_string());
        }
        if self.replay.is_none() {
            for (k, m) in self.mins.lock().unwrap().iter() {
                let v = if k == "evaluations" {
                    self.evaluations.load(Ordering::SeqCst)
                } else if k == "distinct" {
                    g.sigs.len() as u64
                } else {
                    g.counts.get(k).copied().unwrap_or(0)
                };
                if v < *m {
                    inconclusive.push(format!("{k}={v} < {m}"));
                }
            }
        }
        let known = self.known.lock().unwrap().clone();
        let ev = json!({
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations.load(Ordering::SeqCst),
                "distinct_nontrivial": g.sigs.len(),
                "rule": self.rule,
                "samples": g.samples,
                "observed": g.counts,
                "truncated_by_time_budget": self.truncated.load(Ordering::SeqCst),
                "known_findings_reproduced": known,
            },
            "assumptions": self.assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": viol,
        });
        if self.replay.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
            std::fs::write(format!("{}/evidence/{}.json", self.verif, self.id), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        }
        println!(
            "{} {} seed={} evaluations={} distinct={} violations={} wall={:.1}s",
            self.id, self.tier, self.seed, self.evaluations.load(Ordering::SeqCst), g.sigs.len(), viol, self.start.elapsed().as_secs_f64()
        );
        if viol > 0 {
            return 1;
        }
        if !inconclusive.is_empty() {
            println!("INCONCLUSIVE: {}", inconclusive.join(", "));
            return 2;
        }
        0
    }
}

#[derive(Default)]
struct WorkerState {
    tid: AtomicU64,
    case: AtomicU64,
    seq: AtomicU64,
}
fn own_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|s| s.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}
fn thread_cpu(tid: u64) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    // fields after the command name: state is 0, utime is 11, stime is 12 (in clock ticks of 10 ms)
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub fn close(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    if a == b {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
