//! Exploration engine: parallel exhaustive iteration, measured counters, violations, evidence.
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    states: Vec<Mutex<HashSet<u64>>>,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<(String, Value)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeMap<String, (String, u64)>>,
    pub notes: Mutex<BTreeMap<String, Value>>,
    capped: AtomicBool,
}

const MAX_V: usize = 60;

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Ctx {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        let kf = format!("{}/known_findings.json", crate::schema::verif_dir());
        if let Ok(s) = std::fs::read_to_string(&kf) {
            let v: Value = serde_json::from_str(&s).expect("known_findings.json");
            for e in v["findings"].as_array().unwrap() {
                if e["property"].as_str() == Some(prop) && e["status"].as_str() == Some("open") {
                    for k in e["keys"].as_array().unwrap() {
                        known.push((
                            k.as_str().unwrap().to_string(),
                            e["what"].as_str().unwrap().to_string(),
                        ));
                    }
                }
            }
        }
        Ctx {
            prop: prop.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Default::default(),
            counters: Default::default(),
            samples: Default::default(),
            violations: Default::default(),
            known,
            known_hit: Default::default(),
            notes: Default::default(),
            capped: AtomicBool::new(false),
        }
    }
    /// Record a model state; true if new.
    pub fn state<H: std::hash::Hash + ?Sized>(&self, h: &H) -> bool {
        use std::hash::Hasher;
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        let v = s.finish();
        self.states[(v % 64) as usize].lock().unwrap().insert(v)
    }
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn outcome(&self, k: &str) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_default() += 1;
    }
    /// wall time so far, on stderr, when MXMC_TIME is set
    pub fn lap(&self, what: &str) {
        if std::env::var("MXMC_TIME").is_ok() {
            eprintln!("  {:>7.1}s {what} (transitions {})", self.start.elapsed().as_secs_f64(), self.transitions.load(Relaxed));
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            let mut x = v();
            clip(&mut x);
            s.push(x);
        }
    }
    pub fn note(&self, k: &str, v: Value) {
        self.notes.lock().unwrap().insert(k.to_string(), v);
    }
    pub fn stop(&self) -> bool {
        self.capped.load(Relaxed)
    }
    /// Report a violation.  `key` identifies the failing input / call site.
    pub fn violation(&self, key: &str, detail: Value) {
        if let Some((k, what)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.lock().unwrap().entry(k.clone()).or_insert((what.clone(), 0)).1 += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.iter().any(|(k, _)| k == key) {
            return;
        }
        if v.len() < MAX_V {
            v.push((key.to_string(), detail));
        }
        if v.len() >= MAX_V {
            self.capped.store(true, Relaxed);
        }
    }
    pub fn nviol(&self) -> usize {
        self.violations.lock().unwrap().len()
    }

    /// Run one case under the watchdog: a case that takes over a minute is reported as a violation
    /// and ends the run.
    pub fn watch(&self, name: impl Fn() -> String, f: impl FnOnce()) {
        static RUNNING: Mutex<Vec<(u64, Instant, String)>> = Mutex::new(vec![]);
        static DOG: std::sync::Once = std::sync::Once::new();
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let prop = self.prop.clone();
        DOG.call_once(|| {
            std::thread::spawn(move || {
                loop {
                    std::thread::sleep(std::time::Duration::from_secs(2));
                    if let Some((_, _, n)) = RUNNING.lock().unwrap().iter().find(|(_, t, _)| t.elapsed().as_secs() > 60) {
                        let vd = crate::schema::verif_dir();
                        let _ = std::fs::create_dir_all(format!("{vd}/replays"));
                        let p = format!("{vd}/replays/{prop}-0.json");
                        let _ = std::fs::write(&p, json!({"property": prop, "key": format!("{n}: does not end")}).to_string());
                        println!("VIOLATION property={prop} replay={p}");
                        println!("  {n}: does not end within a minute");
                        std::process::exit(1);
                    }
                }
            });
        });
        let id = NEXT.fetch_add(1, Relaxed);
        RUNNING.lock().unwrap().push((id, Instant::now(), name()));
        f();
        RUNNING.lock().unwrap().retain(|x| x.0 != id);
    }

    pub fn finish(self, assumptions: &[&str]) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let vd = crate::schema::verif_dir();
        let mut viol = self.violations.into_inner().unwrap();
        viol.sort_by_key(|(k, d)| (d.to_string().len(), k.clone()));
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let mut cov = json!({
            "states": states,
            "transitions": self.transitions.load(Relaxed),
            "traces_validated_against_impl": self.traces.load(Relaxed),
            "samples": self.samples.into_inner().unwrap(),
            "distinct_outcomes": self.outcomes.into_inner().unwrap(),
            "exhaustive": !self.capped.load(Relaxed),
        });
        for (k, v) in self.counters.into_inner().unwrap() {
            cov[k] = json!(v);
        }
        for (k, v) in self.notes.into_inner().unwrap() {
            cov[k] = v;
        }
        let ev = json!({
            "property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": "model_checking", "coverage": cov, "assumptions": assumptions,
            "wall_s": wall, "violations": viol.len(),
        });
        let _ = std::fs::create_dir_all(format!("{vd}/evidence"));
        std::fs::write(
            format!("{vd}/evidence/{}.json", self.prop),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence");
        for (k, (what, n)) in self.known_hit.into_inner().unwrap() {
            println!("KNOWN-FINDING: property={} {what} [{k}; {n} cases]", self.prop);
        }
        println!(
            "{}: states={} transitions={} traces={} violations={} wall={wall:.1}s",
            self.prop,
            states,
            cov_u(&ev, "transitions"),
            cov_u(&ev, "traces_validated_against_impl"),
            viol.len()
        );
        if viol.is_empty() {
            return 0;
        }
        let _ = std::fs::create_dir_all(format!("{vd}/replays"));
        let shown = std::env::var("MXMC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(10);
        for (i, (k, d)) in viol.iter().enumerate().take(shown) {
            let p = format!("{vd}/replays/{}-{i}.json", self.prop);
            std::fs::write(
                &p,
                serde_json::to_string_pretty(&json!({"property": self.prop, "key": k, "detail": d})).unwrap(),
            )
            .expect("replay file");
            println!("VIOLATION property={} replay={p}", self.prop);
            let mut c = d.clone();
            clip(&mut c);
            println!("  {k}: {}", c.to_string().chars().take(if shown > 10 { 300 } else { 900 }).collect::<String>());
        }
        1
    }
}
fn cov_u(e: &Value, k: &str) -> u64 {
    e["coverage"][k].as_u64().unwrap_or(0)
}
fn clip(v: &mut Value) {
    match v {
        Value::String(s) if s.len() > 700 => {
            let c: String = s.chars().take(600).collect();
            *s = format!("{c}… ({} bytes)", s.len());
        }
        Value::Array(a) => {
            a.truncate(12);
            a.iter_mut().for_each(clip)
        }
        Value::Object(o) => o.values_mut().for_each(clip),
        _ => {}
    }
}

/// Run `f` on every index 0..n over all cores (dynamic schedule); every index is processed.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for _ in 0..nt {
            let (next, f) = (&next, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n {
                            break;
                        }
                        f(i);
                    }
                })
                .unwrap();
        }
    });
}
pub fn par_items<T: Sync>(v: &[T], f: impl Fn(&T) + Sync) {
    par(v.len(), |i| f(&v[i]))
}
