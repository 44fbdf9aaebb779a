//! Verdicts, evidence and replays.
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Default)]
struct State {
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    viol: Vec<(String, String, String)>,
    viol_keys: HashSet<String>,
    known_hit: HashSet<String>,
    skipped: u64,
    notes: Vec<String>,
}
pub struct Ctx {
    pub pid: String,
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub t0: Instant,
    pub deadline: Duration,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    st: Mutex<State>,
}
impl Ctx {
    pub fn new(pid: &str, tier: &str, seed: u64) -> Ctx {
        let verif = PathBuf::from(std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("known: ") {
                    let pre = format!("property={pid} key=");
                    if let Some(r) = r.strip_prefix(&pre) {
                        let (k, t) = r.split_once(" | ").unwrap_or((r, ""));
                        known.push((k.trim().to_string(), t.to_string()));
                    }
                }
            }
        }
        let dl = std::env::var("VH_DEADLINE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 300 } else { 3600 });
        Ctx {
            pid: pid.into(),
            tier: tier.into(),
            seed,
            verif,
            t0: Instant::now(),
            deadline: Duration::from_secs(dl),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
            known,
            st: Mutex::new(State::default()),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == "quick"
    }
    /// quick or thorough amount
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.quick() { q } else { t }
    }
    pub fn late(&self) -> bool {
        self.t0.elapsed() > self.deadline
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn note(&self, s: String) {
        self.st.lock().unwrap().notes.push(s);
    }
    /// One evaluated case; `distinct` identifies a non-trivial case (None = trivial).
    pub fn eval(&self, distinct: Option<u64>) {
        let mut s = self.st.lock().unwrap();
        s.evals += 1;
        if let Some(d) = distinct {
            s.distinct.insert(d);
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.st.lock().unwrap().counters.entry(name.into()).or_default() += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut s = self.st.lock().unwrap();
        let e = s.counters.entry(name.into()).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut st = self.st.lock().unwrap();
        if st.samples.len() < 6 {
            let v = s();
            st.samples.push(v);
        }
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.st.lock().unwrap().counters.get(name).copied().unwrap_or(0)
    }
    /// `key` names what fails (dedup and known-findings are by key).
    pub fn violation(&self, key: &str, msg: &str, files: &[(&str, &[u8])]) {
        let key = key.replace(['\n', '|'], " ");
        let mut st = self.st.lock().unwrap();
        if self.known.iter().any(|k| k.0 == key) {
            st.known_hit.insert(key);
            return;
        }
        *st.counters.entry("violating_cases".into()).or_default() += 1;
        if !st.viol_keys.insert(key.clone()) || st.viol.len() >= 12 {
            return;
        }
        let dir = self.verif.join("replays").join(format!("{}-{}-{}", self.pid, std::process::id(), st.viol.len()));
        let _ = std::fs::create_dir_all(&dir);
        for (n, d) in files {
            let _ = std::fs::write(dir.join(n), d);
        }
        let _ = std::fs::write(dir.join("what.txt"), format!("property {}\nkey {}\nseed {}\ntier {}\n{}\n", self.pid, key, self.seed, self.tier, msg));
        println!("VIOLATION property={} replay={}", self.pid, dir.display());
        println!("  {key}: {}", msg.chars().take(1500).collect::<String>());
        st.viol.push((key, msg.to_string(), dir.display().to_string()));
    }
    pub fn violations(&self) -> usize {
        self.st.lock().unwrap().viol.len()
    }
    /// Runs `f` over the items on all cores; stops handing out items after the deadline.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(usize, &T) + Sync) {
        self.par_n(items, std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8), f)
    }
    pub fn par_n<T: Sync>(&self, items: &[T], threads: usize, f: impl Fn(usize, &T) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads.min(items.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            if k >= items.len() {
                                break;
                            }
                            if self.late() {
                                self.st.lock().unwrap().skipped += 1;
                                continue;
                            }
                            f(k, &items[k]);
                        }
                    })
                    .unwrap();
            }
        });
    }
    pub fn write_evidence(&self) {
        let st = self.st.lock().unwrap();
        let mut cov = String::new();
        cov.push_str(&format!("\"evaluations\":{},\"distinct_nontrivial\":{},", st.evals, st.distinct.len()));
        cov.push_str(&format!("\"rule\":{},", jstr(&self.rule.lock().unwrap())));
        cov.push_str(&format!("\"samples\":[{}],", st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
        cov.push_str("\"observed\":{");
        cov.push_str(&st.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
        cov.push_str(&format!("}},\"not_run_for_time\":{},", st.skipped));
        cov.push_str(&format!("\"notes\":[{}],", st.notes.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
        cov.push_str(&format!("\"known_findings_seen\":[{}]", st.known_hit.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
        let ass = self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
        let j = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.1},\"violations\":{}}}\n",
            jstr(&self.pid),
            jstr(&self.tier),
            self.seed,
            cov,
            ass,
            self.t0.elapsed().as_secs_f64(),
            st.viol.len()
        );
        let p = std::env::var("VH_EVIDENCE").map(PathBuf::from).unwrap_or_else(|_| self.verif.join("evidence").join(format!("{}.json", self.pid)));
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        std::fs::write(p, j).unwrap();
    }
    /// Exit code: 0 held, 1 violated, 2 nothing observed (inconclusive).
    pub fn finish(&self) -> i32 {
        {
            let st = self.st.lock().unwrap();
            for (k, t) in &self.known {
                if st.known_hit.contains(k) {
                    println!("KNOWN-FINDING: property={} {} {}", self.pid, k, t);
                }
            }
        }
        self.write_evidence();
        let st = self.st.lock().unwrap();
        println!(
            "{} {}: {} evaluations, {} distinct, {} violations, {:.1}s; {}",
            self.pid,
            self.tier,
            st.evals,
            st.distinct.len(),
            st.viol.len(),
            self.t0.elapsed().as_secs_f64(),
            st.counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        if !st.viol.is_empty() {
            1
        } else if st.evals == 0 || st.distinct.is_empty() {
            println!("INCONCLUSIVE: nothing was observed");
            2
        } else {
            0
        }
    }
}
