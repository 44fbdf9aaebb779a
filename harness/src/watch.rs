//! Watchdog: notices cases that spin or deadlock (by CPU time and thread states, not wall clock).
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Case {
    desc: String,
    started: Instant,
    cpu0: u64,
    helpers: Vec<i32>,
    still: u32,
    last: u64,
}
static CASES: Mutex<Option<HashMap<i32, Case>>> = Mutex::new(None);
thread_local! {
    static OWNER: std::cell::Cell<i32> = const { std::cell::Cell::new(0) };
}
fn tid() -> i32 {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|s| s.to_str().map(|s| s.parse().unwrap_or(0)))).unwrap_or(0)
}
/// (cpu ticks, state)
fn stat(t: i32) -> Option<(u64, char)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{t}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    Some((f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?, f[0].chars().next()?))
}
pub struct Guard(i32);
pub fn begin(desc: &str) -> Guard {
    let t = tid();
    OWNER.with(|o| o.set(t));
    let c = Case { desc: desc.to_string(), started: Instant::now(), cpu0: stat(t).map(|x| x.0).unwrap_or(0), helpers: vec![], still: 0, last: 0 };
    CASES.lock().unwrap().get_or_insert_default().insert(t, c);
    Guard(t)
}
impl Drop for Guard {
    fn drop(&mut self) {
        CASES.lock().unwrap().get_or_insert_default().remove(&self.0);
    }
}
pub struct HelperGuard(i32);
/// Called in threads a runner spawns; they belong to whichever case is listed (attributed to all).
pub fn register_helper() -> HelperGuard {
    if !cfg!(miri) && !*SLOW.get_or_init(|| std::env::var("VH_NOWATCH").is_ok()) {
        let t = tid();
        HELPERS.lock().unwrap().push(t);
        HelperGuard(t)
    } else {
        HelperGuard(0)
    }
}
static SLOW: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
static HELPERS: Mutex<Vec<i32>> = Mutex::new(vec![]);
impl Drop for HelperGuard {
    fn drop(&mut self) {
        if self.0 != 0 {
            HELPERS.lock().unwrap().retain(|x| *x != self.0);
        }
    }
}
pub const SPIN_CPU_S: u64 = 60;
pub fn start(on_stuck: impl Fn(&str, &str) + Send + 'static) {
    if std::env::var("VH_NOWATCH").is_ok() {
        return;
    }
    let spin = std::env::var("VH_SPIN_S").ok().and_then(|s| s.parse().ok()).unwrap_or(SPIN_CPU_S);
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let mut g = CASES.lock().unwrap();
            let Some(m) = g.as_mut() else { continue };
            let helpers = HELPERS.lock().unwrap().clone();
            let hs: Vec<(u64, char)> = helpers.iter().filter_map(|h| stat(*h)).collect();
            for (t, c) in m.iter_mut() {
                let Some((cpu, st)) = stat(*t) else { continue };
                let used = (cpu - c.cpu0) / 100;
                if used > spin {
                    let d = c.desc.clone();
                    on_stuck("spin", &d);
                }
                // deadlock: this thread and every helper thread sleeps and nobody used any CPU for 40 s
                let sum = cpu + hs.iter().map(|x| x.0).sum::<u64>();
                if c.started.elapsed() > Duration::from_secs(45) && st == 'S' && hs.iter().all(|x| x.1 == 'S') && sum == c.last {
                    c.still += 1;
                    if c.still > 40 {
                        let d = c.desc.clone();
                        on_stuck("deadlock", &d);
                    }
                } else {
                    c.still = 0;
                }
                c.last = sum;
                let _ = &c.helpers;
            }
        }
    });
}
