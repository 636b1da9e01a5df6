//! Running the code under test: panics are data, every call is counted, a watchdog reports
//! calls that do not return.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
}

#[derive(Clone)]
pub struct Fail {
    pub case: String,
    pub what: String,
}

pub struct Ctx {
    pub execs: u64,
    pub fails: Vec<Fail>,
    pub fail_count: u64,
    pub case: String,
    pub rng: Rng,
    pub samples: Vec<String>,
    pub thread: usize,
    pub tier: u32,
}

pub const MAX_THREADS: usize = 16;
static STARTED: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static CASES: Mutex<Vec<String>> = Mutex::new(Vec::new());
static EPOCH: Mutex<Option<Instant>> = Mutex::new(None);

fn now_ms() -> u64 {
    let mut e = EPOCH.lock().unwrap();
    let e = e.get_or_insert_with(Instant::now);
    e.elapsed().as_millis() as u64 + 1
}

/// Calls `report(case)` when one case has been running for longer than `limit_ms`.
pub fn watchdog(limit_ms: u64, report: fn(String)) {
    CASES.lock().unwrap().resize(MAX_THREADS, String::new());
    now_ms();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for t in 0..MAX_THREADS {
            let s = STARTED[t].load(Ordering::SeqCst);
            if s != 0 && now > s + limit_ms {
                let case = CASES.lock().unwrap()[t].clone();
                report(case);
            }
        }
    });
}

impl Ctx {
    pub fn new(thread: usize, seed: u64) -> Self {
        Ctx {
            execs: 0,
            fails: vec![],
            fail_count: 0,
            case: String::new(),
            rng: Rng::new(seed),
            samples: vec![],
            thread,
            tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { 1 } else { 0 },
        }
    }
    pub fn begin(&mut self, case: &str) {
        self.case.clear();
        self.case.push_str(case);
        {
            let mut c = CASES.lock().unwrap();
            if c.len() > self.thread {
                c[self.thread].clear();
                c[self.thread].push_str(case);
            }
        }
        STARTED[self.thread].store(now_ms(), Ordering::SeqCst);
    }
    pub fn end(&mut self) {
        STARTED[self.thread].store(0, Ordering::SeqCst);
    }
    /// One execution of the code under test.
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.execs += 1;
        catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            if m.starts_with("HARNESS") {
                eprintln!("{m}");
                std::process::exit(2);
            }
            format!("panicked: {m}")
        })
    }
    pub fn fail(&mut self, what: String) {
        self.fail_count += 1;
        if self.fails.len() < 20 {
            self.fails.push(Fail { case: self.case.clone(), what });
        }
    }
    pub fn check(&mut self, ok: bool, what: impl FnOnce() -> String) -> bool {
        if !ok {
            let w = what();
            self.fail(w);
        }
        ok
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(s());
        }
    }
}
