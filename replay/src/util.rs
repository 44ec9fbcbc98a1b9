use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Case {
    pub index: u64,
    pub rng: Rng,
    /// the property being checked
    pub id: String,
    desc: String,
    trivial: bool,
}

static CURRENT: Mutex<Option<(Instant, String)>> = Mutex::new(None);

impl Case {
    /// Describes the input; called before the code under test runs.
    pub fn input(&mut self, s: String) {
        if let Ok(p) = std::env::var("REPLAY_TRACE") {
            let _ = std::fs::write(p, format!("case {}: {}", self.index, s));
        }
        *CURRENT.lock().unwrap() = Some((Instant::now(), s.clone()));
        self.desc = s;
    }
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
    pub fn fail(&self, what: String) -> ! {
        report(&self.id, self.index, &self.desc, &what)
    }
    pub fn check(&self, ok: bool, what: impl FnOnce() -> String) {
        if !ok {
            self.fail(what())
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, what: &str, got: T, want: T) {
        if got != want {
            self.fail(format!("{}: got {:?}, expected {:?}", what, got, want))
        }
    }
}

fn report(id: &str, index: u64, desc: &str, what: &str) -> ! {
    println!("FAIL {} case {}\ninput: {}\n{}", id, index, desc, what);
    let _ = std::io::stdout().flush();
    std::process::exit(3)
}

pub fn run(id: &str, seed: u64, ms: u64, case: Option<u64>, f: fn(&mut Case)) {
    std::panic::set_hook(Box::new(|_| {}));
    let id2 = id.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let g = CURRENT.lock().unwrap();
        if let Some((t, s)) = &*g {
            if t.elapsed() > Duration::from_secs(60) {
                report(&id2, 0, s, "the code under test does not return")
            }
        }
    });
    let t0 = Instant::now();
    let mut n = 0u64;
    let mut nontrivial = 0u64;
    let mut seen: HashSet<String> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let (lo, hi) = match case {
        Some(c) => (c, c + 1),
        None => (0, u64::MAX),
    };
    let mut i = lo;
    while i < hi && (case.is_some() || t0.elapsed() < Duration::from_millis(ms)) {
        let mut c = Case {
            index: i,
            rng: Rng(seed.wrapping_mul(0xD6E8FEB86659FD93) ^ i.wrapping_mul(0xA24BAED4963EE407)),
            id: id.to_string(),
            desc: String::new(),
            trivial: false,
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
        if let Err(e) = r {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            report(id, i, &c.desc, &format!("the code under test panics: {}", m));
        }
        n += 1;
        if !c.trivial && seen.len() < 2_000_000 && seen.insert(c.desc.clone()) {
            nontrivial += 1;
            if samples.len() < 5 || (samples.len() < 12 && nontrivial.is_power_of_two()) {
                samples.push(c.desc.clone());
            }
        }
        i += 1;
    }
    *CURRENT.lock().unwrap() = None;
    let s: Vec<String> = samples.iter().map(|s| json(s)).collect();
    let s = s.join(",");
    println!("OK {{\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}]}}", n, nontrivial, s);
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
