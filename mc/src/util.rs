//! Shared machinery: case execution, violation bookkeeping, evidence output.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub const THREADS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub key: String,
    pub detail: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub replay: Option<String>,
    pub evaluations: AtomicU64,
    pub transitions: AtomicU64,
    pub nontrivial: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Vec<Mutex<HashSet<u64>>>,
    violations: Mutex<Vec<Violation>>,
    nviol: AtomicUsize,
    known: BTreeMap<String, String>,
    known_hit: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, String>>,
    start: Instant,
    slots: Vec<Mutex<(Option<Instant>, String)>>,
    done: AtomicBool,
    trace: Option<Vec<std::fs::File>>,
    pub root: String,
}

/// FNV-1a, used to fingerprint observed states; no randomness involved.
#[derive(Clone)]
pub struct Fp(pub u64);
impl Fp {
    pub fn new() -> Self {
        Fp(0xcbf29ce484222325)
    }
    pub fn bytes(&mut self, b: &[u8]) -> &mut Self {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        self
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        self.bytes(&x.to_le_bytes())
    }
    pub fn f(&mut self, x: f32) -> &mut Self {
        // coarse: outcomes that differ only by rounding count as one
        let q = if x.is_nan() { i64::MIN } else { (x as f64 * 4096.0).round() as i64 };
        self.u(q as u64)
    }
    pub fn s(&mut self, s: &str) -> &mut Self {
        self.bytes(s.as_bytes()).u(0xff)
    }
    pub fn get(&self) -> u64 {
        self.0
    }
}
pub fn fp_str(s: &str) -> u64 {
    Fp::new().s(s).get()
}

thread_local! {
    pub static WORKER: RefCell<usize> = const { RefCell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

/// Runs `f`; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64, replay: Option<String>, root: &str) -> Self {
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
            for l in t.lines() {
                // open: property=<id> case=<key> :: <what fails>
                if let Some(r) = l.strip_prefix("open: property=") {
                    if let Some((p, r)) = r.split_once(" case=") {
                        if p == id {
                            let (k, d) = r.split_once(" :: ").unwrap_or((r, ""));
                            known.insert(k.to_string(), d.to_string());
                        }
                    }
                }
            }
        }
        Ctx {
            id: id.into(),
            tier,
            seed,
            replay,
            evaluations: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            outcomes: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            violations: Mutex::new(vec![]),
            nviol: AtomicUsize::new(0),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            extra: Mutex::new(BTreeMap::new()),
            start: Instant::now(),
            slots: (0..THREADS + 1).map(|_| Mutex::new((None, String::new()))).collect(),
            done: AtomicBool::new(false),
            trace: std::env::var("MC_TRACE").ok().map(|d| {
                (0..THREADS + 1)
                    .map(|i| std::fs::File::create(format!("{d}/w{i}")).expect("trace file"))
                    .collect()
            }),
            root: root.into(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn state(&self, h: u64) {
        self.states[(h >> 58) as usize].lock().unwrap().insert(h);
    }
    pub fn outcome(&self, h: u64) {
        self.outcomes[(h >> 58) as usize].lock().unwrap().insert(h);
    }
    pub fn steps(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.extra.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn add(&self, k: &str, n: u64) {
        let mut e = self.extra.lock().unwrap();
        let c = e.get(k).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
        e.insert(k.into(), (c + n).to_string());
    }
    pub fn stop(&self) -> bool {
        self.nviol.load(Relaxed) >= 20 && std::env::var_os("MC_DISTINCT").is_none()
    }

    /// Evaluates one case.  `f` returns a fingerprint of what was observed, or
    /// a description of how the property failed.  A panic of the code under
    /// test that `f` does not handle itself is a failure of the case.
    pub fn case(&self, key: &str, f: impl FnOnce() -> Result<u64, String>) {
        if let Some(r) = &self.replay {
            if *r != key.replace('\n', "\\n") {
                return;
            }
        }
        let w = WORKER.with(|w| *w.borrow());
        {
            let mut s = self.slots[w].lock().unwrap();
            s.0 = Some(Instant::now());
            s.1.clear();
            s.1.push_str(key);
        }
        if let Some(t) = &self.trace {
            use std::os::unix::fs::FileExt;
            let flat = key.replace('\n', "\\n");
            let _ = t[w].write_all_at(format!("{:8}{}", flat.len(), flat).as_bytes(), 0);
        }
        let r = match guard(f) {
            Ok(r) => r,
            Err(p) => Err(format!("panic: {p}")),
        };
        self.slots[w].lock().unwrap().0 = None;
        let n = self.evaluations.fetch_add(1, Relaxed);
        match r {
            Ok(h) => {
                self.outcome(h);
                if n < 3 || n == 1000 || n == 20000 {
                    self.sample(key);
                }
            }
            Err(d) => self.fail(key, d),
        }
    }
    pub fn sample(&self, key: &str) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(key.to_string());
        }
    }
    pub fn fail(&self, key: &str, detail: String) {
        let flat = key.replace('\n', "\\n");
        if let Some(d) = self.known.get(&flat) {
            self.known_hit.lock().unwrap().insert(flat, d.clone());
            return;
        }
        self.nviol.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        // for working on the checks: one case per kind of failure
        if std::env::var_os("MC_DISTINCT").is_some() && v.iter().any(|x| x.detail.split(" at /").last() == detail.split(" at /").last()) {
            return;
        }
        if v.len() < 20 {
            v.push(Violation { key: key.into(), detail });
        }
    }

    /// Runs `f` over `items` on all cores, in a fixed partition-free order.
    pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
        self.par_n(items.len(), |i| f(&items[i]));
    }
    pub fn par_n(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (THREADS * 64)).clamp(1, 1024);
        std::thread::scope(|s| {
            for t in 0..THREADS {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        WORKER.with(|w| *w.borrow_mut() = t + 1);
                        loop {
                            let i = next.fetch_add(chunk, Relaxed);
                            if i >= n || self.stop() {
                                break;
                            }
                            for k in i..(i + chunk).min(n) {
                                f(k);
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// Watches for cases that never finish.
    pub fn watchdog(&'static self, limit_s: u64) {
        std::thread::spawn(move || loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            if self.done.load(Relaxed) {
                return;
            }
            for s in &self.slots {
                let hung = {
                    let g = s.lock().unwrap();
                    match g.0 {
                        Some(t) if t.elapsed().as_secs() >= limit_s => Some(g.1.clone()),
                        _ => None,
                    }
                };
                if let Some(k) = hung {
                    self.fail(&k, format!("no answer within {limit_s} s (endless loop)"));
                    let code = self.finish("model_checking", "run cut short by a case that never finished", &[], false);
                    std::process::exit(if code == 0 { 1 } else { code });
                }
            }
        });
    }

    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str], exhaustive: bool) -> i32 {
        self.done.store(true, Relaxed);
        let wall = self.start.elapsed().as_secs_f64();
        let viol = self.violations.lock().unwrap();
        let nviol = self.nviol.load(Relaxed);
        let count = |v: &Vec<Mutex<HashSet<u64>>>| v.iter().map(|m| m.lock().unwrap().len()).sum::<usize>();
        let (states, outcomes) = (count(&self.states), count(&self.outcomes));
        let evals = self.evaluations.load(Relaxed);
        let trans = self.transitions.load(Relaxed);
        let known = self.known_hit.lock().unwrap();
        let samples = self.samples.lock().unwrap();
        let mut j = String::new();
        let tier = if self.thorough() { "thorough" } else { "quick" };
        write!(
            j,
            "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"{level}\",\n \"coverage\": {{\n",
            js(&self.id),
            self.seed
        )
        .unwrap();
        let sj = samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        match level {
            "model_checking" => write!(
                j,
                "  \"states\": {states},\n  \"transitions\": {trans},\n  \"traces_validated_against_impl\": {evals},\n  \"distinct_outcomes\": {outcomes},\n"
            )
            .unwrap(),
            _ => write!(
                j,
                "  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {outcomes},\n"
            )
            .unwrap(),
        }
        write!(j, "  \"rule\": {},\n  \"samples\": [{sj}],\n", js(rule)).unwrap();
        for (k, v) in self.extra.lock().unwrap().iter() {
            match v.parse::<f64>() {
                Ok(_) if !v.contains("nf") && !v.contains("aN") => write!(j, "  {}: {v},\n", js(k)).unwrap(),
                _ => write!(j, "  {}: {},\n", js(k), js(v)).unwrap(),
            }
        }
        if !known.is_empty() {
            let l = known.keys().map(|k| js(k)).collect::<Vec<_>>().join(", ");
            write!(j, "  \"known_findings_hit\": [{l}],\n").unwrap();
        }
        let ex = exhaustive && nviol == 0 && self.replay.is_none();
        write!(j, "  \"exhaustive\": {ex}\n }},\n").unwrap();
        let aj = assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
        write!(
            j,
            " \"assumptions\": [{aj}],\n \"wall_s\": {wall:.3},\n \"violations\": {nviol}\n}}\n"
        )
        .unwrap();
        let dir = format!("{}/evidence", self.root);
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        if self.replay.is_none() {
            if let Err(e) = std::fs::write(format!("{dir}/{}.json", self.id), &j) {
                eprintln!("cannot write evidence: {e}");
                return 2;
            }
        }
        println!(
            "{} {tier}: {evals} cases, {trans} steps, {states} states, {outcomes} distinct outcomes, {wall:.1} s",
            self.id
        );
        for (k, d) in known.iter() {
            println!("KNOWN-FINDING: property={} {k} :: {d}", self.id);
        }
        if self.replay.is_some() && evals == 0 {
            eprintln!("the recorded case is not part of this check's space");
            return 2;
        }
        for (i, v) in viol.iter().enumerate() {
            let path = format!("{dir}/replay/{}-{}.txt", self.id, i + 1);
            let text = format!("property: {}\ncase: {}\ndetail: {}\n", self.id, v.key.replace('\n', "\\n"), v.detail);
            if self.replay.is_none() {
                let _ = std::fs::write(&path, text);
            }
            if i < 5 || std::env::var_os("MC_DISTINCT").is_some() {
                println!("VIOLATION property={} replay={}", self.id, self.replay.as_ref().map_or(path.clone(), |_| "-".into()));
                println!("  case: {}", v.key.replace('\n', "\\n"));
                println!("  {}", v.detail);
            }
        }
        if nviol > 0 {
            1
        } else {
            0
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// All words over `alphabet` of exactly `len` symbols.
pub fn words<T: Clone>(alphabet: &[T], len: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..len {
        let mut n = Vec::with_capacity(out.len() * alphabet.len());
        for w in &out {
            for a in alphabet {
                let mut w = w.clone();
                w.push(a.clone());
                n.push(w);
            }
        }
        out = n;
    }
    out
}
/// All words of length `lo..=hi`.
pub fn words_upto<T: Clone>(alphabet: &[T], lo: usize, hi: usize) -> Vec<Vec<T>> {
    (lo..=hi).flat_map(|l| words(alphabet, l)).collect()
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(cur, n, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(&mut vec![], n, &mut out);
    out
}

pub fn close(a: f32, b: f64, tol: f64) -> bool {
    let a = a as f64;
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= tol * (1.0 + b.abs())
}
