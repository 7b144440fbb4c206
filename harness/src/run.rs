//! Case scheduling, panic capture, coverage accounting and reports.
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Distinct cases are counted up to this many per process.
pub const MAX_KEYS: usize = 1 << 20;

pub type R = Result<(), String>;
pub type CaseFn = fn(&mut Cx) -> R;

/// One kind of monitored execution of a property's workload.
pub struct Kind {
    pub name: &'static str,
    /// share of the property's cases
    pub weight: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    /// cases per build at the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub kinds: Vec<Kind>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// interpreters (Miri, valgrind): tiny inputs
    Tiny,
}

#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub keys: HashSet<u64>,
    pub events: BTreeMap<String, u64>,
    pub sample: Option<String>,
}

pub struct Cx {
    pub rng: ChaCha8Rng,
    pub obs: Obs,
    pub tier: Tier,
    pub seed: u64,
    pub case: u64,
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z ^ (z >> 31)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

impl Cx {
    /// One oracle evaluation. `key` identifies the case; trivial ones (an
    /// operand that makes the oracle vacuous) do not count as distinct.
    pub fn eval<T: Hash>(&mut self, nontrivial: bool, key: &T) {
        self.obs.evals += 1;
        if nontrivial && self.obs.keys.len() < MAX_KEYS {
            self.obs.keys.insert(hash(key));
        }
    }
    pub fn event(&mut self, name: &str) {
        self.events(name, 1);
    }
    pub fn events(&mut self, name: &str, n: u64) {
        *self.obs.events.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.obs.sample.is_none() {
            self.obs.sample = Some(f());
        }
    }
    /// Case data that depends on `seed` only.
    pub fn derived(seed: u64, tier: Tier) -> Cx {
        Cx { rng: ChaCha8Rng::seed_from_u64(seed), obs: Obs::default(), tier, seed, case: 0 }
    }
    pub fn tiny(&self) -> bool {
        self.tier == Tier::Tiny
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
static VERBOSE: AtomicBool = AtomicBool::new(false);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if VERBOSE.load(Ordering::Relaxed) {
            eprintln!("panic at {}: {}", loc, msg);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {}: {}", loc, msg));
    }));
}

/// Runs `f`, returning what it panicked with, if it did.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn mix(a: u64, b: u64) -> u64 {
    hash(&(a, b, 0x5bd1e995u64))
}

/// Runs one case in a thread of its own, with its own entropy.
fn run_case(prop: &Prop, seed: u64, case: u64, tier: Tier) -> (Obs, R, &'static str) {
    let total: u64 = prop.kinds.iter().map(|k| k.weight).sum();
    let mut slot = case % total;
    let mut kind = &prop.kinds[0];
    for k in &prop.kinds {
        if slot < k.weight {
            kind = k;
            break;
        }
        slot -= k.weight;
    }
    let f = kind.f;
    let id = prop.id;
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let s = mix(mix(seed, hash(&id)), case);
            getrandom::vp_seed(s);
            let mut cx = Cx {
                rng: ChaCha8Rng::seed_from_u64(s ^ 0xabcdef),
                obs: Obs::default(),
                tier,
                seed,
                case,
            };
            let r = match catch(|| f(&mut cx)) {
                Ok(r) => r,
                Err(p) => Err(p),
            };
            (cx.obs, r)
        })
        .expect("spawn");
    match h.join() {
        Ok((o, r)) => (o, r, kind.name),
        Err(_) => (Obs::default(), Err("case thread died".into()), kind.name),
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub first: u64,
    pub cases: u64,
    pub jobs: usize,
    pub time_limit: Duration,
    pub case_limit: Duration,
    pub report: String,
    pub keys: String,
    pub verbose: bool,
}

/// Exit code: 0 held, 1 violated, 3 inconclusive.
pub fn run(prop: &Prop, o: &Opts) -> i32 {
    VERBOSE.store(o.verbose, Ordering::Relaxed);
    install_hook();
    let t0 = Instant::now();
    let next = AtomicU64::new(o.first);
    let stop = AtomicBool::new(false);
    let running = AtomicUsize::new(0);
    let acc: Mutex<(Obs, Vec<String>, BTreeMap<&'static str, u64>)> =
        Mutex::new((Obs::default(), vec![], BTreeMap::new()));
    let fails: Mutex<Vec<(u64, &'static str, String)>> = Mutex::new(vec![]);
    let done = AtomicU64::new(0);
    let slots: Vec<Mutex<Option<(u64, Instant)>>> = (0..o.jobs).map(|_| Mutex::new(None)).collect();
    let hung: Mutex<Option<u64>> = Mutex::new(None);
    std::thread::scope(|s| {
        for w in 0..o.jobs {
            running.fetch_add(1, Ordering::SeqCst);
            let (next, stop, acc, fails, done, slots, running) =
                (&next, &stop, &acc, &fails, &done, &slots, &running);
            s.spawn(move || {
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed() > o.time_limit {
                        break;
                    }
                    let c = next.fetch_add(1, Ordering::SeqCst);
                    if c >= o.first + o.cases {
                        break;
                    }
                    *slots[w].lock().unwrap() = Some((c, Instant::now()));
                    let (obs, r, kind) = run_case(prop, o.seed, c, o.tier);
                    *slots[w].lock().unwrap() = None;
                    done.fetch_add(1, Ordering::SeqCst);
                    let mut a = acc.lock().unwrap();
                    a.0.evals += obs.evals;
                    if a.0.keys.len() < MAX_KEYS {
                        a.0.keys.extend(obs.keys);
                    }
                    for (k, v) in obs.events {
                        *a.0.events.entry(k).or_insert(0) += v;
                    }
                    *a.2.entry(kind).or_insert(0) += 1;
                    if let Some(sm) = obs.sample {
                        let have = a.1.iter().filter(|x| x.starts_with(kind)).count();
                        if have < 2 && a.1.len() < 24 {
                            a.1.push(format!("{} case={}: {}", kind, c, sm));
                        }
                    }
                    drop(a);
                    if let Err(m) = r {
                        let mut f = fails.lock().unwrap();
                        f.push((c, kind, m));
                        if f.len() >= 8 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                running.fetch_sub(1, Ordering::SeqCst);
            });
        }
        // Watchdog: a case that does not end is inconclusive, not a violation.
        loop {
            if running.load(Ordering::SeqCst) == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
            for sl in &slots {
                let v = *sl.lock().unwrap();
                if let Some((c, t)) = v {
                    if t.elapsed() > o.case_limit {
                        *hung.lock().unwrap() = Some(c);
                    }
                }
            }
            if let Some(c) = *hung.lock().unwrap() {
                let f = fails.lock().unwrap();
                if let Some((fc, k, m)) = f.first() {
                    println!("FAIL case={} kind={} {}", fc, k, m);
                    std::process::exit(1);
                }
                println!("INCONCLUSIVE case={} did not end within {:?}", c, o.case_limit);
                std::process::exit(3);
            }
        }
    });
    let (obs, samples, kinds) = acc.into_inner().unwrap();
    let mut fails = fails.into_inner().unwrap();
    fails.sort();
    let done = done.into_inner();
    let mut out = String::from("{");
    out += &format!("\"property\":{},", esc(prop.id));
    out += &format!("\"rule\":{},", esc(prop.rule));
    out += &format!("\"seed\":{},\"first_case\":{},\"cases\":{},", o.seed, o.first, done);
    out += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},", obs.evals, obs.keys.len());
    out += "\"cases_by_kind\":{";
    out += &kinds.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    out += "},\"events\":{";
    out += &obs.events.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    out += "},\"samples\":[";
    out += &samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
    out += "],\"failures\":[";
    out += &fails
        .iter()
        .map(|(c, k, m)| format!("{{\"case\":{},\"kind\":{},\"message\":{}}}", c, esc(k), esc(m)))
        .collect::<Vec<_>>()
        .join(",");
    out += &format!("],\"wall_s\":{:.3}}}", t0.elapsed().as_secs_f64());
    if !o.report.is_empty() {
        std::fs::write(&o.report, &out).expect("report");
    }
    if !o.keys.is_empty() {
        let mut f = std::io::BufWriter::new(std::fs::File::create(&o.keys).expect("keys"));
        for k in &obs.keys {
            f.write_all(&k.to_le_bytes()).unwrap();
        }
    }
    for (c, k, m) in &fails {
        println!("FAIL case={} kind={} {}", c, k, m);
    }
    if !fails.is_empty() {
        return 1;
    }
    if obs.evals == 0 || done < prop.kinds.iter().map(|k| k.weight).sum::<u64>().min(o.cases) {
        println!("INCONCLUSIVE too few observations: cases={} evaluations={}", done, obs.evals);
        return 3;
    }
    println!("held: cases={} evaluations={} distinct={} in {:.1}s", done, obs.evals, obs.keys.len(), t0.elapsed().as_secs_f64());
    0
}
