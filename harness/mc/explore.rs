//! The explorer: stateless depth-first enumeration of every choice sequence of a harness body.
//!
//! A body builds one finite execution out of `Chooser::pick(n)` calls (which notation, which text,
//! which width, which call fails, which iterator is pulled next ...). The explorer runs the body on
//! every possible sequence of answers, exactly once each, by the usual prefix scheme: run with a
//! prefix and answer 0 afterwards; then branch on every later choice point. Work is shared between
//! threads by donating the shallowest pending prefixes.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct Chooser {
    prefix: Vec<u16>,
    pub trace: Vec<(u16, u16)>,
}

impl Chooser {
    pub fn new(prefix: Vec<u16>) -> Chooser {
        Chooser {
            prefix,
            trace: Vec::with_capacity(32),
        }
    }

    /// Choose one of `0..n`.
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n >= 1 && n < 60000, "harness: pick({})", n);
        if n == 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            self.prefix[i]
        } else {
            0
        };
        assert!(
            (c as usize) < n,
            "harness: replayed choice out of range (nondeterministic body?)"
        );
        self.trace.push((c, n as u16));
        c as usize
    }

    pub fn choices(&self) -> Vec<u16> {
        self.trace.iter().map(|t| t.0).collect()
    }
}

/// What one execution came to.
pub enum Verdict {
    /// Property evaluated and held.
    Ok,
    /// The choice sequence is not a member of the universe (e.g. notation rejected by validation).
    Skip,
    /// Property broken.
    Bad(String),
    /// Property broken on an input that has a name: reported as a known finding if the committed
    /// known-findings file lists that name for this property, and as a violation otherwise.
    BadNamed(&'static str, String),
}

#[derive(Default)]
pub struct Stats {
    pub counters: BTreeMap<&'static str, u64>,
    pub outcomes: HashSet<u64>,
    pub outcomes_capped: bool,
    pub samples: Vec<String>,
    pub want_sample: bool,
    /// known findings that were seen to fail
    pub known: BTreeMap<&'static str, String>,
}

const OUTCOME_CAP: usize = 400_000;

impl Stats {
    pub fn add(&mut self, key: &'static str, n: u64) {
        *self.counters.entry(key).or_insert(0) += n;
    }
    pub fn outcome(&mut self, h: u64) {
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(h);
        } else {
            self.outcomes_capped = true;
        }
    }
    pub fn merge(&mut self, other: Stats) {
        for (k, v) in other.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.outcomes_capped |= other.outcomes_capped;
        self.outcomes.extend(other.outcomes);
        self.samples.extend(other.samples);
        self.known.extend(other.known);
    }
    pub fn get(&self, key: &str) -> u64 {
        self.counters.get(key).copied().unwrap_or(0)
    }
}

pub fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type Body = Arc<dyn Fn(&mut Chooser, &mut Stats) -> Verdict + Send + Sync>;

/// One bounded space of executions.
#[derive(Clone)]
pub struct Universe {
    pub name: String,
    pub describe: String,
    pub body: Body,
}

pub struct Found {
    pub universe: String,
    pub choices: Vec<u16>,
    pub message: String,
}

pub struct Report {
    pub universe: String,
    pub describe: String,
    pub executions: u64,
    pub skipped: u64,
    pub complete: bool,
    pub stats: Stats,
    pub found: Option<Found>,
    pub wall: f64,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

/// Starts the message of a panic of the harness that is a verdict.
pub const SELF_REPORT: &str = "self-report:";

/// Run code of the system under test, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

/// Execute one choice sequence. A panic that escapes the body is a violation if it comes from the
/// code under test, and a harness error otherwise.
pub fn run_one(body: &Body, prefix: Vec<u16>, stats: &mut Stats) -> (Verdict, Chooser) {
    let mut ch = Chooser::new(prefix);
    let r = guarded(|| body(&mut ch, stats));
    match r {
        Ok(v) => (v, ch),
        Err(msg) => {
            // Our own sources are compiled as mc/*.rs: a panic there is a bug of the harness, not a
            // verdict. Everything else (the crate's src/*.rs, or core/std called from it) is the
            // code under test.
            // (SELF_REPORT: what a line says of itself is compared right where it is printed.)
            if msg.contains("harness:") || (msg.contains(" at mc/") && !msg.contains(SELF_REPORT)) {
                eprintln!("HARNESS ERROR: {} choices={:?}", msg, ch.choices());
                std::process::exit(3);
            }
            (Verdict::Bad(format!("panic: {}", msg)), ch)
        }
    }
}

/// Shared memory slots: the choice prefix each worker is currently executing. If the process dies
/// (stack overflow, out of memory), the supervisor replays these in isolation.
pub struct Slots {
    base: *mut u16,
    pub n: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
pub const SLOT_LEN: usize = 512;

impl Slots {
    pub fn open(path: &str, n: usize) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("harness: slots file");
        let bytes = n * SLOT_LEN * 2;
        f.set_len(bytes as u64).expect("harness: slots len");
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                bytes,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(base != libc::MAP_FAILED, "harness: mmap");
        Slots {
            base: base as *mut u16,
            n,
        }
    }
    pub fn put(&self, slot: usize, prefix: &[u16]) {
        let len = prefix.len().min(SLOT_LEN - 2);
        unsafe {
            let p = self.base.add(slot * SLOT_LEN);
            std::ptr::copy_nonoverlapping(prefix.as_ptr(), p.add(1), len);
            *p = len as u16 + 1;
        }
    }
    pub fn clear(&self, slot: usize) {
        unsafe { *self.base.add(slot * SLOT_LEN) = 0 }
    }
    pub fn get(&self, slot: usize) -> Option<Vec<u16>> {
        unsafe {
            let p = self.base.add(slot * SLOT_LEN);
            let len = *p as usize;
            if len == 0 || len > SLOT_LEN {
                return None;
            }
            Some((1..len).map(|i| *p.add(i)).collect())
        }
    }
}

struct Shared {
    queue: Mutex<Vec<Vec<u16>>>,
    cond: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    done: AtomicBool,
    found: Mutex<Option<Found>>,
    execs: AtomicU64,
    skips: AtomicU64,
    /// per worker: milliseconds since start at which the current execution began, 0 = none
    started: Vec<AtomicU64>,
}

pub struct Limits {
    pub threads: usize,
    pub wall: Duration,
    /// an execution that runs longer than this does not terminate
    pub hang: Duration,
    pub rss_bytes: u64,
    /// names listed in the known-findings file for this property
    pub known: Vec<String>,
}

fn rss_bytes() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

pub fn explore(u: &Universe, lim: &Limits, slots: &Arc<Slots>, on_hang: &dyn Fn(Found)) -> Report {
    let t0 = Instant::now();
    let n = lim.threads;
    let sh = Arc::new(Shared {
        queue: Mutex::new(vec![vec![]]),
        cond: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        done: AtomicBool::new(false),
        found: Mutex::new(None),
        execs: AtomicU64::new(0),
        skips: AtomicU64::new(0),
        started: (0..n).map(|_| AtomicU64::new(0)).collect(),
    });
    let mut handles = Vec::new();
    for w in 0..n {
        let sh = sh.clone();
        let body = u.body.clone();
        let name = u.name.clone();
        let slots = slots.clone();
        let known = lim.known.clone();
        let h = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || worker(w, n, sh, body, name, slots, t0, known))
            .expect("harness: spawn");
        handles.push(h);
    }
    let mut capped = false;
    loop {
        if sh.done.load(Ordering::SeqCst) || sh.stop.load(Ordering::SeqCst) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        if t0.elapsed() > lim.wall {
            capped = true;
            sh.stop.store(true, Ordering::SeqCst);
        }
        let now = t0.elapsed().as_millis() as u64 + 1;
        let rss = rss_bytes();
        for w in 0..n {
            let s = sh.started[w].load(Ordering::SeqCst);
            if s == 0 {
                continue;
            }
            let ran = now.saturating_sub(s);
            if ran > lim.hang.as_millis() as u64 || (rss > lim.rss_bytes && ran > 1000) {
                if let Some(p) = slots.get(w) {
                    on_hang(Found {
                        universe: u.name.clone(),
                        choices: p,
                        message: format!(
                            "does not terminate: one execution has run for {} ms (memory in use {} MB)",
                            ran,
                            rss >> 20
                        ),
                    });
                }
            }
        }
    }
    sh.cond.notify_all();
    let mut stats = Stats::default();
    // Workers only block on the queue; a hung execution was dealt with above, or ends the wait here.
    for (w, h) in handles.into_iter().enumerate() {
        let t1 = Instant::now();
        while !h.is_finished() {
            sh.cond.notify_all();
            std::thread::sleep(Duration::from_millis(2));
            if t1.elapsed() > lim.hang {
                if let Some(p) = slots.get(w) {
                    on_hang(Found {
                        universe: u.name.clone(),
                        choices: p,
                        message: "does not terminate".to_string(),
                    });
                }
                panic!("harness: worker stuck");
            }
        }
        stats.merge(h.join().expect("harness: worker died"));
    }
    let found = sh.found.lock().unwrap().take();
    Report {
        universe: u.name.clone(),
        describe: u.describe.clone(),
        executions: sh.execs.load(Ordering::SeqCst),
        skipped: sh.skips.load(Ordering::SeqCst),
        complete: !capped && found.is_none(),
        stats,
        found,
        wall: t0.elapsed().as_secs_f64(),
    }
}

fn worker(
    w: usize,
    n: usize,
    sh: Arc<Shared>,
    body: Body,
    uname: String,
    slots: Arc<Slots>,
    t0: Instant,
    known: Vec<String>,
) -> Stats {
    let mut stats = Stats::default();
    let mut stack: Vec<Vec<u16>> = Vec::new();
    let mut execs = 0u64;
    let mut skips = 0u64;
    'outer: loop {
        let prefix = match stack.pop() {
            Some(p) => p,
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.idle.fetch_add(1, Ordering::SeqCst);
                loop {
                    if sh.stop.load(Ordering::SeqCst) {
                        break 'outer;
                    }
                    if let Some(p) = q.pop() {
                        sh.idle.fetch_sub(1, Ordering::SeqCst);
                        break p;
                    }
                    if sh.idle.load(Ordering::SeqCst) == n {
                        sh.done.store(true, Ordering::SeqCst);
                        sh.cond.notify_all();
                        break 'outer;
                    }
                    let (g, _) = sh.cond.wait_timeout(q, Duration::from_millis(5)).unwrap();
                    q = g;
                    if sh.done.load(Ordering::SeqCst) {
                        break 'outer;
                    }
                }
            }
        };
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        slots.put(w, &prefix);
        sh.started[w].store(t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let plen = prefix.len();
        // A handful of sample executions, spread out over the run.
        let e = execs;
        stats.want_sample = w == 0 && stats.samples.len() < 6 && (e & (e + 1)) == 0 && e > 30;
        let (v, ch) = run_one(&body, prefix, &mut stats);
        let v = match v {
            Verdict::BadNamed(name, msg) if known.iter().any(|k| k == name) => {
                stats.known.insert(name, msg);
                Verdict::Ok
            }
            Verdict::BadNamed(_, msg) => Verdict::Bad(msg),
            v => v,
        };
        sh.started[w].store(0, Ordering::SeqCst);
        slots.clear(w);
        match v {
            Verdict::Ok => execs += 1,
            Verdict::Skip => skips += 1,
            Verdict::BadNamed(..) => unreachable!(),
            Verdict::Bad(message) => {
                execs += 1;
                let mut f = sh.found.lock().unwrap();
                let c = ch.choices();
                let better = match &*f {
                    None => true,
                    Some(o) => (c.len(), &c) < (o.choices.len(), &o.choices),
                };
                if better {
                    *f = Some(Found {
                        universe: uname.clone(),
                        choices: c,
                        message,
                    });
                }
                sh.stop.store(true, Ordering::SeqCst);
                sh.cond.notify_all();
                break;
            }
        }
        for i in (plen..ch.trace.len()).rev() {
            let (_, m) = ch.trace[i];
            for alt in (1..m).rev() {
                let mut p: Vec<u16> = ch.trace[..i].iter().map(|t| t.0).collect();
                p.push(alt);
                stack.push(p);
            }
        }
        if stack.len() > 1 && sh.idle.load(Ordering::Relaxed) > 0 {
            let k = stack.len() / 2;
            // bottom of the stack may be deep or shallow; donate the half with the shortest prefixes
            stack.sort_by_key(|p| std::cmp::Reverse(p.len()));
            let give = stack.split_off(stack.len() - k);
            let mut q = sh.queue.lock().unwrap();
            q.extend(give);
            sh.cond.notify_all();
        }
    }
    sh.execs.fetch_add(execs, Ordering::SeqCst);
    sh.skips.fetch_add(skips, Ordering::SeqCst);
    stats
}
