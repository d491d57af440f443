//! Explorer framework: cases, partitioned exhaustive enumeration, statistics, supervisor.
use crate::server::{Out, Req, Server};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// One element of the explored space, complete enough to be replayed on its own.
#[derive(Clone, Hash, PartialEq, Eq, Debug)]
pub struct Case {
    pub kind: String,
    pub nums: Vec<i64>,
    pub words: Vec<Vec<u8>>,
}
impl Case {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![];
        v.extend((self.kind.len() as u32).to_le_bytes());
        v.extend(self.kind.as_bytes());
        v.extend((self.nums.len() as u32).to_le_bytes());
        for x in &self.nums {
            v.extend(x.to_le_bytes());
        }
        v.extend((self.words.len() as u32).to_le_bytes());
        for w in &self.words {
            v.extend((w.len() as u32).to_le_bytes());
            v.extend(w);
        }
        v
    }
    pub fn decode(b: &[u8]) -> Option<Case> {
        let mut p = 0usize;
        fn u(b: &[u8], p: &mut usize) -> Option<usize> {
            let x = u32::from_le_bytes(b.get(*p..*p + 4)?.try_into().ok()?) as usize;
            *p += 4;
            Some(x)
        }
        let l = u(b, &mut p)?;
        let kind = String::from_utf8(b.get(p..p + l)?.to_vec()).ok()?;
        p += l;
        let n = u(b, &mut p)?;
        let mut nums = vec![];
        for _ in 0..n {
            nums.push(i64::from_le_bytes(b.get(p..p + 8)?.try_into().ok()?));
            p += 8;
        }
        let n = u(b, &mut p)?;
        let mut words = vec![];
        for _ in 0..n {
            let l = u(b, &mut p)?;
            words.push(b.get(p..p + l)?.to_vec());
            p += l;
        }
        Some(Case { kind, nums, words })
    }
    /// one-line text form: kind [numbers] [hex words], `-` being the empty word
    pub fn line(&self) -> String {
        let h = |w: &Vec<u8>| {
            if w.is_empty() { "-".to_string() } else { w.iter().map(|c| format!("{:02x}", c)).collect::<String>() }
        };
        format!(
            "{} [{}] [{}]",
            self.kind,
            self.nums.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
            self.words.iter().map(h).collect::<Vec<_>>().join(",")
        )
    }
    pub fn parse(s: &str) -> Option<Case> {
        let mut it = s.trim().splitn(3, ' ');
        let kind = it.next()?.to_string();
        let inner = |x: &str| -> Option<String> { Some(x.strip_prefix('[')?.strip_suffix(']')?.to_string()) };
        let nums = inner(it.next()?)?;
        let words = inner(it.next()?)?;
        let nums = nums.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect::<Option<Vec<i64>>>()?;
        let words = words
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|w| {
                if w == "-" {
                    return Some(vec![]);
                }
                (0..w.len() / 2).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>()
            })
            .collect::<Option<Vec<_>>>()?;
        Some(Case { kind, nums, words })
    }
    pub fn show(&self) -> String {
        format!(
            "{}{} {}",
            self.kind,
            crate::util::list(&self.nums),
            self.words.iter().map(|w| crate::util::show(w)).collect::<Vec<_>>().join(" ")
        )
    }
    pub fn size(&self) -> usize {
        self.words.iter().map(|w| w.len()).sum::<usize>() + self.nums.len()
    }
    pub fn num(&self, i: usize) -> i64 {
        self.nums.get(i).cloned().unwrap_or(0)
    }
}

pub enum Fail {
    Bad(String),
    Infra(String),
}
pub type R = Result<(), Fail>;
pub fn bad<T>(s: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Bad(s.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::framework::Fail::Bad(format!($($a)*))); } };
}

/// Per-thread execution environment of the judges.
pub struct Env {
    pub servers: HashMap<String, Server>,
    pub bins: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub steps: u64,
    pub validated: u64,
    pub outcomes: HashSet<u64>,
    pub outcome_cap_hit: bool,
    pub note: Option<String>,
    pub thorough: bool,
}
impl Env {
    pub fn new(bins: &Path, shim: &Path, scratch: &Path, thorough: bool) -> Env {
        std::fs::create_dir_all(scratch).unwrap();
        Env {
            servers: HashMap::new(),
            bins: bins.to_path_buf(),
            shim: shim.to_path_buf(),
            scratch: scratch.to_path_buf(),
            steps: 0,
            validated: 0,
            outcomes: HashSet::new(),
            outcome_cap_hit: false,
            note: None,
            thorough,
        }
    }
    /// one execution of a real program
    pub fn run(&mut self, prog: &str, req: &Req) -> Result<Out, Fail> {
        self.steps += 1;
        for attempt in 0..2 {
            if !self.servers.contains_key(prog) {
                let s = Server::start(&self.bins.join(prog), &self.shim, &self.scratch).map_err(Fail::Infra)?;
                self.servers.insert(prog.to_string(), s);
            }
            match self.servers.get_mut(prog).unwrap().run(prog, req) {
                Ok(o) => return Ok(o),
                Err(e) => {
                    self.servers.remove(prog);
                    if attempt == 1 {
                        return Err(Fail::Infra(format!("{}: {}", prog, e)));
                    }
                }
            }
        }
        unreachable!()
    }
    pub fn file(&self, name: &str) -> String {
        self.scratch.join(name).to_str().unwrap().to_string()
    }
    /// records an observed outcome (to report how many distinct behaviours were seen)
    pub fn seen<T: Hash>(&mut self, x: &T) {
        self.validated += 1;
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(hash64(x));
        } else {
            self.outcome_cap_hit = true;
        }
    }
    pub fn step(&mut self) {
        crate::util::beat();
        self.steps += 1;
    }
}
pub fn hash64<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub struct Violation {
    pub case: Case,
    pub msg: String,
}

pub const SLOT: usize = 16 << 20;
/// shared-memory record of the case a thread is working on, read by the supervisor after a crash
pub struct Slots {
    pub base: *mut u8,
    pub n: usize,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    pub fn map(path: &Path, n: usize) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len((n * SLOT) as u64).unwrap();
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), n * SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Slots { base: p as *mut u8, n }
    }
    fn seq(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.base.add(i * SLOT) as *const AtomicU64) }
    }
    /// counts the steps of the thread (the mapping is never removed)
    pub fn beat(&self, i: usize) -> &'static AtomicU64 {
        unsafe { &*(self.base.add((i + 1) * SLOT - 8) as *const AtomicU64) }
    }
    pub fn put(&self, i: usize, c: &[u8]) {
        let s = self.seq(i);
        let k = s.load(Ordering::Relaxed);
        unsafe {
            let p = self.base.add(i * SLOT);
            *(p.add(8) as *mut u32) = if c.len() + 24 <= SLOT { c.len() as u32 } else { 0 };
            if c.len() + 24 <= SLOT {
                std::ptr::copy_nonoverlapping(c.as_ptr(), p.add(12), c.len());
            }
        }
        s.store(k + 1, Ordering::Release);
    }
    pub fn clear(&self, i: usize) {
        let s = self.seq(i);
        unsafe {
            *(self.base.add(i * SLOT).add(8) as *mut u32) = 0;
        }
        s.fetch_add(1, Ordering::Release);
    }
    pub fn progress(&self) -> Vec<u64> {
        (0..self.n).map(|i| self.seq(i).load(Ordering::Acquire).wrapping_add(self.beat(i).load(Ordering::Relaxed))).collect()
    }
    pub fn get(&self, i: usize) -> Option<Case> {
        unsafe {
            let p = self.base.add(i * SLOT);
            let l = *(p.add(8) as *const u32) as usize;
            if l == 0 {
                return None;
            }
            Case::decode(std::slice::from_raw_parts(p.add(12), l))
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub per_space: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Vec<String>>,
}

/// What an explorer sees: it enumerates *all* cases of its space in every thread; each case is
/// judged by exactly one thread (chosen by hash) and at most once.
pub struct Ctx<'a> {
    pub env: Env,
    pub tid: usize,
    pub nthreads: usize,
    pub prop: &'static Prop,
    pub stop: &'a AtomicBool,
    pub deadline: Instant,
    pub capped: bool,
    pub stats: Stats,
    pub visited: HashSet<u64>,
    pub space: String,
    pub violation: Option<Violation>,
    pub infra: Option<String>,
    pub slots: &'a Slots,
    pub known: &'a HashSet<String>,
    pub thorough: bool,
}
impl<'a> Ctx<'a> {
    pub fn space(&mut self, s: &str) {
        self.space = s.to_string();
        self.stats.per_space.entry(s.to_string()).or_insert(0);
    }
    /// quick or thorough bound
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn done(&self) -> bool {
        self.capped || self.violation.is_some() || self.infra.is_some() || self.stop.load(Ordering::Relaxed)
    }
    pub fn mine(&self, kind: &str, nums: &[i64], words: &[&[u8]]) -> Option<u64> {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        kind.hash(&mut h);
        nums.hash(&mut h);
        words.hash(&mut h);
        let x = h.finish();
        if (x >> 20) as usize % self.nthreads == self.tid { Some(x) } else { None }
    }
    pub fn case(&mut self, kind: &str, nums: &[i64], words: &[&[u8]]) {
        if self.done() {
            return;
        }
        let h = match self.mine(kind, nums, words) {
            Some(h) => h,
            None => return,
        };
        if !self.visited.insert(h) {
            return;
        }
        if Instant::now() > self.deadline {
            self.capped = true;
            return;
        }
        let c = Case { kind: kind.to_string(), nums: nums.to_vec(), words: words.iter().map(|w| w.to_vec()).collect() };
        self.slots.put(self.tid, &c.encode());
        self.stats.states += 1;
        *self.stats.per_space.get_mut(&self.space).expect("space() not called") += 1;
        self.env.note = None;
        let r = judge_caught(self.prop, &mut self.env, &c);
        if r.is_ok() {
            self.slots.clear(self.tid);
        }
        match r {
            Ok(()) => {
                let s = self.stats.samples.entry(self.space.clone()).or_default();
                if s.len() < 2 && c.size() >= 3 || s.is_empty() {
                    let mut t = c.show();
                    if let Some(n) = &self.env.note {
                        t.push_str(" => ");
                        t.push_str(n);
                    }
                    t.truncate(t.char_indices().nth(400).map(|x| x.0).unwrap_or(t.len()));
                    s.push(t);
                }
            }
            Err(Fail::Infra(e)) => {
                self.infra = Some(format!("{} on {}", e, c.show()));
                self.stop.store(true, Ordering::Relaxed);
            }
            Err(Fail::Bad(msg)) => {
                if self.known.contains(&c.line()) {
                    return;
                }
                // determinism: the same case must fail again, in fresh servers
                self.env.servers.clear();
                match judge_caught(self.prop, &mut self.env, &c) {
                    Err(Fail::Bad(m2)) => {
                        self.violation = Some(Violation { case: c, msg: m2 });
                        self.stop.store(true, Ordering::Relaxed);
                    }
                    Err(Fail::Infra(e)) => {
                        self.infra = Some(e);
                        self.stop.store(true, Ordering::Relaxed);
                    }
                    Ok(()) => {
                        self.infra = Some(format!("verdict not reproducible: {} on {}", msg, c.show()));
                        self.stop.store(true, Ordering::Relaxed);
                    }
                }
            }
        }
    }
}

thread_local! {
    pub static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// a panic inside a judge comes from the library under test (the judges themselves are silent on the unchanged tree)
pub fn judge_caught(p: &Prop, env: &mut Env, c: &Case) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.judge)(env, c))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            bad(format!("panic: {}", m))
        }
    }
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = Some(s));
    }));
}

pub struct Prop {
    pub id: &'static str,
    pub explore: fn(&mut Ctx),
    pub judge: fn(&mut Env, &Case) -> R,
    /// programs of /repo this property executes
    pub progs: &'static [&'static str],
    /// what is enumerated and the bounds
    pub what: &'static str,
    pub bounds: &'static str,
    pub oracle: &'static str,
    pub fault: bool,
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Config {
    pub bins: PathBuf,
    pub shim: PathBuf,
    pub scratch: PathBuf,
    pub threads: usize,
    pub thorough: bool,
    pub cap_s: u64,
    pub known: HashSet<String>,
}

pub struct Report {
    pub states: u64,
    pub steps: u64,
    pub validated: u64,
    pub outcomes: usize,
    pub per_space: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub capped: bool,
    pub violation: Option<Violation>,
    pub infra: Option<String>,
}

pub fn explore_all(p: &'static Prop, cfg: &Config, slots: &Slots) -> Report {
    let stop = AtomicBool::new(false);
    let deadline = Instant::now() + Duration::from_secs(cfg.cap_s);
    let n = cfg.threads;
    let mut ctxs: Vec<Ctx> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|tid| {
                let stop = &stop;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        crate::util::set_beat(slots.beat(tid));
                        let mut ctx = Ctx {
                            env: Env::new(&cfg.bins, &cfg.shim, &cfg.scratch.join(format!("t{}", tid)), cfg.thorough),
                            tid,
                            nthreads: n,
                            prop: p,
                            stop,
                            deadline,
                            capped: false,
                            stats: Stats::default(),
                            visited: HashSet::new(),
                            space: String::new(),
                            violation: None,
                            infra: None,
                            slots,
                            known: &cfg.known,
                            thorough: cfg.thorough,
                        };
                        (p.explore)(&mut ctx);
                        slots.clear(tid);
                        ctx.env.servers.clear();
                        ctx.visited = HashSet::new();
                        ctx
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("explorer thread")).collect()
    });
    let mut r = Report {
        states: 0,
        steps: 0,
        validated: 0,
        outcomes: 0,
        per_space: BTreeMap::new(),
        samples: vec![],
        capped: false,
        violation: None,
        infra: None,
    };
    let mut all: HashSet<u64> = HashSet::new();
    let mut samples: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for c in ctxs.iter_mut() {
        r.states += c.stats.states;
        r.steps += c.env.steps;
        r.validated += c.env.validated;
        all.extend(c.env.outcomes.drain());
        r.capped |= c.capped;
        for (k, v) in &c.stats.per_space {
            *r.per_space.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &c.stats.samples {
            samples.entry(k.clone()).or_default().extend(v.iter().cloned());
        }
        if let Some(v) = c.violation.take() {
            if r.violation.as_ref().map_or(true, |o| v.case.size() < o.case.size()) {
                r.violation = Some(v);
            }
        }
        if let Some(e) = c.infra.take() {
            r.infra = Some(e);
        }
    }
    r.outcomes = all.len();
    for (k, v) in samples {
        for s in v.into_iter().take(2) {
            r.samples.push(format!("{}: {}", k, s));
        }
    }
    r.samples.truncate(40);
    r
}
