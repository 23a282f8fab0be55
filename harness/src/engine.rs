//! Exhaustive explorer: enumerates every point of finite product spaces (a sequence of k
//! operations over an alphabet is the space |alphabet|^k), simplest first, on all cores, running
//! the real code at every point. No sampling, no early stop except at a violation.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const HANG_SECS: u64 = 40;
const STATE_CAP: usize = 2_000_000;
pub const WORKERS: usize = 8;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// When the current stretch of setup (outside all spaces) began, in seconds; MAX inside a space.
static SETUP_SINCE: AtomicU64 = AtomicU64::new(0);
pub const SETUP_SECS: u64 = 300;
/// calls `late` if building the alphabets takes implausibly long (it takes seconds)
pub fn watch_setup(late: impl FnOnce() + Send + 'static) {
    SETUP_SINCE.store(now_ms() / 1000, SeqCst);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let s = SETUP_SINCE.load(SeqCst);
        if s != u64::MAX && now_ms() / 1000 > s + SETUP_SECS {
            late();
            return;
        }
    });
}

/// Per-worker measurement context.
#[derive(Default)]
pub struct Ctx {
    pub states: HashSet<u64>,
    pub states_capped: bool,
    pub transitions: u64,
    pub traces: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub want_sample: bool,
}
impl Ctx {
    /// a distinct explored state (input point or record state), by content hash
    pub fn state<T: Hash>(&mut self, v: T) -> bool {
        if self.states.len() >= STATE_CAP {
            self.states_capped = true;
            return true;
        }
        self.states.insert(hash(v))
    }
    /// one call of the real code
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    /// one complete comparison of a reference trace with the implementation
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn class(&mut self, name: &'static str) {
        *self.classes.entry(name).or_insert(0) += 1;
    }
    /// distinct observable outcome (non-vacuity)
    pub fn outcome<T: Hash>(&mut self, v: T) {
        if self.outcomes.len() < STATE_CAP {
            self.outcomes.insert(hash(v));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Ctx) {
        self.states_capped |= o.states_capped;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.states.extend(o.states);
        self.outcomes.extend(o.outcomes);
        for (k, v) in o.classes {
            *self.classes.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
}
pub fn hash<T: Hash>(v: T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
pub fn bits(x: f64) -> u64 {
    if x == 0.0 { 0 } else { x.to_bits() }
}

pub type Check = Result<(), String>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub index: Vec<usize>,
    pub detail: String,
}

/// Shared-memory record of what every worker is executing; it outlives the process.
pub struct Journal {
    base: *mut u8,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
const JSIZE: usize = 4096;
extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
impl Journal {
    pub fn create(path: &str) -> Option<Journal> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).ok()?;
        f.set_len(JSIZE as u64).ok()?;
        let base = unsafe { mmap(std::ptr::null_mut(), JSIZE, 3, 1, f.as_raw_fd(), 0) };
        if base as isize == -1 { None } else { Some(Journal { base }) }
    }
    fn put(&self, w: usize, space: u64, i: u64) {
        unsafe {
            let p = self.base.add(w * 16) as *mut u64;
            p.write_volatile(space);
            p.add(1).write_volatile(i);
        }
    }
    fn head(&self, s: &str) {
        unsafe {
            std::ptr::write_bytes(self.base, 0, JSIZE);
            let b = s.as_bytes();
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(256), b.len().min(JSIZE - 300));
        }
    }
}

pub struct SpaceStat {
    pub name: String,
    pub dims: Vec<usize>,
    pub points: u64,
    pub wall: f64,
}

pub struct Run {
    pub id: String,
    pub thorough: bool,
    pub total: Ctx,
    pub spaces: Vec<SpaceStat>,
    pub violation: Option<Violation>,
    pub replay: Option<(String, Vec<usize>)>,
    pub replay_hit: bool,
    pub journal: Option<Journal>,
    pub required: Vec<&'static str>,
    pub notes: Vec<String>,
    pub replay_path: String,
    pub start: Instant,
    /// a cap cut some exploration short
    pub capped: bool,
    /// seconds after which a point that has not answered counts as hanging
    pub hang: u64,
}

impl Run {
    pub fn new(id: &str, thorough: bool) -> Run {
        Run {
            id: id.into(), thorough, total: Ctx::default(), spaces: vec![], violation: None, replay: None,
            replay_hit: false, journal: None, required: vec![], notes: vec![], replay_path: String::new(),
            start: Instant::now(), capped: false, hang: HANG_SECS,
        }
    }
    /// picks the quick or the thorough alphabet
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
    /// classes that must have been reached (by the reference model) for the run to count
    pub fn require(&mut self, c: &[&'static str]) {
        self.required.extend_from_slice(c);
    }

    pub fn space<F>(&mut self, name: &str, dims: &[usize], eval: F)
    where
        F: Fn(&[usize], &mut Ctx) -> Check + Sync,
    {
        if self.violation.is_some() {
            return;
        }
        let total: u64 = dims.iter().map(|d| *d as u64).product();
        let decode = |mut i: u64| -> Vec<usize> {
            let mut ix = vec![0; dims.len()];
            for k in (0..dims.len()).rev() {
                ix[k] = (i % dims[k] as u64) as usize;
                i /= dims[k] as u64;
            }
            ix
        };
        let one = |ix: &[usize], ctx: &mut Ctx| -> Check {
            match catch_unwind(AssertUnwindSafe(|| eval(ix, ctx))) {
                Ok(r) => r,
                Err(_) => Err(format!("panic: {}", last_panic())),
            }
        };
        if let Some((sp, ix)) = &self.replay {
            if sp == name {
                self.replay_hit = true;
                if ix.len() != dims.len() || ix.iter().zip(dims).any(|(a, d)| a >= d) {
                    eprintln!("replay index {:?} outside space {} {:?}", ix, name, dims);
                    std::process::exit(2);
                }
                let mut ctx = Ctx { want_sample: true, ..Default::default() };
                if let Err(e) = one(ix, &mut ctx) {
                    self.violation = Some(Violation { space: name.into(), index: ix.clone(), detail: e });
                }
            }
            return;
        }
        SETUP_SINCE.store(u64::MAX, SeqCst);
        let t0 = Instant::now();
        let nw = WORKERS;
        // chunks are claimed in increasing order, so the smallest violating index is always reached
        let chunk = (total / (nw as u64 * 64)).clamp(1, 4096);
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let beat: Vec<(AtomicU64, AtomicU64)> = (0..nw).map(|_| (AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
        let done = AtomicBool::new(false);
        let merged: Mutex<Ctx> = Mutex::new(Ctx::default());
        let journal = self.journal.as_ref();
        let spno = self.spaces.len() as u64;
        if let Some(j) = journal {
            let d: Vec<String> = dims.iter().map(|d| d.to_string()).collect();
            j.head(&format!("{}\n{}\n", name, d.join(" ")));
        }
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..nw {
                let (next, best, found, beat, merged, one, decode) = (&next, &best, &found, &beat, &merged, &one, &decode);
                let b = std::thread::Builder::new().stack_size(16 << 20);
                hs.push(b.spawn_scoped(sc, move || {
                    let mut ctx = Ctx::default();
                    'outer: loop {
                        let lo = next.fetch_add(chunk, SeqCst);
                        if lo >= total || lo > best.load(SeqCst) {
                            break;
                        }
                        for i in lo..(lo + chunk).min(total) {
                            if i > best.load(SeqCst) {
                                break 'outer;
                            }
                            beat[w].1.store(i, SeqCst);
                            beat[w].0.store(now_ms(), SeqCst);
                            if let Some(j) = journal {
                                j.put(w, spno + 1, i);
                            }
                            ctx.want_sample = i == 0 || i == total / 2 || i == total - 1;
                            let ix = decode(i);
                            if let Err(e) = one(&ix, &mut ctx) {
                                let mut f = found.lock().unwrap_or_else(|e| e.into_inner());
                                if best.fetch_min(i, SeqCst) > i {
                                    *f = Some((i, e));
                                }
                                break 'outer;
                            }
                        }
                        beat[w].1.store(u64::MAX, SeqCst);
                    }
                    beat[w].1.store(u64::MAX, SeqCst);
                    merged.lock().unwrap().merge(ctx);
                }).unwrap());
            }
            // watchdog: one point that does not come back is a hang of the code under test
            let (beatr, doner) = (&beat, &done);
            let me: &Run = self;
            let decode = &decode;
            sc.spawn(move || {
                while !doner.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    for b in beatr.iter() {
                        let i = b.1.load(SeqCst);
                        let s = b.0.load(SeqCst);
                        if i != u64::MAX && now_ms().saturating_sub(s) > me.hang * 1000 && b.1.load(SeqCst) == i && b.0.load(SeqCst) == s {
                            let v = Violation { space: name.into(), index: decode(i), detail: format!("no answer within {} s (hang)", me.hang) };
                            me.report_violation(&v);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, SeqCst);
        });
        SETUP_SINCE.store(now_ms() / 1000, SeqCst);
        let m = merged.into_inner().unwrap();
        self.total.merge(m);
        let f = found.into_inner().unwrap_or_else(|e| e.into_inner());
        self.spaces.push(SpaceStat { name: name.into(), dims: dims.to_vec(), points: total, wall: t0.elapsed().as_secs_f64() });
        if let Some((i, e)) = f {
            // determinism: the same point alone must fail the same way; say so if it does not
            let ix = decode(i);
            let again = one(&ix, &mut Ctx::default());
            let note = match again {
                Err(e2) if e2 == e => String::new(),
                Err(e2) => format!(" [on re-execution of this point alone: {}]", e2),
                Ok(()) => " [not reproduced by this point alone: depends on calls made before it in the process]".to_string(),
            };
            self.violation = Some(Violation { space: name.into(), index: ix, detail: format!("{}{}", e, note) });
        }
    }

    pub fn report_violation(&self, v: &Violation) {
        let _ = std::fs::create_dir_all(std::path::Path::new(&self.replay_path).parent().unwrap());
        let ix: Vec<String> = v.index.iter().map(|x| x.to_string()).collect();
        let body = format!(
            "property {}\ntier {}\nspace {}\nindex {}\ndetail {}\n# re-execute: /verif/run.sh replay {}\n",
            self.id, if self.thorough { "thorough" } else { "quick" }, v.space, ix.join(" "), v.detail.replace('\n', "\\n"), self.replay_path
        );
        if let Ok(mut f) = std::fs::File::create(&self.replay_path) {
            let _ = f.write_all(body.as_bytes());
        }
        println!("counterexample: space={} index={:?}\n  {}", v.space, v.index, v.detail);
        println!("VIOLATION property={} replay={}", self.id, self.replay_path);
        let _ = std::io::stdout().flush();
    }
}
fn now_ms() -> u64 {
    use std::sync::OnceLock;
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}
