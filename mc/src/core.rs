//! Exploration core: bounded spaces addressed by index, explored completely in
//! parallel, every case executed against the real crate and judged by an oracle.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub type R = Result<(), String>;

pub const NTHREADS: usize = 8;

/// Shared-memory record of what each worker is executing, so that the
/// supervising process can name the case if the code under test kills us.
#[repr(C)]
pub struct Slot {
    pub scope: AtomicU64,
    pub index: AtomicU64,
    pub busy: AtomicU64,
    pub since_ms: AtomicU64,
}

pub struct Shared {
    pub slots: [Slot; 16],
    pub names: [[u8; 64]; 256],
}

pub struct Violation {
    pub scope: String,
    pub index: u64,
    pub msg: String,
}

pub struct ScopeStat {
    pub name: String,
    pub space: u64,
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub note: String,
    pub wall: f64,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub replay: Option<(String, u64)>,
    pub shared: &'static Shared,
    pub t0: Instant,
    pub violations: Mutex<Vec<Violation>>,
    pub stats: Mutex<Vec<ScopeStat>>,
    pub samples: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, u64>>,
    pub assumptions: Mutex<Vec<String>>,
    pub outcomes: &'static [AtomicU64],
    pub nscopes: AtomicUsize,
    pub replay_hit: AtomicBool,
}

pub const OUTCOME_BITS: u64 = 1 << 24;

thread_local! { pub static PANIC_MSG: Cell<Option<String>> = const { Cell::new(None) }; }

/// One case of a scope while it is being executed.
pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub states: u64,
    pub transitions: u64,
    pub skipped: bool,
    pub sample: Option<String>,
    pub want_sample: bool,
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

impl<'a> Case<'a> {
    /// Record an implementation call whose result was compared.
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    #[inline]
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Record an observed outcome (for the distinct-outcomes count).
    #[inline]
    pub fn out(&mut self, v: u64) {
        let h = mix(0x1234_5678_9abc_def1, v) % OUTCOME_BITS;
        let w = &self.ctx.outcomes[(h / 64) as usize];
        let b = 1u64 << (h % 64);
        if w.load(Relaxed) & b == 0 {
            w.fetch_or(b, Relaxed);
        }
    }
    #[inline]
    pub fn outf(&mut self, v: f64) {
        self.out(v.to_bits())
    }
    pub fn skip(&mut self) -> R {
        self.skipped = true;
        Ok(())
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            self.sample = Some(f());
        }
    }
    /// got must be within tol of want (both finite or identical).
    #[inline]
    pub fn near(&mut self, got: f64, want: f64, tol: f64, what: impl FnOnce() -> String) -> R {
        self.transitions += 1;
        if (got - want).abs() <= tol || got == want {
            if self.want_sample && self.sample.is_none() {
                self.sample = Some(format!("{}: {:?} agrees with {:?}", what(), got, want));
            }
            return Ok(());
        }
        Err(format!("{}: got {:?}, expected {:?} (difference {:e}, tolerance {:e})", what(), got, want, got - want, tol))
    }
    #[inline]
    pub fn eq<T: PartialEq + Debug>(&mut self, got: T, want: T, what: impl FnOnce() -> String) -> R {
        self.transitions += 1;
        if got == want {
            if self.want_sample && self.sample.is_none() {
                self.sample = Some(format!("{}: {:?} as expected", what(), got));
            }
            return Ok(());
        }
        Err(format!("{}: got {:?}, expected {:?}", what(), got, want))
    }
    #[inline]
    pub fn ensure(&mut self, ok: bool, what: impl FnOnce() -> String) -> R {
        self.transitions += 1;
        if ok {
            Ok(())
        } else {
            Err(what())
        }
    }
    /// The call must be refused (panic); returning is a violation.
    pub fn refused<T>(&mut self, f: impl FnOnce() -> T, what: impl FnOnce() -> String) -> R {
        self.transitions += 1;
        match catch_unwind(AssertUnwindSafe(f)) {
            Err(_) => {
                PANIC_MSG.with(|p| p.set(None));
                Ok(())
            }
            Ok(_) => Err(format!("{}: was accepted, expected a refusal", what())),
        }
    }
    /// The call must not panic.
    pub fn accepted<T>(&mut self, f: impl FnOnce() -> T, what: impl FnOnce() -> String) -> Result<T, String> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(_) => {
                let m = PANIC_MSG.with(|p| p.take()).unwrap_or_default();
                Err(format!("{}: panicked: {}", what(), m))
            }
        }
    }
}

/// Zeroed words shared with forked processes.
pub fn shared_words(n: usize) -> &'static [AtomicU64] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), n * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const AtomicU64, n)
    }
}
pub fn release_words(w: &'static [AtomicU64]) {
    unsafe {
        libc::munmap(w.as_ptr() as *mut libc::c_void, w.len() * 8);
    }
}

/// Mixed-radix decoding of a case index.
pub struct Mix(pub u64);
impl Mix {
    pub fn pick(&mut self, n: usize) -> usize {
        let n = n as u64;
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn of<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        let k = self.pick(xs.len());
        &xs[k]
    }
}

impl Ctx {
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }

    pub fn count(&self, k: &str, n: u64) {
        *self.extra.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }

    /// Explore every index of `0..n` with worker processes, each single-threaded, so that
    /// cases may fork without inheriting another thread's locks. The caller must itself be
    /// single-threaded.
    pub fn scope_forked<F>(&self, name: &str, n: u64, note: &str, f: F)
    where
        F: Fn(u64, &mut Case) -> R,
    {
        let (lo, hi) = match &self.replay {
            Some((s, i)) => {
                if s != name {
                    return;
                }
                self.replay_hit.store(true, SeqCst);
                (*i, (*i + 1).min(n))
            }
            None => (0, n),
        };
        let t0 = Instant::now();
        const BUF: usize = 1 << 20;
        // 0 next, 1 worst, 2 cases, 3 states, 4 transitions, 5 validated
        let w = shared_words(8);
        w[0].store(lo, SeqCst);
        w[1].store(u64::MAX, SeqCst);
        let nw = if hi - lo < 2 { 1 } else { NTHREADS };
        let bufs: Vec<&'static [AtomicU64]> = (0..nw).map(|_| shared_words(BUF / 8)).collect();
        let mut pids = vec![];
        for buf in &bufs {
            let pid = unsafe { libc::fork() };
            if pid < 0 {
                eprintln!("fork failed");
                unsafe { libc::_exit(2) };
            }
            if pid > 0 {
                pids.push(pid);
                continue;
            }
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            self.extra.lock().unwrap().clear();
            let mut text = String::new();
            loop {
                let i = w[0].fetch_add(1, SeqCst);
                if i >= hi || i > w[1].load(SeqCst) {
                    break;
                }
                let mut c = Case {
                    ctx: self,
                    states: 0,
                    transitions: 0,
                    skipped: false,
                    sample: None,
                    want_sample: i == n / 2 || i == n / 3 || self.replay.is_some(),
                };
                let r = match catch_unwind(AssertUnwindSafe(|| f(i, &mut c))) {
                    Ok(r) => r,
                    Err(_) => {
                        let m = PANIC_MSG.with(|p| p.take()).unwrap_or_default();
                        Err(format!("panicked: {}", m))
                    }
                };
                let st = c.states.max(1);
                w[2].fetch_add(1, SeqCst);
                w[3].fetch_add(st, SeqCst);
                w[4].fetch_add(c.transitions, SeqCst);
                if !c.skipped && r.is_ok() {
                    w[5].fetch_add(st, SeqCst);
                }
                if let Some(s) = c.sample.take() {
                    text.push_str(&format!("S\t{}[{}]: {}\n", name, i, s.replace('\n', " ")));
                }
                if let Err(m) = r {
                    text.push_str(&format!("V\t{}\t{}\n", i, m.replace('\n', " ")));
                    w[1].fetch_min(i, SeqCst);
                }
            }
            for (k, v) in self.extra.lock().unwrap().iter() {
                text.push_str(&format!("C\t{}\t{}\n", k, v));
            }
            let l = text.len().min(BUF - 1);
            unsafe {
                std::ptr::copy_nonoverlapping(text.as_ptr(), buf.as_ptr() as *mut u8, l);
                libc::_exit(0);
            }
        }
        for p in pids {
            let mut st = 0;
            unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
            if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
                eprintln!("a worker process of scope {} failed (status {:#x})", name, st);
                unsafe { libc::_exit(2) };
            }
        }
        let mut best: Option<Violation> = None;
        for b in &bufs {
            let bytes = unsafe { std::slice::from_raw_parts(b.as_ptr() as *const u8, BUF) };
            let l = bytes.iter().position(|c| *c == 0).unwrap_or(BUF);
            for line in String::from_utf8_lossy(&bytes[..l]).lines() {
                let mut p = line.splitn(3, '\t');
                match (p.next(), p.next(), p.next()) {
                    (Some("S"), Some(a), z) => {
                        let t = match z { Some(z) => format!("{}\t{}", a, z), None => a.to_string() };
                        self.samples.lock().unwrap().push(t)
                    }
                    (Some("V"), Some(i), Some(m)) => {
                        let i: u64 = i.parse().unwrap_or(0);
                        if best.as_ref().map_or(true, |v| i < v.index) {
                            best = Some(Violation { scope: name.to_string(), index: i, msg: m.to_string() });
                        }
                    }
                    (Some("C"), Some(k), Some(v)) => self.count(k, v.parse().unwrap_or(0)),
                    _ => {}
                }
            }
        }
        self.violations.lock().unwrap().extend(best);
        self.stats.lock().unwrap().push(ScopeStat {
            name: name.to_string(),
            space: n,
            cases: w[2].load(SeqCst),
            states: w[3].load(SeqCst),
            transitions: w[4].load(SeqCst),
            validated: w[5].load(SeqCst),
            note: note.to_string(),
            wall: t0.elapsed().as_secs_f64(),
        });
        for b in bufs {
            release_words(b);
        }
        release_words(w);
    }

    /// Explore every index of `0..n`.
    pub fn scope<F>(&self, name: &str, n: u64, note: &str, f: F)
    where
        F: Fn(u64, &mut Case) -> R + Sync,
    {
        let sid = self.nscopes.fetch_add(1, SeqCst);
        unsafe {
            let dst = self.shared.names[sid % 256].as_ptr() as *mut u8;
            let b = name.as_bytes();
            let l = b.len().min(63);
            std::ptr::copy_nonoverlapping(b.as_ptr(), dst, l);
            *dst.add(l) = 0;
        }
        let (lo, hi) = match &self.replay {
            Some((s, i)) => {
                if s != name {
                    return;
                }
                self.replay_hit.store(true, SeqCst);
                (*i, (*i + 1).min(n))
            }
            None => (0, n),
        };
        let t0 = Instant::now();
        let next = AtomicU64::new(lo);
        let worst = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<Violation>> = Mutex::new(None);
        let (cases, states, transitions, validated) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let chunk = ((hi - lo) / (NTHREADS as u64 * 64)).clamp(1, 4096);
        let nthreads = if hi - lo < 2 { 1 } else { NTHREADS };
        std::thread::scope(|s| {
            for tid in 0..nthreads {
                let (next, worst, found, f) = (&next, &worst, &found, &f);
                let (cases, states, transitions, validated) = (&cases, &states, &transitions, &validated);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let slot = &self.shared.slots[tid];
                        slot.scope.store(sid as u64, Relaxed);
                        loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= hi {
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                if i > worst.load(Relaxed) {
                                    break;
                                }
                                slot.index.store(i, Relaxed);
                                slot.since_ms.store(self.t0.elapsed().as_millis() as u64, Relaxed);
                                slot.busy.store(1, Release);
                                let mut c = Case {
                                    ctx: self,
                                    states: 0,
                                    transitions: 0,
                                    skipped: false,
                                    sample: None,
                                    want_sample: i == n / 2 || i == n / 3 || self.replay.is_some(),
                                };
                                let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut c)));
                                slot.busy.store(0, Release);
                                let r = match r {
                                    Ok(r) => r,
                                    Err(_) => {
                                        let m = PANIC_MSG.with(|p| p.take()).unwrap_or_default();
                                        Err(format!("panicked: {}", m))
                                    }
                                };
                                cases.fetch_add(1, Relaxed);
                                states.fetch_add(if c.states == 0 { 1 } else { c.states }, Relaxed);
                                transitions.fetch_add(c.transitions, Relaxed);
                                if !c.skipped && r.is_ok() {
                                    validated.fetch_add(if c.states == 0 { 1 } else { c.states }, Relaxed);
                                }
                                if let Some(s) = c.sample.take() {
                                    self.samples.lock().unwrap().push(format!("{}[{}]: {}", name, i, s));
                                }
                                if let Err(msg) = r {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().map_or(true, |v| i < v.index) {
                                        *g = Some(Violation { scope: name.to_string(), index: i, msg });
                                        worst.fetch_min(i, Relaxed);
                                    }
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        if let Some(v) = found.into_inner().unwrap() {
            self.violations.lock().unwrap().push(v);
        }
        self.stats.lock().unwrap().push(ScopeStat {
            name: name.to_string(),
            space: n,
            cases: cases.load(SeqCst),
            states: states.load(SeqCst),
            transitions: transitions.load(SeqCst),
            validated: validated.load(SeqCst),
            note: note.to_string(),
            wall: t0.elapsed().as_secs_f64(),
        });
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}
