//! The part every harness shares: runs numbered cases on several threads,
//! catches panics, watches CPU time per case, and reports what was observed.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub cases: u64,
    pub secs: f64,
    pub threads: usize,
    /// run only this case
    pub only: Option<(String, u64)>,
    /// file that receives the number of the case being run
    pub trace: Option<String>,
    /// CPU seconds one case may take before it counts as not terminating
    pub cpu_limit: f64,
    pub extra: BTreeMap<String, String>,
}

impl Opts {
    /// prog PROP key=value ...
    pub fn parse() -> Opts {
        Opts::parse_from(std::env::args().skip(1))
    }
    pub fn parse_from(mut a: impl Iterator<Item = String>) -> Opts {
        let prop = a.next().unwrap_or_else(|| {
            eprintln!("usage: PROP key=value...");
            std::process::exit(64)
        });
        let mut o = Opts {
            prop,
            seed: 1,
            cases: 1000,
            secs: 1e9,
            threads: 8,
            only: None,
            trace: None,
            cpu_limit: 60.0,
            extra: BTreeMap::new(),
        };
        for kv in a {
            let (k, v) = kv.split_once('=').expect("key=value");
            match k {
                "seed" => o.seed = v.parse().expect("seed"),
                "cases" => o.cases = v.parse().expect("cases"),
                "secs" => o.secs = v.parse().expect("secs"),
                "threads" => o.threads = v.parse().expect("threads"),
                "cpu" => o.cpu_limit = v.parse().expect("cpu"),
                "trace" => o.trace = Some(v.to_string()),
                "only" => {
                    let (t, n) = v.rsplit_once(':').expect("only=stream:case");
                    o.only = Some((t.to_string(), n.parse().expect("case")));
                }
                _ => {
                    o.extra.insert(k.to_string(), v.to_string());
                }
            }
        }
        o
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.extra.get(k).map(|s| &s[..])
    }
}

#[derive(Default, Debug)]
pub struct Stats {
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub evaluations: u64,
}

impl Stats {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    /// Note a distinct non-trivial case by its content.
    pub fn seen(&mut self, content: &[u8]) {
        self.distinct.insert(hash(content));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 && !cfg!(miri) {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        self.evaluations += o.evaluations;
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = crate::rng::mix(h ^ u64::from_le_bytes(x));
    }
    h
}

pub struct Case<'a> {
    pub n: u64,
    pub r: Rng,
    pub st: &'a mut Stats,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, at));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs `f`, turning a panic into Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

#[derive(Debug, Clone)]
pub struct Found {
    pub stream: String,
    pub case: u64,
    pub detail: String,
}

pub struct Report {
    pub opts: Opts,
    pub stats: Stats,
    pub found: Vec<Found>,
    pub start: Instant,
    pub rule: String,
    /// streams still to come, which share the time that is left
    pub left: usize,
}

#[cfg(all(not(miri), target_os = "linux"))]
mod cpu {
    #[repr(C)]
    struct Ts {
        s: i64,
        ns: i64,
    }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    pub fn my_clock() -> i32 {
        let mut c = 0;
        unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
        c
    }
    pub fn read(c: i32) -> Option<f64> {
        let mut t = Ts { s: 0, ns: 0 };
        if unsafe { clock_gettime(c, &mut t) } == 0 {
            Some(t.s as f64 + t.ns as f64 / 1e9)
        } else {
            None
        }
    }
}

impl Report {
    pub fn new(opts: Opts, rule: &str) -> Report {
        quiet_panics();
        Report { opts, stats: Stats::default(), found: vec![], start: Instant::now(), rule: rule.to_string(), left: 1 }
    }

    /// That many streams are going to run; each gets its share of the time.
    pub fn streams(mut self, n: usize) -> Report {
        self.left = n;
        self
    }

    /// Runs cases 0..cases of a stream. A harness bug panics with a message
    /// starting "harness:" and is an error, not a finding.
    pub fn run(&mut self, stream: &str, cases: u64, f: impl Fn(&mut Case) -> Result<(), String> + Sync) {
        if !self.found.is_empty() {
            return;
        }
        let o = self.opts.clone();
        let (lo, hi) = match &o.only {
            Some((s, n)) => {
                if s != stream {
                    return;
                }
                (*n, n + 1)
            }
            None => (0, cases),
        };
        let threads = if hi - lo == 1 { 1 } else { o.threads.max(1) };
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let total: Mutex<Stats> = Mutex::new(Stats::default());
        let start = Instant::now();
        let limit = Duration::from_secs_f64((o.secs.min(1e8) - self.start.elapsed().as_secs_f64()).max(0.0) / self.left.max(1) as f64);
        self.left = self.left.saturating_sub(1);
        // (clock, cpu time at start of case in ns, case)
        let live: Vec<(AtomicU64, AtomicU64, AtomicU64)> =
            (0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0), AtomicU64::new(u64::MAX))).collect();
        let _ = (&live, &done);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|ti| {
                    let (next, stop, found, total, live, f, o) = (&next, &stop, &found, &total, &live, &f, &o);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut st = Stats::default();
                            #[cfg(all(not(miri), target_os = "linux"))]
                            live[ti].0.store(cpu::my_clock() as u32 as u64, Ordering::SeqCst);
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let n = next.fetch_add(1, Ordering::Relaxed);
                                if n >= hi {
                                    break;
                                }
                                if n > lo && start.elapsed() > limit {
                                    break;
                                }
                                if let Some(t) = &o.trace {
                                    std::fs::write(t, format!("{}:{}", stream, n)).expect("harness: trace");
                                }
                                #[cfg(all(not(miri), target_os = "linux"))]
                                {
                                    let c = cpu::read(live[ti].0.load(Ordering::SeqCst) as u32 as i32).unwrap_or(0.0);
                                    live[ti].1.store((c * 1e9) as u64, Ordering::SeqCst);
                                }
                                live[ti].2.store(n, Ordering::SeqCst);
                                st.evaluations += 1;
                                let res = {
                                    let mut c = Case { n, r: Rng::case(o.seed, stream, n), st: &mut st };
                                    guard(|| f(&mut c))
                                };
                                live[ti].2.store(u64::MAX, Ordering::SeqCst);
                                let detail = match res {
                                    Ok(Ok(())) => continue,
                                    Ok(Err(m)) => m,
                                    Err(p) => format!("panic: {}", p),
                                };
                                if detail.contains("harness:") {
                                    eprintln!("HARNESS ERROR {} case {}: {}", stream, n, detail);
                                    std::process::exit(3);
                                }
                                found.lock().unwrap().push(Found { stream: stream.to_string(), case: n, detail });
                                stop.store(true, Ordering::Relaxed);
                            }
                            live[ti].0.store(u64::MAX, Ordering::SeqCst);
                            total.lock().unwrap().merge(st);
                        })
                        .expect("harness: spawn")
                })
                .collect();
            #[cfg(all(not(miri), target_os = "linux"))]
            {
                let (done, live, o) = (&done, &live, &o);
                let me = &*self;
                s.spawn(move || {
                    let mut k = 0;
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_millis(20));
                        k += 1;
                        if k % 25 != 0 {
                            continue;
                        }
                        for l in live.iter() {
                            let (c, t0, n) = (l.0.load(Ordering::SeqCst), l.1.load(Ordering::SeqCst), l.2.load(Ordering::SeqCst));
                            if c == u64::MAX || n == u64::MAX {
                                continue;
                            }
                            if let Some(now) = cpu::read(c as u32 as i32) {
                                if now - t0 as f64 / 1e9 > o.cpu_limit && l.2.load(Ordering::SeqCst) == n {
                                    let f = Found {
                                        stream: stream.to_string(),
                                        case: n,
                                        detail: format!("does not terminate: case used more than {} s of CPU time", o.cpu_limit),
                                    };
                                    me.print(&Stats::default(), &[f]);
                                    std::process::exit(1);
                                }
                            }
                        }
                    }
                });
            }
            for h in hs {
                h.join().expect("harness: join");
            }
            done.store(true, Ordering::Relaxed);
        });
        let mut fs = found.into_inner().unwrap();
        fs.sort_by_key(|f| f.case);
        self.found.extend(fs);
        let t = total.into_inner().unwrap();
        *self.stats.counts.entry(format!("cases.{}", stream)).or_insert(0) += t.evaluations;
        self.stats.merge(t);
    }

    fn print(&self, st: &Stats, found: &[Found]) {
        let mut s = String::from("{");
        s.push_str(&format!("\"property\":{},", js(&self.opts.prop)));
        s.push_str(&format!("\"seed\":{},", self.opts.seed));
        s.push_str(&format!("\"evaluations\":{},", st.evaluations));
        s.push_str(&format!("\"distinct_nontrivial\":{},", st.distinct.len()));
        s.push_str(&format!("\"rule\":{},", js(&self.rule)));
        s.push_str("\"counts\":{");
        s.push_str(&st.counts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        s.push_str("},\"samples\":[");
        s.push_str(&st.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        s.push_str("],\"found\":[");
        s.push_str(
            &found
                .iter()
                .map(|f| format!("{{\"stream\":{},\"case\":{},\"detail\":{}}}", js(&f.stream), f.case, js(&f.detail)))
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("]}");
        let out = std::io::stdout();
        let mut out = out.lock();
        let _ = writeln!(out, "RESULT {}", s);
        let _ = out.flush();
    }

    /// Prints the summary; exit status 1 if anything was found.
    pub fn finish(self) -> ! {
        self.print(&self.stats, &self.found);
        std::process::exit(if self.found.is_empty() { 0 } else { 1 })
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || (c as u32) >= 0x10000 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
