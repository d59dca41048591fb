//! Runs cases in worker threads, watches for panics, hangs and crashes, and
//! reports what was observed.
use crate::props::{self, Prop};
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Opts {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<u64>,
    pub first: u64,
    pub threads: usize,
    pub out: String,
    pub state: Option<String>,
    pub corpus: String,
}

/// Why a case violates the property, with everything needed to see it.
#[derive(Debug, Clone)]
pub struct Bad {
    pub why: String,
    pub doc: String,
    pub html: String,
}

pub type Verdict = Result<(), Bad>;

pub fn bad(why: impl Into<String>, doc: &str, html: &str) -> Verdict {
    Err(Bad { why: why.into(), doc: doc.to_string(), html: html.to_string() })
}

/// What a worker observed.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub renderings: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn count(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        match self.counters.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let c = self.counters.entry(format!("max_{what}")).or_insert(0);
        *c = (*c).max(n);
    }
    /// Notes a case that was worth looking at.
    pub fn nontrivial(&mut self, doc: &str) {
        self.distinct.insert(digest(doc));
        if self.samples.len() < 3 && doc.len() < 400 {
            self.samples.push(doc.to_string());
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.renderings += o.renderings;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            let c = self.counters.entry(k.clone()).or_insert(0);
            *c = if k.starts_with("max_") { (*c).max(v) } else { *c + v };
        }
        for s in o.samples {
            if self.samples.len() < 5 {
                self.samples.push(s);
            }
        }
    }
}

pub fn digest(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// What a case gets to work with.
pub struct Case<'a> {
    pub r: Rng,
    pub n: u64,
    pub corpus: &'a [String],
    pub stats: &'a mut Stats,
    pub thorough: bool,
}

/// More memory than any rendering of the documents used here may take.
pub const MEMORY_LIMIT: i64 = 1 << 30;

impl Case<'_> {
    /// Renders; a panic is a violation of every property that says what the
    /// output is.
    pub fn render(&mut self, doc: &str) -> Result<String, Bad> {
        self.stats.renderings += 1;
        render(doc)
    }
}

pub fn render(doc: &str) -> Result<String, Bad> {
    crate::mem::measure(MEMORY_LIMIT, || render_plain(doc)).0
}

pub fn render_plain(doc: &str) -> Result<String, Bad> {
    std::panic::catch_unwind(|| gfm::Parser::render(doc)).map_err(|p| {
        let msg = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        Bad { why: format!("rendering panicked: {msg}"), doc: doc.to_string(), html: String::new() }
    })
}

thread_local! {
    static LOG: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Formats and drops the log records of threads that asked for them.
struct Sink;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOG.with(|l| l.get())
    }
    fn log(&self, record: &log::Record) {
        if LOG.with(|l| l.get()) {
            use std::fmt::Write;
            struct Null;
            impl Write for Null {
                fn write_str(&mut self, _: &str) -> std::fmt::Result {
                    Ok(())
                }
            }
            let _ = write!(Null, "{}", record.args());
            LOGGED.fetch_add(1, Ordering::Relaxed);
        }
    }
    fn flush(&self) {}
}

pub static LOGGED: AtomicU64 = AtomicU64::new(0);

pub fn log_here(on: bool) {
    static INIT: std::sync::Once = std::sync::Once::new();
    if on {
        INIT.call_once(|| {
            let _ = log::set_logger(&Sink);
            log::set_max_level(log::LevelFilter::Trace);
        });
    }
    LOG.with(|l| l.set(on));
}

fn cpu_ns(pthread: libc::pthread_t) -> Option<u64> {
    unsafe {
        let mut clock = 0;
        if libc::pthread_getcpuclockid(pthread, &mut clock) != 0 {
            return None;
        }
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
    }
}

/// Per-thread cells in a file shared with the supervisor: the current case
/// plus one, or zero.
struct Shared(*mut AtomicU64);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
    fn open(path: &str, threads: usize) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("state file");
        f.set_len(8 * threads as u64).expect("state file size");
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), 8 * threads, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut AtomicU64)
    }
    fn cell(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(i) }
    }
}

pub const HANG_EXIT: i32 = 97;
/// CPU seconds on one case after which it counts as not terminating. The
/// documents take milliseconds.
const HANG_CPU_S: u64 = 60;

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn load_corpus(path: &str) -> Vec<String> {
    // one JSON string per line
    let text = std::fs::read_to_string(path).expect("corpus");
    let docs: Vec<String> = text.lines().filter(|l| !l.is_empty()).map(unjson).collect();
    assert!(!docs.is_empty());
    docs
}

fn unjson(l: &str) -> String {
    let inner = &l.trim()[1..l.trim().len() - 1];
    let mut out = String::new();
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                out.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(0xfffd)).unwrap_or('\u{fffd}'));
            }
            Some(c) => out.push(c),
            None => {}
        }
    }
    out
}

fn one(p: &Prop, o: &Opts, corpus: &[String], n: u64, stats: &mut Stats) -> Verdict {
    let mut case = Case { r: Rng::new(o.seed, n), n, corpus, stats, thorough: o.thorough };
    (p.check)(&mut case)
}

fn total(p: &Prop, o: &Opts) -> u64 {
    o.cases.unwrap_or(if o.thorough { p.thorough } else { p.quick })
}

pub fn work(o: &Opts) -> i32 {
    let p = match props::find(&o.id) {
        Some(p) => p,
        None => return 2,
    };
    std::panic::set_hook(Box::new(|_| {}));
    let corpus = Arc::new(load_corpus(&o.corpus));
    let shared = o.state.as_ref().map(|s| Arc::new(Shared::open(s, o.threads)));
    let next = Arc::new(AtomicU64::new(o.first));
    let end = o.first + total(&p, o);
    let found: Arc<Mutex<Vec<(u64, Bad)>>> = Default::default();
    let merged: Arc<Mutex<Stats>> = Default::default();
    let began: Arc<Vec<AtomicU64>> = Arc::new((0..o.threads).map(|_| AtomicU64::new(0)).collect());
    let live = Arc::new(AtomicU64::new(o.threads as u64));
    let ids: Arc<Vec<AtomicU64>> = Arc::new((0..o.threads).map(|_| AtomicU64::new(0)).collect());
    std::thread::scope(|scope| {
        for t in 0..o.threads {
            let ids = ids.clone();
            let (corpus, shared, next, found, merged, began, live) =
                (corpus.clone(), shared.clone(), next.clone(), found.clone(), merged.clone(), began.clone(), live.clone());
            let p = p.clone();
            let h = std::thread::Builder::new()
                .stack_size(p.stack)
                .spawn_scoped(scope, move || {
                    let me = unsafe { libc::pthread_self() };
                    ids[t].store(me as u64, Ordering::SeqCst);
                    let mut stats = Stats::default();
                    loop {
                        let n = next.fetch_add(1, Ordering::Relaxed);
                        if n >= end || found.lock().unwrap().len() >= 3 {
                            break;
                        }
                        if let Some(s) = &shared {
                            s.cell(t).store(n + 1, Ordering::SeqCst);
                        }
                        began[t].store(cpu_ns(me).unwrap_or(0).max(1), Ordering::SeqCst);
                        stats.evaluations += 1;
                        if let Err(b) = one(&p, o, &corpus, n, &mut stats) {
                            found.lock().unwrap().push((n, b));
                        }
                        began[t].store(0, Ordering::SeqCst);
                        if let Some(s) = &shared {
                            s.cell(t).store(0, Ordering::SeqCst);
                        }
                    }
                    merged.lock().unwrap().merge(stats);
                    live.fetch_sub(1, Ordering::SeqCst);
                })
                .expect("thread");
            drop(h);
        }
        // the watchdog judges by CPU time of the thread, not by the clock
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(std::time::Duration::from_millis(20));
            for (t, id) in ids.iter().enumerate() {
                let b = began[t].load(Ordering::SeqCst);
                if b == 0 {
                    continue;
                }
                if let Some(now) = cpu_ns(id.load(Ordering::SeqCst) as libc::pthread_t) {
                    if now.saturating_sub(b) > HANG_CPU_S * 1_000_000_000 && began[t].load(Ordering::SeqCst) == b {
                        std::process::exit(HANG_EXIT);
                    }
                }
            }
        }
    });
    let stats = merged.lock().unwrap();
    let mut found = found.lock().unwrap();
    found.sort_by_key(|f| f.0);
    let mut j = String::from("{");
    j.push_str(&format!("\"evaluations\":{},\"renderings\":{},\"distinct_nontrivial\":{},", stats.evaluations, stats.renderings, stats.distinct.len()));
    j.push_str(&format!("\"rule\":{},", json_str(p.rule)));
    let cs: Vec<String> = stats.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
    j.push_str(&format!("\"observed\":{{{}}},", cs.join(",")));
    let ss: Vec<String> = stats.samples.iter().map(|s| json_str(s)).collect();
    j.push_str(&format!("\"samples\":[{}],", ss.join(",")));
    let vs: Vec<String> = found
        .iter()
        .map(|(n, b)| {
            format!("{{\"case\":{},\"why\":{},\"doc\":{},\"html\":{}}}", n, json_str(&b.why), json_str(&clip(&b.doc)), json_str(&clip(&b.html)))
        })
        .collect();
    j.push_str(&format!("\"violations\":[{}]}}\n", vs.join(",")));
    std::fs::write(&o.out, j).expect("result file");
    if found.is_empty() { 0 } else { 1 }
}

fn clip(s: &str) -> String {
    if s.len() <= 20_000 {
        return s.to_string();
    }
    let mut e = 20_000;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}... ({} bytes)", &s[..e], s.len())
}

fn spawn(o: &Opts, state: &str, first: u64, cases: u64, threads: usize) -> std::process::ExitStatus {
    std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(["work", &o.id, "--seed", &o.seed.to_string(), "--tier", if o.thorough { "thorough" } else { "quick" }])
        .args(["--first", &first.to_string(), "--cases", &cases.to_string(), "--threads", &threads.to_string()])
        .args(["--out", &o.out, "--state", state, "--corpus", &o.corpus])
        .status()
        .expect("worker")
}

fn ending(s: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (s.code(), s.signal()) {
        (Some(HANG_EXIT), _) => format!("rendering does not terminate (more than {HANG_CPU_S} s of CPU time)"),
        (_, Some(6)) => "rendering aborts the process (abort or memory beyond 1 GiB)".into(),
        (_, Some(11)) => "rendering overflows the stack or crashes (SIGSEGV)".into(),
        (_, Some(n)) => format!("rendering ends the process with signal {n}"),
        (Some(n), _) => format!("worker ended with status {n}"),
        _ => "worker ended".into(),
    }
}

/// Exit: 0 quiet, 1 violation (in the result file), 2 no verdict.
pub fn supervise(o: &Opts) -> i32 {
    let p = match props::find(&o.id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", o.id);
            return 2;
        }
    };
    let state = o.state.clone().unwrap_or_else(|| format!("{}.state", o.out));
    let _ = std::fs::remove_file(&state);
    let status = spawn(o, &state, o.first, total(&p, o), o.threads);
    let code = match status.code() {
        Some(c @ (0 | 1)) => c,
        Some(c) if c != HANG_EXIT => {
            eprintln!("{}", ending(&status));
            2
        }
        _ => {
            // which of the cases in progress was it?
            let cells = std::fs::read(&state).unwrap_or_default();
            let cases: Vec<u64> = cells.chunks_exact(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).filter(|n| *n > 0).map(|n| n - 1).collect();
            let mut bads = Vec::new();
            for n in cases {
                let s = spawn(o, &state, n, 1, 1);
                match s.code() {
                    Some(0) => {}
                    Some(1) => {
                        let _ = std::fs::remove_file(&state);
                        return 1;
                    }
                    _ => bads.push((n, ending(&s))),
                }
                if !bads.is_empty() {
                    break;
                }
            }
            if bads.is_empty() {
                eprintln!("worker died ({}) and no case repeats it", ending(&status));
                2
            } else {
                let vs: Vec<String> = bads
                    .iter()
                    .map(|(n, why)| format!("{{\"case\":{},\"why\":{},\"doc\":\"\",\"html\":\"\"}}", n, json_str(why)))
                    .collect();
                let j = format!(
                    "{{\"evaluations\":{},\"renderings\":0,\"distinct_nontrivial\":0,\"rule\":{},\"observed\":{{}},\"samples\":[],\"violations\":[{}]}}\n",
                    bads[0].0 + 1, json_str(p.rule), vs.join(",")
                );
                std::fs::write(&o.out, j).expect("result file");
                1
            }
        }
    };
    let _ = std::fs::remove_file(&state);
    code
}

pub fn replay(o: &Opts, n: u64) -> i32 {
    let p = match props::find(&o.id) {
        Some(p) => p,
        None => return 2,
    };
    let corpus = load_corpus(&o.corpus);
    let res = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(p.stack)
            .spawn_scoped(s, || one(&p, o, &corpus, n, &mut Stats::default()))
            .unwrap()
            .join()
            .unwrap()
    });
    match res {
        Ok(()) => {
            println!("case {n}: holds");
            0
        }
        Err(b) => {
            println!("case {n}: {}\n--- document\n{}\n--- output\n{}", b.why, b.doc, b.html);
            1
        }
    }
}

/// Renders small documents, also in two threads at once, without anything an
/// interpreter cannot follow. Prints how many; what goes wrong is reported by
/// the interpreter or ends the process.
pub fn interpret(o: &Opts) -> i32 {
    let text = std::fs::read_to_string(&o.corpus).expect("corpus");
    let corpus: Vec<&str> = text.lines().filter(|l| (2..120).contains(&l.len())).collect();
    let mut n = 0;
    let mut bytes = 0;
    for i in 0..o.cases.unwrap_or(10) {
        let mut r = Rng::new(o.seed ^ 0x1297, i);
        let doc = match r.below(3) {
            0 => unjson(r.pick(&corpus)),
            1 => crate::gen::soup(&mut r, 10, &mut |r| crate::gen::word(r)),
            _ => {
                let d = unjson(r.pick(&corpus));
                crate::gen::mutate(&mut r, &d)
            }
        };
        let both: Vec<String> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..2).map(|_| s.spawn(|| gfm::Parser::render(&doc))).collect();
            hs.into_iter().map(|h| h.join().expect("rendering panicked")).collect()
        });
        if both[0] != both[1] {
            println!("DIFFERENT {doc:?}");
            return 1;
        }
        n += 2;
        bytes += doc.len();
    }
    println!("RENDERED {n} {bytes}");
    0
}
