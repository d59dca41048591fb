//! Files hold what was reported to be written to them.
use crate::{Rng, Stats};
use smd_core::error::{Error, Result};
use smd_core::fs as sut;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void, CString, OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

// ------------------------------------------------------------- interposer

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
struct Step {
    op: c_int,
    arg: c_int,
}
const SHORT: c_int = 1;
const ONCE: c_int = 2;
const STICKY: c_int = 3;

#[repr(C)]
#[derive(Default, Debug, Clone)]
struct Seen {
    opens: u64,
    reads: u64,
    writes: u64,
    renames: u64,
    shorts: u64,
    interrupts: u64,
    hard: u64,
    bytes_written: u64,
    bytes_read: u64,
    trace: u64,
}

type Begin = unsafe extern "C" fn(*const c_char, *const c_char, c_int, *const Step, c_int, *const Step, c_int, *const Step, c_int, c_int);
type End = unsafe extern "C" fn(*mut Seen);

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn setrlimit(what: c_int, limit: *const [u64; 2]) -> c_int;
    fn signal(n: c_int, handler: usize) -> usize;
    fn mkfifo(path: *const c_char, mode: u32) -> c_int;
}

fn symbol(name: &str) -> *mut c_void {
    let n = CString::new(name).unwrap();
    let p = unsafe { dlsym(std::ptr::null_mut(), n.as_ptr()) };
    assert!(!p.is_null(), "the interposer is not loaded");
    p
}

#[derive(Default, Clone, Debug)]
struct Plan {
    open: Vec<Step>,
    write: Vec<Step>,
    read: Vec<Step>,
    rename: c_int,
}

impl Plan {
    fn hard(&self) -> bool {
        self.rename != 0 || [&self.open, &self.write, &self.read].iter().any(|v| v.iter().any(|s| s.op == STICKY))
    }
}

fn with<T>(dir: &Path, rel: &str, reading: bool, plan: &Plan, f: impl FnOnce() -> T) -> (T, Seen) {
    let begin: Begin = unsafe { std::mem::transmute(symbol("shim_begin")) };
    let end: End = unsafe { std::mem::transmute(symbol("shim_end")) };
    let a = CString::new(dir.as_os_str().as_bytes()).unwrap();
    let b = CString::new(rel).unwrap();
    let (o, w, r) = (&plan.open, &plan.write, &plan.read);
    unsafe {
        begin(a.as_ptr(), b.as_ptr(), reading as c_int, o.as_ptr(), o.len() as c_int, w.as_ptr(), w.len() as c_int, r.as_ptr(), r.len() as c_int, plan.rename)
    };
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let mut seen = Seen::default();
    unsafe { end(&mut seen) };
    match v {
        Ok(v) => (v, seen),
        Err(p) => std::panic::resume_unwind(p),
    }
}

const WRITE_ERRORS: &[c_int] = &[28, 5, 122, 27, 32, 9, 22]; // ENOSPC EIO EDQUOT EFBIG EPIPE EBADF EINVAL
const OPEN_ERRORS: &[c_int] = &[13, 2, 24, 23, 30, 28, 5, 21, 26]; // EACCES ENOENT EMFILE ENFILE EROFS ENOSPC EIO EISDIR ETXTBSY
const READ_ERRORS: &[c_int] = &[5, 21, 9, 22, 116]; // EIO EISDIR EBADF EINVAL ESTALE
const EINTR: c_int = 4;

fn soft(r: &mut Rng, len: usize) -> Step {
    match r.below(5) {
        0 => Step { op: ONCE, arg: EINTR },
        1 => Step { op: 0, arg: 0 },
        2 => Step { op: SHORT, arg: 1 },
        3 => Step { op: SHORT, arg: r.range(1, 64) as c_int },
        _ => Step { op: SHORT, arg: r.range(1, len.max(1)) as c_int },
    }
}

fn plan(r: &mut Rng, len: usize, reading: bool) -> Plan {
    let mut p = Plan::default();
    let kind = r.below(8);
    let steps = |r: &mut Rng, hard: &[c_int], fail: bool| {
        let mut v: Vec<Step> = (0..r.below(8)).map(|_| soft(r, len)).collect();
        if fail {
            v.push(Step { op: STICKY, arg: *r.pick(hard) });
        }
        v
    };
    match kind {
        0 => {}
        1 | 2 if reading => p.read = steps(r, READ_ERRORS, false),
        1 | 2 => p.write = steps(r, WRITE_ERRORS, false),
        3..=5 if reading => p.read = steps(r, READ_ERRORS, true),
        3..=5 => p.write = steps(r, WRITE_ERRORS, true),
        6 => {
            for _ in 0..r.below(3) {
                p.open.push(Step { op: ONCE, arg: EINTR });
            }
            p.open.push(Step { op: STICKY, arg: *r.pick(OPEN_ERRORS) });
        }
        _ => {
            p.open.push(Step { op: ONCE, arg: EINTR });
            if reading {
                p.read = steps(r, READ_ERRORS, false);
            } else {
                p.write = steps(r, WRITE_ERRORS, false);
                if r.one_in(2) {
                    p.rename = *r.pick(&[28, 5, 13, 18, 30]);
                }
            }
        }
    }
    p
}

// ----------------------------------------------------------------- inputs

fn size(r: &mut Rng) -> usize {
    match r.below(40) {
        0..=3 => 0,
        4..=6 => 1,
        7..=20 => r.range(2, 100),
        21..=30 => r.range(100, 5000),
        31..=35 => *r.pick(&[511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 65535, 65536, 65537]),
        36..=38 => r.range(5_000, 200_000),
        _ => {
            if r.one_in(8) {
                r.range(1 << 20, 6 << 20)
            } else {
                r.range(100_000, 400_000)
            }
        }
    }
}

fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = size(r);
    match r.below(4) {
        0 => vec![*r.pick(&[0u8, b'\n', b'\r', 0xff, b' ', 0x1a]); n],
        1 => (0..n).map(|i| (i * 7 + i / 251) as u8).collect(),
        2 => text(r).into_bytes(),
        _ => {
            let mut v = Vec::with_capacity(n + 8);
            while v.len() < n {
                v.extend(r.next().to_le_bytes());
            }
            v.truncate(n);
            v
        }
    }
}

fn text(r: &mut Rng) -> String {
    let n = size(r);
    let alphabet: &[&str] = match r.below(4) {
        0 => &["a", "b", " ", "\n"],
        1 => &["\n", "\r", "\r\n", "x\n", "\n\n", "end", "\u{1a}", "\0", "\u{feff}", "\t", " \n"],
        2 => &["é", "日本", "🦀", "e\u{301}", "\u{10ffff}", "a", "\u{2028}", "\u{85}", "\u{fffd}"],
        _ => &["word ", "# ", "\n", "日", "<b>", "&", "\0", "\r", "🦀", "\\", "%", "{}", "\u{7f}"],
    };
    let mut s = String::with_capacity(n + 8);
    while s.len() < n {
        s.push_str(r.pick(alphabet));
    }
    if r.one_in(3) {
        while s.ends_with('\n') {
            s.pop();
        }
    }
    s
}

/// Bytes which are not UTF-8.
fn not_utf8(r: &mut Rng) -> Vec<u8> {
    let mut v = text(r).into_bytes();
    let bad: &[u8] = *r.pick::<&[u8]>(&[
        b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\xa6", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xfe\xff", b"\xff\xfea\0", b"\xe9",
    ]);
    let at = match r.below(3) {
        0 => 0,
        1 => v.len(),
        _ => {
            let mut at = r.below(v.len() + 1);
            while !std::str::from_utf8(&v[..at]).is_ok() {
                at -= 1;
            }
            at
        }
    };
    v.splice(at..at, bad.iter().copied());
    v
}

fn name(r: &mut Rng) -> OsString {
    match r.below(8) {
        0 => OsString::from_vec(b"caf\xe9.md".to_vec()),
        1 => "with space & 'quotes'.html".into(),
        2 => ".hidden".into(),
        3 => "日本語.pdf".into(),
        4 => "x".repeat(255).into(),
        5 => "-n".into(),
        _ => format!("out{}.html", r.below(100)).into(),
    }
}

// ---------------------------------------------------------------- oracles

/// Everything in a directory, by path.
fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).expect("directory") {
            let e = e.expect("entry");
            let p = e.path();
            let t = e.file_type().expect("type");
            if t.is_dir() {
                m.insert(p.clone(), b"directory".to_vec());
                todo.push(p);
            } else if t.is_symlink() {
                m.insert(p.clone(), std::fs::read_link(&p).expect("link").into_os_string().into_vec());
            } else if t.is_file() {
                m.insert(p.clone(), std::fs::read(&p).expect("content"));
            }
        }
    }
    m
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned();
    format!("{} bytes {s:?}", b.len())
}

struct Doc(String);
impl sut::Serialize for Doc {
    fn serialize(&self) -> Result<String> {
        match self.0.strip_prefix("fail:") {
            Some(w) => Err(Error::SerializeError(w.to_string())),
            None => Ok(self.0.clone()),
        }
    }
}
impl sut::Deserialize for Doc {
    fn deserialize(s: &str) -> Result<Self> {
        match s.strip_prefix("fail:") {
            Some(w) => Err(Error::DeserializeError(w.to_string())),
            None => Ok(Doc(s.to_string())),
        }
    }
}

enum Content {
    Text(String),
    Bytes(Vec<u8>),
}

impl Content {
    fn bytes(&self) -> &[u8] {
        match self {
            Content::Text(t) => t.as_bytes(),
            Content::Bytes(b) => b,
        }
    }
    fn write(&self, p: &PathBuf) -> Result<()> {
        match self {
            Content::Text(t) => sut::write_to_file(p, t),
            Content::Bytes(b) => sut::write_bytes(p, b),
        }
    }
}

/// Writes and reads one file; returns why that was wrong, if it was.
fn case(r: &mut Rng, root: &Path, stats: &mut Stats) -> std::result::Result<(), String> {
    let dir = root.join("d");
    std::fs::create_dir(&dir).expect("scratch");
    let other = dir.join("other.txt");
    std::fs::write(&other, b"do not touch").expect("scratch");
    let mut path = dir.join(name(r));
    let content = if r.one_in(2) { Content::Text(text(r)) } else { Content::Bytes(bytes(r)) };

    // what is there before
    let mut possible = true;
    let before = match r.below(14) {
        0..=3 => "nothing",
        4 | 5 => {
            let mut old = content.bytes().to_vec();
            old.extend(bytes(r));
            std::fs::write(&path, old).expect("scratch");
            "longer file"
        }
        6 => {
            let old = content.bytes();
            std::fs::write(&path, &old[..old.len() / 2]).expect("scratch");
            "shorter file"
        }
        7 => {
            std::fs::write(&path, bytes(r)).expect("scratch");
            "other file"
        }
        8 => {
            std::fs::write(dir.join("target"), b"old").expect("scratch");
            std::os::unix::fs::symlink("target", &path).expect("scratch");
            "link"
        }
        9 => {
            std::os::unix::fs::symlink("absent", &path).expect("scratch");
            "dangling link"
        }
        10 => {
            std::fs::create_dir(&path).expect("scratch");
            possible = false;
            "directory"
        }
        11 => {
            path = dir.join("no").join("such").join("directory.html");
            possible = false;
            "missing directory"
        }
        12 => {
            path = match r.below(5) {
                0 => dir.join("y".repeat(256)),
                1 => dir.join("other.txt").join("x.html"),
                2 => dir.join(OsStr::from_bytes(b"nul\0.html")),
                3 => {
                    std::os::unix::fs::symlink("loop", dir.join("loop")).expect("scratch");
                    dir.join("loop")
                }
                _ => PathBuf::new(),
            };
            possible = false;
            "impossible name"
        }
        _ => {
            std::fs::write(&path, content.bytes()).expect("scratch");
            "same file"
        }
    };
    let plan_w = if possible { plan(r, content.bytes().len(), false) } else { Plan::default() };
    let what = format!(
        "writing {} to {:?} ({before} before, plan {plan_w:?})",
        show(content.bytes()),
        path.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default()
    );
    let (res, seen) = with(&dir, "", false, &plan_w, || content.write(&path));
    stats.add("write_calls_watched", 1);
    stats.add(&format!("before: {before}"), 1);
    stats.add("write_system_calls", seen.writes);
    stats.add("opens", seen.opens);
    stats.add("renames", seen.renames);
    stats.add("shortened_calls", seen.shorts);
    stats.add("interrupted_calls", seen.interrupts);
    stats.add("failed_calls", seen.hard);
    stats.distinct.insert(seen.trace ^ (content.bytes().len() as u64) << 20 ^ before.len() as u64);
    if stats.samples.len() < 2 && seen.shorts > 1 {
        stats.samples.push(format!("{what}: {res:?} after {} writes", seen.writes));
    }
    let file = std::fs::read(&path);
    match &res {
        Ok(()) => {
            match &file {
                Ok(b) if b == content.bytes() => {}
                Ok(b) => return Err(format!("{what} reported success but the file has {}", show(b))),
                Err(e) => return Err(format!("{what} reported success but the file cannot be read: {e}")),
            }
            if !possible {
                return Err(format!("{what} reported success"));
            }
            // every write failed from some point on; a success can only be a lie
            if seen.hard > 0 {
                stats.add("success_despite_failed_calls", 1);
            }
            stats.add("successes", 1);
        }
        Err(e) => {
            if possible && seen.hard == 0 && seen.interrupts == 0 && seen.shorts == 0 {
                return Err(format!("{what} failed although nothing stood in its way: {e}"));
            }
            if e.to_string().trim().is_empty() {
                return Err(format!("{what} failed without a message"));
            }
            stats.add("errors", 1);
        }
    }
    if std::fs::read(&other).ok().as_deref() != Some(b"do not touch") {
        return Err(format!("{what} changed another file"));
    }

    // reading
    let (source, valid): (Vec<u8>, bool) = match r.below(4) {
        0 => (not_utf8(r), false),
        _ => (text(r).into_bytes(), true),
    };
    let input = dir.join("input.md");
    let kind = r.below(12);
    let mut exists = true;
    match kind {
        0 => exists = false,
        1 => {
            std::fs::create_dir(&input).expect("scratch");
            exists = false;
        }
        2 => {
            std::fs::write(dir.join("real"), &source).expect("scratch");
            std::os::unix::fs::symlink("real", &input).expect("scratch");
        }
        3 => {
            std::os::unix::fs::symlink("nowhere", &input).expect("scratch");
            exists = false;
        }
        _ => std::fs::write(&input, &source).expect("scratch"),
    }
    let plan_r = if exists { plan(r, source.len(), true) } else { Plan::default() };
    let what = format!("reading {} (kind {kind}, plan {plan_r:?})", show(&source));
    let earlier = snapshot(&dir);
    let decode = r.one_in(3);
    let ((res, note), seen) = with(&dir, "", true, &plan_r, || {
        if decode {
            match sut::decode_from_file::<Doc>(input.clone()) {
                Ok(d) => (Ok(d.0), ""),
                Err(Error::DeserializeError(m)) => (Ok(format!("fail:{m}")), "refused"),
                Err(e) => (Err(e), ""),
            }
        } else {
            (sut::read_to_string(&input), "")
        }
    });
    stats.add("read_calls_watched", 1);
    stats.add("read_system_calls", seen.reads);
    stats.add("shortened_calls", seen.shorts);
    stats.add("interrupted_calls", seen.interrupts);
    stats.add("failed_calls", seen.hard);
    stats.distinct.insert(seen.trace ^ (source.len() as u64) << 20 ^ 77);
    let _ = note;
    match res {
        Ok(s) => {
            if !exists {
                return Err(format!("{what} gave {} although there is no file", show(s.as_bytes())));
            }
            if s.as_bytes() != source {
                return Err(format!("{what} gave {}", show(s.as_bytes())));
            }
            stats.add("read_successes", 1);
        }
        Err(e) => {
            if exists && valid && seen.hard == 0 && seen.interrupts == 0 && seen.shorts == 0 {
                return Err(format!("{what} failed although nothing stood in its way: {e}"));
            }
            stats.add("read_errors", 1);
        }
    }
    if snapshot(&dir) != earlier {
        return Err(format!("{what} changed files"));
    }

    // objects
    let doc = Doc(if r.one_in(4) { format!("fail:{}", text(r)) } else { text(r) });
    match (sut::encode_to_string(&doc), doc.0.strip_prefix("fail:")) {
        (Ok(s), None) if s == doc.0 => {}
        (Err(Error::SerializeError(m)), Some(w)) if m == w => {}
        (got, _) => return Err(format!("encoding {} gave {got:?}", show(doc.0.as_bytes()))),
    }
    Ok(())
}

fn guarded(r: &mut Rng, root: &Path, stats: &mut Stats) -> std::result::Result<(), String> {
    let v = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(r, root, stats)));
    let _ = std::fs::remove_dir_all(root.join("d"));
    v.unwrap_or_else(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m.contains("scratch") {
            eprintln!("the driver itself failed: {m}");
            std::process::exit(3);
        }
        Err(format!("panicked: {m}"))
    })
}

pub fn run(dir: &str, seed: u64, cases: u64, threads: u64, only: Option<u64>) -> Stats {
    std::panic::set_hook(Box::new(|_| {}));
    let next = std::sync::atomic::AtomicU64::new(0);
    let mut total = Stats::default();
    let parts: Vec<Stats> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let next = &next;
                s.spawn(move || {
                    let root = Path::new(dir).join(format!("t{t}"));
                    std::fs::create_dir_all(&root).expect("scratch");
                    let mut st = Stats::default();
                    loop {
                        let n = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if n >= cases || st.violations.len() > 3 {
                            return st;
                        }
                        let n = only.unwrap_or(n);
                        st.evaluations += 1;
                        if let Err(why) = guarded(&mut Rng::new(seed, n), &root, &mut st) {
                            st.violations.push((n, why));
                        }
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker")).collect()
    });
    for p in parts {
        total.merge(p);
    }
    total
}

/// The kernel itself refuses to make files larger than a limit.
pub fn limit(dir: &str, seed: u64, cases: u64) -> Stats {
    const RLIMIT_FSIZE: c_int = 1;
    const SIGXFSZ: c_int = 25;
    let mut st = Stats::default();
    let dir = Path::new(dir);
    let max = 100_000u64;
    unsafe {
        signal(SIGXFSZ, 1);
        assert_eq!(setrlimit(RLIMIT_FSIZE, &[max, max]), 0);
    }
    for n in 0..cases {
        let mut r = Rng::new(seed, n);
        let len = match r.below(4) {
            0 => r.range(0, max as usize),
            1 => *r.pick(&[99_999, 100_000, 100_001]),
            _ => r.range(100_001, 400_000),
        };
        let path = dir.join("limited");
        let data: Vec<u8> = (0..len).map(|i| b'a' + (i % 23) as u8).collect();
        let content = if r.one_in(2) { Content::Text(String::from_utf8(data).unwrap()) } else { Content::Bytes(data) };
        if r.one_in(2) {
            std::fs::write(&path, b"old").expect("scratch");
        }
        let res = content.write(&path);
        let file = std::fs::read(&path).unwrap_or_default();
        st.evaluations += 1;
        st.add("writes_under_a_size_limit", 1);
        st.distinct.insert(len as u64);
        let fits = len as u64 <= max;
        match res {
            Ok(()) if file != content.bytes() => {
                st.violations.push((n, format!("writing {len} bytes reported success with a limit of {max} bytes, the file has {}", file.len())))
            }
            Err(e) if fits => st.violations.push((n, format!("writing {len} bytes failed with a limit of {max} bytes: {e}"))),
            Ok(()) => st.add("successes_under_a_size_limit", 1),
            Err(_) => st.add("errors_by_a_size_limit", 1),
        }
        let _ = std::fs::remove_file(&path);
    }
    let _ = mkfifo;
    st
}
