//! Rendering is a pure function, also under concurrency.
use crate::gen;
use crate::rng::Rng;
use crate::run::{self, Bad, Case, Verdict};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

pub fn document(r: &mut Rng, corpus: &[String]) -> String {
    match r.below(4) {
        0 => gen::structured(r, 2, 4).1,
        1 => {
            // footnotes, whose numbers could be counted up somewhere
            let a = gen::word(r);
            format!("a[^{a}] b[^{a}]\n\n{}\n\n[^{a}]: c\n", gen::structured(r, 1, 2).1)
        }
        2 => {
            // many alike
            let w = gen::word(r);
            let k = r.range(1, 6);
            format!("{}\n", format!("# {w}\n\n- {w}\n\n> {w}\n").repeat(k))
        }
        _ => gen::any_doc(r, corpus),
    }
}

/// A document of the same length, alike up to one character.
fn sibling(r: &mut Rng, doc: &str) -> String {
    let places: Vec<usize> = doc.bytes().enumerate().filter(|(_, b)| b.is_ascii_alphanumeric()).map(|(i, _)| i).collect();
    if places.is_empty() {
        return gen::mutate(r, doc);
    }
    let i = match r.below(3) {
        0 => *places.last().expect("there are some"),
        1 => places[0],
        _ => places[r.below(places.len())],
    };
    let c = doc.as_bytes()[i];
    let mut b = c;
    while b == c {
        b = b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789*_`[#"[r.below(47)];
    }
    let mut v = doc.as_bytes().to_vec();
    v[i] = b;
    String::from_utf8(v).expect("ASCII for ASCII")
}

/// A document which a wrong comparison takes for the same.
fn near(r: &mut Rng, doc: &str) -> String {
    match r.below(10) {
        0 | 1 => gen::mutate(r, doc),
        2 | 3 => sibling(r, doc),
        4 => format!("{}{}", doc.trim_end(), r.pick(&["", "\n", "\n\n", " ", "  \n", "\n    ", "\t"])),
        5 => {
            // the other case
            let at: Vec<usize> = doc.bytes().enumerate().filter(|(_, b)| b.is_ascii_alphabetic()).map(|(i, _)| i).collect();
            let mut v = doc.as_bytes().to_vec();
            if !at.is_empty() {
                if r.one_in(2) {
                    v[*r.pick(&at)] ^= 0x20;
                } else {
                    v.make_ascii_uppercase();
                }
            }
            String::from_utf8(v).expect("ASCII for ASCII")
        }
        6 => {
            // the same characters
            let mut v: Vec<char> = doc.chars().collect();
            if v.len() > 1 {
                let (a, b) = (r.below(v.len()), r.below(v.len()));
                v.swap(a, b);
            }
            v.into_iter().collect()
        }
        7 => format!("{doc}{}", gen::text(r, 8, true)),
        8 => format!("{}{doc}", r.pick(&["\n", "\n\n", " ", "    ", "\t", "x ", "# ", "> ", "- ", "\u{feff}", "\u{a0}"])),
        _ => doc.split(' ').collect::<Vec<_>>().join(r.pick(&["  ", "\n", "\t", "\u{a0}", ""])),
    }
}

/// Number `i` of the documents compared across processes. Each second one is
/// a near copy of the one before.
pub fn numbered(seed: u64, i: u64, corpus: &[String]) -> String {
    let mut r = Rng::new(seed ^ 0xd16e57, i & !1);
    let d = document(&mut r, corpus);
    if i & 1 == 0 {
        return d;
    }
    if r.one_in(2) {
        near(&mut r, &d)
    } else {
        sibling(&mut r, &d)
    }
}

pub fn check(c: &mut Case) -> Verdict {
    let n = c.r.range(2, 6);
    let mut docs: Vec<String> = (0..n).map(|_| document(&mut c.r, c.corpus)).collect();
    // documents which differ a little are what a wrong cache would mix up
    for i in 0..n {
        if i < 2 || c.r.one_in(3) {
            let d = near(&mut c.r, &docs[i]);
            docs.push(d);
        }
    }
    let mut base = vec![];
    for d in &docs {
        base.push(c.render(d)?);
    }
    let differs = |how: &str, d: &str, a: &str, b: &str| {
        Err(Bad { why: format!("{how} the output differs: at first {:?}", clip(a)), doc: d.to_string(), html: b.to_string() })
    };
    // again, in another order
    let mut order: Vec<usize> = (0..docs.len()).chain(0..docs.len()).collect();
    c.r.shuffle(&mut order);
    for i in &order {
        // from another place in memory
        let copy = format!(" {}", docs[*i]);
        let h = c.render(&copy[1..])?;
        if h != base[*i] {
            return differs("rendered again after other documents,", &docs[*i], &base[*i], &h);
        }
    }
    // from the same place in memory, for documents that fit
    let mut place = String::with_capacity(docs.iter().map(|d| d.len()).max().unwrap_or(0));
    for _ in 0..docs.len() {
        let i = c.r.below(docs.len());
        place.clear();
        place.push_str(&docs[i]);
        let h = c.render(&place)?;
        if h != base[i] {
            return differs("rendered from the place in memory of another document,", &docs[i], &base[i], &h);
        }
    }
    // what the log level is does not matter
    run::log_here(true);
    for (i, d) in docs.iter().enumerate() {
        let h = c.render(d);
        let h = match h {
            Ok(h) => h,
            Err(b) => {
                run::log_here(false);
                return Err(b);
            }
        };
        if h != base[i] {
            run::log_here(false);
            return differs("with logging on", d, &base[i], &h);
        }
    }
    run::log_here(false);
    // several threads at once
    let threads = c.r.range(2, 6);
    let plans: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut p: Vec<usize> = (0..docs.len()).collect();
            // half of the time all threads render the same document at once
            if c.r.one_in(2) {
                c.r.shuffle(&mut p);
            }
            p
        })
        .collect();
    let barrier = Barrier::new(threads);
    let active = AtomicU64::new(0);
    let overlaps = AtomicU64::new(0);
    let rendered = AtomicU64::new(0);
    let res: Vec<Result<(), (usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(t, plan)| {
                let (docs, base, barrier, active, overlaps, rendered) = (&docs, &base, &barrier, &active, &overlaps, &rendered);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        run::log_here(t % 3 == 2);
                        barrier.wait();
                        for i in plan {
                            if active.fetch_add(1, Ordering::SeqCst) > 0 {
                                overlaps.fetch_add(1, Ordering::Relaxed);
                            }
                            let h = run::render_plain(&docs[*i]);
                            active.fetch_sub(1, Ordering::SeqCst);
                            rendered.fetch_add(1, Ordering::Relaxed);
                            match h {
                                Ok(h) if h == base[*i] => {}
                                Ok(h) => return Err((*i, h)),
                                Err(b) => return Err((*i, b.why)),
                            }
                        }
                        Ok(())
                    })
                    .expect("thread")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("joined")).collect()
    });
    for r in res {
        if let Err((i, h)) = r {
            return differs("in several threads at once", &docs[i], &base[i], &h);
        }
    }
    c.stats.renderings += rendered.load(Ordering::Relaxed);
    c.stats.add("renderings_while_another_thread_renders", overlaps.load(Ordering::Relaxed));
    c.stats.add("threads", threads as u64);
    if overlaps.load(Ordering::Relaxed) > 0 {
        c.stats.nontrivial(&docs.join("\u{1}"));
    }
    Ok(())
}

fn clip(s: &str) -> String {
    s.chars().take(2000).collect()
}

/// Digests of the renderings of many documents, for comparison with those of
/// other processes.
pub fn digests(seed: u64, n: u64, reverse: bool, logging: bool, corpus: &[String]) -> Vec<(u64, u64)> {
    run::log_here(logging);
    let mut v: Vec<u64> = (0..n).collect();
    if reverse {
        v.reverse();
    }
    let mut place = String::with_capacity(1 << 20);
    let mut out: Vec<(u64, u64)> = v
        .into_iter()
        .map(|i| {
            let d = numbered(seed, i, corpus);
            place.clear();
            place.push_str(&d);
            let h = match run::render_plain(if reverse { &place } else { &d }) {
                Ok(h) => h,
                Err(b) => b.why,
            };
            (i, fnv(&h))
        })
        .collect();
    out.sort();
    out
}

/// A digest that is the same in every process.
pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3))
}
