//! Rendering is total.
use crate::gen;
use crate::mem;
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict, MEMORY_LIMIT};

/// Things which nest or repeat: prefix, unit, middle, closing unit.
const PUMPS: &[(&str, &str, &str, &str)] = &[
    ("", "> ", "x", ""),
    ("", ">", " x", ""),
    ("", "- ", "x", ""),
    ("", "* ", "x", ""),
    ("", "+ - * ", "x", ""),
    ("", "> - ", "x", ""),
    ("", "> 1. ", "x", ""),
    ("", "1. ", "x", ""),
    ("", "<details>\n<summary>s</summary>\n", "x", "\n</details>\n"),
    ("", "<details>\n<summary>s</summary>\n", "x", ""),
    ("", "<details>\n", "x", "</details>"),
    ("", "<details>", "", ""),
    ("", "</details>\n", "", ""),
    ("", "<summary>", "", "</summary>"),
    ("", "[", "x", "](u)"),
    ("", "[", "x", "]"),
    ("", "![", "x", "](u)"),
    ("", "(", "x", ")"),
    ("[a](", "(", "x", ")"),
    ("[a](b \"", "c\\", "", ""),
    ("", "[a](", "", ""),
    ("", "[a](b", "", ")"),
    ("", "[^", "", ""),
    ("", "[^a", "", "]"),
    ("", "[^a]: b\n", "", ""),
    ("", "[^a]", "", ""),
    ("[^a]: x\n", "  y\n", "", ""),
    ("", "*a ", "b", "*"),
    ("", "**a ", "b", "**"),
    ("", "*", "b", "*"),
    ("", "_", "b", "_"),
    ("", "*a _b ", "c", ""),
    ("", "*a", "", ""),
    ("", "**a", "", ""),
    ("", " *a", "", ""),
    ("", "~~a ", "b", "~~"),
    ("", "~", "a", "~"),
    ("", "~~a", "", ""),
    ("", "`", "a", "`"),
    ("", "` ``", "a", ""),
    ("", "`a ``b ", "", ""),
    ("", "<", "a", ">"),
    ("", "<a:", "", ">"),
    ("", "<a", "", ""),
    ("", "<http://a", "", ""),
    ("", "\\", "", ""),
    ("", "\\\n", "", ""),
    ("", "&", "", ""),
    ("", "&amp;", "", ""),
    ("", "\"'<>&", "", ""),
    ("", "|", "", "|"),
    ("", "| a ", "|\n|", "-|"),
    ("| a |\n| - |\n", "| b |\n", "", ""),
    ("| a |\n| - |\n", "| *b |\n", "", ""),
    ("", "| a |\n| - |\n", "", ""),
    ("", "| a |\n", "", ""),
    ("", "|\n", "", ""),
    ("", "#", " x", "#"),
    ("# ", "*a ", "", ""),
    ("# ", "# ", "", ""),
    ("", "# x\n", "", ""),
    ("# x ", "{#", "", "}"),
    ("", "{", "", "}"),
    ("", "---\n", "", ""),
    ("", "-", "", ""),
    ("", "- - ", "", ""),
    ("", "* ", "", ""),
    ("", "_ ", "", ""),
    ("", "```\n", "", ""),
    ("", "```", "", ""),
    ("", "````\n```\n", "", ""),
    ("```\n", "``\n", "", ""),
    ("```\n", "a\n", "", "```\n"),
    ("", "    a\n", "", ""),
    ("", "\ta\n", "", ""),
    ("", "    \n", "", ""),
    ("", "\t", "x", ""),
    ("", " ", "x", ""),
    ("", "  \n", "", ""),
    ("", "\n", "x", ""),
    ("", "\r", "x", "\r\n"),
    ("", "a\n", "", ""),
    ("", "a\n\n", "", ""),
    ("", "a  \n", "", ""),
    ("", "- a\n", "", ""),
    ("", "- a\n\n", "", ""),
    ("- a\n", "  - b\n", "", ""),
    ("- a\n", "\n", "  b", ""),
    ("- a\n", "  b\n", "", ""),
    ("- a\n", "\n  b\n", "", ""),
    ("", "- [x] a\n", "", ""),
    ("", "- [ ] a\n", "", ""),
    ("", "1. a\n", "", ""),
    ("", "999999999999999999999. a\n", "", ""),
    ("", "9", ". a", ""),
    ("", "> a\n", "", ""),
    ("", "> a\n\n", "", ""),
    ("", "> a\n>> b\n", "", ""),
    ("", ">\n", "", ""),
    ("", "é", "", ""),
    ("", "日", "", ""),
    ("", "😀", "", ""),
    ("", "e\u{301}", "", ""),
    ("", "\0", "", ""),
    ("", "*é ", "", "*"),
    ("", "a@b.c ", "", ""),
    ("", "http://a.b ", "", ""),
    ("", "<a@b.c>", "", ""),
    ("", "[a](javascript:x)", "", ""),
    ("", "![](", "", ")"),
    ("", ":", "", ""),
];

pub fn pump(r: &mut Rng, max_len: usize) -> String {
    let (pre, unit, mid, close): (String, String, String, String) = if r.one_in(3) {
        let mut p = |n: usize| -> String { (0..r.below(n)).map(|_| *r.pick(gen::FRAGMENTS)).collect() };
        (p(3), p(4), p(3), p(3))
    } else {
        let p = r.pick(PUMPS);
        (p.0.into(), p.1.into(), p.2.into(), p.3.into())
    };
    let per = (unit.len() + close.len()).max(1);
    let n = r.range(1, (max_len / per).max(1));
    let mut s = pre;
    s.push_str(&unit.repeat(n));
    s.push_str(&mid);
    s.push_str(&close.repeat(if r.one_in(4) { r.below(n + 1) } else { n }));
    if r.one_in(4) {
        s.push_str("\n\ntail");
    }
    s
}

/// A list, quote or the like whose levels are indented ever deeper.
fn staircase(r: &mut Rng, depth: usize) -> String {
    let mut s = String::new();
    let step = r.range(2, 4);
    let mark = r.pick(&["- ", "* ", "+ ", "> ", "1. ", "- [ ] "]).to_string();
    for d in 0..depth {
        s.push_str(&" ".repeat(d * step));
        s.push_str(&mark);
        s.push_str("x\n");
        if r.one_in(20) {
            s.push('\n');
        }
    }
    s
}

fn document(c: &mut Case) -> (String, &'static str) {
    let r = &mut c.r;
    match r.below(100) {
        0..=39 => (gen::any_doc(r, c.corpus), "any"),
        40..=49 => (gen::filled(r), "filled"),
        50..=69 => {
            let n = *r.pick(&[2, 5, 12, 30]);
            let s = (0..r.range(0, n))
                .map(|_| match r.below(6) {
                    0 => char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}'),
                    1 => (r.below(0x80) as u8) as char,
                    2 => *r.pick(&['\0', '\r', '\n', '\t', ' ', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{301}', '\u{200d}']),
                    3 => *r.pick(&['ß', 'é', '日', '😀', '\u{10ffff}', 'İ', '𝕏', 'ﬃ', '٣', '²']),
                    _ => *r.pick(&['#', '*', '_', '`', '~', '[', ']', '(', ')', '!', '<', '>', '|', '-', '+', '\\', '&', '{', '}', '^', ':', '1', '.', ' ', '\n', '\n', '"']),
                })
                .collect();
            (s, "unicode")
        }
        70..=74 => {
            let n = r.range(0, 200);
            let b: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect();
            (String::from_utf8_lossy(&b).into_owned(), "bytes")
        }
        75..=77 => {
            let d = *r.pick(&[3, 20, 40, 80]);
            (staircase(r, d), "staircase")
        }
        78..=95 => (pump(r, 400), "pump"),
        96..=97 => (pump(r, 6_000), "pump_6k"),
        98 => {
            let d = gen::structured(r, 4, 40).1;
            (d, "long")
        }
        _ => (pump(r, 1_500), "pump_1k"),
    }
}

pub fn check(c: &mut Case) -> Verdict {
    // the first cases are the large ones, one of each kind
    let n = c.n as usize;
    let (doc, kind) = if n < PUMPS.len() {
        let p = PUMPS[n];
        let k = (if c.thorough { 524_288 } else { 131_072 }) / (p.1.len() + p.3.len()).max(1);
        (format!("{}{}{}{}", p.0, p.1.repeat(k), p.2, p.3.repeat(k)), "family")
    } else if n < PUMPS.len() + 16 {
        let mut s = String::new();
        let want = if c.thorough { 2 << 20 } else { 1 << 18 };
        while s.len() < want {
            s.push_str(&gen::structured(&mut c.r, 2, 6).1);
            s.push_str("\n\n");
        }
        (s, "megabyte")
    } else if n < PUMPS.len() + 32 {
        (staircase(&mut c.r, 300), "staircase")
    } else {
        document(c)
    };
    c.stats.count(kind);
    c.stats.renderings += 1;
    crate::run::log_here(c.r.one_in(8));
    let (res, used) = mem::measure(MEMORY_LIMIT, || crate::run::render_plain(&doc));
    crate::run::log_here(false);
    let html = res?;
    let len = doc.len() as u64;
    c.stats.max("document_bytes", len);
    c.stats.max("output_bytes", html.len() as u64);
    c.stats.max("output_per_byte_x100", html.len() as u64 * 100 / (len + 64));
    c.stats.max("peak_memory_bytes", used.peak);
    c.stats.max("peak_memory_per_byte", used.peak / (len + 1024));
    c.stats.max("total_allocated_bytes", used.total);
    c.stats.max("total_allocated_per_squared_byte_x1000", used.total * 1000 / ((len + 1024) * (len + 1024)));
    if used.peak > 4000 * len + (4 << 20) {
        return bad(format!("{} bytes of memory for a document of {} bytes", used.peak, len), &doc, &html);
    }
    if used.total > 64 * (len + 1024) * (len + 1024) {
        return bad(format!("{} bytes were allocated for a document of {} bytes", used.total, len), &doc, &html);
    }
    if html.len() as u64 > 128 * len + 4096 {
        return bad(format!("{} bytes of output for a document of {} bytes", html.len(), len), &doc, &html);
    }
    c.stats.nontrivial(&doc);
    Ok(())
}
