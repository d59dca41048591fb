//! Every word exactly once, in order, still separated.
use super::c05::PIECES;
use crate::gen;
use crate::html::{tokenize, Tok, VOID};
use crate::run::{bad, Case, Verdict};

/// Gives every word a number. What is syntax stays.
pub fn number_words(doc: &str) -> String {
    let b: Vec<char> = doc.chars().collect();
    let mut out = String::new();
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        if !b[i].is_ascii_alphanumeric() {
            out.push(b[i]);
            i += 1;
            continue;
        }
        let s = i;
        while i < b.len() && b[i].is_ascii_alphanumeric() {
            i += 1;
        }
        let w: String = b[s..i].iter().collect();
        let keep = w.chars().all(|c| c.is_ascii_digit())
            || matches!(w.as_str(), "details" | "summary" | "http" | "https" | "mailto" | "javascript" | "data")
            || (w.eq_ignore_ascii_case("x") && s > 0 && b[s - 1] == '[' && b.get(i) == Some(&']'));
        if keep {
            out.push_str(&w);
        } else {
            n += 1;
            out.push_str(&format!("q{n}z"));
        }
    }
    out
}

/// Numbered words in a text with their byte ranges.
fn find(s: &str) -> Vec<(u32, usize, usize)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'q' {
            let mut k = i + 1;
            while k < b.len() && b[k] == b'v' {
                k += 1;
            }
            let mut j = k;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if j > k && b.get(j) == Some(&b'z') {
                v.push((s[k..j].parse().unwrap_or(0), i, j + 1));
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    v
}

pub fn judge(doc: &str, html: &str) -> Result<usize, String> {
    let src = find(doc);
    // text of the document proper and of each footnote section, with a line
    // feed at the edges of blocks
    let mut texts = vec![String::new()];
    let mut open: Vec<usize> = vec![0];
    let mut attrs = String::new();
    let mut stack: Vec<(String, bool)> = vec![];
    for t in tokenize(html) {
        let cur = &mut texts[*open.last().unwrap()];
        match t {
            Tok::Text(t) => cur.push_str(&t),
            Tok::Start(t) => {
                for a in &t.attrs {
                    attrs.push_str(&a.1);
                    attrs.push(' ');
                }
                let inline = matches!(t.name.as_str(), "em" | "strong" | "strike" | "del" | "code" | "a" | "span");
                if !inline {
                    cur.push('\n');
                }
                if !VOID.contains(&t.name.as_str()) {
                    let note = t.attrs.iter().any(|a| a.0 == "class" && a.1 == "footnotes");
                    if note {
                        texts.push(String::new());
                        open.push(texts.len() - 1);
                    }
                    stack.push((t.name, note));
                }
            }
            Tok::End(t) => {
                if !matches!(t.name.as_str(), "em" | "strong" | "strike" | "del" | "code" | "a" | "span") {
                    cur.push('\n');
                }
                if let Some(i) = stack.iter().rposition(|s| s.0 == t.name) {
                    for s in stack.drain(i..) {
                        if s.1 {
                            open.pop();
                        }
                    }
                }
            }
            Tok::Markup(_) | Tok::Eof(_) => {}
        }
    }
    let total = src.len();
    let mut seen = vec![0u32; total + 2];
    let mut pos: Vec<Option<(usize, usize, usize)>> = vec![None; total + 2];
    for (note, text) in texts.iter().enumerate() {
        let mut last = 0;
        for (w, s, e) in find(text) {
            if w as usize > total {
                continue;
            }
            seen[w as usize] += 1;
            pos[w as usize] = Some((note, s, e));
            if w < last {
                return Err(format!("word q{w}z comes after q{last}z"));
            }
            last = w;
        }
    }
    let in_attr: std::collections::HashSet<u32> = find(&attrs).into_iter().map(|w| w.0).collect();
    for (w, s, _) in &src {
        match seen[*w as usize] {
            1 => {}
            0 if in_attr.contains(w) => {}
            0 => {
                // further words behind the language of a fence are no text
                let line = doc[..*s].rfind(['\n', '\r']).map_or(0, |n| n + 1);
                let before = &doc[line..*s];
                let lead = before.trim_start_matches(|c: char| c.is_ascii_whitespace() || c.is_ascii_digit() || matches!(c, '>' | '-' | '*' | '+' | '.'));
                if lead.starts_with("```") && before.contains(char::is_whitespace) {
                    continue;
                }
                return Err(format!("word q{w}z is lost"));
            }
            n => return Err(format!("word q{w}z appears {n} times")),
        }
    }
    for p in src.windows(2) {
        let between = &doc[p[0].2..p[1].1];
        if !(between.starts_with(|c: char| c.is_ascii_whitespace()) || between.ends_with(|c: char| c.is_ascii_whitespace())) || between.contains('`') {
            continue;
        }
        if let (Some(a), Some(b)) = (pos[p[0].0 as usize], pos[p[1].0 as usize]) {
            if a.0 != b.0 || b.1 < a.2 {
                continue;
            }
            let text = &texts[a.0];
            if !text[a.2..b.1].contains(char::is_whitespace) {
                return Err(format!("words q{}z and q{}z are run together: {:?}", p[0].0, p[1].0, &text[a.1..b.2]));
            }
        }
    }
    Ok(total)
}

/// The text of the output, nothing of the attributes, in order.
fn shown(html: &str) -> String {
    let mut out = String::new();
    for t in tokenize(html) {
        match t {
            Tok::Text(t) => out.push_str(&t),
            Tok::Start(t) | Tok::End(t) => {
                if !matches!(t.name.as_str(), "em" | "strong" | "strike" | "del" | "code" | "a" | "span") {
                    out.push('\u{1}');
                }
            }
            _ => {}
        }
    }
    out
}

/// Words of one length for the numbered ones; with `kinds` there are only
/// that many different ones.
fn respell(text: &str, kinds: u32, long: usize) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (w, s, e) in find(text) {
        out.push_str(&text[at..s]);
        let w = if kinds > 0 { w % kinds } else { w };
        out.push_str(&format!("q{}{w:06}z", "v".repeat(long)));
        at = e;
    }
    out.push_str(&text[at..]);
    out
}

/// Words which occur again and again are shown as those are which do not.
fn repeated(c: &mut Case, doc: &str) -> Verdict {
    let kinds = c.r.range(1, 3) as u32;
    let long = *c.r.pick(&[0, 0, 0, 0, 1, 10, 100, 1000]);
    let single = respell(doc, 0, long);
    let html = c.render(&single)?;
    if let Err(why) = judge(&single, &html) {
        return bad(why, &single, &html);
    }
    let again = respell(doc, kinds, long);
    let got = c.render(&again)?;
    if shown(&got) != respell(&shown(&html), kinds, long) {
        return bad("words are lost, doubled or moved if some of them are the same", &again, &got);
    }
    c.stats.count("documents_with_repeated_words");
    Ok(())
}

pub fn check(c: &mut Case) -> Verdict {
    let doc = match c.r.below(10) {
        0..=2 => {
            let mut s = String::new();
            for _ in 0..c.r.range(2, 8) {
                s.push_str(c.r.pick(PIECES));
                s.push_str(c.r.pick(&["\n", "\n\n", " ", "", " a ", "  \n", "\n  "]));
            }
            s
        }
        3..=4 => gen::soup(&mut c.r, 25, &mut |r| if r.one_in(2) { "a b".into() } else { "a".into() }),
        5 => {
            // one broken construct between words
            let r = &mut c.r;
            let f = gen::soup(r, 4, &mut |_| "w".into());
            format!("a b{}{}{}c d{}e", r.pick(&["", " ", "\n", "\n\n"]), f, r.pick(&["", " ", "\n", "\n\n"]), r.pick(&["\n\n", "\n", " "]))
        }
        _ => gen::any_doc(&mut c.r, c.corpus),
    };
    let doc = number_words(&doc);
    let html = c.render(&doc)?;
    match judge(&doc, &html) {
        Err(why) => bad(why, &doc, &html),
        Ok(n) => {
            c.stats.add("words_followed", n as u64);
            if n > 1 && n < 400 && !doc.contains("[^") && c.r.one_in(4) {
                repeated(c, &doc)?;
            }
            if n > 1 {
                c.stats.nontrivial(&doc);
            }
            Ok(())
        }
    }
}
