//! Link and image targets and labels.
use crate::ctx;
use crate::gen::{self, el, txt};
use crate::html::Node;
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict};

/// A label or title and what it looks like; without the characters in `stop`
/// unless escaped.
fn label(r: &mut Rng, stop: &[char]) -> (String, String) {
    let mut src = gen::word(r);
    let mut shown = src.clone();
    for _ in 0..r.below(4) {
        let w = match r.below(6) {
            0 => {
                let c = *r.pick(&['&', '<', '>', '"', '\'', '(', ')', '{', '}', '!', '#', '+', '-', '.', ',', ':', ';', '=', '?', '@', '^', '|', '$', '%', '/']);
                if c == '|' || stop.contains(&c) {
                    (format!("\\{c}"), c.to_string())
                } else {
                    (c.to_string(), c.to_string())
                }
            }
            1 => {
                let c = *r.pick(&['[', ']', '*', '_', '`', '~', '\\', '"', '\'', '<', '!', '|', '#']);
                (format!("\\{c}"), c.to_string())
            }
            2 => {
                let w = r.pick(&["&amp;", "&lt;", "&#65;", "it*s", "a_b", "5*6"]).to_string();
                (w.clone(), w)
            }
            _ => {
                let w = gen::word(r);
                (w.clone(), w)
            }
        };
        let sp = if r.one_in(4) { "" } else { " " };
        src.push_str(sp);
        shown.push_str(sp);
        src.push_str(&w.0);
        shown.push_str(&w.1);
    }
    let w = gen::word(r);
    (format!("{src} {w}"), format!("{shown} {w}"))
}

/// A destination that is acceptable.
fn dest(r: &mut Rng) -> String {
    loop {
        let d = gen::dest(r);
        if d.starts_with(['"', '\'', '<']) || d.is_empty() {
            continue;
        }
        if crate::props::c03::dangerous(&d) || d.to_ascii_lowercase().starts_with("data:") && !d.starts_with("data:image/") {
            continue;
        }
        return d;
    }
}

/// What a browser must be given for a destination.
fn target(d: &str) -> String {
    let mail = d.matches('@').count() == 1 && !d.contains([':', '/', '?', '#', '\\']) && !d.starts_with('@') && !d.ends_with('@');
    if mail { format!("mailto:{d}") } else { d.to_string() }
}

fn auto(r: &mut Rng) -> String {
    loop {
        let mut d = match r.below(4) {
            0 => r.pick(&["http://foo.bar.baz", "https://foo.bar.baz/test?q=hello&id=22&boolean", "irc://foo.bar:2233/baz", "MAILTO:FOO@BAR.BAZ", "a+b+c:d", "made-up-scheme://foo,bar", "https://../", "localhost:5001/foo", "foo@bar.example.com", "foo+special@Bar.baz-bar0.com"]).to_string(),
            1 => {
                let n = r.range(1, 8);
                format!("{}@{}.example", (0..n).map(|_| *r.pick(&['a', 'z', '0', '.', '-', '_', '+'])).collect::<String>(), gen::word(r).chars().filter(char::is_ascii_alphanumeric).collect::<String>())
            }
            _ => {
                let n = if r.one_in(4) { r.range(11, 32) } else { r.range(2, 10) };
                let s: String = (0..n).map(|i| if i == 0 || r.one_in(3) { r.letter() } else { *r.pick(&b"0123456789+.-"[..]) as char }).collect();
                format!("{s}:{}{}", gen::dest(r), r.pick(&["", "", "(", ")", "(x)", "\\", "[", "]"]))
            }
        };
        d.retain(|c| !matches!(c, '<' | '>' | ' '));
        if crate::props::c03::dangerous(&d) || d.to_ascii_lowercase().starts_with("data:") || d.ends_with('@') {
            continue;
        }
        return d;
    }
}

pub fn piece(r: &mut Rng) -> (String, Node) {
    match r.below(5) {
        0 | 1 => {
            let (l, shown) = label(r, &['[', ']']);
            let d = dest(r);
            let mut a = el("a", vec![txt(&shown)]);
            a.attrs.push(("href".into(), target(&d)));
            let title = title(r);
            if let Some(t) = &title {
                a.attrs.push(("title".into(), t.1.clone()));
            }
            (format!("[{l}]({d}{})", title.map_or(String::new(), |t| t.0)), a)
        }
        2 | 3 => {
            let (l, shown) = label(r, &['[', ']']);
            let d = dest(r);
            let mut a = el("img", vec![]);
            a.attrs.push(("src".into(), target(&d)));
            a.attrs.push(("alt".into(), shown));
            let title = title(r);
            if let Some(t) = &title {
                a.attrs.push(("title".into(), t.1.clone()));
            }
            (format!("![{l}]({d}{})", title.map_or(String::new(), |t| t.0)), a)
        }
        _ => {
            let d = auto(r);
            let mut a = el("a", vec![txt(&d)]);
            a.attrs.push(("href".into(), if d.contains(':') { d.clone() } else { format!("mailto:{d}") }));
            (format!("<{d}>"), a)
        }
    }
}

fn title(r: &mut Rng) -> Option<(String, String)> {
    if !r.one_in(3) {
        return None;
    }
    let q = *r.pick(&['"', '\'']);
    let (t, shown) = label(r, &[q]);
    let end = if r.one_in(4) { " " } else { "" };
    let (a, b) = if r.one_in(6) { (*r.pick(&["", " ", "  "]), *r.pick(&["", " ", "  "])) } else { ("", "") };
    if r.one_in(12) {
        let c = r.pick(&["x", "1", ".", "é", "&", "<", ">", "語", "(", ")", "?", "%", "/"]).to_string();
        return Some((format!(" {q}{c}{q}{end}"), c));
    }
    Some((format!(" {q}{a}{t}{b}{q}{end}"), format!("{a}{shown}{b}")))
}

pub fn check(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    let mut src = String::new();
    let mut nodes = vec![];
    let n = r.range(1, 3);
    for i in 0..n {
        let (s, node) = piece(r);
        // words around it, also without a space in between
        if i > 0 || !r.one_in(4) {
            let mut t = format!("{}{}", gen::text(r, 3, false), r.pick(&[" ", "", " (", ": ", "-", " \"", " & ", " ab:c "]));
            // what looks like the start of another one
            if r.one_in(6) {
                t.push_str(if s.starts_with('<') { r.pick(&["<", "<x", "<ab:c", "<a@b"]) } else { r.pick(&["[", "[x", "[x "]) });
            }
            src.push_str(&t);
            nodes.push(txt(&t));
        }
        // an exclamation mark in front would make it an image
        src.push_str(&s);
        nodes.push(node);
        let t = match r.below(5) {
            0 => String::new(),
            1 => r.pick(&[".", ",", ")", "!", "?", ";", "\"", ":"]).to_string() + " " + &gen::word(r),
            2 => gen::word(r),
            _ => format!(" {}", gen::text(r, 3, false)),
        };
        let sp = if i + 1 < n { " " } else { "" };
        src.push_str(&t);
        src.push_str(sp);
        nodes.push(txt(&format!("{t}{sp}")));
    }
    let (doc, want, name) = ctx::inline(r, &src, nodes);
    let html = c.render(&doc)?;
    c.stats.count(name);
    c.stats.add("links_compared", n as u64);
    if let Err(why) = ctx::compare(&html, want) {
        return bad(why, &doc, &html);
    }
    c.stats.nontrivial(&doc);
    Ok(())
}
