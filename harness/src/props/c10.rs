//! Spans apply to exactly the delimited text.
use crate::ctx;
use crate::gen::{self, el, txt};
use crate::html::Node;
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict};

/// The text of a span and what it looks like.
fn content(r: &mut Rng, delim: char, newline: bool) -> (String, String) {
    let mut src = match r.below(5) {
        0 => format!("{}{}", r.pick(&["(", "\"", "'", "“", "{", "$", "#", "@", "%", "+", "-", "/", "=", "?", ".", ",", ":", "«", "¿"]), gen::word(r)),
        1 => r.pick(&["1", "42", "2024", "0", "3.14", "1,000", "x1", "1x", "٣", "²", "½"]).to_string(),
        _ => gen::word(r),
    };
    let mut shown = src.clone();
    for _ in 0..r.below(4) {
        let sp = match r.below(8) {
            0 if newline => "\n",
            1 => "",
            _ => " ",
        };
        let (s, d) = match r.below(6) {
            // what comes at the start of a line must not start a block
            0..=2 if sp == "\n" => {
                let w = gen::word(r);
                (w.clone(), w)
            }
            0 => {
                let w = r.pick(&["a&b", "5>4", "<b>", "it's", "\"q\"", "(p)", "{c}", "x.y", "a-b", "a/b", "$", "a=b", "1.", "!", "#", "+", "a:b"]).to_string();
                (w.clone(), w)
            }
            1 => {
                let c = *r.pick(&['*', '_', '~', '`', '\\', '[', ']', '<', '#', '!', '.', '&']);
                (format!("\\{c}"), c.to_string())
            }
            2 if sp == " " => {
                // delimiters of another kind, which close nothing
                let c = match delim {
                    '*' => r.pick(&["a_b", "~", "_"]),
                    '_' => r.pick(&["a*b", "~", "*", "a_b", "snake_case_x", "1_2", "é_語"]),
                    _ => r.pick(&["a_b", "a*b", "*", "_"]),
                };
                (c.to_string(), c.to_string())
            }
            _ => {
                let w = gen::word(r);
                (w.clone(), w)
            }
        };
        src.push_str(sp);
        shown.push_str(sp);
        src.push_str(&s);
        shown.push_str(&d);
    }
    if r.one_in(60) {
        for _ in 0..r.range(1, 1500) {
            src.push_str(" ab");
            shown.push_str(" ab");
        }
    }
    let w = match r.below(5) {
        // what a sentence ends with
        0 if delim != '_' || r.one_in(2) => format!("{}{}", gen::word(r), r.pick(&[".", "!", "?", ",", ":", ";", ")", "...", "\"", "'", "…", "”", "%", "/", "-", "+", "=", "}", ">", "$", "&", "。", "»"])),
        1 => r.pick(&["1", "42", "2024", "0", "3.14", "1,000", "x1", "1x", "٣", "²", "½"]).to_string(),
        _ => gen::word(r),
    };
    let sp = if r.one_in(3) { "" } else { " " };
    (format!("{src}{sp}{w}"), format!("{shown}{sp}{w}"))
}

fn code(r: &mut Rng) -> (String, Node) {
    let t = gen::code_text(r, 3);
    let s = gen::write_inlines(&[gen::Inline::Code(t.clone())]);
    (s, el("code", vec![txt(&t)]))
}

/// A span: its source, its node and the character it starts and ends with.
fn span(r: &mut Rng, newline: bool) -> (String, Node, char) {
    match r.below(6) {
        0 => {
            let c = *r.pick(&['*', '_']);
            let (s, d) = content(r, c, newline);
            (format!("{c}{s}{c}"), el("em", vec![txt(&d)]), c)
        }
        1 => {
            let c = *r.pick(&['*', '_']);
            let (s, d) = content(r, c, newline);
            (format!("{c}{c}{s}{c}{c}"), el("strong", vec![txt(&d)]), c)
        }
        2 => {
            let c = *r.pick(&['*', '_']);
            let (s, d) = content(r, c, newline);
            (format!("{c}{c}{c}{s}{c}{c}{c}"), el("strong", vec![el("em", vec![txt(&d)])]), c)
        }
        3 => {
            let (s, d) = content(r, '~', newline);
            (format!("~~{s}~~"), el("strike", vec![txt(&d)]), '~')
        }
        _ => {
            let (s, n) = code(r);
            (s, n, '`')
        }
    }
}

pub fn check(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    let newline = r.one_in(4);
    let n = if r.one_in(50) { r.range(6, 60) } else { r.range(1, 5) };
    let mut src = String::new();
    let mut nodes = vec![];
    let mut last = ' ';
    for i in 0..n {
        let (s, node, ch) = span(r, newline);
        let underscore = ch == '_';
        // text in front; _ does nothing inside of a word
        let before = if i == 0 && r.one_in(4) {
            String::new()
        } else if last != ' ' && last != ch && !underscore && last != '_' && r.one_in(4) {
            // two spans of different kinds next to each other
            String::new()
        } else {
            let lead = match last {
                ' ' => " ",
                '_' => *r.pick(&[" ", " ", ". ", ", ", "\" ", ") ", "… ", "” ", "; ", "-", "/"]),
                _ => *r.pick(&[" ", " ", "", ". ", ", ", ") ", "\" ", "” ", "… "]),
            };
            let tail = if underscore { *r.pick(&[" ", " ", " (", " \"", "-", " “", " '", "/", "…", "—", " 1 ", " {", "=", " $", ":"]) } else { *r.pick(&[" ", " ", " (", "", "-", "/", " “", " \"", "…", "—", "1", " 1 ", "=", ":", " {"]) };
            let lead = if i == 0 { "" } else { lead };
            format!("{lead}{}{tail}", gen::text(r, 3, false))
        };
        src.push_str(&before);
        nodes.push(txt(&before));
        src.push_str(&s);
        nodes.push(node);
        last = ch;
    }
    let tail = match r.below(5) {
        0 => String::new(),
        1 => r.pick(&[".", ",", ")", "!", "?", ";", ":", "\"", "'", "…", "”", "—", "-", "/", "}", "%", "..", "). x", "\\.", "。"]).to_string().replace('\\', ""),
        2 if last != '_' => gen::word(r),
        _ => format!(" {}", gen::text(r, 3, false)),
    };
    // not the identifier of a heading
    let tail = if tail == "}" && src.contains("{#") { "…".to_string() } else { tail };
    src.push_str(&tail);
    nodes.push(txt(&tail));
    let (doc, want, name) = ctx::inline(r, &src, nodes);
    let html = c.render(&doc)?;
    c.stats.count(name);
    c.stats.add("spans_compared", n as u64);
    if let Err(why) = ctx::compare(&html, want) {
        return bad(why, &doc, &html);
    }
    c.stats.nontrivial(&doc);
    Ok(())
}
