//! Code is verbatim and opaque.
use super::c07::unicode;
use super::c09;
use crate::ctx;
use crate::gen::{self, el, txt, Block, Inline, Shape};
use crate::html::Node;
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict};

/// One line of anything, not blank.
fn code_line(r: &mut Rng, nested: bool) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, *r.clone().pick(&[2, 5, 12])) {
        match r.below(6) {
            0 => s.push_str(&gen::word(r)),
            1 => s.push(unicode(r)),
            2 => s.push(*r.pick(&[' ', ' ', '\t', '\u{1}', '\u{b}', '\u{c}', '\u{1b}', '\u{7f}', '\\', '`', '<', '&', '"', '\''])),
            _ => s.push_str(r.pick(gen::FRAGMENTS)),
        }
    }
    s.retain(|c| !matches!(c, '\n' | '\r' | '\0'));
    if r.one_in(4) {
        s.insert_str(0, r.pick(&["    ", "  ", " ", "# ", "- ", "> ", "1. ", "| a |", "</details>", "<details>", "<summary>", "[^1]: ", "---", "- [x] ", "* * *", "</code></pre>", "<!-- -->", "<!-- x -->", "+", "-", "@@ -1 +1 @@", "$ ", "$$", "\\begin{x}", "%", "//", "/*", "{{", "#!", "\\\\", "&nbsp;"]));
    }
    if !nested && r.one_in(8) {
        s.insert(0, '\t');
    }
    if r.one_in(8) {
        s.push_str(r.pick(&["  ", "\\", " ", "`", "</details>", "```"]));
    }
    if nested {
        // a tab is as wide as it reaches there
        s = s.trim_start_matches('\t').to_string();
        let lead = s.len() - s.trim_start_matches([' ', '\t']).len();
        s = s[..lead].replace('\t', "  ") + &s[lead..];
    }
    if r.one_in(20) {
        // nearly the end of a fence
        let ticks = "`".repeat(r.range(3, 8));
        s = match r.below(6) {
            0 => format!("{ticks}{}", r.pick(&["\u{a0}", "\u{3000}", "\u{2003}", "\u{feff}", "\u{200b}", "\u{b}", "\u{85}", ".", "\\", "x", "end", " x", "\u{1}"])),
            1 => format!("{}{ticks}", r.pick(&["\u{a0}", "\u{3000}", "\u{feff}", "\u{200b}", "\\", "x", "> ", "- ", "# ", "~", "'"])),
            2 => format!("{ticks} {ticks}"),
            3 => "~".repeat(r.range(3, 8)),
            4 => "'".repeat(3),
            _ => "`".repeat(r.range(1, 2)),
        };
    }
    if r.one_in(40) {
        s.push_str(&gen::filler(r));
    }
    if r.one_in(60) {
        s = r.pick(&["\u{a0}", "\u{3000}", "\u{2003}\u{2003}", "\u{200b}", "\u{85}"]).to_string();
    } else if r.one_in(60) {
        s = "`".repeat(r.range(3, 40));
    }
    if s.trim_ascii().is_empty() { gen::word(r) } else { s }
}

fn code(r: &mut Rng, nested: bool) -> String {
    let mut s = String::new();
    if !nested && r.one_in(16) {
        // a document about documents
        s = gen::structured(r, 1, 3).1;
        s.retain(|c| c != '\r');
        if r.one_in(2) {
            s = format!("{} {}\n\n{s}", "#".repeat(r.range(1, 3)), gen::text(r, 2, false));
        }
        return s + "\n";
    }
    let n = if r.one_in(100) { r.range(6, 700) } else { r.below(6) };
    for _ in 0..n {
        if r.one_in(4) {
            for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
                s.push('\n');
            }
        } else if n > 40 && !r.one_in(8) {
            s.push_str("x\n");
        } else {
            s.push_str(&code_line(r, nested));
            s.push('\n');
        }
    }
    s
}

fn code_block(r: &mut Rng, nested: bool) -> Block {
    if r.below(3) > 0 {
        let lang = match r.below(5) {
            0 | 1 => String::new(),
            2 => r
                .pick(&[
                    "rust", "c++", "c#", "sh", "x-y", "a.b", "objective-c", "markdown", "markdown", "md", "html", "xml", "svg", "diff", "patch", "math", "latex", "tex", "mermaid", "text", "txt", "plain", "console", "json", "yaml",
                    "toml", "js", "python", "py", "css", "sql", "raw", "rust,ignore", "Makefile", "csv", "http", "nohighlight", "none", "RUST", "Html",
                ])
                .to_string(),
            3 => format!(" {} {}", gen::word(r), r.pick(&["ignore", "x=\"y\"", "{a}", "# b", "- c", "*d*", "[e](f)", "</details>", "\\"])),
            _ => r.pick(&["<b>", "\"q\"", "a&b", "&amp;", "é", "'", "\">", "[x](y)", "*x*", "a|b", "-", "+", "1.", ">", "#", "{x}", "a\u{a0}b", "\u{3000}x", "x\u{2003}", "ə\u{85}"]).to_string(),
        };
        Block::Fence(if r.one_in(6) { r.range(7, 40) } else { r.range(3, 6) }, lang, code(r, nested))
    } else if !nested && r.one_in(2) {
        Block::Tabbed(
            (0..r.range(1, 4))
                .map(|_| {
                    let l = code_line(r, nested);
                    (*r.pick(&["\t", "    ", " \t", "  \t", "   \t"]), if l.trim().is_empty() { "x".into() } else { l })
                })
                .collect(),
        )
    } else {
        Block::Indented(
            (0..r.range(1, 4))
                .map(|_| {
                    let l = code_line(r, nested);
                    // the indentation is at least four columns as it is
                    if l.starts_with('\t') { l.trim_start().to_string() } else { l }
                })
                .map(|l| if l.trim().is_empty() { "x".into() } else { l })
                .collect(),
        )
    }
}

fn span_text(r: &mut Rng, table: bool) -> String {
    loop {
        let mut s = String::new();
        for _ in 0..r.range(1, 6) {
            match r.below(4) {
                0 => s.push_str(&gen::word(r)),
                1 => s.push(unicode(r)),
                2 => s.push_str(r.pick(&["*", "**", "_", "__", "~~", "](u)", "]", "[", "![", "\\", "\\`", "`", "``", ")", ">", "<", "<http://x>", "&amp;", "&", "\"", "'", "***", "\\\\", " ", "  "])),
                _ => s.push_str(r.pick(gen::FRAGMENTS)),
            }
        }
        s.retain(|c| !matches!(c, '\n' | '\r' | '\0' | '\t'));
        if s.is_empty() || s.trim_matches(' ').is_empty() && !r.one_in(4) || table && s.contains('|') {
            continue;
        }
        return s;
    }
}

fn write_span(t: &str) -> String {
    gen::write_inlines(&[Inline::Code(t.to_string())])
}

/// A code span in a line of text in which something may be open that the
/// code seems to close.
fn spans(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    let mut src = String::new();
    let mut nodes: Vec<Node> = vec![];
    let n = r.range(1, 3);
    let mut put = |s: &str, d: &str| {
        src.push_str(s);
        nodes.push(txt(d));
    };
    put("w ", "w ");
    let opener = *r.pick(&["", "", "*x ", "**x ", "***x ", "_x ", "__x ", "~~x ", "[x ", "![x ", "(x ", "\\`x ", "\\*x ", "[x](y ", "[x](y \"z ", "<x ", "<a:b ", "{#x "]);
    put(opener, &opener.replace("\\", ""));
    let mut code_n = 0;
    for _ in 0..n {
        let t = gen::text(r, 2, false);
        let sep = *r.pick(&[" ", " ", "", ". "]);
        src.push_str(&t);
        src.push_str(sep);
        nodes.push(txt(&format!("{t}{sep}")));
        let mut s = span_text(r, true);
        // (that a closing tag at the end of such a line ends the section around it is known)
        if r.one_in(10) && !s.trim_end_matches([' ', '\\']).ends_with("</details>") {
            // over the end of a line
            let w = gen::word(r);
            s = format!("{}\n{w}", s.trim_end_matches([' ', '\\']));
            if s.starts_with('\n') {
                s = s[1..].to_string();
            }
        }
        src.push_str(&write_span(&s));
        nodes.push(el("code", vec![txt(&s)]));
        code_n += 1;
        let sep = *r.pick(&[" ", " ", "", ", "]);
        src.push_str(sep);
        nodes.push(txt(sep));
    }
    let t = gen::text(r, 2, false);
    src.push_str(&t);
    nodes.push(txt(&t));
    let (doc, want, name) = ctx::inline(r, &src, nodes);
    let html = c.render(&doc)?;
    c.stats.count(&format!("span_in_{name}"));
    c.stats.add("code_spans", code_n);
    if let Err(why) = ctx::compare(&html, want) {
        return bad(why, &doc, &html);
    }
    c.stats.nontrivial(&doc);
    Ok(())
}

fn ends_in_fence(v: &[Block]) -> bool {
    match v.last() {
        Some(Block::Fence(_, _, code)) => !code.ends_with("\n\n") && code != "\n",
        Some(Block::Quote(v)) => ends_in_fence(v),
        Some(Block::List(_, items)) => items.last().is_some_and(|i| ends_in_fence(i)),
        _ => false,
    }
}

pub fn check(c: &mut Case) -> Verdict {
    if c.r.one_in(2) {
        return spans(c);
    }
    let r = &mut c.r;
    let around = Shape { depth: 1, max_blocks: 2, details: false };
    let mut v: Vec<Block> = vec![];
    let place = r.below(6);
    let nested = place > 1 && place != 4;
    let put = |v: &mut Vec<Block>, b: Block| {
        if gen::compatible(v.last(), &b) {
            v.push(b)
        }
    };
    for _ in 0..r.below(3) {
        let b = gen::block(r, around);
        put(&mut v, b);
    }
    let n = r.range(1, 2);
    for _ in 0..n {
        let mut b = code_block(r, nested);
        match place {
            0 | 1 => {}
            2 => b = Block::Quote(vec![b]),
            3 => {
                let mut item = vec![gen::para(r), b];
                if r.one_in(2) {
                    item.push(gen::para(r));
                }
                b = Block::List(*r.pick(&['-', '*', '+']), vec![item, vec![gen::para(r)]]);
            }
            4 => b = Block::Details("s".into(), if r.one_in(2) { vec![b] } else { vec![gen::para(r), b] }),
            _ => b = Block::Quote(vec![Block::List('-', vec![vec![gen::para(r), b]])]),
        }
        put(&mut v, b);
        if r.one_in(2) {
            let b = gen::block(r, around);
            put(&mut v, b);
        }
    }
    let mut lines = gen::write_blocks(r, &v, false);
    let mut unclosed = false;
    if ends_in_fence(&v) && r.one_in(2) {
        lines.pop();
        unclosed = true;
    }
    let mut doc = lines.join("\n");
    if r.one_in(2) {
        doc.push('\n');
    }
    if r.one_in(10) {
        doc = doc.replace('\n', "\r\n");
    }
    let html = c.render(&doc)?;
    let (_, got) = match c09::actual(&html) {
        Ok(g) => g,
        Err(why) => return bad(why, &doc, &html),
    };
    let want = c09::expected(&v);
    if let Some(d) = c09::first_difference(&want, &got) {
        return bad(d, &doc, &html);
    }
    c.stats.count(["block_at_top", "block_at_top", "block_in_quote", "block_in_list", "block_in_details", "block_in_list_in_quote"][place]);
    c.stats.add("code_blocks", n as u64);
    if unclosed {
        c.stats.count("unclosed_fences");
    }
    c.stats.nontrivial(&doc);
    Ok(())
}
