//! Text keeps its characters.
use crate::ctx;
use crate::gen::{self, txt};
use crate::html;
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict};

pub const PUNCT: &str = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";

/// A character outside of ASCII; inside of a word none of them means anything.
pub fn unicode(r: &mut Rng) -> char {
    loop {
        let c = match r.below(6) {
            0 => *r.pick(&[
                '\u{a0}', '\u{3000}', '\u{2028}', '\u{2029}', '\u{85}', '\u{feff}', '\u{200b}', '\u{200d}', '\u{202e}', '\u{ad}', '\u{fffd}', '\u{fffe}', '\u{10ffff}',
                '\u{2018}', '\u{201c}', '\u{2013}', '\u{ff1c}', '\u{ff06}', '\u{130}', '\u{131}', '\u{17f}', '\u{212a}', '\u{df}', '\u{fb01}', '\u{345}', '\u{e000}', '\u{1f1e6}',
            ]),
            1 => char::from_u32(0x80 + r.below(0x80) as u32).unwrap(),
            2 => char::from_u32(0x100 + r.below(0x500) as u32).unwrap(),
            3 => char::from_u32(0x2000 + r.below(0x1000) as u32).unwrap(),
            4 => match char::from_u32(r.below(0x11_0000) as u32) {
                Some(c) => c,
                None => continue,
            },
            _ => char::from_u32(0x1f300 + r.below(0x400) as u32).unwrap(),
        };
        if !c.is_ascii() {
            return c;
        }
    }
}

/// Source and appearance of a piece of text, and whether other characters
/// may follow or precede it directly.
fn atom(r: &mut Rng, stop: &[char]) -> (String, String, bool) {
    let same = |s: String, glue: bool| (s.clone(), s, glue);
    match r.below(11) {
        0 | 1 => same(gen::word(r), true),
        10 => {
            // what other programs make something else of
            let s = *r.pick(&[
                "...", "--", "---", "(c)", "(C)", "(r)", "(tm)", "1/2", "3/4", "->", "=>", "<-", "<=", ">=", "!=", "+-", "+/-", "==", "==m==", "++i++", "^2^", "$x$", "$$", "{{x}}", "{% y %}",
                ":smile:", ":-)", "@user", "#123", "www.example.org", "%s", "%20", "\u{1}", "\u{7}", "\u{8}", "\u{1b}", "\u{1f}", "\u{7f}", "0x1F", "1,000", "5'", "6\"", "'90s", "``", "''", ",,",
                "<<", ">>", "=", "/", "//", "a//b", "&c.", "&#", "&#x", "&;", "&#0;", "&#xD800;", "&amp;amp;", "?!", "?", ";;", "  ", "[toc]", "\u{fe0f}", "\u{1f1e6}\u{1f1e7}",
            ]);
            if s.chars().any(|c| stop.contains(&c)) || s.contains('`') { same(gen::word(r), true) } else { same(s.to_string(), false) }
        }
        2 => {
            // special characters of no meaning inside of a line
            let s = *r.pick(&[
                "&", "\"", "'", "{", "}", "(", ")", "#", "+", "-", ".", ",", ":", ";", "=", "?", "@", "^", "$", "%", "/", ">", "&amp;", "&lt;", "&#60;", "&quot;", "&apos;",
                "&#x27;", "&nbsp;", "&lbrack;", "&vert;", "&", "&&", "a&b;", "''", "\"\"", "()", "{}", "%7C",
            ]);
            if s.chars().any(|c| stop.contains(&c)) { same(gen::word(r), true) } else { same(s.to_string(), true) }
        }
        3 => {
            // these have one in other surroundings
            let s = *r.pick(&["[", "]", "[x]", "[ ]", "<", "<b>", "</p>", "<br/>", "<!--", "-->", "!", "*", "_", "~", "a_b_c", "|", "a|b", "||", "<", "<i", "]]", "][", "{#a}", "<script>", "{{x}}", "1<2"]);
            if s.chars().any(|c| stop.contains(&c)) { same(gen::word(r), true) } else { same(s.to_string(), false) }
        }
        4 | 5 => {
            let c = *r.pick(&PUNCT.chars().collect::<Vec<_>>());
            if c == '|' && stop.contains(&'|') {
                return same(gen::word(r), true);
            }
            (format!("\\{c}"), c.to_string(), true)
        }
        6 => {
            // a backslash is itself in front of anything else
            let c = *r.pick(&['a', 'n', 'Z', '0', 'é', '語', '🦀', '\u{a0}']);
            same(format!("\\{c}"), true)
        }
        7 => ("\\\\".into(), "\\".into(), true),
        _ => {
            let n = r.range(1, 3);
            let mut s = gen::word(r);
            for _ in 0..n {
                s.push(unicode(r));
            }
            s.push_str(&gen::word(r));
            same(s, true)
        }
    }
}

/// One line of text which starts and ends with a word.
pub fn line(r: &mut Rng, stop: &[char], max: usize) -> (String, String) {
    let mut src = gen::word(r);
    let mut shown = src.clone();
    let mut glue = true;
    for _ in 0..r.range(1, max) {
        let (s, d, g) = atom(r, stop);
        let sp = if glue && g && r.one_in(2) { "" } else { " " };
        src.push_str(sp);
        shown.push_str(sp);
        src.push_str(&s);
        shown.push_str(&d);
        glue = g;
    }
    let sp = if glue && r.one_in(3) { "" } else { " " };
    let w = gen::word(r);
    (format!("{src}{sp}{w}"), format!("{shown}{sp}{w}"))
}

/// The same line with a character at its start or end which only in ASCII
/// would be white space.
fn edges(r: &mut Rng, (mut src, mut shown): (String, String), blank: bool) -> (String, String) {
    for end in [false, true] {
        if r.one_in(8) {
            let c = if r.one_in(2) { *r.pick(&['\u{a0}', '\u{3000}', '\u{2003}', '\u{2028}', '\u{85}', '\u{feff}', '\u{200b}', '\u{1680}', '\u{202f}']) } else { unicode(r) };
            if c.is_whitespace() && !blank {
                continue;
            }
            let at = |s: &str| if end { s.len() } else { 0 };
            let (i, j) = (at(&src), at(&shown));
            src.insert(i, c);
            shown.insert(j, c);
        }
    }
    (src, shown)
}

pub fn check(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    // a text with : or @ between < and > would be an autolink
    let n = *r.pick(&[2, 4, 10]);
    let k = r.below(ctx::LITERAL_CONTEXTS + 1 + 14);
    let (src, doc, res, html, name);
    if k < ctx::LITERAL_CONTEXTS {
        let stop: &[char] = match k {
            2 => &['|'],
            4 | 5 | 6 => &['*', '_', '`'],
            7 => &['~', '`'],
            8 | 10 => &['[', ']', '`'],
            9 => &['"', '`'],
            11 => &['\'', '`'],
            _ => &['`'],
        };
        let l = line(r, stop, n);
        let (s, shown) = edges(r, l, !(4..=7).contains(&k));
        let (d, want, nm) = ctx::literal(r, k, &s, &shown);
        html = c.render(&d)?;
        res = ctx::compare(&html, want);
        (src, doc, name) = (s, d, nm);
    } else if k == ctx::LITERAL_CONTEXTS {
        let l = line(r, &['`'], n);
        let (s, shown) = edges(r, l, true);
        let d = format!("a[^n] b\n\n[^n]: {s}\n");
        html = c.render(&d)?;
        res = footnote(&html, &shown);
        (src, doc, name) = (s, d, "footnote");
    } else {
        let mut stop = vec![':', '@'];
        if !r.one_in(4) {
            stop.push('|');
        }
        if r.one_in(2) {
            // then there may be one, but nothing that opens
            stop = vec!['<', '|'];
        }
        let l = line(r, &stop, n);
        let (mut s, mut shown) = edges(r, l, true);
        for _ in 0..r.below(2) * r.below(3) {
            let (a, b) = line(r, &stop, n);
            s = format!("{s}\n{a}");
            shown = format!("{shown}\n{b}");
        }
        let (d, want, nm) = ctx::inline(r, &s, vec![txt(&shown)]);
        html = c.render(&d)?;
        res = ctx::compare(&html, want);
        (src, doc, name) = (s, d, nm);
    }
    if let Err(why) = res {
        return bad(why, &doc, &html);
    }
    c.stats.count(name);
    c.stats.add("characters_compared", src.chars().count() as u64);
    c.stats.add("special_characters", src.chars().filter(|c| c.is_ascii_punctuation()).count() as u64);
    c.stats.add("backslashes", src.matches('\\').count() as u64);
    c.stats.add("non_ascii_characters", src.chars().filter(|c| !c.is_ascii()).count() as u64);
    if src.chars().any(|c| !c.is_alphanumeric() && c != ' ') {
        c.stats.nontrivial(&doc);
    }
    Ok(())
}

fn footnote(out: &str, shown: &str) -> Result<(), String> {
    let t = html::tree(out)?;
    let items: Vec<_> = t.all("li").into_iter().filter(|l| l.attr("id").is_some()).collect();
    if items.len() != 1 {
        return Err(format!("{} footnotes instead of one", items.len()));
    }
    let text = items[0].all_text();
    let text = text.trim_matches(|c: char| c.is_ascii_whitespace());
    let text = text.strip_suffix('↩').unwrap_or(text);
    let norm = |s: &str| s.split(|c: char| c.is_ascii_whitespace()).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ");
    if norm(text) != norm(shown) {
        return Err(format!("the footnote shows {text:?} instead of {shown:?}"));
    }
    Ok(())
}
