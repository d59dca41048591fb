//! Blocks do not depend on their neighbours.
use super::c09::{actual, first_difference};
use crate::gen;
use crate::html::Node;
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict};

/// A document nothing of which stays open at its end.
fn part(r: &mut Rng, corpus: &[String], indented: bool) -> (String, &'static str) {
    loop {
        let (d, kind) = match r.below(8) {
            0..=2 => (gen::structured(r, r.clone().below(3), 3).1, "structured"),
            3 => {
                let d = gen::structured(r, 1, 2).1;
                (gen::mutate(r, &d), "mutated")
            }
            4 => (r.pick(corpus).clone(), "example"),
            5 => {
                let d = r.pick(corpus).clone();
                (gen::mutate(r, &d), "mutated_example")
            }
            _ => {
                let n = *r.pick(&[2, 4, 8, 20]);
                (gen::soup(r, n, &mut |r| gen::word(r)), "soup")
            }
        };
        if kind != "structured" && (d.contains("```") || d.contains("<details>")) || d.contains("[^") {
            // may last until the end or belongs elsewhere
            continue;
        }
        let white = |c: char| c.is_ascii_whitespace() || c == '\u{b}';
        let d = d.trim_end_matches(white);
        // A first line which is indented belongs to a list in front
        let own = if indented { d.starts_with(['\u{b}', '\u{c}']) } else { d.starts_with(white) };
        if d.is_empty() || own || d.ends_with('\\') {
            continue;
        }
        return (d.to_string(), kind);
    }
}

fn merges(a: &str, b: &str) -> bool {
    ["(ul ", "(ol ", "(tasks ", "(blockquote "].iter().any(|k| a.starts_with(k) && b.starts_with(k))
}

fn text(n: &Node) -> String {
    n.all_text().chars().filter(|c| !c.is_whitespace()).collect()
}

/// The elements, without those which may become one.
fn tags(n: &Node, out: &mut Vec<String>) {
    if !matches!(n.tag.as_str(), "" | "body" | "ul" | "ol" | "blockquote") {
        out.push(n.tag.clone());
    }
    for c in &n.children {
        tags(c, out);
    }
}

pub fn check(c: &mut Case) -> Verdict {
    let n = match c.r.below(40) {
        0..=9 => 3,
        10 | 11 => c.r.range(4, 8),
        12 => c.r.range(9, 30),
        _ => 2,
    };
    let mut parts: Vec<(String, &'static str)> = vec![];
    for _ in 0..n {
        let mut p = match parts.last().cloned() {
            // the same once more
            Some(p) if c.r.one_in(10) => p,
            Some(_) if c.r.one_in(20) => c.r.pick(&parts).clone(),
            _ => part(&mut c.r, c.corpus, true),
        };
        if let (Some((before, _)), true) = (parts.last(), p.0.starts_with([' ', '\t', '\n', '\r'])) {
            let h = c.render(before)?;
            let list = match actual(&h) {
                Ok((_, v)) => v.last().is_none_or(|b| ["(ul", "(ol", "(tasks"].iter().any(|k| b.starts_with(k))),
                Err(why) => return bad(why, before, &h),
            };
            if list {
                p = part(&mut c.r, c.corpus, false);
            } else {
                c.stats.count("indented_parts");
            }
        }
        parts.push(p);
    }
    let mut sep = *c.r.pick(&["\n\n", "\n\n", "\n\n\n", "\n  \n", "\n\t\n", "\n    \n", "\n         \n", "\n \t \n", "\n\t\t\t\n \n\n", "\n\n\n\n\n\n\n\n\n\n"]);
    // each with line ends of its own
    if c.r.one_in(6) {
        for p in parts.iter_mut() {
            let e = *c.r.pick(&["\n", "\r\n", "\r"]);
            p.0 = p.0.replace("\r\n", "\n").replace('\r', "\n").replace('\n', e);
        }
        sep = *c.r.pick(&["\n\n", "\r\n\r\n", "\r\r", "\n\r\n"]);
    }
    let doc = parts.iter().map(|p| p.0.as_str()).collect::<Vec<_>>().join(sep);
    let html = c.render(&doc)?;
    let (whole, got) = match actual(&html) {
        Ok(g) => g,
        Err(why) => return bad(why, &doc, &html),
    };
    let mut want: Vec<String> = vec![];
    let mut texts = String::new();
    let mut seams: Vec<usize> = vec![];
    let mut elements = vec![];
    for (d, _) in &parts {
        let h = c.render(d)?;
        let (t, mut w) = match actual(&h) {
            Ok(g) => g,
            Err(why) => return bad(why, d, &h),
        };
        texts.push_str(&text(&t));
        tags(&t, &mut elements);
        if let (Some(a), Some(b)) = (want.last(), w.first()) {
            if merges(a, b) {
                seams.push(want.len());
            }
        }
        want.append(&mut w);
    }
    if let (Some(first), Some(last)) = (seams.first(), seams.last()) {
        // then the text still has to be the same
        let t = text(&whole);
        if t != texts {
            return bad(format!("the text of the parts is {texts:?}, that of the whole {t:?}"), &doc, &html);
        }
        // as well as what is in them, and all other blocks
        let mut e = vec![];
        tags(&whole, &mut e);
        if e != elements {
            return bad("the parts have other elements than the whole", &doc, &html);
        }
        let (k, m) = (first - 1, want.len() - last - 1);
        if got.len() < k + m || got[..k] != want[..k] || got[got.len() - m..] != want[want.len() - m..] {
            return bad("blocks apart from those which may merge differ", &doc, &html);
        }
        c.stats.count("seams_that_may_merge");
    } else if let Some(d) = first_difference(&want, &got) {
        return bad(format!("the parts alone and the whole differ: {d}"), &doc, &html);
    } else {
        c.stats.count("exact_comparisons");
        c.stats.add("blocks_compared", want.len() as u64);
    }
    for p in &parts {
        c.stats.count(p.1);
    }
    c.stats.nontrivial(&doc);
    Ok(())
}
