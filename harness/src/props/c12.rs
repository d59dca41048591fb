//! Footnote references, definitions and back links.
use super::c07;
use crate::gen;
use crate::html::{self, Node};
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict};
use std::collections::HashMap;

fn label(r: &mut Rng) -> String {
    match r.below(9) {
        8 => match r.below(6) {
            0 => format!("{}{}", "0".repeat(r.range(1, 3)), r.range(1, 12)),
            1 => format!("{}{}", gen::word(r), r.pick(&[".", "..", ",", ";", ":", "!", "?", "-", "_", "'", "*", "+", "=", "/", "~", "^"])),
            2 => format!("{}{}", r.pick(&[".", ",", ":", "-", "_", "'", "+", "=", "/", "~", "^", "#", "@", "0"]), gen::word(r)),
            3 => gen::filler(r).chars().filter(|c| c.is_alphanumeric() || matches!(c, '-' | '_' | '.')).chain(['e']).collect(),
            4 => gen::word(r).to_uppercase(),
            _ => r.pick(&["a_b", "a-b", "a.b", "ab", "a--b", "A_B", "a__b", "10", "010", "1.0", "1", "01", "1.", "1-", "I", "i", "ı", "İ", "ﬁ", "fi", "e\u{301}", "é"]).to_string(),
        },
        0 => r.range(1, 12).to_string(),
        1 => r.pick(&["a", "A", "aa", "a-a", "a_a", "a.a", "note", "Note", "NOTE", "note1", "note-1", "1note", "fn:1", "fnref:1", "é", "É", "ß", "ss"]).to_string(),
        2 => r.pick(&["a&b", "a&amp;b", "<x>", "&lt;x&gt;", "\"", "'", "a\"b", "%41", "%", "a%20b", "#", "#1", "a*b", "*", "_x_", "~~x~~", "^", "^1", "!", "a:b", ":", "a/b", "?", "=", "{x}", "(x)", "$", "+", "-", "javascript:x"]).to_string(),
        3 => (0..r.range(1, 4)).map(|_| *r.pick(&["a", "b", "A", "1", "-", "&", ":", "^", "%", "."])).collect(),
        4 => {
            let c = c07::unicode(r);
            if c.is_whitespace() { "w".into() } else { format!("{}{c}", r.pick(&["", "a", "1"])) }
        }
        _ => {
            let w = gen::word(r);
            if r.one_in(3) { format!("{w}{}", r.range(1, 30)) } else { w }
        }
    }
}

fn norm(s: &str) -> String {
    s.split(|c: char| c.is_ascii_whitespace()).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}

/// One line with references in it; notes which ones in `refs`.
fn line(r: &mut Rng, labels: &[String], refs: &mut Vec<usize>, n: usize) -> String {
    let mut s = gen::text(r, 3, false);
    for _ in 0..n {
        let k = r.below(labels.len());
        s.push_str(r.pick(&["", "", " ", ". ", " *em* ", " `co[^de]` ", " [l](u) "]));
        s.push_str(&format!("[^{}]", labels[k]));
        refs.push(k);
        let t = gen::text(r, 2, false);
        s.push_str(&match r.below(4) {
            0 => t,
            1 => format!(", {t}"),
            2 => ".".into(),
            _ => format!(" {t}"),
        });
    }
    s
}

fn block(r: &mut Rng, labels: &[String], refs: &mut Vec<usize>) -> (String, &'static str) {
    let n = r.below(3);
    match r.below(9) {
        0 | 1 => (line(r, labels, refs, n), "paragraph"),
        2 => {
            let a = line(r, labels, refs, n);
            let b = line(r, labels, refs, 1);
            (format!("{a}\n{b}"), "paragraph")
        }
        3 => (format!("{} {}", "#".repeat(r.range(1, 6)), line(r, labels, refs, n)), "heading"),
        4 => {
            let a = line(r, labels, refs, n);
            let b = line(r, labels, refs, 1);
            (format!("- {a}\n- {b}"), "list")
        }
        5 => {
            let a = line(r, labels, refs, n);
            let b = line(r, labels, refs, 1);
            (format!("- {a}\n  - {b}"), "nested_list")
        }
        6 => {
            let a = line(r, labels, refs, n);
            (format!("> {a}"), "quote")
        }
        7 => {
            let safe: Vec<usize> = (0..labels.len()).filter(|i| !labels[*i].contains('|')).collect();
            if safe.len() < labels.len() {
                return (gen::text(r, 3, false), "paragraph");
            }
            let a = line(r, labels, refs, n);
            let b = line(r, labels, refs, 1);
            (format!("| h | i |\n| - | - |\n| {a} | {b} |"), "table")
        }
        _ => (format!("```\n[^{}]\n[^{}]: x\n```", r.pick(labels), r.pick(labels)), "code"),
    }
}

pub fn check(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    let mut labels: Vec<String> = vec![];
    let many = if r.one_in(60) { r.range(7, 60) } else { r.range(1, 6) };
    for _ in 0..many {
        let l = label(r);
        if !labels.contains(&l) {
            labels.push(l);
        }
    }
    let mut refs = vec![];
    let mut used = vec![];
    let mut parts: Vec<(String, &'static str)> = vec![];
    for _ in 0..r.range(1, 5) {
        let (mut b, kind) = block(r, &labels, &mut refs);
        // what is left open ends with the paragraph
        if kind == "paragraph" && r.one_in(3) {
            b.push_str(r.pick(&[" *w", " **w", " _w", " ~~w", " `w", " [w", " ![w", " <w", " [w](u"]));
        }
        used.push(kind);
        parts.push((b, kind));
    }
    let mut texts = vec![];
    let mut order: Vec<usize> = (0..labels.len()).collect();
    r.shuffle(&mut order);
    let mut shown: HashMap<usize, String> = HashMap::new();
    let at_end = r.one_in(3);
    let plain = |l: &String| l.len() > 2 && l.chars().all(|c| c.is_ascii_lowercase());
    let mut before: Option<(Vec<usize>, String, String)> = None;
    for i in order {
        let (mut s, mut d) = c07::line(r, &['`'], 3);
        // unique texts tell definitions apart
        s = format!("def{i}x {s}");
        d = format!("def{i}x {d}");
        for _ in 0..r.below(4) / 2 {
            let (a, b) = c07::line(r, &['`'], 2);
            // nothing starts a block there
            let mark = if r.one_in(4) { *r.pick(&["# ", "- ", "> ", "1. ", "| ", "* ", "[^zz]: ", "[^1] ", "<details> ", "--- ", "+ [x] "]) } else { "" };
            s = format!("{s}\n{}{mark}{a}", r.pick(&["    ", "  ", "\t", "   ", "  \t", "        "]));
            d = format!("{d}\n{mark}{b}");
        }
        match &mut before {
            // the same text under another label
            Some((js, s2, d2)) if r.one_in(2) && js.iter().all(|j| plain(&labels[*j]) && plain(&labels[i]) && !labels[*j].contains(&labels[i]) && !labels[i].contains(&labels[*j])) => {
                js.push(i);
                s = s2.clone();
                d = d2.clone();
            }
            Some(_) => {}
            None => before = Some((vec![i], s.clone(), d.clone())),
        }
        shown.insert(i, norm(&d));
        let p = if at_end { parts.len() } else { r.below(parts.len() + 1) };
        parts.insert(p, (format!("[^{}]:{}{s}", labels[i], r.pick(&[" ", " ", "", "  "])), "definition"));
        texts.push(i);
    }
    let mut doc = String::new();
    for (i, (p, kind)) in parts.iter().enumerate() {
        if i > 0 {
            let tight = match (parts[i - 1].1, *kind) {
                ("definition" | "paragraph" | "heading" | "code", "definition") => r.one_in(2),
                // a line which is not indented ends the definition
                ("definition", _) => r.one_in(3),
                _ => false,
            };
            doc.push_str(if tight { "\n" } else { "\n\n" });
            if tight && *kind == "paragraph" {
                doc.push_str(r.pick(&["", "", "w  w ", "w\tw ", " w ", "w\t", "w  "]));
            }
        }
        doc.push_str(p);
    }
    if r.one_in(2) {
        doc.push('\n');
    }
    // footnotes of a nested document are at its end
    let inside = match r.below(12) {
        0 => {
            doc = doc.lines().map(|l| if l.is_empty() { ">".into() } else { format!("> {l}") }).collect::<Vec<String>>().join("\n") + "\n\nafter";
            "blockquote"
        }
        1 if !doc.contains('\t') => {
            doc = format!("- first\n\n{}\n\nafter", doc.lines().map(|l| if l.is_empty() { l.into() } else { format!("  {l}") }).collect::<Vec<String>>().join("\n"));
            "li"
        }
        2 => {
            doc = format!("<details>\n<summary>s</summary>\n{doc}\n</details>\n\nafter");
            "details"
        }
        _ => "",
    };
    let html = c.render(&doc)?;
    if !inside.is_empty() {
        c.stats.count(&format!("inside_{inside}"));
    }
    if let Err(why) = judge(&html, inside, &labels, &shown, &refs) {
        return bad(why, &doc, &html);
    }
    for k in used {
        c.stats.count(k);
    }
    c.stats.add("definitions", labels.len() as u64);
    c.stats.add("references", refs.len() as u64);
    if !refs.is_empty() {
        c.stats.nontrivial(&doc);
    }
    Ok(())
}

fn judge(out: &str, inside: &str, labels: &[String], shown: &HashMap<usize, String>, refs: &[usize]) -> Result<(), String> {
    let mut t = html::tree(out)?;
    if !inside.is_empty() {
        t = t.all(inside).first().cloned().cloned().ok_or("the surrounding block is missing")?;
    }
    let blocks: Vec<&Node> = t.elements();
    let section = blocks.last().ok_or("no output")?;
    // the definitions, by their text
    let mut ids: HashMap<usize, (String, String)> = HashMap::new();
    for li in section.all("li") {
        let text = norm(&li.all_text());
        let text = text.trim_end_matches('↩').trim_end().to_string();
        let id = li.attr("id").unwrap_or("").to_string();
        let i = (0..labels.len()).find(|i| shown[i] == text && (id.contains(&labels[*i]) || shown.values().filter(|t| **t == text).count() == 1)).ok_or_else(|| format!("no footnote has the text {text:?}"))?;
        if !id.contains(&labels[i]) {
            return Err(format!("the footnote {:?} has the id {id:?}", labels[i]));
        }
        let back: Vec<String> = li.all("a").iter().filter_map(|a| a.attr("href")).map(|h| h.to_string()).collect();
        if back.len() != 1 || !back[0].starts_with('#') {
            return Err(format!("the footnote {:?} links back to {back:?}", labels[i]));
        }
        if ids.insert(i, (id, back[0][1..].to_string())).is_some() {
            return Err(format!("the footnote {:?} appears twice", labels[i]));
        }
    }
    if ids.len() != labels.len() {
        return Err(format!("{} of {} footnotes appear at the end", ids.len(), labels.len()));
    }
    for i in 0..labels.len() {
        for j in 0..i {
            if ids[&i].0 == ids[&j].0 || ids[&i].1 == ids[&j].1 {
                return Err(format!("the footnotes {:?} and {:?} share an identifier", labels[i], labels[j]));
            }
        }
    }
    // the references, in order
    let mut got: Vec<(String, String, String)> = vec![];
    for b in &blocks[..blocks.len() - 1] {
        for s in b.all("sup") {
            let a = s.all("a");
            let href = a.first().and_then(|a| a.attr("href")).unwrap_or("");
            got.push((href.to_string(), s.attr("id").or_else(|| a.first().and_then(|a| a.attr("id"))).unwrap_or("").to_string(), s.all_text()));
        }
    }
    if got.len() != refs.len() {
        return Err(format!("{} references instead of {}", got.len(), refs.len()));
    }
    for (k, (href, id, text)) in refs.iter().zip(&got) {
        if *href != format!("#{}", ids[k].0) {
            return Err(format!("a reference to {:?} links to {href:?} instead of #{}", labels[*k], ids[k].0));
        }
        if *id != ids[k].1 {
            return Err(format!("the footnote {:?} links back to {:?} but its reference is {id:?}", labels[*k], ids[k].1));
        }
        if text.trim() != labels[*k] {
            return Err(format!("a reference to {:?} shows {text:?}", labels[*k]));
        }
    }
    Ok(())
}
