//! The element tree mirrors the document.
use crate::ctx;
use crate::gen::{self, el, expect_block, normalise_urls, txt, Block, Inline};
use crate::html::{canon_children, tree, Node};
use crate::rng::Rng;
use crate::run::{bad, Case, Verdict};

pub fn expected(v: &[Block]) -> Vec<String> {
    let mut t = el("body", v.iter().map(expect_block).collect());
    normalise_urls(&mut t);
    canon_children(&t)
}

pub fn actual(html: &str) -> Result<(Node, Vec<String>), String> {
    let mut t = tree(html)?;
    normalise_urls(&mut t);
    let c = canon_children(&t);
    Ok((t, c))
}

pub fn first_difference(want: &[String], got: &[String]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        let (w, g) = (want.get(i), got.get(i));
        if w != g {
            return Some(format!("block {}: expected {} but got {}", i + 1, w.map_or("nothing", |s| s), g.map_or("nothing", |s| s)));
        }
    }
    None
}

fn plain(t: &str) -> Block {
    Block::Para(vec![Inline::Text(t.into())])
}

/// Blocks in blocks in blocks.
fn chain(r: &mut Rng) -> Block {
    let deep = r.range(2, *r.clone().pick(&[4, 9, 28]));
    let kinds: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(4)).collect();
    let mut b = plain(&gen::text(r, 3, false));
    let mark = *r.pick(&['-', '*', '+']);
    let beside = r.one_in(2);
    for _ in 0..deep {
        b = match *r.pick(&kinds) {
            0 | 1 => {
                let mut v = vec![b];
                if beside && r.one_in(3) {
                    v.insert(0, plain(&gen::word(r)));
                }
                Block::Quote(v)
            }
            2 => Block::List(mark, vec![vec![plain(&gen::word(r)), b]]),
            _ => {
                let mut items = vec![vec![b]];
                if beside && r.one_in(3) {
                    items.push(vec![plain(&gen::word(r))]);
                }
                Block::List(mark, items)
            }
        };
    }
    // these contain the others
    if r.one_in(4) {
        for _ in 0..r.range(1, 3) {
            b = Block::Details(gen::text(r, 2, false), vec![b]);
        }
    }
    b
}

/// A paragraph in which something is opened that never ends, right in front
/// of a block with what would have ended it.
fn cut_off(r: &mut Rng) -> (String, Vec<Block>, &'static str) {
    let (open, close) = *r.pick(&[("*", "*"), ("**", "**"), ("***", "***"), ("_", "_"), ("__", "__"), ("~~", "~~"), ("`", "`"), ("``", "``"), ("[", "](u)"), ("![", "](u)"), ("[l](", ")"), ("[l](u \"", "\")"), ("[^", "]"), ("<a:b", ">")]);
    let first = format!("{} {open}{}", gen::text(r, 2, false), gen::text(r, 2, false));
    let text = format!("{}{close} {}", gen::text(r, 2, false), gen::word(r));
    let (b, name) = match r.below(9) {
        0 => (Block::Heading(r.range(1, 6), vec![Inline::Text(text)], None), "cut_off_by_heading"),
        1 => (Block::List(*r.pick(&['-', '*', '+']), vec![vec![plain(&text)], vec![plain("x")]]), "cut_off_by_list"),
        2 => (Block::Ordered(vec![text, "x".into()]), "cut_off_by_ordered"),
        3 => (Block::Tasks(vec![(true, text), (false, "x".into())]), "cut_off_by_tasks"),
        4 => (Block::Quote(vec![plain(&text)]), "cut_off_by_quote"),
        5 => (Block::Table(vec!["---".into()], vec![text], vec![vec![vec![Inline::Text("x".into())]]]), "cut_off_by_table"),
        6 => (Block::Table(vec!["---".into()], vec!["x".into()], vec![vec![vec![Inline::Text(text)]]]), "cut_off_by_table"),
        7 => (Block::Details(text, vec![plain("x")]), "cut_off_by_details"),
        _ => (Block::Fence(3, String::new(), format!("{text}\n")), "cut_off_by_fence"),
    };
    let mut lines = vec![first.clone()];
    lines.extend(gen::write_block(r, &b));
    if r.one_in(2) {
        lines.push(String::new());
    }
    (lines.join("\n"), vec![plain(&first), b], name)
}

/// Layouts the writer of documents does not use.
fn layout(r: &mut Rng) -> (String, Node, &'static str) {
    let mark = *r.pick(&['-', '*', '+']);
    let p = |t: &str| el("p", vec![txt(t)]);
    match r.below(9) {
        5 => {
            // items with nothing in them
            let items: Vec<Option<String>> = (0..r.range(1, 5)).map(|_| if r.one_in(2) { None } else { Some(gen::text(r, 3, false)) }).collect();
            let sep = *r.pick(&["\n", "\n", "\n\n"]);
            let lines: Vec<String> = items.iter().map(|t| t.as_ref().map_or(format!("{mark}{}", if mark == '*' || sep == "\n" && r.one_in(2) { *r.pick(&[" ", "  "]) } else { "" }), |t| format!("{mark} {t}"))).collect();
            (lines.join(sep), el("body", vec![el("ul", items.iter().map(|t| el("li", t.iter().map(|t| p(t)).collect())).collect())]), "empty_items")
        }
        6 => {
            let n = r.range(1, 6);
            let t = gen::text(r, 3, false);
            let h = format!("{}{}", "#".repeat(n), r.pick(&["", " ", " #", " ##", "  ", "\t"]));
            let next = *r.pick(&["\n", "\n\n"]);
            (format!("{h}{next}{t}"), el("body", vec![el(&format!("h{n}"), vec![]), p(&t)]), "empty_heading")
        }
        7 => {
            // what only looks like a block
            let t = gen::text(r, 3, false);
            let s = *r.pick(&[
                "#tag", "#######", "####### x", "-x", "+1", "*x", "1.5", "1x", "12", "1.x", "1)", "a. b", "--", "-", "==", "===", "__", "_", "~~", "~~~", "[x]", "[ ]", "{#a}", "=", "1 .", "x.", "-1", "+", "·", "•", "–", "§", "\\# a", "\\- a", "\\+ a", "1\\. a",
                "\\> a", "\\--- ", "\\``` x", "&#35; a", "<b>", "</details>", "<summary>", "(a)", "a)", "!", ":--", "0x1.", "one.", "¹.", "\u{a0}- x", "\u{3000}# x", "\u{a0}1. x", "\u{feff}x", "\u{200b}- x",
            ]);
            if s == "-" || s == "+" {
                return (t.clone(), el("body", vec![p(&t)]), "plain");
            }
            let first = r.one_in(2);
            let mut shown = String::new();
            let mut it = s.chars().peekable();
            while let Some(c) = it.next() {
                match it.peek() {
                    Some(n) if c == '\\' && n.is_ascii_punctuation() => shown.push(it.next().unwrap()),
                    _ => shown.push(c),
                }
            }
            if first {
                (format!("{s} {t}"), el("body", vec![p(&format!("{shown} {t}"))]), "not_a_block")
            } else {
                (format!("{t}\n{s} {t}"), el("body", vec![p(&format!("{t}\n{shown} {t}"))]), "not_a_block")
            }
        }
        8 => {
            // far apart
            let items: Vec<String> = (0..r.range(2, 4)).map(|_| gen::text(r, 3, false)).collect();
            let blank = r.range(1, 6);
            let start = r.range(1, 9);
            match r.below(2) {
                0 => {
                    let doc = items.iter().map(|t| format!("{mark} {t}")).collect::<Vec<_>>().join(&"\n".repeat(blank + 1));
                    (doc, el("body", vec![el("ul", items.iter().map(|t| el("li", vec![p(t)])).collect())]), "loose_list")
                }
                _ => {
                    let doc = items.iter().enumerate().map(|(i, t)| format!("{mark} w{i}{}  {t}", "\n".repeat(blank + 1))).collect::<Vec<_>>().join("\n");
                    let _ = start;
                    (doc, el("body", vec![el("ul", items.iter().enumerate().map(|(i, t)| el("li", vec![p(&format!("w{i}")), p(t)])).collect())]), "paragraphs_in_items")
                }
            }
        }
        0 => {
            // a list indented by tabs
            let deep = r.range(2, 5);
            let sep = *r.pick(&["\t", " "]);
            let words: Vec<String> = (0..deep).map(|_| gen::word(r)).collect();
            let doc = (0..deep).map(|i| format!("{}{mark}{sep}{}", "\t".repeat(i), words[i])).collect::<Vec<_>>().join("\n");
            let mut n = None;
            for w in words.iter().rev() {
                let mut kids = vec![p(w)];
                kids.extend(n.take());
                n = Some(el("ul", vec![el("li", kids)]));
            }
            (doc, el("body", vec![n.unwrap()]), "tab_indented_list")
        }
        1 => {
            let items: Vec<String> = (0..r.range(1, 4)).map(|_| gen::text(r, 3, false)).collect();
            let doc = items.iter().map(|t| format!("{mark}\t{t}")).collect::<Vec<_>>().join("\n");
            (doc, el("body", vec![el("ul", items.iter().map(|t| el("li", vec![p(t)])).collect())]), "tab_after_marker")
        }
        2 => {
            let t = gen::text(r, 3, true);
            let n = r.range(5, 8);
            let code = format!("{}{t}\n", " ".repeat(n - 5));
            (format!("{mark}{}{t}", " ".repeat(n)), el("body", vec![el("ul", vec![el("li", vec![el("pre", vec![el("code", vec![txt(&code)])])])])]), "code_in_item")
        }
        3 => {
            let lines: Vec<String> = (0..r.range(2, 5)).map(|_| gen::text(r, 3, false)).collect();
            let doc = lines.iter().map(|t| format!("{}> {t}", " ".repeat(r.below(4)))).collect::<Vec<_>>().join("\n");
            (doc, el("body", vec![el("blockquote", vec![p(&lines.join("\n"))])]), "ragged_quote")
        }
        _ => {
            // items as far in as one likes, as long as all are
            let by = " ".repeat(r.range(1, 3));
            let items: Vec<String> = (0..r.range(1, 4)).map(|_| gen::text(r, 3, false)).collect();
            let doc = items.iter().map(|t| format!("{by}{mark} {t}")).collect::<Vec<_>>().join("\n");
            (doc, el("body", vec![el("ul", items.iter().map(|t| el("li", vec![p(t)])).collect())]), "indented_list")
        }
    }
}

fn special(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    let (mut doc, want, name) = match r.below(4) {
        0 | 1 => {
            let b = chain(r);
            (gen::write_block(r, &b).join("\n"), el("body", vec![expect_block(&b)]), "chain")
        }
        2 => {
            let (doc, v, name) = cut_off(r);
            (doc, el("body", v.iter().map(expect_block).collect()), name)
        }
        _ => layout(r),
    };
    if r.one_in(2) {
        doc.push('\n');
    }
    let html = c.render(&doc)?;
    c.stats.count(name);
    if let Err(why) = ctx::compare(&html, want) {
        return bad(format!("{name}: {why}"), &doc, &html);
    }
    c.stats.nontrivial(&doc);
    Ok(())
}

pub fn check(c: &mut Case) -> Verdict {
    if c.r.one_in(8) {
        return special(c);
    }
    let depth = c.r.below(4);
    let max = *c.r.pick(&[1, 2, 3, 6, 12]);
    let (blocks, mut doc) = gen::structured(&mut c.r, depth, max);
    match c.r.below(4) {
        0 => {}
        1 => doc.push_str("\n\n"),
        _ => doc.push('\n'),
    }
    if c.r.one_in(12) {
        doc.insert_str(0, c.r.pick(&["\n", "\n\n", "  \n"]));
    }
    match c.r.below(12) {
        0 => doc = doc.replace('\n', "\r\n"),
        1 => doc = doc.replace('\n', "\r"),
        _ => {}
    }
    let html = c.render(&doc)?;
    let (_, got) = match actual(&html) {
        Ok(g) => g,
        Err(why) => return bad(why, &doc, &html),
    };
    let want = expected(&blocks);
    if let Some(d) = first_difference(&want, &got) {
        return bad(d, &doc, &html);
    }
    c.stats.add("blocks_compared", want.len() as u64);
    for b in &blocks {
        c.stats.count(gen::kind_name(b));
    }
    if blocks.len() > 1 {
        c.stats.nontrivial(&doc);
    }
    Ok(())
}
