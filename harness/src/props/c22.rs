//! Lines of a paragraph, and the breaks between them.
use super::c09::first_difference;
use super::c23::{item, quoted};
use crate::gen::{self, el, txt};
use crate::html::{self, Node};
use crate::run::{bad, Case, Verdict};

/// What is in front of the lines of a container's content.
struct Place {
    name: &'static str,
    first: &'static str,
    other: &'static str,
    before: &'static str,
    after: &'static str,
}

const PLACES: &[Place] = &[
    Place { name: "top", first: "", other: "", before: "", after: "" },
    Place { name: "quote", first: "> ", other: "> ", before: "", after: "" },
    Place { name: "deep_quote", first: ">>> ", other: ">>> ", before: "", after: "" },
    Place { name: "list", first: "- ", other: "  ", before: "", after: "" },
    Place { name: "nested_list", first: "  * ", other: "    ", before: "+ a\n", after: "" },
    Place { name: "details", first: "", other: "", before: "<details>\n<summary>s</summary>\n", after: "\n</details>" },
    Place { name: "list_in_quote", first: "> - ", other: ">   ", before: "", after: "" },
    Place { name: "quote_in_list", first: "- > ", other: "  > ", before: "", after: "" },
];

/// Leaves of a footnote reference only its label.
fn plain_notes(n: &mut Node) {
    for k in &mut n.children {
        plain_notes(k);
        if k.tag == "sup" {
            *k = el("sup", vec![txt(&k.all_text())]);
        }
    }
}

fn wrap(name: &str, kids: Vec<Node>) -> Node {
    let q = |k| el("blockquote", k);
    let l = |k| el("ul", vec![el("li", k)]);
    match name {
        "top" => el("body", kids),
        "quote" => el("body", vec![q(kids)]),
        "deep_quote" => el("body", vec![q(vec![q(vec![q(kids)])])]),
        "list" => el("body", vec![l(kids)]),
        "nested_list" => el("body", vec![l(vec![el("p", vec![txt("a")]), l(kids)])]),
        "list_in_quote" => el("body", vec![q(vec![l(kids)])]),
        "quote_in_list" => el("body", vec![l(vec![q(kids)])]),
        _ => {
            let mut k = vec![el("summary", vec![txt("s")])];
            k.extend(kids);
            el("body", vec![el("details", k)])
        }
    }
}

pub fn check(c: &mut Case) -> Verdict {
    let r = &mut c.r;
    let heading = r.one_in(20);
    let n = if heading {
        1
    } else if r.one_in(60) {
        r.range(7, 120)
    } else {
        r.range(1, 6)
    };
    let mut lines: Vec<String> = vec![];
    let mut nodes: Vec<Node> = vec![];
    let (mut hard, mut soft, mut ends) = (0u64, 0u64, 0u64);
    for i in 0..n {
        let last = i + 1 == n;
        // a line which is nothing but the mark of a break
        let bare = !heading && r.one_in(25);
        let mut src = String::new();
        if !bare {
            let v = gen::inlines(r, 2, 8);
            src = gen::write_inlines(&v);
            if !heading && r.one_in(12) {
                src = format!("[^n] {src}");
                nodes.push(el("sup", vec![txt("n")]));
                nodes.push(txt(" "));
            }
            nodes.extend(gen::expect_inlines(&v));
            if src.ends_with('\\') || src.contains('\n') {
                return Ok(());
            }
        }
        let indent = match r.below(12) {
            _ if i == 0 => "",
            0 => " ",
            1 => "  ",
            2 => "   ",
            3 if !bare => *r.pick(&["    ", "     ", "\t", "  \t", "        ", "\t\t"]),
            _ => "",
        };
        let slashes = r.below(5) / 3 * r.range(1, 3);
        if slashes > 0 && !bare {
            src.push_str(&"\\\\".repeat(slashes));
            nodes.push(txt(&"\\".repeat(slashes)));
        }
        let kind = if bare { 2 } else { r.below(6) };
        match kind {
            0 | 1 => {
                let k = if r.one_in(40) { r.range(9, 300) } else { r.range(2, 6) };
                src.push_str(&" ".repeat(k));
                if !last {
                    nodes.push(el("br", vec![]));
                    hard += 1;
                }
            }
            2 | 3 => {
                if !bare && r.one_in(4) {
                    let sp = *r.pick(&[" ", "  ", "\t", "   "]);
                    src.push_str(sp);
                    nodes.push(txt(" "));
                }
                src.push('\\');
                if last {
                    nodes.push(txt("\\"));
                    ends += 1;
                } else {
                    nodes.push(el("br", vec![]));
                    hard += 1;
                }
            }
            _ => {
                src.push_str(r.pick(&["", "", "", " ", "\t"]));
                if !last {
                    nodes.push(txt("\n"));
                    soft += 1;
                }
            }
        }
        lines.push(format!("{indent}{src}"));
    }
    let mut kids = vec![];
    if heading {
        let level = r.range(1, 6);
        lines[0] = format!("{} {}", "#".repeat(level), lines[0]);
        kids.push(el(&format!("h{level}"), nodes));
    } else {
        kids.push(el("p", nodes));
    }
    // what follows, right away or after a blank line
    let place = r.pick(PLACES);
    if r.one_in(2) {
        if r.one_in(2) {
            for _ in 0..r.range(1, 3) {
                lines.push(r.pick(&["", "", "", " ", "  ", "    ", "         "]).to_string());
            }
            if r.one_in(3) && !heading {
                lines.push("next".into());
                kids.push(el("p", vec![txt("next")]));
            }
        }
        match r.below(6) {
            0 => {
                lines.push("## h".into());
                kids.push(el("h2", vec![txt("h")]));
            }
            1 => {
                lines.push("***".into());
                kids.push(el("hr", vec![]));
            }
            2 if !place.name.contains("quote") => {
                lines.push("> q".into());
                kids.push(el("blockquote", vec![el("p", vec![txt("q")])]));
            }
            3 => {
                lines.push("- x".into());
                kids.push(el("ul", vec![el("li", vec![el("p", vec![txt("x")])])]));
            }
            4 => {
                lines.extend(["```".to_string(), "c  ".into(), "\\".into(), "```".into()]);
                kids.push(el("pre", vec![el("code", vec![txt("c  \n\\\n")])]));
            }
            _ => {
                lines.push("1. o".into());
                kids.push(el("ol", vec![el("li", vec![el("p", vec![txt("o")])])]));
            }
        }
    }
    let mut doc = place.before.to_string();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            doc.push('\n');
        }
        doc.push_str(if i == 0 { place.first } else { place.other });
        doc.push_str(l);
    }
    doc.push_str(place.after);
    let mut want = wrap(place.name, kids);
    let outer = match r.below(30) {
        _ if doc.contains('\t') => 0,
        0 => r.range(5, 20),
        1..=5 => r.range(1, 4),
        _ => 0,
    };
    for _ in 0..outer {
        if r.one_in(2) || doc.starts_with([' ', '[']) {
            doc = quoted(&doc, "> ", r.one_in(2));
            want.children = vec![el("blockquote", want.children)];
        } else {
            doc = item(&doc, r.pick(&["- ", "* ", "+ ", "-   "]), r.one_in(2));
            want.children = vec![el("ul", vec![el("li", want.children)])];
        }
    }
    if r.one_in(2) {
        doc.push('\n');
    }
    match r.below(8) {
        0 => doc = doc.replace('\n', "\r\n"),
        1 => doc = doc.replace('\n', "\r"),
        _ => {}
    }
    let html = c.render(&doc)?;
    c.stats.count(place.name);
    if outer > 0 {
        c.stats.count(if outer > 4 { "nested_deep" } else { "nested" });
    }
    c.stats.add("hard_breaks", hard);
    c.stats.add("soft_breaks", soft);
    c.stats.add("backslashes_at_the_end", ends);
    let mut judge = || {
        let mut got = html::tree(&html)?;
        plain_notes(&mut got);
        gen::normalise_urls(&mut got);
        gen::normalise_urls(&mut want);
        match first_difference(&html::canon_children(&want), &html::canon_children(&got)) {
            Some(why) => Err(why),
            None => Ok(()),
        }
    };
    if let Err(why) = judge() {
        return bad(why, &doc, &html);
    }
    if hard + soft + ends > 0 {
        c.stats.nontrivial(&doc);
    }
    Ok(())
}
