//! What a document means depends neither on the container it is put in nor on
//! line endings and blank lines around it.
use super::c09::{actual, first_difference};
use crate::gen;
use crate::html::Node;
use crate::run::{bad, Case, Verdict};

fn deepest(n: &Node) -> usize {
    1 + n.children.iter().map(deepest).max().unwrap_or(0)
}

pub fn quoted(doc: &str, mark: &str, bare: bool) -> String {
    doc.split('\n').map(|l| if l.is_empty() && bare { mark.trim_end().to_string() } else { format!("{mark}{l}") }).collect::<Vec<_>>().join("\n")
}

pub fn item(doc: &str, marker: &str, bare: bool) -> String {
    let indent = " ".repeat(marker.len());
    doc.split('\n')
        .enumerate()
        .map(|(i, l)| match i {
            0 => format!("{marker}{l}"),
            _ if l.is_empty() && bare => String::new(),
            _ => format!("{indent}{l}"),
        })
        .collect::<Vec<_>>()
        .join("\n")
}

pub fn check(c: &mut Case) -> Verdict {
    let mode = c.r.below(12);
    let mut doc = gen::any_doc(&mut c.r, c.corpus).replace("\r\n", "\n").replace('\r', "\n");
    // nothing may be left open at the end
    let mut closed = false;
    if mode > 1 && (doc.contains("```") || doc.contains("details") && c.r.one_in(2)) {
        let (deep, max) = (c.r.below(4), c.r.range(1, 6));
        doc = gen::structured(&mut c.r, deep, max).1.replace("\r\n", "\n").replace('\r', "\n");
        closed = true;
    }
    if mode > 4 {
        // columns of a tab depend on what is in front of it
        doc = doc.replace('\t', "    ");
    }
    let html = c.render(&doc)?;
    let (tree, want) = match actual(&html) {
        Ok(x) => x,
        Err(why) => return bad(why, &doc, &html),
    };
    let blank = *c.r.pick(&["\n", "\n\n", " \n", "\n  \n\n", "   \n"]);
    let mut names = vec![];
    let mut other = doc.clone();
    let mut expected = want;
    match mode {
        0 => {
            names.push("crlf");
            other = doc.replace('\n', "\r\n");
        }
        1 => {
            if c.r.one_in(2) {
                names.push("cr");
                other = doc.replace('\n', "\r");
            } else {
                names.push("mixed");
                other = String::new();
                for ch in doc.chars() {
                    match ch {
                        // a line feed after a carriage return is the same line ending
                        '\n' if other.ends_with('\r') => other.push_str(c.r.pick(&["\r", "\r\n"])),
                        '\n' => other.push_str(c.r.pick(&["\n", "\r", "\r\n"])),
                        _ => other.push(ch),
                    }
                }
            }
        }
        2 => {
            names.push("final_newline");
            other.push('\n');
        }
        3 => {
            names.push("blank_lines_after");
            other = format!("{doc}\n{blank}");
        }
        4 => {
            names.push("blank_lines_before");
            other = format!("{blank}{doc}");
        }
        _ => {
            if deepest(&tree) > 24 {
                return Ok(());
            }
            let levels = match c.r.below(40) {
                0 if doc.len() < 3000 => c.r.range(4, 30 - deepest(&tree)),
                _ => *c.r.pick(&[1, 1, 1, 2, 3]),
            };
            if levels > 3 {
                names.push("deep");
            }
            for _ in 0..levels {
                let bare = c.r.one_in(2);
                let inner = expected.join(" ");
                match c.r.below(3) {
                    0 => {
                        names.push("quote");
                        // a run of marks would go on with one in the content
                        let k = if other.starts_with('>') || other.contains("\n>") { 1 } else { *c.r.pick(&[1, 1, 1, 2, 3]) };
                        other = quoted(&other, &format!("{} ", ">".repeat(k)), bare);
                        expected = vec![format!("{}{inner}{}", "(blockquote ".repeat(k), ")".repeat(k))];
                    }
                    1 => {
                        // the content of an item starts with its first character, and is not the rest of a rule or a task
                        let first = other.split('\n').next().unwrap_or("");
                        let rule = first.chars().all(|c| matches!(c, '-' | '*' | '+' | '_') || c.is_whitespace());
                        if first.is_empty() || first.starts_with(' ') || first.starts_with('[') || rule {
                            return Ok(());
                        }
                        names.push("list_item");
                        other = item(&other, *c.r.pick(&["- ", "* ", "+ ", "-  ", "*   ", "+    "]), bare);
                        expected = vec![format!("(ul (li {inner}))")];
                    }
                    _ => {
                        if !closed && doc.contains("details") {
                            return Ok(());
                        }
                        names.push("details");
                        other = format!("<details>\n<summary>s</summary>\n\n{other}\n</details>");
                        expected = vec![format!("(details (summary \"s\"){}{inner})", if inner.is_empty() { "" } else { " " })];
                    }
                }
            }
        }
    }
    let h = c.render(&other)?;
    for n in &names {
        c.stats.count(n);
    }
    c.stats.nontrivial(&other);
    if mode < 2 && h != html {
        return bad(format!("{}: the output is not {html:?}", names[0]), &other, &h);
    }
    let got = match actual(&h) {
        Ok((_, v)) => v,
        Err(why) => return bad(why, &other, &h),
    };
    if let Some(why) = first_difference(&expected, &got) {
        return bad(format!("{}: {why}", names.join(" in ")), &other, &h);
    }
    Ok(())
}
