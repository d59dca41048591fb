//! Places a piece of inline content can be in, with the tree expected there.
use crate::gen::{el, txt};
use crate::html::Node;
use crate::rng::Rng;

fn indent(src: &str, by: &str) -> String {
    src.replace('\n', &format!("\n{by}"))
}

fn styled(tag: &str, align: &str, kids: Vec<Node>) -> Node {
    let mut n = el(tag, kids);
    n.attrs.push(("style".into(), format!("text-align: {align}")));
    n
}

/// What would start a block at the start of a line.
fn marker(r: &mut Rng) -> &'static str {
    if r.one_in(8) { r.pick(&["# ", "## ", "- ", "+ ", "> ", ">> ", "1. ", "12. ", "- [ ] ", "--- ", "#", "#x "]) } else { "" }
}

pub const INLINE_CONTEXTS: usize = 14;

/// Where inline markup is rendered. `src` must not be changed in meaning by
/// standing at the start of a line; one-line contexts are only used for
/// one-line content.
pub fn inline(r: &mut Rng, src: &str, nodes: Vec<Node>) -> (String, Node, &'static str) {
    let one_line = !src.contains('\n');
    loop {
        let k = r.below(INLINE_CONTEXTS);
        let p = |n: &Vec<Node>| el("p", n.clone());
        let (doc, kids, name) = match k {
            0 => (src.to_string(), vec![p(&nodes)], "paragraph"),
            1 if one_line => {
                let n = r.range(1, 6);
                let m = marker(r);
                let mut kids = vec![txt(m)];
                kids.extend(nodes.clone());
                let end = if r.one_in(8) && !src.ends_with('\\') { *r.pick(&[" #", " ##", "  ######", " ######### "]) } else { "" };
                (format!("{} {m}{src}{end}", "#".repeat(n)), vec![el(&format!("h{n}"), kids)], "heading")
            }
            2 => {
                let m = *r.pick(&['-', '*', '+']);
                (format!("{m} {}", indent(src, "  ")), vec![el("ul", vec![el("li", vec![p(&nodes)])])], "list")
            }
            3 => (
                format!("- a\n  - {}\n- b", indent(src, "    ")),
                vec![el(
                    "ul",
                    vec![
                        el("li", vec![el("p", vec![txt("a")]), el("ul", vec![el("li", vec![p(&nodes)])])]),
                        el("li", vec![el("p", vec![txt("b")])]),
                    ],
                )],
                "nested_list",
            ),
            4 => (format!("> {}", indent(src, "> ")), vec![el("blockquote", vec![p(&nodes)])], "quote"),
            5 if one_line && !src.contains('|') => {
                let m = marker(r);
                let mut nodes = nodes.clone();
                nodes.insert(0, txt(m));
                let src = format!("{m}{src}");
                let mut tr = vec![styled("td", "left", vec![txt("c")]), styled("td", "right", nodes.clone())];
                let first = r.one_in(2);
                if first {
                    tr = vec![styled("td", "left", nodes.clone()), styled("td", "right", vec![txt("c")])];
                }
                let cells = if first { format!("| {src} | c |") } else { format!("| c | {src} |") };
                (
                    format!("| h | i |\n| - | -: |\n{cells}"),
                    vec![el(
                        "table",
                        vec![
                            el("tr", vec![styled("th", "left", vec![txt("h")]), styled("th", "right", vec![txt("i")])]),
                            el("tr", tr),
                        ],
                    )],
                    "table_cell",
                )
            }
            6 => (
                format!("<details>\n<summary>s</summary>\n{src}\n</details>"),
                vec![el("details", vec![el("summary", vec![txt("s")]), p(&nodes)])],
                "details",
            ),
            7 => (
                format!("before\n\n{src}\n\nafter"),
                vec![el("p", vec![txt("before")]), p(&nodes), el("p", vec![txt("after")])],
                "middle_paragraph",
            ),
            8 => {
                let mut n = vec![txt("first line\n")];
                n.extend(nodes.clone());
                (format!("first line\n{src}"), vec![el("p", n)], "second_line")
            }
            9 => {
                let mut n = vec![txt("first line"), el("br", vec![])];
                n.extend(nodes.clone());
                (format!("first line  \n{src}"), vec![el("p", n)], "after_break")
            }
            10 => {
                let mut n = nodes.clone();
                n.push(txt("\nlast line"));
                (format!("{src}\nlast line"), vec![el("p", n)], "followed_by_line")
            }
            11 => (
                format!("> - {}", indent(src, ">   ")),
                vec![el("blockquote", vec![el("ul", vec![el("li", vec![p(&nodes)])])])],
                "list_in_quote",
            ),
            12 => (
                format!("- > {}", indent(src, "  > ")),
                vec![el("ul", vec![el("li", vec![el("blockquote", vec![p(&nodes)])])])],
                "quote_in_list",
            ),
            13 => (
                format!("> > {}", indent(src, "> > ")),
                vec![el("blockquote", vec![el("blockquote", vec![p(&nodes)])])],
                "nested_quote",
            ),
            _ => continue,
        };
        return (doc, el("body", kids), name);
    }
}

pub const LITERAL_CONTEXTS: usize = 12;

/// Where one line of text is shown as text, also with markup in it. The
/// text must not contain brackets, quotes, delimiters or pipes unescaped
/// where these end the construct; `ends` tells which characters do.
pub fn literal(r: &mut Rng, k: usize, src: &str, shown: &str) -> (String, Node, &'static str) {
    let t = || txt(shown);
    let para = |n: Node| el("p", vec![txt("a "), n, txt(" b")]);
    let (doc, kids, name) = match k {
        0 => {
            let n = r.range(1, 20);
            (
                format!("{n}. {src}\n{}. second", n + 1),
                vec![el("ol", vec![el("li", vec![t()]), el("li", vec![txt("second")])])],
                "ordered_item",
            )
        }
        1 => {
            let on = r.one_in(2);
            let mut b = el("input", vec![]);
            if on {
                b.attrs.push(("checked".into(), "".into()));
            }
            let mut ul = el("ul", vec![el("li", vec![b, t()])]);
            ul.attrs.push(("class".into(), "contains-task-list".into()));
            (format!("- [{}] {src}", if on { "x" } else { " " }), vec![ul], "task_item")
        }
        2 => (
            format!("| {src} | h |\n| - | - |\n| c | d |"),
            vec![el(
                "table",
                vec![
                    el("tr", vec![el("th", vec![t()]), el("th", vec![txt("h")])]),
                    el("tr", vec![el("td", vec![txt("c")]), el("td", vec![txt("d")])]),
                ],
            )],
            "table_header",
        ),
        3 => (
            format!("<details>\n<summary>{src}</summary>\nx\n</details>"),
            vec![el("details", vec![el("summary", vec![t()]), el("p", vec![txt("x")])])],
            "summary",
        ),
        4 => (format!("a *{src}* b"), vec![para(el("em", vec![t()]))], "emphasis"),
        5 => (format!("a __{src}__ b"), vec![para(el("strong", vec![t()]))], "strong"),
        6 => (format!("a ***{src}*** b"), vec![para(el("strong", vec![el("em", vec![t()])]))], "strong_emphasis"),
        7 => (format!("a ~~{src}~~ b"), vec![para(el("strike", vec![t()]))], "strike"),
        8 => {
            let mut a = el("a", vec![t()]);
            a.attrs.push(("href".into(), "u".into()));
            (format!("a [{src}](u) b"), vec![para(a)], "link_label")
        }
        9 => {
            let mut a = el("a", vec![txt("l")]);
            a.attrs.push(("href".into(), "u".into()));
            a.attrs.push(("title".into(), shown.into()));
            (format!("a [l](u \"{src}\") b"), vec![para(a)], "link_title")
        }
        10 => {
            let mut a = el("img", vec![]);
            a.attrs.push(("src".into(), "u".into()));
            a.attrs.push(("alt".into(), shown.into()));
            (format!("a ![{src}](u) b"), vec![para(a)], "image_alt")
        }
        _ => {
            let mut a = el("img", vec![]);
            a.attrs.push(("src".into(), "u".into()));
            a.attrs.push(("alt".into(), "l".into()));
            a.attrs.push(("title".into(), shown.into()));
            (format!("a ![l](u '{src}') b"), vec![para(a)], "image_title")
        }
    };
    (doc, el("body", kids), name)
}

/// Compares a rendering with the expected tree.
pub fn compare(html: &str, mut want: Node) -> Result<(), String> {
    crate::gen::normalise_urls(&mut want);
    let want = crate::html::canon_children(&want);
    let (_, got) = crate::props::c09::actual(html)?;
    match crate::props::c09::first_difference(&want, &got) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}
