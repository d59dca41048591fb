//! No document can inject markup.
use crate::gen;
use crate::html::{tokenize, Tok};
use crate::run::{bad, Case, Verdict};

/// The renderer's vocabulary: elements and the attributes each may have.
const ALLOWED: &[(&str, &[&str])] = &[
    ("p", &[]),
    ("h1", &["id"]),
    ("h2", &["id"]),
    ("h3", &["id"]),
    ("h4", &["id"]),
    ("h5", &["id"]),
    ("h6", &["id"]),
    ("ul", &["class"]),
    ("ol", &["start"]),
    ("li", &["class", "id", "role"]),
    ("blockquote", &[]),
    ("pre", &[]),
    ("code", &["class"]),
    ("em", &[]),
    ("strong", &[]),
    ("strike", &[]),
    ("del", &[]),
    ("br", &[]),
    ("hr", &[]),
    ("a", &["href", "title", "class", "rel", "role"]),
    ("img", &["src", "alt", "title", "referrerpolicy"]),
    ("input", &["type", "class", "checked", "disabled"]),
    ("table", &["class"]),
    ("thead", &[]),
    ("tbody", &[]),
    ("tr", &[]),
    ("th", &["style"]),
    ("td", &["style"]),
    ("details", &[]),
    ("summary", &[]),
    ("sup", &["id", "role"]),
    ("div", &["class", "role"]),
];

/// Attributes whose values come from a fixed set, never from the document.
fn fixed_value(elem: &str, attr: &str, v: &str) -> bool {
    match (elem, attr) {
        ("code", "class") => v.starts_with("language-"),
        (_, "class") => matches!(
            v,
            "contains-task-list" | "task-list-item" | "task-list-item-checkbox" | "table table-bordered" | "footnote" | "reversefootnote" | "footnotes"
        ),
        (_, "style") => v.strip_prefix("text-align:").is_some_and(|a| matches!(a.trim(), "left" | "right" | "center")),
        (_, "role") => matches!(v, "doc-noteref" | "doc-endnotes" | "doc-endnote" | "doc-backlink"),
        (_, "rel") => v == "footnote",
        ("input", "type") => v == "checkbox",
        (_, "referrerpolicy") => v == "no-referrer",
        (_, "checked") => v.is_empty(),
        _ => true,
    }
}

pub fn vocabulary(html: &str) -> Result<usize, String> {
    let mut n = 0;
    for t in tokenize(html) {
        match t {
            Tok::Text(_) => {}
            Tok::Markup(m) => return Err(format!("declaration or comment {m:?}")),
            Tok::Eof(m) => return Err(format!("unterminated tag {m:?}")),
            Tok::End(t) => {
                if !t.attrs.is_empty() || !ALLOWED.iter().any(|a| a.0 == t.name) {
                    return Err(format!("end tag </{}> {:?}", t.name, t.attrs));
                }
            }
            Tok::Start(t) => {
                n += 1;
                let allowed = match ALLOWED.iter().find(|a| a.0 == t.name) {
                    Some(a) => a.1,
                    None => return Err(format!("element <{}> {:?}", t.name, t.attrs)),
                };
                for (i, (k, v)) in t.attrs.iter().enumerate() {
                    if !allowed.contains(&k.as_str()) {
                        return Err(format!("attribute {k:?} of <{}>", t.name));
                    }
                    if t.attrs[..i].iter().any(|a| a.0 == *k) {
                        return Err(format!("attribute {k:?} twice in <{}>", t.name));
                    }
                    if !fixed_value(&t.name, k, v) {
                        return Err(format!("value {v:?} of attribute {k:?} of <{}>", t.name));
                    }
                }
            }
        }
    }
    Ok(n)
}

/// Tags of the output with attribute names, without values.
fn skeleton(html: &str) -> Vec<String> {
    tokenize(html)
        .into_iter()
        .filter_map(|t| match t {
            Tok::Text(_) => None,
            Tok::Start(t) => Some(format!("<{} {:?}>", t.name, t.attrs.iter().map(|a| a.0.clone()).collect::<Vec<_>>())),
            Tok::End(t) => Some(format!("</{}>", t.name)),
            t => Some(format!("{t:?}")),
        })
        .collect()
}

/// Positions for a piece of text; `@` is replaced.
pub const HOLES: &[&str] = &[
    "a @ b", "@x", "# a @ b", "###### a @", "# a @ {#id}", "# a {#@}", "- a @ b", "- a\n  - b @ c", "* @x\n* y", "1. a @ b", "12. @x", "- [ ] a @ b", "- [x] @x", "> a @ b", ">> a @ b", "> - a @",
    "| a @ b | c |\n| - | - |\n| d | e |", "| a | b |\n| - | :-: |\n| c @ d | e |", "| a | b |\n| - | - |\n| *@* | `@` |", "```\na @ b\n```", "```\n@\n```", "```x@y\na\n```", "```@\na\n```", "[@](u)", "![@](u)", "[a](u \"@\")", "<@://h/x>", "<@:x>", "[a](@:x)", "<@@h.x>", "@. a", "``` @\na\n```", "    a @ b",
    "a\n\n    @", "`@`", "``a @ b``", "*a @ b*", "_a @ b_", "**a @ b**", "***a @ b***", "~~a @ b~~", "[a @ b](u)", "[a](u \"a @ b\")", "[a](u 'b @ c')", "![a @ b](u)", "![a](u \"a @ b\")",
    "[a](http://h/@)", "[a](@)", "![a](http://h/@)", "![a](@)", "![a](x@y)", "<http://h/@>", "<mailto:@>", "a[^@] b\n\n[^@]: c", "a[^1] b\n\n[^1]: c @ d", "[^1]: a\n  b @ c", "[^x@y]: a",
    "<details>\n<summary>a @ b</summary>\nc\n</details>", "<details>\n<summary>s</summary>\na @ b\n</details>", "<details>\n<summary>s</summary>\n@", "a  \n@", "a\\\n@", "a\n@ b", "[@", "a [b](c @", "*a @ b", "`a @ b", "~~a @",
    "![a @", "[a](b \"c @", "| a @ |", "| a @ | b |\n| - |", "```a @", "\\@", "a \\@", "&@;", "[^@", "<@", "<a@b.c> @", "- [@] a", "#@", "@\n===", "[a]: @",
];

const PAYLOADS: &[&str] = &[
    "<b>", "</p>", "</li></ul>", "<p>", "<em>", "</em>", "<code>", "</code>", "</code></pre>", "<a href=\"x\">", "<a href=x>", "</a>", "<img src=x onerror=alert(1)>", "<script>alert(1)</script>", "</script>",
    "<svg/onload=x>", "<br>", "<hr>", "<input>", "<table>", "</td>", "</th>", "</tr></table>", "</summary>", "</details>", "</h1>", "</blockquote>", "<!-- x -->", "<!--", "-->", "<!DOCTYPE html>", "<?php ?>",
    "<![CDATA[x]]>", "\"", "'", "\"x", "'x", "\" onclick=\"x", "' onclick='x", "\"onclick=x ", "\"><b>", "'><b>", "\"/><i/x=\"", "&quot;", "&lt;b&gt;", "&#60;b&#62;", "&#x3C;b>", "&quot; x=&quot;", "&", "&amp;lt;", "<", ">", "<<b>>",
    "<\u{0}b>", "<b\n>", "<B>", "< b>", "<\tb>", "<b", "b>", "<b x=", "=x", "x=y", "<x:y>", "<x@y>", "\\<b>", "\\\"", "\\\" x=\"", "\\&lt;b>", "`<b>`", "*<b>*", "[<b>](u)", "](<b>)", "|<b>|", "<iframe src=x>", "<style>*{}</style>",
    "<div>", "<sup>", "<li>", "<strong>", "<summary>", "<td>", "<h1>", "<blockquote>", "<ul>", "<pre>", "<strike>", "<title>", "<plaintext>", "<math>", "<textarea>", "%3Cb%3E", "%22 onx=%22", "\u{ff1c}b\u{ff1e}", "\u{2039}b\u{203a}", "{}", "\u{0}<b>", "a\"b'c<d>e&f",
];

/// Payloads whose characters mean nothing in running text.
const INERT: &[&str] = &[
    "<b>", "</p>", "<p>", "<em>", "</em>", "<code>", "</code>", "</code></pre>", "<a href=x>", "</a>", "<img src=x onerror=y>", "<script>x</script>", "<br>", "<hr>", "<input>", "<table>", "</td>", "</tr></table>", "</h1>", "</blockquote>", "</summary>",
    "\"", "'", "\" onclick=\"x", "' onclick='x", "\"><b>", "&quot;", "&lt;b&gt;", "&amp;lt;", "&", "<b x=", "<div>", "<sup>", "<li>", "<strong>", "<td>", "<h1>", "<ul>", "<pre>", "<strike>", "x=\"y\"",
];
const TEXT_HOLES: &[&str] = &[
    "a @ b", "# a @ b", "### a @ b {#id}", "- a @ b", "- a\n  - b @ c", "1. a @ b", "- [ ] a @ b", "- [x] a @ b", "> a @ b", "> - a @ c", "| a @ b | c |\n| - | - |\n| d | e |", "| a | b |\n| - | :-: |\n| c @ d | e |", "```\na @ b\n```", "    a @ b", "``a @ b``",
    "*a @ b*", "__a @ b__", "***a @ b***", "~~a @ b~~", "[a @ b](u)", "![a @ b](u)", "a[^1] b\n\n[^1]: c @ d", "a\nb @ c", "a  \nb @ c", "*a @ b", "`a @ b", "~~a @ b", "[a @ b", "![a @ b", "| a @ b |", "| a @ b | c |\n| - |",
];

pub fn check(c: &mut Case) -> Verdict {
    let n = c.n as usize;
    let pick = c.r.below(10);
    let systematic = HOLES.len() * PAYLOADS.len();
    let doc = if n < systematic {
        HOLES[n / PAYLOADS.len()].replace('@', PAYLOADS[n % PAYLOADS.len()])
    } else if n < systematic + TEXT_HOLES.len() * INERT.len() || pick == 0 {
        // the payload must leave the structure as a word does
        let m = n - systematic;
        let (hole, pay) = if m < TEXT_HOLES.len() * INERT.len() {
            (TEXT_HOLES[m / INERT.len()], INERT[m % INERT.len()].to_string())
        } else {
            (*c.r.pick(TEXT_HOLES), (0..c.r.range(1, 3)).map(|_| *c.r.pick(INERT)).collect::<Vec<_>>().join(" "))
        };
        let doc = hole.replace('@', &pay);
        let plain = c.render(&hole.replace('@', "word"))?;
        let html = c.render(&doc)?;
        c.stats.count("structure_compared");
        if skeleton(&plain) != skeleton(&html) {
            return bad(format!("{pay:?} in {hole:?} gives other elements than a word does"), &doc, &html);
        }
        doc
    } else if pick < 6 {
        let mut d = c.r.pick(HOLES).to_string();
        while let Some(i) = d.find('@') {
            let p = if c.r.one_in(3) { gen::soup(&mut c.r, 3, &mut |r| r.pick(PAYLOADS).to_string()) } else { c.r.pick(PAYLOADS).to_string() };
            d.replace_range(i..i + 1, &p.replace('@', ""));
        }
        if c.r.one_in(3) {
            gen::mutate(&mut c.r, &d)
        } else {
            d
        }
    } else if pick < 8 {
        gen::soup(&mut c.r, 12, &mut |r| r.pick(PAYLOADS).to_string())
    } else {
        gen::any_doc(&mut c.r, c.corpus)
    };
    let html = c.render(&doc)?;
    match vocabulary(&html) {
        Err(why) => return bad(why, &doc, &html),
        Ok(n) => {
            c.stats.add("elements_seen", n as u64);
            if n > 0 && doc.contains(['<', '>', '"', '\'', '&']) {
                c.stats.nontrivial(&doc);
            }
        }
    }
    Ok(())
}
