//! No executable URLs.
use crate::gen;
use crate::html::{tokenize, Tok};
use crate::run::{bad, Case, Verdict};

/// The scheme a browser finds in a URL, lower-cased, and the rest.
pub fn browser_scheme(url: &str) -> Option<(String, String)> {
    let u: String = url
        .trim_matches(|c: char| c <= ' ')
        .chars()
        .filter(|c| !matches!(c, '\t' | '\n' | '\r'))
        .collect();
    let (s, rest) = u.split_once(':')?;
    let mut it = s.chars();
    if !it.next()?.is_ascii_alphabetic() || !it.all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.')) {
        return None;
    }
    Some((s.to_ascii_lowercase(), rest.to_string()))
}

pub fn dangerous(url: &str) -> bool {
    match browser_scheme(url) {
        Some((s, _)) if s == "javascript" => true,
        Some((s, rest)) if s == "data" => {
            // an image without a source gets the empty document
            rest != "," && !rest.trim_start().to_ascii_lowercase().starts_with("image/")
        }
        _ => false,
    }
}

pub fn targets(html: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    for t in tokenize(html) {
        if let Tok::Start(t) = t {
            for (k, val) in t.attrs {
                if matches!(k.as_str(), "href" | "src" | "action" | "formaction" | "xlink:href" | "srcset" | "background" | "poster" | "data") {
                    v.push((t.name.clone(), k, val));
                }
            }
        }
    }
    v
}

const SCHEMES: &[&str] = &["javascript", "data", "JavaScript", "DATA", "jAvAsCrIpT", "Data", "JAVASCRIPT"];
const BODIES: &[&str] = &[
    ":alert(1)", ":alert`1`", ":x", ":", "://h/%0aalert(1)", ":text/html,<b>", ":text/html;base64,PGI+", ":,x", ":;,x", ":application/javascript,x", ":text/html,image/png", ":x//image/", ":image", ":IMAGE/svg", ":image/png,x", ":/image/png,x", ":text/html;image/png,x",
    ":a:b", ":a@b", ":a@b.c:d", ":a/b:c?d#e:f", ":text/html;x=:image/png,x", ":#:x", ":?x:image/", "::", ":/:", ":text/html,#:image/png", ":text/html,data:image/png,x", ":'http://x'", ":[1](2)", ":a(b(c))",
];
const NOISE: &[&str] = &["", "", "", "", "\t", " ", "\u{1}", "\0", "\u{a0}", "&#9;", "&Tab;", "&NewLine;", "\\", "%09", "%0a", "\u{c}", "\u{b}", "\u{7f}", "\u{feff}", "\u{200b}", "./", "\n", "&#106;", "\"", "'", "<", ">", "/", "x@"];
const FORMS: &[&str] = &[
    "[a](@)", "![a](@)", "<@>", "[a](@ \"t\")", "![a](@ 't')", "[a]( @)", "[a](<@>)", "![a]( @ )", "# [a](@)", "- [a](@)", "> ![a](@)", "| a |\n| - |\n| [a](@) |", "| a |\n| - |\n| ![a](@) |", "| a |\n| - |\n| <@> |", "a <@> b", "[](@)", "![](@)",
    "[![a](@)](@)", "*[a](@)*", "<details>\n<summary>s</summary>\n[a](@)\n</details>", "1. [a](@)", "- [ ] <@>", "[a][1]\n\n[1]: @", "a[^1]\n\n[^1]: [a](@) <@>", "@", "[a\n](@)", "[a](\n@)", "[a](x@)", "[a](@\n)", "- - <@>", "# <@>", "> > [a](@ \"t\")",
];

pub fn check(c: &mut Case) -> Verdict {
    let n = c.n as usize;
    let plain = FORMS.len() * SCHEMES.len() * BODIES.len();
    let doc = if n < plain {
        let form = FORMS[n % FORMS.len()];
        let s = SCHEMES[n / FORMS.len() % SCHEMES.len()];
        let b = BODIES[n / FORMS.len() / SCHEMES.len()];
        form.replace('@', &format!("{s}{b}"))
    } else {
        match c.r.below(10) {
            0 => gen::any_doc(&mut c.r, c.corpus),
            1 => {
                let r = &mut c.r;
                gen::soup(r, 10, &mut |r| format!("{}{}", r.pick(SCHEMES), r.pick(BODIES)))
            }
            _ => {
                let r = &mut c.r;
                let s = r.pick(SCHEMES).to_string();
                let mut url = r.pick(NOISE).to_string();
                let cut = r.below(s.len() + 1);
                url.push_str(&s[..cut]);
                if r.one_in(2) {
                    url.push_str(r.pick(NOISE));
                }
                url.push_str(&s[cut..]);
                if r.one_in(3) {
                    url.push_str(r.pick(NOISE));
                }
                url.push_str(r.pick(BODIES));
                // some characters written differently
                let k = if r.one_in(3) { r.range(1, 3) } else { 0 };
                for _ in 0..k {
                    let i = if r.one_in(3) { url.find(':').unwrap_or(0) } else { r.below(url.len()) };
                    if url.is_char_boundary(i) && i < url.len() && (url.as_bytes()[i].is_ascii_alphabetic() || url.as_bytes()[i] == b':') {
                        let ch = url.as_bytes()[i];
                        let alt = match r.below(8) {
                            0 => format!("&#{};", ch),
                            1 => format!("&#x{:x};", ch),
                            2 => format!("%{:02x}", ch),
                            3 => format!("\\{}", ch as char),
                            4 | 6 if ch == b':' => "&colon;".to_string(),
                            5 => format!("&#{:07};", ch),
                            _ => (ch as char).to_ascii_uppercase().to_string(),
                        };
                        url.replace_range(i..i + 1, &alt);
                    }
                }
                // what could make it look harmless
                if r.one_in(3) {
                    for _ in 0..r.range(1, 4) {
                        url.push_str(r.pick(&[
                            "//", "://", "/", "http://x", "https://example.com/", "example.com", "localhost", "image/", "image/png", "image/svg+xml", ",image/", ";image/png", ".png", ".jpg", ".svg", ".gif", ".html", ".md", "#", "#top", "?",
                            "?x=.png", "@", "mailto:", "a@b.c", ";base64", ";base64,", ",", "%0a", "%2f", "alert", "void", "0", "1;", "text/plain", "text/html", "&amp;", "'", "'+'", "!", "$", "*",
                        ]));
                    }
                }
                if r.one_in(12) {
                    url.push_str(&gen::filler(r));
                }
                if r.one_in(4) {
                    for _ in 0..r.range(1, 6) {
                        url.push(*r.pick(&[':', '@', '#', '?', '/', ';', ',', '.', '+', '-', '=', '&', '%', 'a', 'Z', '0', '(', ')', '[', ']', '\\', '\'', '"']));
                    }
                }
                if r.one_in(3) {
                    url.push_str(r.pick(NOISE));
                }
                let d = r.pick(FORMS).replace('@', &url);
                if r.one_in(6) {
                    gen::mutate(r, &d)
                } else {
                    d
                }
            }
        }
    };
    let html = c.render(&doc)?;
    let ts = targets(&html);
    c.stats.add("targets_resolved", ts.len() as u64);
    for (elem, attr, v) in &ts {
        if dangerous(v) {
            return bad(format!("<{elem}> has {attr}={v:?}"), &doc, &html);
        }
    }
    for t in tokenize(&html) {
        if let Tok::Start(t) = t {
            let get = |n: &str| t.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str());
            if t.name == "img" && get("src").is_some_and(|s| s != "data:,") {
                c.stats.count("image_referrers");
                if get("referrerpolicy") != Some("no-referrer") {
                    return bad("an image may send a referrer", &doc, &html);
                }
            }
        }
    }
    let spelled = doc.to_ascii_lowercase().contains("javascript:") || doc.to_ascii_lowercase().contains("data:");
    if spelled {
        c.stats.count("dangerous_spelled");
    }
    if spelled || !ts.is_empty() {
        c.stats.nontrivial(&doc);
    }
    // a refused link is shown as it was written
    if n < plain && ts.is_empty() {
        if let Ok(tree) = crate::html::tree(&html) {
            let url = format!("{}{}", SCHEMES[n / FORMS.len() % SCHEMES.len()], BODIES[n / FORMS.len() / SCHEMES.len()]);
            let form = FORMS[n % FORMS.len()];
            let bare = url.replace(['\\'], "");
            if matches!(form, "[a](@)" | "![a](@)" | "<@>" | "a <@> b" | "# [a](@)" | "- [a](@)" | "> ![a](@)") {
                c.stats.count("refusals_compared");
                let text = tree.all_text();
                let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != '`').collect::<String>();
                if !strip(&text).contains(&strip(&bare)) {
                    return bad(format!("{url:?} was refused but is not shown as text"), &doc, &html);
                }
            }
        }
    }
    Ok(())
}
