//! A tokenizer that follows the HTML standard's tokenization, and a strict
//! tree builder on top of it. Written against the standard, independently of
//! the renderer under test.
use crate::entities::ENTITIES;
use std::collections::HashMap;
use std::sync::OnceLock;

fn entities() -> &'static HashMap<&'static str, &'static str> {
    static MAP: OnceLock<HashMap<&'static str, &'static str>> = OnceLock::new();
    MAP.get_or_init(|| ENTITIES.iter().copied().collect())
}

/// Decodes character references as a browser does.
pub fn decode(s: &str, in_attribute: bool) -> String {
    let b = s.as_bytes();
    let mut out = String::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if b[i] != b'&' {
            let next = s[i..].find('&').map_or(s.len(), |n| i + n);
            out.push_str(&s[i..next]);
            i = next;
            continue;
        }
        if b.get(i + 1) == Some(&b'#') {
            let (hex, start) = match b.get(i + 2) {
                Some(b'x') | Some(b'X') => (true, i + 3),
                _ => (false, i + 2),
            };
            let mut end = start;
            while end < s.len() && (if hex { b[end].is_ascii_hexdigit() } else { b[end].is_ascii_digit() }) {
                end += 1;
            }
            if end > start {
                let v = u32::from_str_radix(&s[start..end], if hex { 16 } else { 10 }).unwrap_or(u32::MAX);
                out.push(match v {
                    0 => '\u{FFFD}',
                    v => char::from_u32(v).unwrap_or('\u{FFFD}'),
                });
                if b.get(end) == Some(&b';') {
                    end += 1;
                }
                i = end;
                continue;
            }
        } else {
            let mut end = i + 1;
            while end < s.len() && end - i < 34 && b[end].is_ascii_alphanumeric() {
                end += 1;
            }
            let mut found = None;
            if b.get(end) == Some(&b';') {
                if let Some(v) = entities().get(&s[i + 1..=end]) {
                    found = Some((end + 1, *v));
                }
            }
            if found.is_none() {
                for e in (i + 2..=end).rev() {
                    if let Some(v) = entities().get(&s[i + 1..e]) {
                        let next = b.get(e).copied().unwrap_or(b' ');
                        if in_attribute && (next == b'=' || next.is_ascii_alphanumeric()) {
                            break;
                        }
                        found = Some((e, *v));
                        break;
                    }
                }
            }
            if let Some((e, v)) = found {
                out.push_str(v);
                i = e;
                continue;
            }
        }
        out.push('&');
        i += 1;
    }
    out
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tag {
    pub name: String,
    /// Names as written (lower-cased) and decoded values.
    pub attrs: Vec<(String, String)>,
    pub self_closing: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Tok {
    Text(String),
    Start(Tag),
    End(Tag),
    /// A comment, bogus comment, doctype or CDATA section.
    Markup(String),
    /// End of input inside of a tag.
    Eof(String),
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let ws = |c: u8| matches!(c, b' ' | b'\t' | b'\n' | b'\x0c' | b'\r');
    let mut toks = Vec::new();
    let mut i = 0;
    let mut text = 0;
    while i < s.len() {
        if b[i] != b'<' {
            i += 1;
            continue;
        }
        let next = b.get(i + 1).copied().unwrap_or(b' ');
        let is_tag = next.is_ascii_alphabetic()
            || (next == b'/' && b.get(i + 2).is_some_and(|c| c.is_ascii_alphabetic()));
        let is_markup = next == b'!' || next == b'?' || (next == b'/' && i + 2 < s.len() && !is_tag);
        if !is_tag && !is_markup {
            i += 1;
            continue;
        }
        if text < i {
            toks.push(Tok::Text(decode(&s[text..i], false)));
        }
        if is_markup {
            let end = s[i..].find('>').map_or(s.len(), |n| i + n + 1);
            toks.push(Tok::Markup(s[i..end].to_string()));
            i = end;
            text = i;
            continue;
        }
        let start = i;
        let end_tag = next == b'/';
        i += if end_tag { 2 } else { 1 };
        let n = i;
        while i < s.len() && !ws(b[i]) && b[i] != b'/' && b[i] != b'>' {
            i += 1;
        }
        let mut tag = Tag { name: s[n..i].to_ascii_lowercase(), attrs: vec![], self_closing: false };
        let mut closed = false;
        while i < s.len() {
            if ws(b[i]) {
                i += 1;
            } else if b[i] == b'>' {
                i += 1;
                closed = true;
                break;
            } else if b[i] == b'/' {
                i += 1;
                if b.get(i) == Some(&b'>') {
                    tag.self_closing = true;
                }
            } else {
                let n = i;
                i += 1;
                while i < s.len() && !ws(b[i]) && !matches!(b[i], b'/' | b'>' | b'=') {
                    i += 1;
                }
                let name = s[n..i].to_ascii_lowercase();
                while i < s.len() && ws(b[i]) {
                    i += 1;
                }
                let mut value = "";
                if i < s.len() && b[i] == b'=' {
                    i += 1;
                    while i < s.len() && ws(b[i]) {
                        i += 1;
                    }
                    if i < s.len() && (b[i] == b'"' || b[i] == b'\'') {
                        let q = b[i];
                        i += 1;
                        let v = i;
                        while i < s.len() && b[i] != q {
                            i += 1;
                        }
                        value = &s[v..i];
                        i = (i + 1).min(s.len());
                    } else {
                        let v = i;
                        while i < s.len() && !ws(b[i]) && b[i] != b'>' {
                            i += 1;
                        }
                        value = &s[v..i];
                    }
                }
                tag.attrs.push((name, decode(value, true)));
            }
        }
        text = i;
        if !closed {
            toks.push(Tok::Eof(s[start..].to_string()));
        } else if end_tag {
            toks.push(Tok::End(tag));
        } else {
            toks.push(Tok::Start(tag));
        }
    }
    if text < s.len() {
        toks.push(Tok::Text(decode(&s[text..], false)));
    }
    toks
}

#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Node {
    /// Empty for text.
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub text: String,
    pub children: Vec<Node>,
}

pub const VOID: &[&str] = &["br", "hr", "img", "input"];
pub const INLINE: &[&str] = &["em", "strong", "strike", "del", "s", "code", "a", "img", "sup", "br", "input", "span", "b", "i"];

impl Node {
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == name).map(|a| a.1.as_str())
    }
    pub fn is_text(&self) -> bool {
        self.tag.is_empty()
    }
    pub fn is_blank(&self) -> bool {
        self.tag.is_empty() && self.text.chars().all(|c| c.is_ascii_whitespace())
    }
    /// All text in here.
    pub fn all_text(&self) -> String {
        let mut s = String::new();
        self.visit(&mut |n| s.push_str(&n.text));
        s
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Node)) {
        f(self);
        for c in &self.children {
            c.visit(f);
        }
    }
    pub fn find_all<'a>(&'a self, tag: &str, out: &mut Vec<&'a Node>) {
        if self.tag == tag {
            out.push(self);
        }
        for c in &self.children {
            c.find_all(tag, out);
        }
    }
    pub fn all(&self, tag: &str) -> Vec<&Node> {
        let mut v = vec![];
        self.find_all(tag, &mut v);
        v
    }
    /// Children other than whitespace between blocks.
    pub fn elements(&self) -> Vec<&Node> {
        self.children.iter().filter(|c| !c.is_blank()).collect()
    }
    pub fn has_class(&self, class: &str) -> bool {
        self.attr("class").is_some_and(|c| c.split_ascii_whitespace().any(|c| c == class))
    }
}

/// Builds the tree of a balanced document; an error says where the balance or
/// the content model breaks.
pub fn tree(html: &str) -> Result<Node, String> {
    let mut stack: Vec<Node> = vec![Node { tag: "body".into(), ..Default::default() }];
    for tok in tokenize(html) {
        match tok {
            Tok::Text(t) => {
                let parent = stack.last_mut().unwrap();
                if matches!(parent.tag.as_str(), "ul" | "ol" | "table" | "thead" | "tbody" | "tr")
                    && t.chars().any(|c| !c.is_ascii_whitespace())
                {
                    return Err(format!("text {:?} directly inside <{}>", t, parent.tag));
                }
                parent.children.push(Node { text: t, ..Default::default() });
            }
            Tok::Start(tag) => {
                content_model(&stack, &tag.name)?;
                let node = Node { tag: tag.name, attrs: tag.attrs, ..Default::default() };
                if VOID.contains(&node.tag.as_str()) {
                    stack.last_mut().unwrap().children.push(node);
                } else {
                    stack.push(node);
                }
            }
            Tok::End(tag) => {
                let open = stack.last().unwrap();
                if stack.len() == 1 || open.tag != tag.name {
                    return Err(format!(
                        "</{}> closes nothing (innermost open element: {})",
                        tag.name,
                        if stack.len() == 1 { "none" } else { &open.tag }
                    ));
                }
                let node = stack.pop().unwrap();
                stack.last_mut().unwrap().children.push(node);
            }
            Tok::Markup(m) => return Err(format!("markup declaration {:?}", m)),
            Tok::Eof(m) => return Err(format!("unterminated tag {:?}", m)),
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is never closed", stack.last().unwrap().tag));
    }
    Ok(stack.pop().unwrap())
}

fn content_model(stack: &[Node], tag: &str) -> Result<(), String> {
    let parent = stack.last().unwrap().tag.as_str();
    let inline = INLINE.contains(&tag);
    let fail = |why: &str| Err(format!("<{}> inside <{}>: {}", tag, parent, why));
    // Everything inside of phrasing content is inline, so that looking at the
    // parent is enough.
    let phrasing = INLINE.contains(&parent)
        || matches!(parent, "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "summary" | "pre" | "th");
    if !inline && phrasing {
        return fail("block element inside phrasing content");
    }
    if tag == "a" && stack.iter().rev().take_while(|n| INLINE.contains(&n.tag.as_str())).any(|n| n.tag == "a") {
        return fail("nested links");
    }
    let ok = match tag {
        "li" => matches!(parent, "ul" | "ol"),
        "thead" | "tbody" => parent == "table",
        "tr" => matches!(parent, "thead" | "tbody" | "table"),
        "td" | "th" => parent == "tr",
        "summary" => parent == "details",
        _ => !matches!(parent, "ul" | "ol" | "table" | "thead" | "tbody" | "tr"),
    };
    if !ok {
        return fail("not allowed there");
    }
    Ok(())
}

/// Names of the elements and attributes in which output may differ without
/// differing in meaning are left out of the canonical form.
fn style_align(n: &Node) -> &str {
    let style = n.attr("style").or(n.attr("align")).unwrap_or("");
    ["center", "right", "left"].iter().find(|a| style.contains(**a)).copied().unwrap_or("left")
}

enum It {
    Text(String),
    Open(String),
    Close,
    Atom(String),
}

fn inline_items(n: &Node, out: &mut Vec<It>) {
    if n.is_text() {
        return out.push(It::Text(n.text.clone()));
    }
    match n.tag.as_str() {
        "code" => return out.push(It::Atom(format!("(code {:?})", n.all_text()))),
        "br" => return out.push(It::Atom("(br)".into())),
        "img" => {
            return out.push(It::Atom(format!(
                "(img {:?} {:?} {:?})",
                n.attr("src").unwrap_or(""),
                n.attr("alt").unwrap_or(""),
                n.attr("title").unwrap_or("")
            )))
        }
        "a" => out.push(It::Open(format!("a {:?} {:?}", n.attr("href").unwrap_or(""), n.attr("title").unwrap_or("")))),
        "strike" | "del" | "s" => out.push(It::Open("strike".into())),
        "input" => return out.push(It::Atom(format!("(box {})", n.attr("checked").is_some()))),
        t => out.push(It::Open(t.to_string())),
    }
    for c in &n.children {
        inline_items(c, out);
    }
    out.push(It::Close);
}

/// Inline content with whitespace collapsed as a browser does.
pub fn canon_inline(nodes: &[&Node]) -> String {
    let mut items = Vec::new();
    for n in nodes {
        inline_items(n, &mut items);
    }
    // Collapse white space; spaces at the edges of the block do not count.
    let mut out = String::new();
    let mut text = String::new();
    let mut space = false;
    let mut started = false;
    let flush = |text: &mut String, out: &mut String| {
        if !text.is_empty() {
            out.push_str(&format!("{:?}", text));
            text.clear();
        }
    };
    for it in &items {
        match it {
            It::Text(t) => {
                for c in t.chars() {
                    if c.is_ascii_whitespace() {
                        space = true;
                    } else {
                        if space && started {
                            text.push(' ');
                        }
                        space = false;
                        started = true;
                        text.push(c);
                    }
                }
            }
            It::Open(o) => {
                if space && started {
                    text.push(' ');
                }
                space = false;
                flush(&mut text, &mut out);
                out.push_str(&format!("({} ", o));
            }
            It::Close => {
                flush(&mut text, &mut out);
                out.push(')');
                started = true;
            }
            It::Atom(a) => {
                if a == "(br)" {
                    space = false;
                }
                if space && started {
                    text.push(' ');
                }
                flush(&mut text, &mut out);
                out.push_str(a);
                started = a != "(br)";
                space = false;
            }
        }
    }
    flush(&mut text, &mut out);
    out
}

/// The canonical forms of the blocks among the children of an element. Inline
/// content directly inside of a block counts as a paragraph.
pub fn canon_children(n: &Node) -> Vec<String> {
    let mut out = Vec::new();
    let mut run: Vec<&Node> = Vec::new();
    let flush = |run: &mut Vec<&Node>, out: &mut Vec<String>| {
        if run.iter().any(|n| !n.is_blank()) {
            out.push(format!("(p {})", canon_inline(run)));
        }
        run.clear();
    };
    for c in &n.children {
        if c.is_text() || INLINE.contains(&c.tag.as_str()) {
            run.push(c);
        } else {
            flush(&mut run, &mut out);
            out.push(canon(c));
        }
    }
    flush(&mut run, &mut out);
    out
}

pub fn canon(n: &Node) -> String {
    let refs: Vec<&Node> = n.children.iter().collect();
    let blocks = || canon_children(n).join(" ");
    match n.tag.as_str() {
        "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
            format!("({} {:?} {})", n.tag, n.attr("id").unwrap_or(""), canon_inline(&refs))
        }
        "p" => format!("(p {})", canon_inline(&refs)),
        "pre" => match n.elements().as_slice() {
            [c] if c.tag == "code" => {
                format!("(pre {:?} {:?})", c.attr("class").unwrap_or(""), c.all_text())
            }
            _ => format!("(pre {:?})", n.all_text()),
        },
        "hr" => "(hr)".into(),
        "ul" if n.has_class("contains-task-list") => format!("(tasks {})", blocks()),
        "table" => {
            let rows: Vec<String> = n
                .all("tr")
                .iter()
                .map(|r| {
                    let cells: Vec<String> = r
                        .elements()
                        .iter()
                        .map(|c| {
                            let kids: Vec<&Node> = c.children.iter().collect();
                            format!("({} {} {})", c.tag, style_align(c), canon_inline(&kids))
                        })
                        .collect();
                    format!("(tr {})", cells.join(" "))
                })
                .collect();
            format!("(table {})", rows.join(" "))
        }
        "summary" => format!("(summary {})", canon_inline(&refs)),
        t => format!("({} {})", t, blocks()),
    }
}
