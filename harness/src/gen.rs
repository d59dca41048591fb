//! Generators of documents: well-formed ones together with the element tree
//! they must give, and hostile ones.
use crate::html::Node;
use crate::rng::Rng;

pub const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "lorem", "ipsum", "dolor", "sit", "amet", "x", "y", "Hello", "world", "the", "quick",
    "Straße", "naïve", "日本語", "Ω", "привет", "עברית", "e\u{301}", "🦀", "👩‍👩‍👧", "ﬁ", "\u{1D54F}", "İstanbul", "ß",
];
/// Words with characters that mean something elsewhere, but not in the middle
/// of a line of text.
pub const SPICY: &[&str] = &[
    "a&b", "&amp;", "&lt;b&gt;", "&#65;", "5<6", "7>6", "<b>", "</p>", "<script>", "<br/>", "it's", "\"q\"", "(p)", "{c}", "{#h}", "#tag",
    "#", "a-b", "-", "--", "+1", "+", "1.", "2.5", "e.g.", "50%", "snake_case_x", "a/b", "x=y", "==", "=", "~", "a~b", "C++", "^", "a^b",
    "$x$", "!", "a!", "?", ";", ":", ",", "@me", "[x]", "[ ]", "]", ")", "(", "}", "{", "'", "\"", "&", "<", ">", ">>",
    "\u{a0}n", "\u{200b}z", "¶", "…", "“x”", "&copy;", "&mid", "<!--", "-->", "<?x", "]]>", "a\tb",
];

/// These mean nothing at the start and the end of a line of text, either.
pub const MILD: &[&str] = &[
    "a&b", "&amp;", "&lt;b&gt;", "&#65;", "5<6", "7>6", "it's", "\"q\"", "(p)", "{c}", "a-b", "2.5", "e.g.", "50%", "snake_case_x", "a/b", "x=y", "=", "^", "a^b",
    "$x$", "a!", "?", ";", ":", ",", "@me", "]", ")", "(", "}", "{", "'", "\"", "&", "\u{a0}n", "n\u{a0}", "\u{3000}", "\u{200b}z", "¶", "…", "“x”", "&copy;", "&mid",
    "٣.", "１.", "²", "②", "Ⅳ.", "¼", "•", "–", "—", "·", "‣", "＃", "＊", "＞", "−", "｜", "‐", "\u{ad}", "\u{200b}-", "0", "42", "3.14",
];

pub fn word(r: &mut Rng) -> String {
    if r.pool > 0 {
        let n = r.pool;
        return r.pick(&["Hello", "日本語", "x"][..n]).to_string();
    }
    if r.one_in(400) {
        let n = *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600]);
        let c = *r.pick(&["a", "Z", "é", "語", "🦀"]);
        return c.repeat(n);
    }
    if r.one_in(3) {
        let n = r.range(1, 6);
        (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
    } else {
        r.pick(WORDS).to_string()
    }
}

/// Plain text on one line; starts and ends with a plain word.
pub fn text(r: &mut Rng, max: usize, spicy: bool) -> String {
    let n = r.range(1, max.max(1));
    let mut out = word(r);
    for i in 1..n {
        out.push(' ');
        if spicy && i + 1 < n && r.one_in(3) {
            out.push_str(r.pick(SPICY));
        } else {
            out.push_str(&word(r));
        }
    }
    out
}

/// Text for where it is shown as it is, whatever it starts or ends with.
pub fn literal_text(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max.max(1));
    (0..n).map(|_| if r.one_in(3) { r.pick(SPICY).to_string() } else { word(r) }).collect::<Vec<_>>().join(" ")
}

/// How many: mostly a few, now and then a lot.
fn count(r: &mut Rng, max: usize) -> usize {
    match r.below(60) {
        0 if r.one_in(6) => r.range(50, 300),
        0 => r.range(1, max * 10),
        1 => *r.pick(&[8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33]),
        _ => r.range(1, max),
    }
}

#[derive(Debug, Clone)]
pub enum Inline {
    Text(String),
    Em(char, String),
    Strong(char, String),
    Both(char, String),
    Strike(String),
    Code(String),
    Link(String, String, Option<String>),
    Image(String, String, Option<String>),
    Auto(String),
    Break(bool),
    /// A character with a backslash in front of it.
    Esc(char),
    Soft,
}

#[derive(Debug, Clone)]
pub enum Block {
    Para(Vec<Inline>),
    Heading(usize, Vec<Inline>, Option<String>),
    List(char, Vec<Vec<Block>>),
    Ordered(Vec<String>),
    Tasks(Vec<(bool, String)>),
    Quote(Vec<Block>),
    Rule(String),
    Table(Vec<String>, Vec<String>, Vec<Vec<Vec<Inline>>>),
    Fence(usize, String, String),
    Indented(Vec<String>),
    /// Indented code with the indentation of every line.
    Tabbed(Vec<(&'static str, String)>),
    Details(String, Vec<Block>),
}

// ---------------------------------------------------------------- inlines

pub fn span_text(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(if r.one_in(4) { r.pick(&["a&b", "<b>", "it's", "(p)", "5>4", "\"q\"", "{c}", "x.y", "a-b"]).to_string() } else { word(r) });
    }
    v.join(" ")
}

pub fn code_text(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let mut out = String::new();
    for _ in 0..n {
        if r.one_in(2) {
            out.push_str(r.pick(&[
                "*a*", "**", "_", "&amp;", "<b>", "\\", "\\*", "[x](y)", "![", "](", "~~", "|", "#", "- ", "> ", "{", "\"", "'", "&", "<", ">", "</code>",
                "</pre>", "$", "http://x", "<http://y>", "[^1]", "%20", ";", "()", "fn main() {}", "a\\nb", "é", "🦀", "&lt;", "1. ",
            ]));
        } else {
            out.push_str(&word(r));
        }
        if r.one_in(2) {
            out.push(' ');
        }
    }
    if r.one_in(30) {
        let n = *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16]);
        out = format!("{}x {} {}", out.trim(), "`".repeat(n), word(r));
    }
    let t = out.trim().to_string();
    if t.is_empty() || t.starts_with('`') { "x".into() } else { t }
}

pub const DESTS: &[&str] = &[
    "http://example.com", "https://example.com/a/b?c=d&e=f#g", "/abs/path", "rel/path.html", "#frag", "?q=1&r=2", "../up", "./x#y",
    "ftp://h/x", "mailto:a@b.c", "https://user:pw@host:8080/p", "http://h/a%20b", "http://h/a%2Fb#c%23d", "irc://irc.x/chan", "tel:+123",
    "https://h/~u/!x$y*z", "https://h/a;b=c,d", "x.png", "https://h/@user", "page:talk/with/colon", "/a:b", "HTTPS://EXAMPLE.COM/Q", "a",
    "https://h/a'b", "https://h/a_b_c", "https://h/a|b", "https://h/a^b{c}", "https://h/q=%E2%9C%93", "data:image/png;base64,iVBORw0KGgo=",
    "/a/very/long/path/that/goes/on/and/on/for/more/than/thirty/two:chars", "file.txt?x=[1]", "http://h/&amp;x", "http://h/?a=1&copy=2", "urn:isbn:12",
];

pub fn dest(r: &mut Rng) -> String {
    if r.one_in(2) {
        return r.pick(DESTS).to_string();
    }
    let mut d = String::new();
    d.push_str(r.pick(&["http://", "https://", "/", "", "./", "ftp://", "x-y.z+1://", "#", "?"]));
    let n = r.range(1, 12);
    d.push_str(&word(r).chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>());
    for _ in 0..n {
        d.push(*r.pick(&b"abcXYZ019-._~/?#&=;,+!$'*%@:^{}|\"<>`[]"[..]) as char);
    }
    // a percent sign is only meaningful in front of two hex digits
    let mut s = String::new();
    for c in d.chars() {
        match c {
            '%' => s.push_str(r.pick(&["%4a", "%4A", "%25", "%2525", "%2541", "%20", "%2F", "%3f", "%23", "%26", "%C3%A9", "%0a", "%00", "%7E", "%3A"])),
            c => s.push(c),
        }
    }
    if r.one_in(30) {
        s.push_str(&"/a-b".repeat(r.range(1, 200)));
    }
    s
}

/// Text that can be a link label: no brackets.
fn label(r: &mut Rng) -> String {
    let t = text(r, 4, false);
    if r.one_in(4) { format!("{} {} {}", t, r.pick(&["a&b", "<b>", "it's", "(p)", "\"q\"", "{c}", "5>4"]), word(r)) } else { t }
}

pub fn inline_span(r: &mut Rng, kinds: usize) -> Inline {
    match r.below(kinds) {
        0 => Inline::Em(*r.pick(&['*', '_']), span_text(r)),
        1 => Inline::Strong(*r.pick(&['*', '_']), span_text(r)),
        2 => Inline::Both(*r.pick(&['*', '_']), span_text(r)),
        3 => Inline::Strike(span_text(r)),
        4 => Inline::Code(code_text(r, 4)),
        5 => {
            let t = if r.one_in(3) { Some(label(r)) } else { None };
            Inline::Link(label(r), good_dest(r), t)
        }
        6 => {
            let t = if r.one_in(3) { Some(label(r)) } else { None };
            Inline::Image(label(r), good_dest(r), t)
        }
        _ => Inline::Auto(r.pick(&["http://a.b/c?d=e&f=g", "https://x.y", "mailto:a@b.c", "a@b.example", "irc://x/y", "made-up:z,!"]).to_string()),
    }
}

fn good_dest(r: &mut Rng) -> String {
    r.pick(DESTS).to_string()
}

/// One line of inline content.
pub fn inlines(r: &mut Rng, max: usize, kinds: usize) -> Vec<Inline> {
    let mut v = vec![];
    let n = r.below(max + 1);
    if n == 0 || !r.one_in(5) {
        let mut t = text(r, 3, true);
        if r.one_in(8) {
            t = format!("{} {t}", r.pick(MILD));
        }
        v.push(Inline::Text(t));
    }
    for i in 0..n {
        if !v.is_empty() {
            v.push(Inline::Text(" ".into()));
        }
        v.push(inline_span(r, kinds));
        if i + 1 == n && r.one_in(5) {
            return v;
        }
        v.push(Inline::Text(match r.below(4) {
            0 => format!("{} {}", r.pick(&[",", ".", ";", ")", "!"]), text(r, 2, true)),
            1 => ".".to_string(),
            _ => format!(" {}", text(r, 3, true)),
        }));
    }
    if r.one_in(8) {
        v.push(Inline::Text(format!(" {}", r.pick(MILD))));
    }
    v
}

pub fn ticks(code: &str) -> usize {
    // more than needed are as good
    let mut n = if code.len() % 5 == 0 { 1 + code.len() % 11 } else { 1 };
    while code.split(|c| c != '`').any(|run| run.len() == n) {
        n += 1;
    }
    n
}

pub fn esc_title(t: &str) -> String {
    t.replace('\\', "\\\\").replace('"', "\\\"")
}

pub fn write_inlines(v: &[Inline]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            Inline::Text(t) => s.push_str(t),
            Inline::Em(c, t) => s.push_str(&format!("{c}{t}{c}")),
            Inline::Strong(c, t) => s.push_str(&format!("{c}{c}{t}{c}{c}")),
            Inline::Both(c, t) => s.push_str(&format!("{c}{c}{c}{t}{c}{c}{c}")),
            Inline::Strike(t) => s.push_str(&format!("~~{t}~~")),
            Inline::Code(t) => {
                let n = "`".repeat(ticks(t));
                let pad = if t.starts_with('`') || t.ends_with('`') || (t.starts_with(' ') && t.ends_with(' ') && !t.trim_matches(' ').is_empty()) { " " } else { "" };
                s.push_str(&format!("{n}{pad}{t}{pad}{n}"));
            }
            Inline::Link(l, d, None) => s.push_str(&format!("[{l}]({d})")),
            Inline::Link(l, d, Some(t)) => s.push_str(&format!("[{l}]({d} \"{}\")", esc_title(t))),
            Inline::Image(l, d, None) => s.push_str(&format!("![{l}]({d})")),
            Inline::Image(l, d, Some(t)) => s.push_str(&format!("![{l}]({d} \"{}\")", esc_title(t))),
            Inline::Auto(d) => s.push_str(&format!("<{d}>")),
            Inline::Break(true) => s.push_str("  \n"),
            Inline::Break(false) => s.push_str("\\\n"),
            Inline::Esc(c) => s.push_str(&format!("\\{c}")),
            Inline::Soft => s.push('\n'),
        }
    }
    s
}

pub fn el(tag: &str, children: Vec<Node>) -> Node {
    Node { tag: tag.into(), children, ..Default::default() }
}
pub fn txt(t: &str) -> Node {
    Node { text: t.into(), ..Default::default() }
}

/// What the inlines must look like. Link targets are compared by C04, here
/// they are normalised by `norm_url` on both sides.
pub fn expect_inlines(v: &[Inline]) -> Vec<Node> {
    v.iter()
        .map(|i| match i {
            Inline::Text(t) => txt(t),
            Inline::Em(_, t) => el("em", vec![txt(t)]),
            Inline::Strong(_, t) => el("strong", vec![txt(t)]),
            Inline::Both(_, t) => el("strong", vec![el("em", vec![txt(t)])]),
            Inline::Strike(t) => el("strike", vec![txt(t)]),
            Inline::Code(t) => el("code", vec![txt(t)]),
            Inline::Link(l, d, t) => {
                let mut n = el("a", vec![txt(l)]);
                n.attrs.push(("href".into(), d.clone()));
                if let Some(t) = t {
                    n.attrs.push(("title".into(), t.clone()));
                }
                n
            }
            Inline::Image(l, d, t) => {
                let mut n = el("img", vec![]);
                n.attrs.push(("src".into(), d.clone()));
                n.attrs.push(("alt".into(), l.clone()));
                if let Some(t) = t {
                    n.attrs.push(("title".into(), t.clone()));
                }
                n
            }
            Inline::Auto(d) => {
                let mut n = el("a", vec![txt(d)]);
                let href = if d.contains(':') { d.clone() } else { format!("mailto:{d}") };
                n.attrs.push(("href".into(), href));
                n
            }
            Inline::Break(_) => el("br", vec![]),
            Inline::Esc(c) => txt(&c.to_string()),
            Inline::Soft => txt("\n"),
        })
        .collect()
}

/// Undoes percent-encoding, as servers do.
pub fn percent_decode(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && b.get(i + 1).is_some_and(u8::is_ascii_hexdigit) && b.get(i + 2).is_some_and(u8::is_ascii_hexdigit) {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

/// A URL taken apart at its delimiters before the parts are decoded, so that
/// an encoded delimiter differs from a real one.
pub fn url_parts(u: &str) -> Vec<(char, Vec<u8>)> {
    let mut out = Vec::new();
    let mut rest = u;
    let mut kind = 'p';
    loop {
        let stop: &[char] = match kind {
            'p' => &['?', '#', '/', ':'],
            '?' => &['#', '&', '='],
            _ => &[],
        };
        let at = rest.find(stop).unwrap_or(rest.len());
        out.push((kind, percent_decode(&rest[..at])));
        if at == rest.len() {
            return out;
        }
        let c = rest[at..].chars().next().unwrap();
        out.push((c, vec![]));
        kind = match c {
            '?' if kind == 'p' => '?',
            '#' => '#',
            _ => kind,
        };
        rest = &rest[at + 1..];
    }
}

/// Rewrites link targets to a normal form which is the same for equivalent
/// URLs.
pub fn normalise_urls(n: &mut Node) {
    for (k, v) in n.attrs.iter_mut() {
        if k == "href" || k == "src" {
            *v = format!("{:?}", url_parts(v));
        }
    }
    for c in n.children.iter_mut() {
        normalise_urls(c);
    }
}

// ----------------------------------------------------------------- blocks

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Shape {
    pub depth: usize,
    pub max_blocks: usize,
    pub details: bool,
}

fn kind(b: &Block) -> u8 {
    match b {
        Block::Para(_) => 0,
        Block::Heading(..) => 1,
        Block::List(..) => 2,
        Block::Ordered(_) => 3,
        Block::Tasks(_) => 4,
        Block::Quote(_) => 5,
        Block::Rule(_) => 6,
        Block::Table(..) => 7,
        Block::Fence(..) => 8,
        Block::Indented(_) | Block::Tabbed(_) => 9,
        Block::Details(..) => 10,
    }
}

pub fn compatible(prev: Option<&Block>, next: &Block) -> bool {
    let p = match prev {
        None => return true,
        Some(p) => kind(p),
    };
    let n = kind(next);
    let list = |k: u8| (2..=4).contains(&k);
    !(p == n && (list(n) || n == 5 || n == 9)
        || (p == 2 && n == 4)
        || (p == 4 && n == 2)
        || (list(p) && n == 9))
}

pub fn blocks(r: &mut Rng, shape: Shape) -> Vec<Block> {
    let n = r.range(1, shape.max_blocks);
    let mut v: Vec<Block> = Vec::new();
    while v.len() < n {
        let b = block(r, shape);
        if compatible(v.last(), &b) {
            v.push(b);
        }
    }
    v
}

pub fn para(r: &mut Rng) -> Block {
    let mut v = inlines(r, 2, 8);
    for _ in 0..r.below(3) {
        v.push(match r.below(5) {
            0 => Inline::Break(true),
            1 => Inline::Break(false),
            _ => Inline::Soft,
        });
        v.extend(inlines(r, 2, 8));
    }
    Block::Para(v)
}

/// Inline content that stays on one line, for headings and table cells.
fn line(r: &mut Rng) -> Vec<Inline> {
    inlines(r, 2, 8)
}

fn heading_id(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!("id-{}", r.below(100)),
        1 => r.pick(&["a_b", "A", "1", "0-1", "x.y", "x:y", "a--b", "_", "-", "é", "日本語", "a/b", "section-1.2", "fn", "top", "id", "a#b", "a&b", "a+b", "__x__", "*x*", "a~b"]).to_string(),
        _ => (0..r.range(1, 12)).map(|_| *r.pick(&b"abcxyzABC0189-_.:"[..]) as char).collect(),
    }
}

/// A thematic break.
pub fn rule(r: &mut Rng) -> String {
    if r.one_in(2) {
        return r.pick(&["---", "***", "___", "* * *", "- - -", "-----", "_ _ _", "**  * ** * **"]).to_string();
    }
    let c = *r.pick(&["-", "*", "_"]);
    let n = match r.below(3) {
        0 => 3,
        1 => r.range(3, 12),
        _ => r.range(12, 130),
    };
    let sep = *r.pick(&["", "", " ", "  ", "\t", "mixed"]);
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(if sep == "mixed" { r.pick(&["", "", " ", "   "]) } else { sep });
        }
        s.push_str(c);
    }
    s.push_str(r.pick(&["", "", "", " ", "  ", "\t"]));
    s
}

pub fn block(r: &mut Rng, s: Shape) -> Block {
    let inner = Shape { depth: s.depth.saturating_sub(1), max_blocks: 3, details: s.details };
    loop {
        return match r.below(12) {
            0 | 1 => para(r),
            2 => {
                let id = if r.one_in(4) { Some(heading_id(r)) } else { None };
                Block::Heading(r.range(1, 6), line(r), id)
            }
            3 | 4 => {
                let mark = *r.pick(&['-', '*', '+']);
                let n = if s.depth == 0 { count(r, 4) } else { r.range(1, 4) };
                let items = (0..n)
                    .map(|_| {
                        let mut item = vec![para(r)];
                        if s.depth > 0 && r.one_in(2) {
                            for b in blocks(r, inner) {
                                if compatible(item.last(), &b) && kind(&b) != 1 {
                                    item.push(b);
                                }
                            }
                        }
                        item
                    })
                    .collect();
                Block::List(mark, items)
            }
            5 => Block::Ordered((0..count(r, 12)).map(|_| literal_text(r, 4)).collect()),
            6 => Block::Tasks((0..count(r, 4)).map(|_| (r.one_in(2), literal_text(r, 4))).collect()),
            7 if s.depth > 0 => Block::Quote(blocks(r, inner)),
            8 => Block::Rule(rule(r)),
            9 => {
                let cols = count(r, 4);
                let rows = if cols > 4 { r.range(1, 3) } else { count(r, 4) };
                let align = (0..cols)
                    .map(|_| {
                        let a = *r.pick(&["---", ":--", ":-:", "--:", "-", ":-"]);
                        let more = if r.one_in(8) { r.below(40) } else { 0 };
                        a.replacen('-', &"-".repeat(more + 1), 1)
                    })
                    .collect();
                let no_pipe = |t: String| t.replace('|', "x");
                let head = (0..cols).map(|_| if r.one_in(8) { String::new() } else { no_pipe(literal_text(r, 3)) }).collect();
                let rows = (0..rows)
                    .map(|_| {
                        let blank = r.one_in(12);
                        (0..cols)
                            .map(|_| {
                                if r.one_in(8) || blank {
                                    return vec![];
                                }
                                loop {
                                    let mut l = line(r);
                                    if write_inlines(&l).contains('|') {
                                        continue;
                                    }
                                    if r.one_in(6) {
                                        for _ in 0..r.range(1, 2) {
                                            l.push(Inline::Esc(*r.pick(&['|', '|', '\\', '-', '*', '`', '['])));
                                            l.push(Inline::Text(word(r)));
                                        }
                                    }
                                    return l;
                                }
                            })
                            .collect()
                    })
                    .collect();
                Block::Table(align, head, rows)
            }
            10 => {
                if s.depth > 0 && s.details && r.one_in(3) {
                    Block::Details(literal_text(r, 4), blocks(r, Shape { details: true, ..inner }))
                } else {
                    let lang = r.pick(&["", "rust", "c++", "sh", "text"]).to_string();
                    Block::Fence(r.range(3, 5), lang, code_block(r, true))
                }
            }
            11 => Block::Indented((0..r.range(1, 4)).map(|_| code_line(r)).collect()),
            _ => continue,
        };
    }
}

fn code_line(r: &mut Rng) -> String {
    let indent = " ".repeat(r.below(4));
    let mark = if r.one_in(6) { r.pick(&["- ", "* ", "+ ", "> ", "# ", "1. ", "- [ ] ", "| a | ", "[x]: ", "## "]) } else { "" };
    format!("{}{}{}", indent, mark, code_text(r, 4))
}

pub fn code_block(r: &mut Rng, blank: bool) -> String {
    let n = r.range(0, 5);
    let mut s = String::new();
    for _ in 0..n {
        if blank && r.one_in(4) {
            s.push('\n');
        } else {
            let l = if r.one_in(6) { r.pick(&["# x", "- y", "> z", "```", "| a |", "1. b", "<details>", "    deep", "a\ttab"]).to_string() } else { code_line(r) };
            s.push_str(&l);
            s.push('\n');
        }
    }
    s
}

/// Longest run of ticks a line of the code consists of.
fn fence_len(min: usize, code: &str) -> usize {
    let longest = code
        .lines()
        .map(|l| l.trim_ascii())
        .filter(|l| !l.is_empty() && l.chars().all(|c| c == '`'))
        .map(|l| l.len())
        .max()
        .unwrap_or(0);
    min.max(longest + 1)
}

/// Whether a line in it that starts with `>` may be one of something else
/// than a quote directly inside of it.
fn only_quotes(v: &[Block]) -> bool {
    v.iter().all(|b| match b {
        Block::Fence(..) | Block::Indented(_) | Block::Tabbed(_) | Block::Details(..) => false,
        Block::Quote(v) => only_quotes(v),
        Block::List(_, items) => items.iter().all(|i| only_quotes(i)),
        _ => true,
    })
}

pub fn write_block(r: &mut Rng, b: &Block) -> Vec<String> {
    let lines = |s: String| -> Vec<String> { s.split('\n').map(|l| l.to_string()).collect() };
    match b {
        Block::Para(v) => lines(write_inlines(v)),
        Block::Heading(n, v, id) => {
            let mut s = format!("{}{}{}", "#".repeat(*n), r.pick(&[" ", " ", " ", "  ", "\t"]), write_inlines(v));
            if r.one_in(4) && id.is_none() {
                let n = if r.one_in(8) { r.range(8, 40) } else { r.range(1, 7) };
                s.push_str(&format!(" {}", "#".repeat(n)));
            }
            if let Some(id) = id {
                s.push_str(&format!(" {{#{id}}}"));
            }
            vec![s]
        }
        Block::List(mark, items) => {
            let mut out: Vec<String> = Vec::new();
            let loose = r.one_in(3);
            for (i, item) in items.iter().enumerate() {
                if i > 0 && loose {
                    out.push(String::new());
                }
                let content = write_blocks(r, item, true);
                let pad = r.range(1, 4);
                for (j, l) in content.into_iter().enumerate() {
                    if j == 0 {
                        out.push(format!("{}{}{}", mark, " ".repeat(pad), l));
                    } else if l.is_empty() {
                        out.push(l);
                    } else {
                        out.push(format!("{}{}", " ".repeat(pad + 1), l));
                    }
                }
            }
            out
        }
        Block::Ordered(items) => {
            let start = *r.pick(&[0, 1, 1, 1, 2, 7, 9, 10, 42, 98, 998, 9999, 999_999, 123_456_789]);
            // the numbers themselves do not matter
            let step = if r.one_in(4) { 0 } else { 1 };
            let width = if r.one_in(8) { r.range(1, 9) } else { 0 };
            items.iter().enumerate().map(|(i, t)| format!("{:0width$}. {}", start + i * step, t)).collect()
        }
        Block::Tasks(items) => items
            .iter()
            .map(|(c, t)| format!("- [{}] {}", if *c { *r.pick(&["x", "X"]) } else { " " }, t))
            .collect(),
        Block::Quote(v) => {
            // the columns of a tab are too few for code
            let plain = v.iter().all(|b| matches!(b, Block::Para(_) | Block::Heading(..) | Block::Rule(_) | Block::Ordered(_) | Block::Tasks(_)));
            if plain && r.one_in(8) {
                return write_blocks(r, v, false).into_iter().map(|l| if l.is_empty() { ">".to_string() } else { format!(">\t{l}") }).collect();
            }
            let wide = only_quotes(v) && r.one_in(2);
            write_blocks(r, v, false)
                .into_iter()
                .map(|l| match (l.is_empty(), wide) {
                    (true, _) => ">".to_string(),
                    (false, true) if l.starts_with('>') => format!(">{l}"),
                    _ => format!("> {l}"),
                })
                .collect()
        }
        Block::Rule(s) => vec![s.to_string()],
        Block::Table(align, head, rows) => {
            let sp = *r.pick(&[" ", "", "  "]);
            let closed = r.below(4) > 0;
            let row = |cells: Vec<String>| {
                let last_empty = cells.last().is_some_and(|c| c.trim().is_empty());
                let mut s = String::new();
                let n = cells.len();
                for (i, c) in cells.into_iter().enumerate() {
                    s.push_str(&format!("|{sp}{c}{sp}"));
                    if i + 1 == n && (closed || last_empty) {
                        s.push('|');
                    }
                }
                s
            };
            let mut out = vec![row(head.clone()), row(align.iter().map(|a| a.to_string()).collect())];
            for r in rows {
                out.push(row(r.iter().map(|c| write_inlines(c)).collect()));
            }
            if r.one_in(8) {
                for l in &mut out[1..] {
                    l.insert_str(0, &"   "[r.below(4)..]);
                }
            }
            out
        }
        Block::Fence(n, lang, code) => {
            let f = "`".repeat(fence_len(*n, code));
            lines(format!("{f}{lang}\n{code}{f}"))
        }
        Block::Indented(v) => v.iter().map(|l| format!("    {l}")).collect(),
        Block::Tabbed(v) => v.iter().map(|(i, l)| format!("{i}{l}")).collect(),
        Block::Details(s, v) => {
            let mut out = vec!["<details>".to_string(), format!("<summary>{s}</summary>")];
            if r.one_in(2) {
                out.push(String::new());
            }
            out.extend(write_blocks(r, v, false));
            if r.one_in(2) {
                out.push(String::new());
            }
            out.push("</details>".into());
            out
        }
    }
}

/// Blocks one after the other, separated by blank lines where needed.
/// A line which is empty or nothing but white space.
pub fn blank(r: &mut Rng) -> String {
    match r.below(24) {
        0 => " ".repeat(r.range(1, 12)),
        1 => " ".repeat(r.range(1, 3)),
        2 => r.pick(&["\t", " \t", "\t\t", "\t ", "          \t"]).to_string(),
        _ => String::new(),
    }
}

pub fn write_blocks(r: &mut Rng, v: &[Block], in_item: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for (i, b) in v.iter().enumerate() {
        if i > 0 {
            let (p, n) = (kind(&v[i - 1]), kind(b));
            // these need no blank line in between
            let tight = match (p, n) {
                (1 | 6 | 8 | 9 | 10, _) => true,
                (0, 6) => matches!(b, Block::Rule(s) if !s.starts_with('-')),
                (0, 1..=5 | 8 | 10) => true,
                (2..=5 | 7, 1 | 6 | 8 | 10) => true,
                (2..=4, 5) | (5 | 7, 2..=4) | (7, 5) | (2, 3) | (4, 3) | (3, 2 | 4) => true,
                _ => false,
            };
            if !(tight && r.one_in(if in_item { 2 } else { 3 })) {
                out.push(blank(r));
                while r.one_in(6) {
                    out.push(blank(r));
                }
            }
        }
        out.extend(write_block(r, b));
    }
    out
}

pub fn expect_block(b: &Block) -> Node {
    match b {
        Block::Para(v) => el("p", expect_inlines(v)),
        Block::Heading(n, v, id) => {
            let mut e = el(&format!("h{n}"), expect_inlines(v));
            if let Some(id) = id {
                e.attrs.push(("id".into(), id.clone()));
            }
            e
        }
        Block::List(_, items) => el("ul", items.iter().map(|i| el("li", i.iter().map(expect_block).collect())).collect()),
        Block::Ordered(v) => el("ol", v.iter().map(|t| el("li", vec![txt(t)])).collect()),
        Block::Tasks(v) => {
            let mut ul = el(
                "ul",
                v.iter()
                    .map(|(c, t)| {
                        let mut b = el("input", vec![]);
                        if *c {
                            b.attrs.push(("checked".into(), "".into()));
                        }
                        el("li", vec![b, txt(t)])
                    })
                    .collect(),
            );
            ul.attrs.push(("class".into(), "contains-task-list".into()));
            ul
        }
        Block::Quote(v) => el("blockquote", v.iter().map(expect_block).collect()),
        Block::Rule(_) => el("hr", vec![]),
        Block::Table(align, head, rows) => {
            let side = |a: &str| match (a.starts_with(':'), a.ends_with(':')) {
                (true, true) => "center",
                (false, true) => "right",
                _ => "left",
            };
            let cell = |tag: &str, i: usize, kids: Vec<Node>| {
                let mut c = el(tag, kids);
                c.attrs.push(("style".into(), format!("text-align: {}", side(&align[i]))));
                c
            };
            let mut out = vec![el("tr", head.iter().enumerate().map(|(i, t)| cell("th", i, vec![txt(t)])).collect())];
            for r in rows {
                out.push(el("tr", r.iter().enumerate().map(|(i, c)| cell("td", i, expect_inlines(c))).collect()));
            }
            el("table", out)
        }
        Block::Fence(_, lang, code) => {
            let mut c = el("code", vec![txt(code)]);
            // only the first word names the language
            if let Some(l) = lang.split_ascii_whitespace().next() {
                c.attrs.push(("class".into(), format!("language-{l}")));
            }
            el("pre", vec![c])
        }
        Block::Indented(v) => el("pre", vec![el("code", vec![txt(&(v.join("\n") + "\n"))])]),
        Block::Tabbed(v) => el("pre", vec![el("code", vec![txt(&v.iter().map(|l| l.1.clone() + "\n").collect::<String>())])]),
        Block::Details(s, v) => {
            let mut kids = vec![el("summary", vec![txt(s)])];
            kids.extend(v.iter().map(expect_block));
            el("details", kids)
        }
    }
}

// ---------------------------------------------------------------- hostile

pub const FRAGMENTS: &[&str] = &[
    "# ", "## ", "###### ", "####### ", "#", "- ", "* ", "+ ", "-", "+", "1. ", "12. ", "1.", "1) ", "> ", ">> ", ">", ">>> ", "```", "````", "```rust\n", "\n```\n", "`", "``",
    "*", "**", "***", "****", "_", "__", "___", "~", "~~", "~~~", "[", "]", "(", ")", "](", "![", "!", "[^", "]:", "[^1]", "[^a]: ", "<", ">", "<>", "<details>",
    "<details>\n<summary>", "<summary>", "</summary>", "</summary>\n", "</details>", "</details>\n", "\n<details>\n<summary>s</summary>\n", "|", "||", "\n| - | - |\n", "\n|---|\n", "| a | b |\n| :-: | --: |\n| c | d |\n",
    "\\", "\\\\", "\\\n", "&", "&amp;", "&lt;", "&#60;", "&#x3c;", "&quot;", "{", "}", "{#", " {#id}", "---", "\n---\n", "***\n", "___\n", "* * *", "=", "\n===\n", "    ", "\t", "\t\t", "  ", " ", "\n", "\n\n", "\n\n\n", "  \n", "\r\n",
    "\r", "\n    ", "\n\t", "\n  ", "\n - ", "\n   - ", "- [ ] ", "- [x] ", "- [X] ", "- [", "- []", "\n> ", "\n>\n> ", "\n1. ", "\n- ", "\n* ", "\n# ",
    "<script>", "</script>", "<img src=x onerror=alert(1)>", "<a href=\"", "\"", "'", "\" onmouseover=\"x", "' onx='", "\"><b>", "-->", "<!--", "<![CDATA[", "<?", "<!DOCTYPE", "</p>", "<p>", "</li>", "</a>", "</code></pre>",
    "javascript:", "JaVaScRiPt:alert(1)", "data:text/html,", "data:image/png,", "vbscript:", "http://", "https://x.y/z", "<http://a.b>", "<a@b.c>", "mailto:", ":", "@", "/", "//", "?", "%", "%20", "%zz", "^", "$", ";", ",", ".",
    "😀", "é", "e\u{301}", "\u{202e}", "\0", "\u{1}", "\u{feff}", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}", "\u{200d}", "ﷺ", "\u{10ffff}", "日本", "\u{7f}", "\u{1b}", "\u{c}", "\u{b}",
    "[a](b)", "![a](b)", "[a](b \"c\")", "[a]( b )", "[a](b \"c", "[a](<b>)", "[a\n](b)", "[[a](b)](c)", "**a**", "*a*", "`a`", "``a`b``", "~~a~~", "***a***", "__a__",
];

/// Random text from fragments of syntax; `word` supplies the words.
pub fn soup(r: &mut Rng, max: usize, word: &mut dyn FnMut(&mut Rng) -> String) -> String {
    let n = r.range(1, max);
    // documents which use few different fragments nest deeper
    let few: Vec<&str> = (0..r.range(1, 12)).map(|_| *r.pick(FRAGMENTS)).collect();
    let focused = r.one_in(2);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(5) {
            0 | 1 => s.push_str(&word(r)),
            _ if focused => s.push_str(r.pick(&few)),
            _ => s.push_str(r.pick(FRAGMENTS)),
        }
        if r.one_in(4) {
            s.push(*r.pick(&[' ', ' ', '\n']));
        }
    }
    s
}

/// Cuts, repeats, moves and inserts pieces of a document.
pub fn mutate(r: &mut Rng, doc: &str) -> String {
    let mut c: Vec<char> = doc.chars().collect();
    for _ in 0..r.range(1, 4) {
        if c.is_empty() {
            return FRAGMENTS[r.below(FRAGMENTS.len())].to_string();
        }
        let a = r.below(c.len());
        let n = r.range(1, 12).min(c.len() - a);
        match r.below(6) {
            0 => {
                c.drain(a..a + n);
            }
            1 => {
                let piece: Vec<char> = c[a..a + n].to_vec();
                let b = r.below(c.len() + 1);
                c.splice(b..b, piece);
            }
            2 | 3 => {
                let f: Vec<char> = FRAGMENTS[r.below(FRAGMENTS.len())].chars().collect();
                c.splice(a..a, f);
            }
            4 => c.truncate(a),
            _ => {
                let b = r.below(c.len());
                c.swap(a, b);
            }
        }
    }
    c.into_iter().collect()
}

pub fn structured(r: &mut Rng, depth: usize, max_blocks: usize) -> (Vec<Block>, String) {
    let mut v = blocks(r, Shape { depth, max_blocks, details: true });
    for b in v.iter_mut() {
        if let Block::Indented(lines) = b {
            if r.one_in(3) {
                *b = Block::Tabbed(lines.iter().map(|l| (*r.pick(&["\t", "\t", "    ", " \t", "   \t"]), l.clone())).collect());
            }
        }
    }
    let doc = write_blocks(r, &v, false).join("\n");
    (v, doc)
}

/// Any kind of document, for the properties that hold for all of them.
/// A run of characters of some length, all lengths being likely that a
/// program could have a limit at.
pub fn filler(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.range(1, 20),
        1 => r.range(20, 300),
        _ => {
            let p = 1usize << r.range(3, 10);
            p + r.below(5) - 2
        }
    };
    let mut s = String::new();
    // what follows is not aligned to anything
    for _ in 0..r.below(4) {
        s.push(*r.pick(&['a', 'é', '語', '🦀', '-', '7']));
    }
    let many = r.one_in(3);
    let sets: [&[&str]; 12] = [&["a"], &["é"], &["語"], &["🦀"], &["a", "b", "7"], &["0", "9", "1"], &["é", "語", "🦀", "a"], &["%", "4", "a"], &["\\", "a"], &["-", "_", "."], &["&", ";", "#"], &["e\u{301}"]];
    let set = *r.pick(&sets);
    let c = *r.pick(set);
    while s.len() < n {
        s.push_str(if many { *r.pick(set) } else { c });
    }
    s
}

/// A construct with such a run in each of its parts.
pub fn filled(r: &mut Rng) -> String {
    let mut d = r.pick(crate::props::HOLES).to_string();
    while let Some(i) = d.find('@') {
        let f = filler(r);
        d.replace_range(i..i + 1, &f);
    }
    d
}

/// Lines nested by markers in front of them, each as deep as it likes.
pub fn ladder(r: &mut Rng) -> String {
    let deep = *r.pick(&[2, 4, 8, 14]);
    let few: Vec<&str> = (0..r.range(1, 4)).map(|_| *r.pick(&[">", "> ", ">", "> ", "- ", "* ", "+ ", "1. ", "  ", "\t", "    ", "- [ ] ", "# "])).collect();
    let mut s = String::new();
    for _ in 0..r.range(2, 12) {
        let one = *r.pick(&few);
        for _ in 0..r.below(deep + 1) {
            s.push_str(if r.one_in(4) { r.pick(&few) } else { one });
        }
        match r.below(8) {
            0 => {}
            1 => s.push_str(r.pick(&["---", "```", "| a | b |", "| - | - |", "<details>", "<summary>s</summary>", "</details>", "[^1]: x", "[^1]", "***", "# h", "1. x", "- [x] t", "    c"])),
            2 => s.push_str(&format!(" {}", word(r))),
            _ => s.push_str(&text(r, 2, true)),
        }
        s.push_str(if r.one_in(6) { "\n\n" } else { "\n" });
    }
    s
}

pub fn any_doc(r: &mut Rng, corpus: &[String]) -> String {
    let mut w = |r: &mut Rng| word(r);
    if r.one_in(16) {
        return filled(r);
    }
    if r.one_in(10) {
        return ladder(r);
    }
    match r.below(10) {
        0..=3 => {
            let n = *r.pick(&[3, 8, 20, 60, 200]);
            soup(r, n, &mut w)
        }
        4 => structured(r, 3, 6).1,
        5 | 6 => {
            let d = structured(r, 2, 4).1;
            mutate(r, &d)
        }
        7 => {
            let d = r.pick(corpus).clone();
            mutate(r, &d)
        }
        8 => {
            let a = r.pick(corpus).clone();
            let b = r.pick(corpus).clone();
            format!("{a}{}{b}", r.pick(&["", "\n", "\n\n", " ", "  \n"]))
        }
        _ => {
            // one construct repeated
            let k = r.range(1, 3);
            let unit: String = (0..k).map(|_| if r.one_in(4) { word(r) } else { r.pick(FRAGMENTS).to_string() }).collect();
            unit.repeat(r.range(2, 60))
        }
    }
}

pub fn kind_name(b: &Block) -> &'static str {
    ["paragraph", "heading", "list", "ordered_list", "task_list", "quote", "rule", "table", "fence", "indented_code", "details"][kind(b) as usize]
}
