//! Balanced, properly nested output.
use crate::gen;
use crate::html::tree;
use crate::run::{bad, Case, Verdict};

/// Complete and broken blocks which are put next to each other in all ways.
pub const PIECES: &[&str] = &[
    "a", "# h", "## h {#i}", "- l", "* l", "+ l", "1. o", "- [ ] t", "- [x] t", "> q", ">> q", ">", "| a |\n| - |\n| b |", "| a |", "```\nc\n```", "```", "    i", "---", "***", "<details>\n<summary>s</summary>\nd\n</details>", "<details>\n<summary>s</summary>\n- d", "<details>", "</details>",
    "[^1]: f", "a[^1]", "[a](b)", "![a](b)", "*e*", "**e", "`c`", "`c", "~~s~~", "<http://a.b>", "<b>", "\\", "a  ", "  - n", "    - n", "\t", "#", "-", "1.", "|", "> - a", "> # h", "> ```\n> c", "- ```\n  c", "- > q", "- # h", "- a\n\n  b", "- - a", "- 1. a", "> | a |\n> | - |\n> | b |", "- | a |\n  | - |\n  | b |", "[", "<", "&", "",
];
const SEAMS: &[&str] = &["\n", "\n\n", "", " ", "  \n", "\n\n\n", "\n  ", "\n    ", "\n> ", "\n- ", "\\\n"];

pub fn check(c: &mut Case) -> Verdict {
    let n = c.n as usize;
    let p = PIECES.len();
    let doc = if n < p * p * SEAMS.len() {
        format!("{}{}{}", PIECES[n % p], SEAMS[n / p / p], PIECES[n / p % p])
    } else {
        match c.r.below(10) {
            0..=3 => {
                let mut s = String::new();
                for _ in 0..c.r.range(2, 8) {
                    s.push_str(c.r.pick(PIECES));
                    s.push_str(c.r.pick(SEAMS));
                }
                s
            }
            _ => gen::any_doc(&mut c.r, c.corpus),
        }
    };
    let html = c.render(&doc)?;
    match tree(&html) {
        Err(why) => bad(why, &doc, &html),
        Ok(t) => {
            let mut n = 0u64;
            t.visit(&mut |x| n += !x.is_text() as u64);
            c.stats.add("elements_seen", n - 1);
            if n > 2 {
                c.stats.nontrivial(&doc);
            }
            Ok(())
        }
    }
}
