use crate::run::{Case, Verdict};

mod c01;
mod c02;
pub mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
pub mod c09;
mod c10;
mod c11;
mod c12;
pub mod c13;
mod c22;
mod c23;

pub use c02::HOLES;

#[derive(Clone)]
pub struct Prop {
    pub id: &'static str,
    pub check: fn(&mut Case) -> Verdict,
    /// Number of cases of a quick and a thorough run.
    pub quick: u64,
    pub thorough: u64,
    pub stack: usize,
    pub rule: &'static str,
}

const BIG: usize = 256 << 20;

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            check: c01::check,
            quick: 1_000_000,
            thorough: 15_000_000,
            // what a thread of a Rust program gets by default
            stack: 2 << 20,
            rule: "documents: random Unicode and bytes, syntax soup, well-formed documents and mutations of them and of the repository's examples, constructs nested and repeated up to 64 KiB, documents of up to a megabyte; each rendered on a 2 MiB stack under an allocation monitor. Non-trivial: a distinct document for which a string came back.",
        },
        Prop {
            id: "C02",
            check: c02::check,
            quick: 4_000_000,
            thorough: 60_000_000,
            stack: BIG,
            rule: "hostile HTML placed in every position of every construct, and arbitrary documents; output tokenised as a browser does. Non-trivial: a distinct document containing one of < > \" ' & whose output has at least one element.",
        },
        Prop {
            id: "C03",
            check: c03::check,
            quick: 4_000_000,
            thorough: 60_000_000,
            stack: BIG,
            rule: "spellings of javascript: and data: URLs (case, controls, entities, encodings) in links, images and autolinks, and arbitrary documents; every href and src resolved as a browser does. Non-trivial: a distinct document with a dangerous scheme spelled in it or with at least one target in its output.",
        },
        Prop {
            id: "C04",
            check: c04::check,
            quick: 3_000_000,
            thorough: 45_000_000,
            stack: BIG,
            rule: "lines of words, links, images and autolinks with random destinations, labels and titles in every inline context. Non-trivial: a distinct line with at least one link, image or autolink.",
        },
        Prop {
            id: "C05",
            check: c05::check,
            quick: 3_000_000,
            thorough: 45_000_000,
            stack: BIG,
            rule: "arbitrary documents; element stack of the output followed token by token. Non-trivial: a distinct document whose output has at least two elements.",
        },
        Prop {
            id: "C06",
            check: c06::check,
            quick: 1_600_000,
            thorough: 45_000_000,
            stack: BIG,
            rule: "arbitrary documents whose words are uniquely numbered; the sequence of words in the output is compared with the one in the source. Non-trivial: a distinct document of at least two words.",
        },
        Prop {
            id: "C07",
            check: c07::check,
            quick: 5_000_000,
            thorough: 75_000_000,
            stack: BIG,
            rule: "texts over the full Unicode range, special characters and backslash escapes in each text context; decoded text compared. Non-trivial: a distinct text with at least one non-alphanumeric, non-space character.",
        },
        Prop {
            id: "C08",
            check: c08::check,
            quick: 1_500_000,
            thorough: 22_500_000,
            stack: BIG,
            rule: "fenced, indented and inline code with arbitrary content between arbitrary neighbours. Non-trivial: a distinct document with non-empty code.",
        },
        Prop {
            id: "C09",
            check: c09::check,
            quick: 800_000,
            thorough: 12_000_000,
            stack: BIG,
            rule: "random trees of well-formed blocks, written as markdown in varying styles; element tree of the output compared with the generated tree. Non-trivial: a distinct document of at least two blocks.",
        },
        Prop {
            id: "C10",
            check: c10::check,
            quick: 4_000_000,
            thorough: 60_000_000,
            stack: BIG,
            rule: "sequences of words and delimited spans in paragraphs, headings and table cells; inline elements compared. Non-trivial: a distinct line with at least one span.",
        },
        Prop {
            id: "C11",
            check: c11::check,
            quick: 600_000,
            thorough: 9_000_000,
            stack: BIG,
            rule: "pairs and triples of documents rendered alone and joined by a blank line; element trees compared. Non-trivial: a distinct joined document.",
        },
        Prop {
            id: "C12",
            check: c12::check,
            quick: 1_500_000,
            thorough: 22_500_000,
            stack: BIG,
            rule: "documents with footnote definitions and references at random positions and in random order. Non-trivial: a distinct document with at least one definition and one reference.",
        },
        Prop {
            id: "C22",
            check: c22::check,
            quick: 2_000_000,
            thorough: 30_000_000,
            stack: BIG,
            rule: "paragraphs of lines with every kind of line end, in every container and in front of every kind of block. Non-trivial: a distinct document with a line end inside of a paragraph or a backslash at the end of one.",
        },
        Prop {
            id: "C23",
            check: c23::check,
            quick: 1_000_000,
            thorough: 15_000_000,
            stack: BIG,
            rule: "documents of every kind, rendered alone and then in up to three containers inside each other, or with other line endings or blank lines around them; element trees compared (bytes for line endings). Non-trivial: a distinct document so changed.",
        },
        Prop {
            id: "C13",
            check: c13::check,
            quick: 6_000,
            thorough: 200_000,
            stack: BIG,
            rule: "histories: batches of documents rendered alone, again in other orders, in several threads at once and with logging on; all outputs of a document compared byte for byte. Non-trivial: a distinct batch in which at least two threads rendered the same document at overlapping times.",
        },
    ]
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
