//! Runtime monitors for the properties of the renderer.
//!
//! `vh run ID`  supervises a worker process that renders generated documents
//!              and lets the property's monitor watch every rendering;
//! `vh work ID` is that worker;
//! `vh replay ID CASE` shows and judges one case.
mod ctx;
mod entities;
mod gen;
mod html;
mod mem;
mod props;
mod rng;
mod run;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
    };
    let num = |name: &str, default: u64| opt(name).and_then(|v| v.parse().ok()).unwrap_or(default);
    let id = args.get(1).cloned().unwrap_or_default();
    let o = run::Opts {
        id,
        seed: num("--seed", 1),
        thorough: opt("--tier").as_deref() == Some("thorough"),
        cases: opt("--cases").and_then(|v| v.parse().ok()),
        first: num("--first", 0),
        threads: num("--threads", 8) as usize,
        out: opt("--out").unwrap_or_else(|| "/dev/stdout".into()),
        state: opt("--state"),
        corpus: opt("--corpus").unwrap_or_else(|| concat!(env!("CARGO_MANIFEST_DIR"), "/corpus.txt").into()),
    };
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run::supervise(&o),
        Some("work") => run::work(&o),
        Some("replay") => run::replay(&o, args.get(2).and_then(|v| v.parse().ok()).unwrap_or(0)),
        Some("digest") => {
            // vh digest C13 --seed N --cases N [--reverse yes] [--log yes]
            let corpus = run::load_corpus(&o.corpus);
            let (seed, n) = (o.seed, o.cases.unwrap_or(1000));
            let yes = |name| opt(name).is_some();
            let (rev, log) = (yes("--reverse"), yes("--log"));
            let v = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || props::c13::digests(seed, n, rev, log, &corpus))
                .unwrap()
                .join()
                .unwrap();
            for (i, d) in v {
                println!("{i} {d:016x}");
            }
            0
        }
        Some("interpret") => run::interpret(&o),
        Some("document") => {
            let corpus = run::load_corpus(&o.corpus);
            print!("{}", props::c13::numbered(o.seed, args[2].parse().unwrap_or(0), &corpus));
            0
        }
        Some("render") => {
            use std::io::Read;
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).expect("UTF-8 on stdin");
            print!("{}", gfm::Parser::render(&s));
            0
        }
        _ => {
            eprintln!("usage: vh run|work|replay ID [CASE] [--seed N] [--tier T] [--cases N] [--out FILE]");
            2
        }
    };
    std::process::exit(code);
}
