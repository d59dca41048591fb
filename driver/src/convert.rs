//! Converts pages to PDF at the same time, in threads of this process.
use smd_core::convert::{convert_html, PDFConverter};

pub fn run(files: &[String]) {
    let threads: Vec<_> = files
        .iter()
        .cloned()
        .map(|f| {
            std::thread::spawn(move || {
                let html = std::fs::read_to_string(&f).expect("page");
                match convert_html::<PDFConverter>(&html) {
                    Ok(pdf) => std::fs::write(format!("{f}.result"), pdf),
                    Err(e) => std::fs::write(format!("{f}.error"), e.to_string()),
                }
                .expect("result");
            })
        })
        .collect();
    for t in threads {
        t.join().expect("conversion");
    }
}
