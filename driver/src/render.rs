//! Reads texts, each preceded by a line with its length, and answers each with
//! its rendering in the same form.
use std::io::{BufRead, Read, Write};

pub fn serve() {
    let (stdin, stdout) = (std::io::stdin(), std::io::stdout());
    let (mut i, mut o) = (stdin.lock(), stdout.lock());
    loop {
        let mut head = String::new();
        if i.read_line(&mut head).expect("length") == 0 {
            return;
        }
        let mut text = vec![0; head.trim().parse().expect("length")];
        i.read_exact(&mut text).expect("text");
        let text = String::from_utf8(text).expect("UTF-8");
        let html = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || gfm::Parser::render(&text))
            .expect("thread")
            .join()
            .expect("rendering");
        write!(o, "{}\n{html}", html.len()).expect("answer");
        o.flush().expect("answer");
    }
}
