//! Reads one request per line and answers it:
//!   parse HEX [K=HEX]...   parses a configuration text
//!   load [K=HEX]...        loads the configuration file
//!   init [K=HEX]...        creates the configuration file
//! The K=HEX are environment variables which are set meanwhile.
use smd_core::config::Config;
use std::ffi::OsString;
use std::io::{BufRead, Write};
use std::os::unix::ffi::OsStringExt;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

fn hex(s: &[u8]) -> String {
    s.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn serve() {
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("request");
        let mut words = line.split(' ').filter(|w| !w.is_empty());
        let op = words.next().unwrap_or("").to_string();
        let text = if op == "parse" { String::from_utf8(unhex(words.next().unwrap_or("").trim_start_matches('-'))).expect("utf-8") } else { String::new() };
        let mut set = vec![];
        for w in words {
            let (k, v) = w.split_once('=').expect("variable");
            let k = OsString::from_vec(unhex(k));
            set.push((k.clone(), std::env::var_os(&k)));
            std::env::set_var(&k, OsString::from_vec(unhex(v)));
        }
        let show = |c: smd_core::error::Result<Config>| match c {
            Ok(c) => format!("ok {}", hex(toml::to_string(&c).expect("settings").as_bytes())),
            Err(e) => format!("err {}", hex(e.to_string().as_bytes())),
        };
        let answer = std::panic::catch_unwind(|| match op.as_str() {
            "parse" => show(Config::parse_from_str(&text)),
            "load" => show(Config::load_config()),
            "init" => match Config::initialize() {
                Ok(()) => "ok ".to_string(),
                Err(e) => format!("err {}", hex(e.to_string().as_bytes())),
            },
            other => panic!("{other}?"),
        })
        .unwrap_or_else(|_| "panic ".to_string());
        for (k, v) in set.into_iter().rev() {
            match v {
                Some(v) => std::env::set_var(&k, v),
                None => std::env::remove_var(&k),
            }
        }
        let mut o = out.lock();
        writeln!(o, "{answer}").expect("answer");
        o.flush().expect("answer");
    }
}
