//! Conformance harness: reads one case per line (JSON) on stdin, drives the real code of /repo
//! with it and writes one line with the observations. It judges nothing: the specifications do.
use std::io::{BufRead, Write};

mod json;
mod page;
mod pool;
mod row;
mod sql;
mod tree;
mod types;
mod util;
mod volume;

fn main() {
    let area = std::env::args().nth(1).expect("area");
    std::panic::set_hook(Box::new(|_| {}));
    let run: fn(&serde_json::Value) -> serde_json::Value = match area.as_str() {
        "page" => page::run,
        "row" => row::run,
        "json" => json::run,
        "types" => types::run,
        "pool" => pool::run,
        "geometry" => volume::geometry,
        "volume" => volume::image,
        "sql" => sql::run,
        "catalog" => sql::catalog,
        "container" => types::container,
        _ => panic!("unknown area"),
    };
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let case: serde_json::Value = parse(&line);
        let obs = run(&case);
        let mut out = stdout.lock();
        serde_json::to_writer(&mut out, &obs).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}

fn parse(line: &str) -> serde_json::Value {
    use serde::de::Deserialize;
    let mut d = serde_json::Deserializer::from_str(line);
    d.disable_recursion_limit();
    serde_json::Value::deserialize(&mut d).expect("case")
}
