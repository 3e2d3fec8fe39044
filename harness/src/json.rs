use crate::tree;
use crate::util::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::types::Path;
use serde_json::{json, Value};
use std::io;

/// A writer that takes the bytes in pieces, is interrupted, or fails
struct Piecewise {
    got: Vec<u8>,
    most: usize,
    interrupt: bool,
    calls: usize,
    fail_at: Option<usize>,
    zero: bool,
    sticky: bool,
    erred: bool,
}

impl Piecewise {
    fn new(w: &Value) -> Piecewise {
        Piecewise {
            got: Vec::new(),
            most: w["most"].as_u64().unwrap_or(1 << 40) as usize,
            interrupt: w["intr"].as_bool().unwrap_or(false),
            calls: 0,
            fail_at: w["fail"].as_u64().map(|x| x as usize),
            zero: w["zero"].as_bool().unwrap_or(false),
            sticky: w["sticky"].as_bool().unwrap_or(false),
            erred: false,
        }
    }
    fn fails(&mut self) -> bool {
        match self.fail_at {
            Some(n) if self.got.len() >= n && (self.sticky || !self.erred) => {
                self.erred = true;
                true
            }
            _ => false,
        }
    }
}

impl io::Write for Piecewise {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.interrupt && self.calls % 2 == 1 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.fails() {
            return if self.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "full")) };
        }
        let mut n = b.len().min(self.most);
        if let Some(f) = self.fail_at {
            if !self.erred {
                n = n.min(f - self.got.len());
            }
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn outcome<T, E>(r: Option<Result<T, E>>) -> &'static str {
    match r {
        None => "panic",
        Some(Ok(_)) => "ok",
        Some(Err(_)) => "err",
    }
}

/// Everything a value puts into a container: path and kind of entry
fn entries(t: &Value, v: &Value, path: Vec<usize>, out: &mut Vec<(Vec<usize>, String)>) {
    let down = |i: usize| {
        let mut p = path.clone();
        p.push(i);
        p
    };
    match t["k"].as_str().unwrap() {
        "unit" => (),
        "string" => out.push((path, "string".into())),
        "prim" => out.push((path, t["p"].as_str().unwrap().into())),
        "enum" => {
            let i = int(v, "i") as usize;
            entries(&t["f"][i]["t"], &v["v"], down(i), out);
            out.push((path, "enum".into()));
        }
        k => {
            for (i, c) in v["c"].as_array().unwrap().iter().enumerate() {
                let ct = if k == "tuple" { &t["c"][i] } else { &t["f"][i]["t"] };
                entries(ct, c, down(i), out);
            }
        }
    }
}

fn answers(ds: &IntermediateDataSource, path: &[usize], kind: &str) -> bool {
    let p = path.iter().fold(Path::create_empty(), |p, i| p.with_component(*i));
    match kind {
        "string" => attempt(|| ds.get_bytes(&p).len()).is_some() || attempt(|| ds.get_length(&p)).is_some(),
        "enum" => attempt(|| ds.get_case_tag(&p)).is_some(),
        k => attempt(|| tree::get_prim(ds, k, &p)).is_some(),
    }
}

pub fn run(case: &Value) -> Value {
    let t = &case["t"];
    let typ = tree::to_type(t);
    let root = Path::create_empty();
    let mut out = Vec::new();
    let dead = |n: usize| Value::from(vec![json!({"res": "panic"}); n]);
    let steps = case["steps"].as_array().unwrap();

    let encoder = match attempt(|| JsonEncoder::new(&typ)) {
        Some(e) => e,
        None => return json!({ "obs": dead(steps.len()) }),
    };
    let mut decoder = match attempt(|| JsonDecoder::new(&typ)) {
        Some(e) => e,
        None => return json!({ "obs": dead(steps.len()) }),
    };
    let mut ds = IntermediateDataSource::new();
    let mut held: Vec<(Vec<usize>, String)> = Vec::new();
    if !case["pre"].is_null() {
        tree::fill(&mut ds, t, &case["pre"], &root);
        entries(t, &case["pre"], vec![], &mut held);
    }
    for s in steps {
        match s["op"].as_str().unwrap() {
            "enc" => {
                let src = tree::source(t, &s["v"]);
                let mut w = Piecewise::new(&s["w"]);
                let r = attempt(|| encoder.encode(&mut w, &src));
                out.push(json!({"res": outcome(r), "bytes": w.got, "erred": w.erred}));
            }
            "round" => {
                let src = tree::source(t, &s["v"]);
                let mut w: Vec<u8> = Vec::new();
                let r = attempt(|| encoder.encode(&mut w, &src));
                let enc = outcome(r);
                let txt = String::from_utf8(w).unwrap_or_default();
                let r = attempt(|| decoder.parse(&txt, &mut ds));
                let res = outcome(r);
                let v2 = if res == "ok" { tree::read(&ds, t, &root) } else { json!({"k": "none"}) };
                out.push(json!({"enc": enc, "res": res, "v2": v2, "text": if res == "ok" { "".into() } else { txt }}));
            }
            _ => {
                let txt = tree::text(&s["s"]);
                let res = outcome(attempt(|| decoder.parse(&txt, &mut ds)));
                let v = if res == "ok" { tree::read(&ds, t, &root) } else { json!({"k": "none"}) };
                let mut stale = Vec::new();
                if res == "ok" {
                    for (p, k) in held.iter() {
                        if answers(&ds, p, k) {
                            stale.push(p.clone());
                        }
                    }
                    let ok = attempt(|| entries(t, &v, vec![], &mut held));
                    let _ = ok;
                    held.sort();
                    held.dedup();
                    held.truncate(40);
                }
                out.push(json!({"res": res, "v": v, "stale": stale}));
            }
        }
    }
    json!({ "obs": out })
}
