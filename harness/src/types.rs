use crate::tree;
use crate::util::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::types::parser::TypeParser;
use cathlamet::core::types::{Path, Type};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::BTreeMap;

fn path(v: &Value) -> Path {
    v.as_array().unwrap().iter().fold(Path::create_empty(), |p, i| p.with_component(i.as_u64().unwrap() as usize))
}

fn sub(t: &Type, p: &Path) -> Value {
    match attempt(|| tree::from_type(t.extract(p))) {
        Some(x) => json!({"ok": true, "t": x}),
        None => json!({"ok": false, "t": {"k": "none"}}),
    }
}

fn ord(o: Ordering) -> i32 {
    o as i32
}

pub fn run(case: &Value) -> Value {
    let mut out = Vec::new();
    let typ = if case["t"].is_null() { None } else { Some(tree::to_type(&case["t"])) };
    let parser = TypeParser::new();
    for s in case["steps"].as_array().unwrap() {
        out.push(match s["op"].as_str().unwrap() {
            "parse" => {
                let txt = tree::text(&s["s"]);
                match attempt(|| parser.parse(&txt).map(|t| tree::from_type(&t)).ok()) {
                    None => json!({"res": "panic"}),
                    Some(None) => json!({"res": "err"}),
                    Some(Some(t)) => json!({"res": "ok", "t": t}),
                }
            }
            "resolve" => {
                let t = typ.as_ref().unwrap();
                let txt = tree::text(&s["s"]);
                match attempt(|| Path::resolve_qualified_name(t, &txt)) {
                    None => json!({"res": "panic"}),
                    Some(Err(_)) => json!({"res": "err"}),
                    Some(Ok(p)) => json!({"res": "ok", "p": p.path(), "sub": sub(t, &p)}),
                }
            }
            "extract" => json!({"sub": sub(typ.as_ref().unwrap(), &path(&s["p"]))}),
            "pair" => {
                let (a, b) = (path(&s["a"]), path(&s["b"]));
                json!({"ra": a.path(), "rb": b.path(), "cmp": ord(a.cmp(&b)),
                    "pcmp": a.partial_cmp(&b).map(ord).unwrap_or(9), "eq": a == b, "ne": a != b,
                    "pre": a.is_prefix_of(&b), "ppre": a.is_proper_prefix_of(&b)})
            }
            "sort" => {
                let mut m = BTreeMap::new();
                let mut v = Vec::new();
                for p in s["ps"].as_array().unwrap() {
                    m.insert(path(p), ());
                    v.push(path(p));
                }
                v.sort();
                v.dedup();
                let a: Vec<Vec<usize>> = m.keys().map(|p| p.path().to_vec()).collect();
                let b: Vec<Vec<usize>> = v.iter().map(|p| p.path().to_vec()).collect();
                let out = if a == b { a } else { [a, b].concat() };
                json!({ "out": out })
            }
            x => panic!("{}", x),
        });
    }
    json!({ "obs": out })
}

pub fn container(case: &Value) -> Value {
    let mut out = Vec::new();
    let mut ds = IntermediateDataSource::new();
    for s in case["steps"].as_array().unwrap() {
        let p = if s["p"].is_null() { Path::create_empty() } else { path(&s["p"]) };
        out.push(match s["op"].as_str().unwrap() {
            "set" => {
                let e = &s["e"];
                let ok = attempt(|| match e["kind"].as_str().unwrap() {
                    "string" => ds.add_string(&p, &tree::text(&e["s"])),
                    "case" => ds.add_case_tag(&p, int(e, "i") as usize),
                    k => ds.add_primitive(&p, tree::prim_value(k, &tree::bytes(&e["b"]))),
                });
                json!({"ok": ok.is_some()})
            }
            "clear" => json!({"ok": attempt(|| ds.clear()).is_some()}),
            _ => {
                let r = match s["kind"].as_str().unwrap() {
                    "bytes" => attempt(|| json!({"ok": true, "b": ds.get_bytes(&p)})),
                    "length" => attempt(|| json!({"ok": true, "n": ds.get_length(&p)})),
                    "case" => attempt(|| json!({"ok": true, "n": ds.get_case_tag(&p)})),
                    k => attempt(|| json!({"ok": true, "b": tree::get_prim(&ds, k, &p)})),
                };
                r.unwrap_or(json!({"ok": false}))
            }
        });
    }
    json!({ "obs": out })
}
