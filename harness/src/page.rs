use crate::util::*;
use cathlamet::core::nsm::PageFormat;
use serde_json::{json, Value};

pub fn run(case: &Value) -> Value {
    let size = int(case, "size") as usize;
    let al = int(case, "al") as usize;
    let mut buf = Guarded::new(size, int(case, "fill") as u8);
    let fmt = PageFormat::new(al);
    let mut out = Vec::new();

    for op in case["ops"].as_array().unwrap() {
        let before = buf.get().to_vec();
        let i = op["i"].as_i64().unwrap_or(0) as usize;
        let row = op["row"]["id"].as_str().map(unhex).unwrap_or_default();
        let mut got = String::new();
        let page = buf.get();
        let ok = attempt(|| match op["op"].as_str().unwrap() {
            "init" => fmt.initialize_page(page),
            "append" => fmt.append_row(page, &row),
            "many" => {
                for row in op["rows"].as_array().unwrap() {
                    fmt.append_row(page, &unhex(row["id"].as_str().unwrap()))
                }
            }
            "insert" => fmt.insert_row(page, i, &row),
            "remove" => fmt.remove_row(page, i),
            "get" => got = hex(fmt.get_row(page, i)),
            _ => unreachable!(),
        })
        .is_some();
        let page = buf.get();
        let n = attempt(|| fmt.num_rows(page) as i64).unwrap_or(-1);
        let max = attempt(|| fmt.max_insert_row_size(page) as i64).unwrap_or(-1);
        let rows: Vec<String> = (0..n.clamp(0, size as i64) as usize)
            .map(|k| attempt(|| hex(fmt.get_row(page, k))).unwrap_or("panic".into()))
            .collect();
        out.push(json!({
            "res": if ok { "ok" } else { "panic" },
            "n": n, "max": max, "rows": rows, "got": got,
            "same": before == buf.get(), "guard": buf.intact(),
        }));
    }
    json!({ "obs": out })
}
