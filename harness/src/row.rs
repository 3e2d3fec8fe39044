use crate::tree;
use crate::util::*;
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::types::Path;
use serde_json::{json, Value};

pub fn run(case: &Value) -> Value {
    let (t, v) = (&case["t"], &case["v"]);
    let fail = json!({"size": -1, "ret": -1, "bytes": [], "guard": true, "read": {"k": "panic"},
        "ret2": -1, "bytes2": [], "guard2": true, "tail": true, "read2": {"k": "panic"},
        "bytes3": [], "read3": {"k": "panic"}, "small": []});
    let mut o = fail;
    let typ = tree::to_type(t);
    let ds = tree::source(t, v);
    let layout = match attempt(|| Layout::new(&typ)) {
        Some(l) => std::sync::Arc::new(l),
        None => return o,
    };
    let m = Marshaller::new(layout);
    let size = match attempt(|| m.encoding_size(&ds)) {
        Some(s) if s < 10_000_000 => s,
        _ => return o,
    };
    o["size"] = json!(size);
    let root = Path::create_empty();

    // a buffer of exactly the announced size
    let fill = int(case, "fill") as u8;
    let mut b = Guarded::new(size, fill);
    o["ret"] = json!(attempt(|| m.encode(&ds, b.get())).map(|x| x as i64).unwrap_or(-1));
    o["guard"] = json!(b.intact());
    o["bytes"] = json!(b.get().to_vec());
    o["read"] = tree::read(&MarshallerDataSource::new(&m, b.get()), t, &root);

    // a larger one with other previous contents
    let extra = int(case, "extra") as usize;
    let mut c = Guarded::new(size + extra, !fill);
    o["ret2"] = json!(attempt(|| m.encode(&ds, c.get())).map(|x| x as i64).unwrap_or(-1));
    o["guard2"] = json!(c.intact());
    o["tail"] = json!(c.get()[size..].iter().all(|x| *x == !fill));
    o["bytes2"] = json!(c.get()[..size].to_vec());
    o["read2"] = tree::read(&MarshallerDataSource::new(&m, c.get()), t, &root);

    // encode again, from the encoded row
    let mut d = Guarded::new(size, fill.wrapping_mul(3));
    let src = b.get().to_vec();
    let mut held = Guarded::new(size, 0);
    held.get().copy_from_slice(&src);
    let from = MarshallerDataSource::new(&m, held.get());
    let _ = attempt(|| m.encode(&from, d.get()));
    o["bytes3"] = json!(d.get().to_vec());
    o["read3"] = tree::read(&MarshallerDataSource::new(&m, d.get()), t, &root);

    // buffers that are too small
    let mut small = Vec::new();
    for cut in case["cuts"].as_array().unwrap() {
        let cut = cut.as_u64().unwrap() as usize;
        if cut == 0 || cut > size {
            continue;
        }
        let mut e = Guarded::new(size - cut, fill);
        let ok = attempt(|| m.encode(&ds, e.get())).is_some();
        small.push(json!({"ok": ok, "guard": e.intact(), "len": size - cut}));
    }
    o["small"] = json!(small);
    o
}
