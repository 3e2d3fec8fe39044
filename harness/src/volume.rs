//! Storage locations, volume geometry, and the image of a new volume.
use cathlamet::storage::{verif, VolumeParameters};
use serde_json::{json, Value};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

fn num(value: &Value) -> u128 {
    value.as_array().unwrap().iter().fold(0u128, |n, b| n << 8 | b.as_u64().unwrap() as u128)
}

fn bytes(value: u128, width: usize) -> Vec<u8> {
    value.to_be_bytes()[16 - width..].to_vec()
}

fn place(value: &Value) -> verif::Place {
    verif::Place::new(value["v"].as_u64().unwrap() as u8, num(&value["o"]) as u64)
}

fn call(step: &Value) -> Value {
    match step["op"].as_str().unwrap() {
        "place" => {
            let p = place(&step["a"]);
            json!({"res": "ok", "v": p.volume(), "o": bytes(p.offset() as u128, 8)})
        }
        "order" => {
            let (a, b) = (place(&step["a"]), place(&step["b"]));
            json!({"res": "ok", "cmp": a.cmp(&b) as i32, "pcmp": a.partial_cmp(&b).map_or(9, |o| o as i32), "eq": a == b, "lt": a < b})
        }
        "ids" => {
            let pool = verif::Pool::new(64, 1).unwrap();
            let mut volumes = verif::Volumes::new(&pool);
            let ids: Vec<i32> = (0..step["n"].as_u64().unwrap())
                .map(|_| match catch_unwind(AssertUnwindSafe(|| volumes.next_volume())) {
                    Ok(Ok(id)) => id as i32,
                    Ok(Err(_)) => -1,
                    Err(_) => -2,
                })
                .collect();
            json!({"res": "ok", "ids": ids})
        }
        "params" => {
            let p = VolumeParameters::new_with_defaults(num(&step["x"]) as u64);
            json!({"res": "ok", "size": bytes(p.volume_size as u128, 8), "block": p.log_block_size, "header": p.log_file_header_size})
        }
        "align" => {
            let bits = step["bits"].as_u64().unwrap() as u32;
            let r = verif::align(bits, num(&step["x"]), 1u128 << step["a"].as_u64().unwrap());
            json!({"res": "ok", "y": bytes(r, 16)})
        }
        "blocks" => {
            let r = verif::file_blocks(num(&step["x"]) as u64, num(&step["b"]) as u64);
            json!({"res": "ok", "y": bytes(r as u128, 8)})
        }
        _ => panic!("op"),
    }
}

/// a case: a sequence of calls
pub fn geometry(case: &Value) -> Value {
    let obs: Vec<Value> = case["steps"]
        .as_array()
        .unwrap()
        .iter()
        .map(|s| catch_unwind(AssertUnwindSafe(|| call(s))).unwrap_or_else(|_| json!({"res": "panic"})))
        .collect();
    json!({"obs": obs})
}

fn zeros(_volume: u8, _offset: u64, buffer: &mut [u8], end: bool) {
    if !end {
        buffer.fill(0);
    }
}

fn never() -> bool {
    false
}

struct Unpark(std::thread::Thread);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

fn block_on<F: Future>(future: F) -> F::Output {
    let mut future = Box::pin(future);
    let waker = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut context = Context::from_waker(&waker);
    loop {
        match future.as_mut().poll(&mut context) {
            Poll::Ready(result) => return result,
            Poll::Pending => std::thread::park(),
        }
    }
}

const SECTOR: usize = 512;

/// runs of equal bytes: value, length
fn runs(bytes: &[u8]) -> Vec<(u8, usize)> {
    let mut result: Vec<(u8, usize)> = vec![];
    for &b in bytes {
        match result.last_mut() {
            Some(last) if last.0 == b => last.1 += 1,
            _ => result.push((b, 1)),
        }
    }
    result
}

/// a block: most sectors consist of the byte u; the others are listed with their number and runs
fn block(bytes: &[u8]) -> Value {
    let sectors: Vec<_> = bytes.chunks(SECTOR).map(runs).collect();
    let mut count = [0usize; 256];
    for s in &sectors {
        if s.len() == 1 {
            count[s[0].0 as usize] += 1;
        }
    }
    let u = (0..256).rev().max_by_key(|&v| count[v]).unwrap() as u8;
    let other: Vec<Value> = sectors
        .iter()
        .enumerate()
        .filter(|(_, s)| s.len() != 1 || s[0].0 != u)
        .map(|(i, s)| json!({"at": i, "r": s}))
        .collect();
    json!({"n": bytes.len(), "u": u, "s": other})
}

fn clock() -> (std::time::Duration, std::time::Instant) {
    (std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap(), std::time::Instant::now())
}

fn time(t: std::time::Duration) -> Value {
    json!({"s": bytes(t.as_secs() as u128, 6), "n": t.subsec_nanos()})
}

/// times between which the clock stood; with a margin if the clock was adjusted meanwhile
fn period(from: (std::time::Duration, std::time::Instant), to: (std::time::Duration, std::time::Instant)) -> (std::time::Duration, std::time::Duration) {
    let elapsed = to.0.as_secs_f64() - from.0.as_secs_f64();
    let slack = if (elapsed - (to.1 - from.1).as_secs_f64()).abs() < 0.05 { 0 } else { 3600 };
    let slack = std::time::Duration::from_secs(slack);
    (from.0.min(to.0) - slack, from.0.max(to.0) + slack)
}

/// a case: volumes to be created by one manager over one pool; then the images as seen through the pool
pub fn image(case: &Value) -> Value {
    verif::set_store(zeros, never);
    let dir = PathBuf::from(std::env::var("VH_SCRATCH").expect("scratch"));
    let log = case["volumes"][0]["log"].as_u64().unwrap();
    let pool = verif::Pool::new(1 << log, case["n"].as_u64().unwrap() as usize).unwrap();
    let mut volumes = verif::Volumes::new(&pool);
    let mut files = vec![];
    let mut created = vec![];
    let from = clock();
    for (i, v) in case["volumes"].as_array().unwrap().iter().enumerate() {
        let path = dir.join(format!("volume-{}-{}", std::process::id(), i));
        let exists = v["exists"].as_bool().unwrap();
        if exists {
            match v["what"].as_str().unwrap_or("file") {
                "folder" => std::fs::create_dir(&path).unwrap(),
                "empty" => std::fs::write(&path, b"").unwrap(),
                "link" => std::os::unix::fs::symlink(dir.join("nothing"), &path).unwrap(),
                _ => std::fs::write(&path, b"precious").unwrap(),
            }
        }
        let parameters = VolumeParameters {
            volume_size: v["blocks"].as_u64().unwrap() << log,
            log_block_size: log as u16,
            log_file_header_size: v["fh"].as_u64().unwrap() as u16,
        };
        let result = match catch_unwind(AssertUnwindSafe(|| block_on(volumes.create(&path, &parameters)))) {
            Ok(Ok(index)) => ("ok", index as usize),
            Ok(Err(_)) => ("error", 0),
            Err(_) => ("panic", 0),
        };
        let length = std::fs::metadata(&path).map_or(0, |m| m.len());
        let kept = !exists || match v["what"].as_str().unwrap_or("file") {
            "folder" => path.is_dir(),
            "empty" => std::fs::read(&path).map_or(false, |b| b.is_empty()),
            "link" => std::fs::symlink_metadata(&path).map_or(false, |m| m.file_type().is_symlink()) && !dir.join("nothing").exists(),
            _ => std::fs::read(&path).map_or(false, |b| b == b"precious"),
        };
        files.push(path);
        created.push((result, length, kept));
    }
    let (begin, end) = period(from, clock());
    let mut obs = vec![];
    for (i, v) in case["volumes"].as_array().unwrap().iter().enumerate() {
        let ((res, index), length, kept) = created[i];
        let mut blocks = vec![];
        if res == "ok" {
            for b in 0..v["read"].as_u64().unwrap() {
                let data = catch_unwind(AssertUnwindSafe(|| {
                    block_on(async {
                        let handle = pool.read_only(index as u8, b << log).await;
                        let data = handle.bytes().to_vec();
                        handle.release().await;
                        data
                    })
                }));
                blocks.push(block(&data.unwrap_or(vec![])));
            }
        }
        obs.push(json!({"res": res, "index": index, "length": bytes(length as u128, 8), "kept": kept, "begin": time(begin), "end": time(end), "image": blocks}));
    }
    for path in files {
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_dir(&path);
    }
    json!({"obs": obs})
}
