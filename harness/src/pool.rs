//! Clients of the buffer pool, polled one at a time in a given order.
//!
//! A case: n buffers of size bytes, clients with their requests, and the order in which clients take a step; the number
//! -1 - c means that client c withdraws its request if that waits for a buffer, and goes on with its next one. Only
//! clients that have been woken are polled. A client with access waits at a gate until it is its turn again. Once the
//! order is used up, everything that can run runs (then "quiet" is recorded), and one gate after the other is opened.
use cathlamet::storage::verif;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());

static STUCK: AtomicBool = AtomicBool::new(false);

thread_local! {
    static CLIENT: Cell<usize> = Cell::new(0);
    static PAUSE: Cell<bool> = Cell::new(true);
    static DICE: Cell<u64> = Cell::new(0);
    // the clients whose request waits for a buffer: it has been made, and no point behind the mapping has been passed
    static SEEKING: RefCell<Vec<bool>> = RefCell::new(vec![]);
}

fn seeking(c: usize, on: bool) {
    SEEKING.with(|s| {
        let mut s = s.borrow_mut();
        if s.len() <= c {
            s.resize(c + 1, false);
        }
        s[c] = on;
    });
}

const STORED: u32 = 1000000;
const STEP: u64 = 4096;
const VOLUMES: [u8; 3] = [0, 1, 255];

// locations of different volumes have the same offsets, some of them differ in high bits only
fn place(loc: u64) -> (u8, u64) {
    let k = loc / 3;
    (VOLUMES[(loc % 3) as usize], (k / 2) * STEP | (k % 2) << 50)
}

fn location(volume: u8, offset: u64) -> Option<u64> {
    let k = ((offset & ((1 << 50) - 1)) / STEP) * 2 + (offset >> 50);
    let loc = k * 3 + VOLUMES.iter().position(|v| *v == volume)? as u64;
    if place(loc) == (volume, offset) {
        Some(loc)
    } else {
        None
    }
}

fn log(event: Value) {
    LOG.lock().unwrap().push(event);
}

/// the events so far; buffers are numbered by their addresses (off: a buffer begins inside of another)
fn history(size: usize) -> Vec<Value> {
    let mut events = LOG.lock().unwrap().clone();
    let mut places: Vec<u64> = events.iter().filter_map(|e| e["at"].as_u64()).collect();
    places.sort();
    places.dedup();
    for e in events.iter_mut() {
        if let Some(at) = e["at"].as_u64() {
            let buf = places.binary_search(&at).unwrap();
            e["buf"] = json!(buf);
            e["off"] = json!((buf > 0 && at - places[buf - 1] < size as u64) as u32);
            e.as_object_mut().unwrap().remove("at");
        }
    }
    events
}

fn fill(bytes: &mut [u8], word: u32) {
    for chunk in bytes.chunks_mut(4) {
        chunk.copy_from_slice(&word.to_le_bytes()[..chunk.len()]);
    }
}

/// the different words of a buffer, in order of their first position
fn words(bytes: &[u8]) -> Vec<u32> {
    let mut result = vec![];
    for chunk in bytes.chunks(4) {
        let mut word = [0u8; 4];
        word[..chunk.len()].copy_from_slice(chunk);
        let word = u32::from_le_bytes(word) & 0x7fffffff;
        if !result.contains(&word) && result.len() < 4 {
            result.push(word);
        }
    }
    result
}

// the content of location k is the word STORED + k; the first half arrives when the transfer begins
fn store(volume: u8, offset: u64, buffer: &mut [u8], end: bool) {
    let loc = match location(volume, offset) {
        Some(loc) => loc as u32,
        None => {
            log(json!({"ev": "odd", "c": CLIENT.with(|c| c.get())}));
            return;
        }
    };
    let middle = buffer.len() / 2;
    let part = if end { &mut buffer[middle..] } else { &mut buffer[..middle] };
    fill(part, STORED + loc);
    log(json!({"ev": "fetch", "c": CLIENT.with(|c| c.get()), "loc": loc, "end": end}));
}

fn pause() -> bool {
    seeking(CLIENT.with(|c| c.get()), false);
    // a thread is interrupted at some of the points only
    let dice = DICE.with(|d| {
        let x = d.get();
        d.set(x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
        x >> 33
    });
    if dice != 0 && dice % 3 == 0 {
        std::thread::yield_now();
    }
    PAUSE.with(|p| p.get()) && (dice == 0 || dice % 2 == 0)
}

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Step(bool);

impl Future for Step {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            self.0 = false;
            context.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}

// passes once the gate has been opened
struct Gate(Rc<Cell<bool>>);

impl Future for Gate {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0.get() {
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}

async fn client(c: usize, pool: &verif::Pool, size: usize, script: &[Value], gate: Rc<Cell<bool>>, made: Rc<Cell<usize>>) {
    while made.get() < script.len() {
        let op = &script[made.get()];
        made.set(made.get() + 1);
        let kind = op["op"].as_str().unwrap();
        let loc = op["loc"].as_u64().unwrap();
        let (volume, offset) = place(loc);
        log(json!({"ev": "ask", "c": c, "op": kind, "loc": loc}));
        seeking(c, true);
        let mut handle = match kind {
            "read" => pool.read_only(volume, offset).await,
            "write" => pool.read_write(volume, offset).await,
            _ => pool.initialize(volume, offset).await,
        };
        seeking(c, false);
        let address = handle.bytes().as_ptr() as usize;
        if handle.bytes().len() != size {
            log(json!({"ev": "odd", "c": c}));
        }
        log(json!({"ev": "got", "c": c, "at": address, "val": words(handle.bytes())}));
        let val = op["val"].as_u64().unwrap() as u32;
        if kind != "read" && val != 0 {
            let bytes = handle.bytes_mut();
            let middle = bytes.len() / 2;
            fill(&mut bytes[..middle], val);
            Step(pause()).await;
            fill(&mut handle.bytes_mut()[middle..], val);
            log(json!({"ev": "put", "c": c, "val": words(handle.bytes())}));
        }
        gate.set(true);
        Gate(gate.clone()).await;
        log(json!({"ev": "rel", "c": c, "val": words(handle.bytes())}));
        handle.release().await;
        log(json!({"ev": "done", "c": c}));
        Step(pause()).await;
    }
}

struct Task<'a> {
    future: Option<Pin<Box<dyn Future<Output = ()> + 'a>>>,
    flag: Arc<Flag>,
    gate: Rc<Cell<bool>>,
    made: Rc<Cell<usize>>,
}

pub fn run(case: &Value) -> Value {
    if case["threads"].as_bool().unwrap_or(false) {
        return threads(case);
    }
    verif::set_store(store, pause);
    LOG.lock().unwrap().clear();
    SEEKING.with(|s| *s.borrow_mut() = vec![false; case["clients"].as_array().unwrap().len()]);
    PAUSE.with(|p| p.set(case["pause"].as_bool().unwrap_or(true)));
    let size = case["size"].as_u64().unwrap() as usize;
    let n = case["n"].as_u64().unwrap() as usize;
    let clients: Vec<Vec<Value>> = case["clients"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().clone()).collect();
    let pool = match std::panic::catch_unwind(|| verif::Pool::new(size, n)) {
        Ok(Ok(pool)) => pool,
        _ => return json!({"obs": [{"ev": "panic", "c": 0}]}),
    };
    if pool.total_size() != size * n {
        log(json!({"ev": "odd", "c": 0}));
    }
    let mut tasks: Vec<Task> = clients
        .iter()
        .enumerate()
        .map(|(c, script)| {
            let gate = Rc::new(Cell::new(false));
            let made = Rc::new(Cell::new(0));
            Task {
                future: Some(Box::pin(client(c, &pool, size, script, gate.clone(), made.clone()))),
                flag: Arc::new(Flag(AtomicBool::new(true))),
                gate,
                made,
            }
        })
        .collect();
    let mut panicked = false;
    let mut poll = |tasks: &mut Vec<Task>, c: usize, panicked: &mut bool| -> bool {
        let task = &mut tasks[c];
        if task.future.is_none() || !task.flag.0.swap(false, Ordering::SeqCst) {
            return false;
        }
        CLIENT.with(|k| k.set(c));
        let waker = Waker::from(task.flag.clone());
        let mut context = Context::from_waker(&waker);
        let future = task.future.as_mut().unwrap();
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| future.as_mut().poll(&mut context))) {
            Ok(Poll::Ready(())) => task.future = None,
            Ok(Poll::Pending) => (),
            Err(_) => {
                log(json!({"ev": "panic", "c": c}));
                *panicked = true;
            }
        }
        true
    };
    let open = |tasks: &mut Vec<Task>, c: usize| {
        tasks[c].gate.set(false);
        tasks[c].flag.0.store(true, Ordering::SeqCst);
    };
    for step in case["sched"].as_array().unwrap() {
        let step = step.as_i64().unwrap();
        let c = (if step < 0 { -1 - step } else { step }) as usize;
        if step < 0 {
            if c < tasks.len() && !panicked && tasks[c].future.is_some() && SEEKING.with(|s| s.borrow()[c]) {
                let future = tasks[c].future.take();
                seeking(c, false);
                log(json!({"ev": "withdraw", "c": c}));
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(future))).is_err() {
                    log(json!({"ev": "panic", "c": c}));
                    panicked = true;
                }
                let task = &mut tasks[c];
                task.future = Some(Box::pin(client(c, &pool, size, &clients[c], task.gate.clone(), task.made.clone())));
                task.flag = Arc::new(Flag(AtomicBool::new(true)));
            }
        } else if c < tasks.len() && !panicked {
            if tasks[c].gate.get() {
                open(&mut tasks, c);
            }
            poll(&mut tasks, c, &mut panicked);
        }
    }
    let mut turn = case["turn"].as_u64().unwrap_or(0) as usize;
    while !panicked {
        // run whatever can run; a client at its gate has nothing to do. Readers that wait for the same writer may wake
        // each other for as long as it stays (async-lock does that), so rounds without an event are limited
        let mut idle = 0;
        while idle < 60 {
            idle += 1;
            let before = LOG.lock().unwrap().len();
            let mut any = false;
            for c in 0..tasks.len() {
                if !panicked && poll(&mut tasks, c, &mut panicked) {
                    any = true;
                }
            }
            if !any || panicked {
                break;
            }
            if LOG.lock().unwrap().len() > before {
                idle = 0;
            }
        }
        if panicked {
            break;
        }
        log(json!({"ev": "quiet"}));
        let gated: Vec<usize> = (0..tasks.len()).filter(|&c| tasks[c].gate.get()).collect();
        if gated.is_empty() {
            break;
        }
        let c = gated[turn % gated.len()];
        turn = turn / 2 + 1;
        open(&mut tasks, c);
    }
    if panicked {
        // whatever is still held stays held
        std::mem::forget(tasks);
        std::mem::forget(pool);
        return json!({"obs": history(size)});
    }
    // clients that wait forever go away; that must not hurt
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(tasks)));
    json!({"obs": history(size)})
}

struct Unpark(std::thread::Thread);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

fn block_on(mut future: Pin<Box<dyn Future<Output = ()> + '_>>) {
    let waker = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut context = Context::from_waker(&waker);
    while future.as_mut().poll(&mut context).is_pending() {
        std::thread::park();
    }
}

/// The clients of a case as threads. A thread that gets nowhere is left behind.
fn threads(case: &Value) -> Value {
    verif::set_store(store, pause);
    LOG.lock().unwrap().clear();
    let size = case["size"].as_u64().unwrap() as usize;
    let n = case["n"].as_u64().unwrap() as usize;
    let turn = case["turn"].as_u64().unwrap();
    let pool: &'static verif::Pool = match std::panic::catch_unwind(|| verif::Pool::new(size, n)) {
        Ok(Ok(pool)) => Box::leak(Box::new(pool)),
        _ => return json!({"obs": [{"ev": "panic", "c": 0}]}),
    };
    struct Shared(&'static verif::Pool);
    unsafe impl Send for Shared {}
    let start = Arc::new(std::sync::Barrier::new(case["clients"].as_array().unwrap().len()));
    let running: Vec<_> = case["clients"].as_array().unwrap().iter().enumerate().map(|(c, script)| {
        let script = script.as_array().unwrap().clone();
        let shared = Shared(pool);
        let start = start.clone();
        std::thread::spawn(move || {
            let shared = shared;
            CLIENT.with(|k| k.set(c));
            DICE.with(|d| d.set(turn.wrapping_mul(31).wrapping_add(c as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15)));
            start.wait();
            let run = || block_on(Box::pin(threaded(c, shared.0, size, &script)));
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).is_err() {
                log(json!({"ev": "panic", "c": c}));
            }
        })
    }).collect();
    let (mut seen, mut idle) = (0, 0);
    // what got stuck once need not be waited for that long again
    let patience = if STUCK.load(Ordering::SeqCst) { 1000 } else { 12000 };
    while idle < patience && !running.iter().all(|t| t.is_finished()) {
        std::thread::sleep(std::time::Duration::from_millis(1));
        idle += 1;
        let now = LOG.lock().unwrap().len();
        if now != seen {
            seen = now;
            idle = 0;
        }
    }
    STUCK.fetch_or(idle >= patience, Ordering::SeqCst);
    log(json!({"ev": "quiet"}));
    if running.iter().all(|t| t.is_finished()) {
        drop(running);
        unsafe { drop(Box::from_raw(pool as *const verif::Pool as *mut verif::Pool)) };
    }
    json!({"obs": history(size)})
}

async fn threaded(c: usize, pool: &'static verif::Pool, size: usize, script: &[Value]) {
    for op in script {
        let kind = op["op"].as_str().unwrap();
        let loc = op["loc"].as_u64().unwrap();
        let (volume, offset) = place(loc);
        log(json!({"ev": "ask", "c": c, "op": kind, "loc": loc}));
        let mut handle = match kind {
            "read" => pool.read_only(volume, offset).await,
            "write" => pool.read_write(volume, offset).await,
            _ => pool.initialize(volume, offset).await,
        };
        let address = handle.bytes().as_ptr() as usize;
        if handle.bytes().len() != size {
            log(json!({"ev": "odd", "c": c}));
        }
        log(json!({"ev": "got", "c": c, "at": address, "val": words(handle.bytes())}));
        let val = op["val"].as_u64().unwrap() as u32;
        if kind != "read" && val != 0 {
            let middle = size / 2;
            fill(&mut handle.bytes_mut()[..middle], val);
            Step(pause()).await;
            fill(&mut handle.bytes_mut()[middle..], val);
            log(json!({"ev": "put", "c": c, "val": words(handle.bytes())}));
        }
        Step(pause()).await;
        log(json!({"ev": "rel", "c": c, "val": words(handle.bytes())}));
        handle.release().await;
        log(json!({"ev": "done", "c": c}));
    }
}
