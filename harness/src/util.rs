use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// None if the code under test panicked
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("no {} in {}", k, v))
}

/// A buffer with guard zones, starting at an address that is a multiple of 16
pub struct Guarded {
    mem: Vec<u128>,
    len: usize,
}

const ZONE: usize = 128;
const MARK: u8 = 0xa7;

impl Guarded {
    pub fn new(len: usize, fill: u8) -> Guarded {
        let mut g = Guarded {
            mem: vec![0u128; (len + 2 * ZONE + 15) / 16],
            len,
        };
        for b in g.all().iter_mut() {
            *b = MARK;
        }
        for b in g.get().iter_mut() {
            *b = fill;
        }
        g
    }
    fn all(&mut self) -> &mut [u8] {
        unsafe {
            std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, self.mem.len() * 16)
        }
    }
    pub fn get(&mut self) -> &mut [u8] {
        let len = self.len;
        &mut self.all()[ZONE..ZONE + len]
    }
    pub fn intact(&mut self) -> bool {
        let len = self.len;
        let all = self.all();
        all[..ZONE].iter().all(|b| *b == MARK) && all[ZONE + len..].iter().all(|b| *b == MARK)
    }
}
