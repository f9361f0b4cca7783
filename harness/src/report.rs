use rand_core::SeedableRng;
use rand_xorshift::XorShiftRng;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub static CURRENT: Mutex<String> = Mutex::new(String::new());

pub struct Rep {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<String>,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<(String, String)>,
    pub rule: String,
    pub list: bool,
    pub solutions: u64,
}
fn h(s: &str) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        x ^= b as u64;
        x = x.wrapping_mul(0x100000001b3);
    }
    x
}
impl Rep {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Self {
        Rep {
            prop: prop.into(), seed, thorough, only: None, evaluations: 0, distinct: HashSet::new(), samples: vec![],
            failures: vec![], rule: String::new(), list: false, solutions: 0,
        }
    }
    /// n in the quick tier, m in the thorough tier
    pub fn n(&self, n: usize, m: usize) -> usize {
        if self.thorough { m } else { n }
    }
    pub fn rng(&self, case: &str) -> XorShiftRng {
        let mut s = [0u8; 16];
        s[..8].copy_from_slice(&(self.seed ^ 0x9e3779b97f4a7c15).to_le_bytes());
        s[8..].copy_from_slice(&h(case).to_le_bytes());
        XorShiftRng::from_seed(s)
    }
    /// Runs one case; its random choices depend on the seed and the case name only.
    pub fn case(&mut self, name: &str, f: impl FnOnce(&mut XorShiftRng) -> Result<u64, String>) {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        if self.failures.len() >= 3 {
            return;
        }
        *CURRENT.lock().unwrap() = name.to_string();
        let mut rng = self.rng(name);
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng)));
        self.evaluations += 1;
        match r {
            Ok(Ok(n)) => {
                self.solutions += n;
                if n > 0 {
                    self.distinct.insert(h(name));
                }
                if self.samples.len() < 6 && (self.evaluations % 37 == 1) {
                    self.samples.push(name.to_string());
                }
            }
            Ok(Err(e)) => self.failures.push((name.to_string(), e)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
                self.failures.push((name.to_string(), format!("panic: {}", m)));
            }
        }
    }
}
pub fn ensure(b: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if b { Ok(()) } else { Err(m()) }
}
/// runs f and reports whether it panicked
pub fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}
