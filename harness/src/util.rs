//! Random numbers, reports and panics.
use std::cell::RefCell;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % (n as u64)) as usize }
    pub fn pick<'a, T: ?Sized>(&mut self, s: &[&'a T]) -> &'a T { s[self.below(s.len())] }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
}

/// A concrete failing input.
#[derive(Debug, Clone)]
pub struct Bad { pub input: String, pub expected: String, pub got: String }
pub type Check = Result<(), Bad>;
pub fn bad(input: impl ToString, expected: impl ToString, got: impl ToString) -> Check {
    Err(Bad { input: input.to_string(), expected: expected.to_string(), got: got.to_string() })
}

thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| { MSG.with(|m| *m.borrow_mut() = i.to_string()); }));
}
/// Run the code under test; a panic comes back as its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| MSG.with(|m| m.borrow().clone()))
}

pub struct Ctx { pub seed: u64, pub thorough: bool, pub cases: u64, pub notes: Vec<String>, pub start: std::time::Instant, pub budget: f64 }
impl Ctx {
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    /// Time left of this many seconds?
    pub fn time(&self, frac: f64) -> bool { self.start.elapsed().as_secs_f64() < self.budget * frac }
    pub fn rng(&self, salt: u64) -> Rng { Rng::new(self.seed.wrapping_mul(1000003).wrapping_add(salt)) }
}

extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn close(fd: i32) -> i32; fn lseek(fd: i32, off: i64, whence: i32) -> i64; }
/// Standard output and error of the process go to an unlinked scratch file while this lives.
pub struct Capture { saved: [i32; 2], fd: i32, _file: std::fs::File }
impl Capture {
    pub fn new() -> Option<Capture> {
        use std::os::fd::AsRawFd;
        let p = std::env::temp_dir().join(format!("verif-capture-{}", std::process::id()));
        let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(true).open(&p).ok()?;
        let _ = std::fs::remove_file(&p);
        let fd = f.as_raw_fd();
        let _ = std::io::Write::flush(&mut std::io::stdout());
        unsafe { let saved = [dup(1), dup(2)]; dup2(fd, 1); dup2(fd, 2); Some(Capture { saved, fd, _file: f }) }
    }
    /// How many bytes were written.
    pub fn written(&self) -> i64 { let _ = std::io::Write::flush(&mut std::io::stdout()); unsafe { lseek(self.fd, 0, 1) } }
}
impl Drop for Capture {
    fn drop(&mut self) { let _ = std::io::Write::flush(&mut std::io::stdout()); unsafe { dup2(self.saved[0], 1); dup2(self.saved[1], 2); close(self.saved[0]); close(self.saved[1]); } }
}
