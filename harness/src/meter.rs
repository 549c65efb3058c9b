//! Metered in-memory readers and a counting allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{Read, Seek, SeekFrom};

pub struct Counting;
thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static TRAP: Cell<usize> = const { Cell::new(usize::MAX) };
    static SITE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn note(n: usize) {
    let _ = MAX.try_with(|m| m.set(m.get().max(n)));
    let hit = TRAP.try_with(|t| {
        let h = n > t.get();
        if h {
            t.set(usize::MAX);
        }
        h
    });
    if hit == Ok(true) {
        let b = std::backtrace::Backtrace::force_capture().to_string();
        let site = b.lines().map(str::trim).find(|l| l.starts_with("at /repo/")).unwrap_or("?").to_string();
        let _ = SITE.try_with(|s| *s.borrow_mut() = site);
    }
}
/// Runs `f` and returns where in /repo it first allocates more than `n` bytes at once.
pub fn alloc_site(n: usize, f: impl FnOnce()) -> String {
    SITE.with(|s| s.borrow_mut().clear());
    TRAP.with(|t| t.set(n));
    f();
    TRAP.with(|t| t.set(usize::MAX));
    SITE.with(|s| s.borrow().clone())
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: Counting = Counting;
pub fn alloc_reset() {
    MAX.with(|m| m.set(0));
}
pub fn alloc_max() -> usize {
    MAX.with(|m| m.get())
}

/// Panics with "HANG" when an operation budget is exceeded.
pub struct Metered<'a> {
    pub b: &'a [u8],
    pub pos: u64,
    pub ops: u64,
    pub budget: u64,
}
impl<'a> Metered<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Metered { b, pos: 0, ops: 0, budget: 20_000 + 64 * b.len() as u64 }
    }
    fn op(&mut self) {
        self.ops += 1;
        assert!(self.ops <= self.budget, "HANG: operation budget exceeded");
    }
}
impl Read for Metered<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        self.op();
        let p = (self.pos.min(self.b.len() as u64)) as usize;
        let n = o.len().min(self.b.len() - p);
        o[..n].copy_from_slice(&self.b[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Metered<'_> {
    fn seek(&mut self, s: SeekFrom) -> std::io::Result<u64> {
        self.op();
        let n = match s {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => (self.b.len() as u64).checked_add_signed(d),
        };
        match n {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "invalid seek to a negative or overflowing position")),
        }
    }
}
