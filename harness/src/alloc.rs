//! Counting allocator and counting buffer: resource use of a decode, made observable
//! without clocks.
use bytes::Buf;
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static CASE: Cell<Option<(&'static str, &'static str, *const u8, usize)>> = const { Cell::new(None) };
}

fn count(n: usize) {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let t = TOTAL.get().saturating_add(n);
            TOTAL.set(t);
            if t > LIMIT.get() {
                a.set(false);
                over(t);
            }
        }
    });
}

fn live(n: isize) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

/// What this thread has asked for and not given back (it may give back what others asked for).
pub fn held() -> isize {
    LIVE.get()
}

/// The decoder asked for memory out of all proportion: report before the process dies of it.
#[cold]
fn over(t: usize) {
    if let Some((kind, subject, p, n)) = CASE.get() {
        let b = unsafe { std::slice::from_raw_parts(p, n) };
        let v = crate::run::Violation {
            kind: kind.into(),
            subject: subject.into(),
            msg: format!("decoding {n} bytes allocates {t} bytes or more"),
            case: serde_json::json!(b),
        };
        crate::props::bail(&v);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        live(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        live(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        live(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Runs `f` and returns how many bytes it allocated in total.
pub fn measure<T>(kind: &'static str, subject: &'static str, input: &[u8], limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ARMED.set(false);
        }
    }
    CASE.set(Some((kind, subject, input.as_ptr(), input.len())));
    TOTAL.set(0);
    LIMIT.set(limit);
    ARMED.set(true);
    let off = Off;
    let r = f();
    drop(off);
    (r, TOTAL.get())
}

/// A buffer that counts the operations on it and stops runaway readers.
pub struct CountingBuf<'a> {
    pub b: &'a [u8],
    pub ops: Cell<usize>,
    pub max: usize,
}
impl<'a> CountingBuf<'a> {
    pub fn new(b: &'a [u8], max: usize) -> Self {
        Self { b, ops: Cell::new(0), max }
    }
    fn op(&self) {
        self.ops.set(self.ops.get() + 1);
        assert!(self.ops.get() <= self.max, "more than {} buffer operations", self.max);
    }
}
impl Buf for CountingBuf<'_> {
    fn remaining(&self) -> usize {
        self.op();
        self.b.len()
    }
    fn chunk(&self) -> &[u8] {
        self.op();
        self.b
    }
    fn advance(&mut self, n: usize) {
        self.op();
        self.b = &self.b[n..];
    }
}

/// A buffer made of several separate chunks.
pub struct Chunks {
    pub c: std::collections::VecDeque<Vec<u8>>,
    pub off: usize,
    /// zeros behind everything
    pub far: usize,
    /// called whenever the buffer is advanced, as by a buffer that fills itself by decoding
    /// something
    pub busy: Option<Box<dyn FnMut()>>,
}

const ZEROS: &[u8] = &[0; 1 << 16];

impl Chunks {
    pub fn new(b: &[u8], cuts: &[usize]) -> Self {
        let mut cuts: Vec<usize> = cuts.iter().map(|c| c % (b.len() + 1)).collect();
        cuts.push(b.len());
        cuts.sort_unstable();
        let mut c = std::collections::VecDeque::new();
        let mut at = 0;
        for x in cuts {
            if x > at {
                c.push_back(b[at..x].to_vec());
                at = x;
            }
        }
        Self { c, off: 0, far: 0, busy: None }
    }
}
impl Buf for Chunks {
    fn remaining(&self) -> usize {
        self.c.iter().map(Vec::len).sum::<usize>() - self.off + self.far
    }
    fn chunk(&self) -> &[u8] {
        self.c.front().map_or(&ZEROS[..self.far.min(ZEROS.len())], |x| &x[self.off..])
    }
    fn advance(&mut self, mut n: usize) {
        if let Some(f) = &mut self.busy {
            f();
        }
        while n > 0 {
            let Some(l) = self.c.front().map(|x| x.len() - self.off) else {
                self.far = self.far.checked_sub(n).expect("advance past the end");
                return;
            };
            if n < l {
                self.off += n;
                return;
            }
            n -= l;
            self.off = 0;
            self.c.pop_front();
        }
    }
}
