//! Observed answers, and the trace they are written to.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::{BufWriter, Stdout, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use nominals::{Error, NominalString};

/// An observed answer: `r` is ok, nozero, oob, oom, panic, badutf8 or other.
#[derive(Clone, PartialEq, Eq)]
pub struct Out {
    pub r: &'static str,
    pub t: Vec<u32>,
    pub p: Option<u128>,
}

impl Out {
    pub fn json(&self) -> String {
        format!("{{\"r\":\"{}\",\"t\":{},\"p\":{}}}", self.r, ints(&self.t), limbs(self.p.unwrap_or(0)))
    }
}

/// The code points of a text, or its bytes with 2^21 added if it is no text.
pub fn text(s: &str) -> (bool, Vec<u32>) {
    let bytes = s.as_bytes().to_vec();
    match String::from_utf8(bytes) {
        Ok(s) => (true, s.chars().map(|c| c as u32).collect()),
        Err(e) => (false, e.into_bytes().iter().map(|b| 2_097_152 + u32::from(*b)).collect()),
    }
}

pub fn ok(s: &str) -> Out {
    let (valid, t) = text(s);
    Out { r: if valid { "ok" } else { "badutf8" }, t, p: None }
}

pub fn plain(r: &'static str) -> Out {
    Out { r, t: Vec::new(), p: None }
}

pub fn fallible<T: Into128>(f: impl FnOnce() -> Result<NominalString, Error<T>>) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(s)) => ok(&s),
        Ok(Err(Error::NoZeroSymbol)) => plain("nozero"),
        Ok(Err(Error::OutOfBounds(n))) => Out { r: "oob", t: Vec::new(), p: Some(n.into128()) },
        Ok(Err(Error::OutOfMemory(n))) => Out { r: "oom", t: Vec::new(), p: Some(n.into128()) },
        Ok(Err(_)) => plain("other"),
        Err(_) => plain("panic"),
    }
}

pub fn infallible(f: impl FnOnce() -> NominalString) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => ok(&s),
        Err(_) => plain("panic"),
    }
}

pub trait Into128: Copy {
    fn into128(self) -> u128;
}
macro_rules! into128 {
    ($($t:ty)*) => { $(impl Into128 for $t { fn into128(self) -> u128 { self as u128 } })* };
}
into128!(u8 u16 u32 u64 u128 usize);

pub fn ints(v: &[u32]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        decimal(&mut s, *x);
    }
    s.push(']');
    s
}

/// Writes a number without the formatting machinery, which an interpreter of
/// this program would be slow at.
fn decimal(s: &mut String, mut x: u32) {
    let mut b = [b'0'; 10];
    let mut i = 10;
    loop {
        i -= 1;
        b[i] = b'0' + (x % 10) as u8;
        x /= 10;
        if x == 0 {
            break;
        }
    }
    s.push_str(std::str::from_utf8(&b[i..]).unwrap());
}

/// The base-10000 limbs of `n`, most significant first.
pub fn limbs(mut n: u128) -> String {
    let mut v = Vec::new();
    while n > 0 {
        v.push((n % 10_000) as u32);
        n /= 10_000;
    }
    v.reverse();
    ints(&v)
}

pub fn outs(v: &[Out]) -> String {
    let mut s = String::from("[");
    for (i, o) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&o.json());
    }
    s.push(']');
    s
}

static OUT: Mutex<Option<BufWriter<Stdout>>> = Mutex::new(None);
static CURRENT: Mutex<String> = Mutex::new(String::new());
static TICK: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
/// The number of requests read so far.
pub static REQUESTS: AtomicUsize = AtomicUsize::new(0);

/// Writes an event, a JSON object, with the number of its request in field i.
pub fn emit(line: &str) {
    let mut out = OUT.lock().unwrap();
    let w = out.as_mut().unwrap();
    let i = REQUESTS.load(Ordering::Relaxed);
    w.write_all(format!("{{\"i\":{i},{}\n", &line[1..]).as_bytes()).unwrap();
}

pub fn start() {
    *OUT.lock().unwrap() = Some(BufWriter::with_capacity(1 << 16, std::io::stdout()));
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let mut seen = 0;
        let mut since = 0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = TICK.load(Ordering::Relaxed);
            since = if now == seen { since + 1 } else { 0 };
            seen = now;
            // Forty seconds on one request that takes microseconds.
            if since >= 160 {
                give_up("hang");
            }
        }
    });
}

/// Remember the request being served, for a trace that ends in it.
pub fn begin(command: &str) {
    let mut c = CURRENT.lock().unwrap();
    c.clear();
    c.push_str(command);
    drop(c);
    TICK.fetch_add(1, Ordering::Relaxed);
}

pub fn finish() -> ! {
    if let Ok(mut out) = OUT.lock() {
        if let Some(w) = out.as_mut() {
            let _ = w.flush();
        }
    }
    std::process::exit(0)
}

/// The request never answered: that is the last event of the trace.
fn give_up(what: &str) -> ! {
    let command = CURRENT.lock().map(|c| c.clone()).unwrap_or_default();
    emit(&format!("{{\"e\":\"{what}\",\"cmd\":\"{command}\"}}"));
    finish()
}

const MEMORY_LIMIT: usize = 1 << 30;

thread_local! {
    static GIVING_UP: Cell<bool> = const { Cell::new(false) };
}

/// Ends the run with a "memory" event before a runaway request can exhaust the
/// machine's memory.
pub struct Limited;

impl Limited {
    fn account(size: usize) {
        if LIVE.fetch_add(size, Ordering::Relaxed) + size > MEMORY_LIMIT && !GIVING_UP.with(|g| g.replace(true)) {
            give_up("memory");
        }
    }
}

// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        Self::account(layout.size());
        unsafe { System.alloc(layout) }
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        LIVE.fetch_sub(layout.size(), Ordering::Relaxed);
        unsafe { System.dealloc(p, layout) }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        Self::account(new);
        LIVE.fetch_sub(layout.size(), Ordering::Relaxed);
        unsafe { System.realloc(p, layout, new) }
    }
}
