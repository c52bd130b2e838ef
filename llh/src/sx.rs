//! What a harness may ask of the engine.  llsym intercepts the `sx_*` functions; run natively they take their values from a list.
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, Ordering};

#[derive(Default)]
pub struct Native { pub vals: Vec<u64>, pub next: usize, pub trace: Vec<u64>, pub special: Option<String> }
thread_local! { pub static N: RefCell<Native> = RefCell::new(Native::default()); }

/// a fresh value of 1 to 64 bits
#[no_mangle] #[inline(never)]
pub fn sx_any(bits: u32) -> u64 {
    N.with(|n| { let mut n = n.borrow_mut(); let i = n.next; n.next += 1; let v = n.vals.get(i).copied().unwrap_or(0); if bits >= 64 { v } else { v & ((1u64 << bits) - 1) } })
}
/// only runs in which this holds count
#[no_mangle] #[inline(never)]
pub fn sx_assume(b: bool) { if !b { stop("assumption does not hold") } }
/// the property
#[no_mangle] #[inline(never)]
pub fn sx_check(b: bool, p: *const u8, n: usize) {
    if !b { let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }; stop(&format!("violated: {}", s)) }
}
/// an observation that the encoding and the code must agree on
#[no_mangle] #[inline(never)]
pub fn sx_note(v: u64) { N.with(|n| n.borrow_mut().trace.push(std::hint::black_box(v))) }
/// explore every possible value separately
#[no_mangle] #[inline(never)]
pub fn sx_pin(v: u64) -> u64 { std::hint::black_box(v) }
/// run f(p); true if it panicked
#[no_mangle] #[inline(never)]
pub fn sx_catch(f: fn(*mut u8), p: *mut u8) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p))) {
        Ok(()) => false,
        Err(e) => { if N.with(|n| n.borrow().special.is_some()) { std::panic::resume_unwind(e) } true }
    }
}
fn stop(s: &str) -> ! { N.with(|n| n.borrow_mut().special = Some(s.to_string())); std::panic::resume_unwind(Box::new(())) }

#[used]
pub static KEEP: (fn(u32) -> u64, fn(bool), fn(bool, *const u8, usize), fn(u64), fn(u64) -> u64, fn(fn(*mut u8), *mut u8) -> bool) = (sx_any, sx_assume, sx_check, sx_note, sx_pin, sx_catch);

pub fn byte() -> u8 { sx_any(8) as u8 }
pub fn word() -> usize { sx_any(64) as usize }
/// a number below n, each explored separately
pub fn choose(n: usize) -> usize { let v = sx_any(8); sx_assume(v < n as u64); sx_pin(v) as usize }
pub fn check(b: bool, s: &'static str) { sx_check(b, s.as_ptr(), s.len()) }
pub fn assume(b: bool) { sx_assume(b) }
pub fn note(v: u64) { sx_note(v) }
pub fn pin(v: usize) -> usize { sx_pin(v as u64) as usize }

fn tramp<F: FnOnce()>(p: *mut u8) { let f = unsafe { &mut *(p as *mut Option<F>) }; (f.take().unwrap())() }
pub fn panics<F: FnOnce()>(f: F) -> bool { let mut o = Some(f); sx_catch(tramp::<F>, &mut o as *mut Option<F> as *mut u8) }

static TWIN: AtomicBool = AtomicBool::new(false);
pub fn set_twin(b: bool) { TWIN.store(b, Ordering::Relaxed) }
/// true when the deliberately wrong specification is wanted
pub fn twin() -> bool { TWIN.load(Ordering::Relaxed) }
