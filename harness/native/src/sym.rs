//! Native back end of the harness API: inputs are read from the command line.
#![allow(static_mut_refs, dead_code)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static mut INPUTS: Vec<u64> = Vec::new();
static mut POS: usize = 0;
pub static mut PARAMS: [u64; 16] = [0; 16];
static mut OBS: Vec<u64> = Vec::new();
static mut EXPECT: bool = false;
static mut LEAK: bool = false;
pub static mut PANIC_LINE: u32 = 0;
pub static mut PANIC_FILE: Option<String> = None;
static mut BASE: isize = 0;
static mut SBASE: usize = 0;
static mut SLOW: usize = 0;
static LIVE: AtomicIsize = AtomicIsize::new(0);

pub fn start(i: Vec<u64>) { unsafe { INPUTS = i; OBS = Vec::with_capacity(1 << 20); BASE = LIVE.load(Ordering::SeqCst); } }
pub fn live_now() -> isize { unsafe { LIVE.load(Ordering::SeqCst) - BASE } }
pub fn leak_wanted() -> bool { unsafe { LEAK } }
pub fn panic_expected() -> bool { unsafe { EXPECT } }
pub fn finish(o: &str, line: u32) -> ! {
    unsafe {
        let s = OBS.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        println!("{{\"outcome\":\"{}\",\"line\":{},\"file\":\"{}\",\"obs\":[{}],\"unused\":{}}}", o, line, PANIC_FILE.clone().unwrap_or_default(), s, INPUTS.len() as isize - POS as isize);
        std::process::exit(if o == "ok" || o == "expected-panic" { 0 } else { 1 })
    }
}
fn take() -> u64 { unsafe { if POS >= INPUTS.len() { finish("out-of-inputs", 0) } POS += 1; INPUTS[POS - 1] } }
pub fn v32() -> u32 { take() as u32 }
pub fn v64() -> u64 { take() }
pub fn choice(n: usize) -> usize { let v = take() as usize; if v >= n { finish("bad-choice", 0) } v }
pub fn param(i: u32) -> usize { unsafe { PARAMS[i as usize] as usize } }
pub fn assume(b: bool) { if !b { finish("assume-failed", 0) } }
pub fn check(b: bool, line: u32) { if !b { finish("assert", line) } }
pub fn check_eq(a: u64, b: u64, line: u32) { if a != b { finish("assert", line) } }
pub fn obs(v: u64) { unsafe { if OBS.len() < OBS.capacity() { OBS.push(v) } } }
pub fn cover(_: u32) {}
pub fn expect_panic(b: bool) { unsafe { EXPECT = b } }
pub fn leak_check(b: bool) { unsafe { LEAK = b } }
pub fn heap_live() -> u64 { live_now() as u64 }
pub fn conc(v: u64) -> u64 { v }
#[inline(never)]
fn here() -> usize { let x = 0u8; core::hint::black_box(&x) as *const u8 as usize }
pub fn shard() {}
pub fn stack_reset() { unsafe { SBASE = here(); SLOW = SBASE } }
/// Called from callbacks under test: records how deep the native stack is.
pub fn stack_mark() { unsafe { SLOW = SLOW.min(here()) } }
/// Deepest mark since the reset, in units of 64 bytes.
pub fn stack_max() -> u64 { unsafe { ((SBASE - SLOW) / 64) as u64 } }

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::SeqCst); unsafe { System.dealloc(p, l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::SeqCst); unsafe { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { unsafe { System.realloc(p, l, n) } }
}
#[global_allocator]
static G: A = A;

struct Thrown;
/// Panics in code of the caller's; `catch` returns true where it arrives.
pub fn throw() -> ! { std::panic::resume_unwind(Box::new(Thrown)) }
pub fn catch<F: FnOnce()>(f: F) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) => { if !e.is::<Thrown>() { std::panic::resume_unwind(e) } true }
    }
}
