//! Symbolic back end: every `sym_*` symbol is interpreted by the engine.
extern "C" {
    fn sym_var(bits: u32) -> u64;
    fn sym_choice(n: u32) -> u32;
    fn sym_param(i: u32) -> u64;
    fn sym_assume(b: bool);
    fn sym_assert(b: bool, line: u32);
    fn sym_assert_eq(a: u64, b: u64, line: u32);
    fn sym_observe(v: u64);
    fn sym_cover(id: u32);
    fn sym_expect_panic(b: bool);
    fn sym_leak_check(b: bool);
    fn sym_heap_live() -> u64;
    fn sym_conc(v: u64) -> u64;
    fn sym_shard();
    fn sym_stack_reset();
    fn sym_stack_max() -> u64;
    fn sym_panic(f: *const u8, len: usize, line: u32) -> !;
    fn sym_alloc(s: usize, a: usize) -> *mut u8;
    fn sym_alloc_zeroed(s: usize, a: usize) -> *mut u8;
    fn sym_free(p: *mut u8, s: usize, a: usize);
    fn sym_realloc(p: *mut u8, s: usize, a: usize, n: usize) -> *mut u8;
}
#[inline(always)]
pub fn v32() -> u32 { unsafe { sym_var(32) as u32 } }
#[inline(always)]
pub fn v64() -> u64 { unsafe { sym_var(64) } }
#[inline(always)]
pub fn choice(n: usize) -> usize { unsafe { sym_choice(n as u32) as usize } }
#[inline(always)]
pub fn param(i: u32) -> usize { unsafe { sym_param(i) as usize } }
#[inline(always)]
pub fn assume(b: bool) { unsafe { sym_assume(b) } }
#[inline(always)]
pub fn check(b: bool, line: u32) { unsafe { sym_assert(b, line) } }
#[inline(always)]
pub fn check_eq(a: u64, b: u64, line: u32) { unsafe { sym_assert_eq(a, b, line) } }
#[inline(always)]
pub fn obs(v: u64) { unsafe { sym_observe(v) } }
#[inline(always)]
pub fn cover(id: u32) { unsafe { sym_cover(id) } }
#[inline(always)]
pub fn expect_panic(b: bool) { unsafe { sym_expect_panic(b) } }
#[inline(always)]
pub fn leak_check(b: bool) { unsafe { sym_leak_check(b) } }
#[inline(always)]
pub fn heap_live() -> u64 { unsafe { sym_heap_live() } }
#[inline(always)]
pub fn conc(v: u64) -> u64 { unsafe { sym_conc(v) } }
#[inline(always)]
/// The choices so far decide which of the parallel runs continues this path.
pub fn shard() { unsafe { sym_shard() } }
pub fn stack_reset() { unsafe { sym_stack_reset() } }
#[inline(always)]
pub fn stack_max() -> u64 { unsafe { sym_stack_max() } }

struct A;
unsafe impl core::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 { unsafe { sym_alloc(l.size(), l.align()) } }
    unsafe fn alloc_zeroed(&self, l: core::alloc::Layout) -> *mut u8 { unsafe { sym_alloc_zeroed(l.size(), l.align()) } }
    unsafe fn dealloc(&self, p: *mut u8, l: core::alloc::Layout) { unsafe { sym_free(p, l.size(), l.align()) } }
    unsafe fn realloc(&self, p: *mut u8, l: core::alloc::Layout, n: usize) -> *mut u8 { unsafe { sym_realloc(p, l.size(), l.align(), n) } }
}
#[global_allocator]
static G: A = A;
#[cfg(not(any(feature = "c22", feature = "c27")))]
#[panic_handler]
fn ph(i: &core::panic::PanicInfo) -> ! {
    let l = i.location().unwrap();
    unsafe { sym_panic(l.file().as_ptr(), l.file().len(), l.line()) }
}
#[inline(always)]
pub fn stack_mark() {}

#[cfg(feature = "c27")]
extern "C-unwind" {
    fn sym_throw() -> !;
    fn sym_catch(f: unsafe extern "C-unwind" fn(*mut u8), data: *mut u8) -> u32;
}
/// Panics in code of the caller's; `catch` returns true where it arrives.
#[cfg(feature = "c27")]
#[inline(never)]
pub fn throw() -> ! { unsafe { sym_throw() } }
#[cfg(feature = "c27")]
#[inline(never)]
pub fn catch<F: FnOnce()>(f: F) -> bool {
    unsafe extern "C-unwind" fn go<F: FnOnce()>(p: *mut u8) { unsafe { (*(p as *mut Option<F>)).take().unwrap()() } }
    let mut f = Some(f);
    unsafe { sym_catch(go::<F>, &mut f as *mut Option<F> as *mut u8) != 0 }
}
