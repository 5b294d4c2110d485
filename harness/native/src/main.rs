//! Native replay: runs a harness entry against the real library, compiled normally, with the
//! concrete inputs the solver produced.   usage: native ENTRY [p0=..] INPUTS(comma separated)
extern crate alloc;
mod sym;
#[macro_use]
#[path = "../../src/model.rs"]
#[allow(dead_code)]
mod model;
#[macro_use]
#[path = "../../src/giant.rs"]
#[allow(dead_code)]
mod giant;
#[path = "../../src/props/mod.rs"]
mod props;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut inputs = Vec::new();
    for s in &a[2..] {
        if let Some((k, v)) = s.split_once('=') {
            let i: usize = k[1..].parse().unwrap();
            unsafe { sym::PARAMS[i] = v.parse().unwrap() };
        } else if !s.is_empty() && s != "-" {
            for x in s.split(',') { inputs.push(x.parse::<u64>().unwrap()); }
        }
    }
    let f = match props::find(&a[1]) { Some(f) => f, None => { println!("{{\"outcome\":\"no-such-entry\"}}"); std::process::exit(2); } };
    std::panic::set_hook(Box::new(|i| { let l = i.location().unwrap(); unsafe { sym::PANIC_LINE = l.line(); sym::PANIC_FILE = Some(l.file().to_string()); } }));
    sym::start(inputs);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let live = sym::live_now();
    match r {
        Ok(()) => { if sym::leak_wanted() && live != 0 { sym::finish("leak", live as u32) } else { sym::finish("ok", 0) } }
        Err(_) => { if sym::panic_expected() { sym::finish("expected-panic", 0) } else { sym::finish("panic", unsafe { sym::PANIC_LINE }) } }
    }
}
